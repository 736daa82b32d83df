// Package avl provides the implementation for an AVL tree,
// which satisfies the ost package interfaces, as well as
// the order package interfaces.
package avl

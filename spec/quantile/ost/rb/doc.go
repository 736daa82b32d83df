// Package rb provides the implementation for a red black tree,
// which satisfies the ost package interfaces, as well as the
// order package interfaces.
package rb

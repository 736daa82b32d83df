// Package ost provides the interfaces for order statistic trees,
// which are binary trees with the ability to perform log(n) time
// searches for elements in the tree with a specified rank, as well
// as log(n) time retrieval for the rank of a specified element in
// the tree.
package ost

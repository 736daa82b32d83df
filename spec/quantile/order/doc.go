// Package order contains the interfaces for various implementations
// of order statistics-based data structures.
package order

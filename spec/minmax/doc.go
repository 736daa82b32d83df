// Package minmax provides a library of data structures/algorithms
// for calculating the online minimum or maximum from a stream of data.
package minmax

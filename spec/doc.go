// Package stream provides a library of data structures/algorithms
// for calculating online statistics from a stream of data.
package stream

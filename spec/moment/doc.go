// Package moment provides a library of data structures/algorithms
// for calculating online moment-based statistics from a stream of data.
package moment

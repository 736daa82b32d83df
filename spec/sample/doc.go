// Package sample provides a library of data structures/algorithms
// for sampling from a stream of data.
package sample

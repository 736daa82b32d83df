// Package joint provides a library of data structures/algorithms
// for calculating online joint distribution statistics from a stream of data.
package joint

// Package quantile provides a library of data structures/algorithms
// for calculating online quantiles from a stream of data.
package quantile

// Package math is a helper library for mathematical functions.
package math

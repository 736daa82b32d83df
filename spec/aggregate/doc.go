// Package aggregate is a helper library for keeping track of multiple metrics at a time.
package aggregate

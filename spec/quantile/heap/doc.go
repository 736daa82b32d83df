// Package heap provides the implementation for heaps.
package heap

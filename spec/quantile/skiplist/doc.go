// Package skiplist provides the implementation for skiplists.
package skiplist

// Package utils stands in for github.com/emirpasic/gods/utils (not in this
// sandbox's module cache).
package utils

// Comparator orders two values: negative, zero or positive.
type Comparator func(a, b interface{}) int

// Int64Comparator compares two int64 values.
func Int64Comparator(a, b interface{}) int {
	x := a.(int64)
	y := b.(int64)
	switch {
	case x > y:
		return 1
	case x < y:
		return -1
	default:
		return 0
	}
}

// IntComparator compares two int values.
func IntComparator(a, b interface{}) int {
	x := a.(int)
	y := b.(int)
	switch {
	case x > y:
		return 1
	case x < y:
		return -1
	default:
		return 0
	}
}

// UInt64Comparator compares two uint64 values.
func UInt64Comparator(a, b interface{}) int {
	x := a.(uint64)
	y := b.(uint64)
	switch {
	case x > y:
		return 1
	case x < y:
		return -1
	default:
		return 0
	}
}

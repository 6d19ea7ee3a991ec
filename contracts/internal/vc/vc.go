// Package vc is the specification vocabulary of the contracts. The verifier
// gives these functions their logical meaning; the bodies below are their
// executable meaning, used when a contract is replayed on concrete values.
package vc

import (
	"fmt"
	"reflect"
)

// Skip is the panic value of a failed precondition in a replay.
type Skip struct{}

// Failure is the panic value of a failed postcondition in a replay.
type Failure struct{ Name string }

func (f Failure) Error() string { return "contract clause violated: " + f.Name }

// Requires states a precondition.
func Requires(b bool) {
	if !b {
		panic(Skip{})
	}
}

// Ensures states a postcondition.
func Ensures(name string, b bool) {
	if !b {
		panic(Failure{name})
	}
}

// Assert states an intermediate proof step.
func Assert(name string, b bool) {
	if !b {
		panic(Failure{name})
	}
}

// Cover marks a point that must be reachable.
func Cover(name string) {}

// Decreases gives the measure of a recursive lemma.
func Decreases(n int) {}

// Implies is logical implication (both sides are evaluated).
func Implies(a, b bool) bool { return !a || b }

// Forall holds if f holds for every k with lo <= k < hi.
func Forall(lo, hi int, f func(k int) bool) bool {
	for k := lo; k < hi; k++ {
		if !f(k) {
			return false
		}
	}
	return true
}

// Exists holds if f holds for some k with lo <= k < hi.
func Exists(lo, hi int, f func(k int) bool) bool {
	for k := lo; k < hi; k++ {
		if f(k) {
			return true
		}
	}
	return false
}

// ForallStr holds if f holds for every string (tried on a few).
func ForallStr(f func(s string) bool) bool { return f("") }

// Ghost names a value so that loop invariants can refer to it.
func Ghost(name string, v interface{}) {}

// CopySlice is a snapshot of the elements of s.
func CopySlice[T any](s []T) []T { return append([]T{}, s...) }

// Pure holds if the target call changed no memory that existed before it.
func Pure() bool { return true }

// MayPanic allows the target to panic if cond holds before the call.
func MayPanic(cond bool) {}

// Panics states what holds if the target ends in a panic.
func Panics(name string, f func() bool) {}

// Defines gives a meaning to a value-less function: assumed by callers, and
// consistent because of the obligations named by.
func Defines(by string, cond bool) {}

// Mark makes the current state the one OnlyChanged compares with.
func Mark() {}

// Frame declares, before the target call, what its loops may change of the
// memory that exists now.
func Frame(locs ...interface{}) {}

// OnlyChanged holds if all memory that existed before the target call (or the
// mark) is unchanged, apart from the given fields, maps and slices (a nil map or slice stands for all of its type).
func OnlyChanged(locs ...interface{}) bool { return true }

// SameSlice holds if a and b have the same elements.
func SameSlice[T any](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Same holds if a and b are equal in every field (slices and pointers: the
// same memory; floating-point numbers: the same number or both not a number).
func Same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// Text renders a value for messages.
func Text(v interface{}) string { return fmt.Sprintf("%#v", v) }

// Arr names the array behind a slice (none, if the slice is nil) for OnlyChanged.
func Arr[T any](s []T) interface{} { return s }

// Any is an arbitrary value (bodies of external functions only).
func Any[T any](name string) T { var t T; return t }

// Assume says what is known of it.
func Assume(cond bool) {}

// New holds if the pointer or slice is nil or was made since the target call began.
func New(x interface{}) bool { return true }

// Apart holds if the two maps or (named by Arr) arrays are not the same one.
func Apart(a, b interface{}) bool { return true }

// CopyMap is a snapshot of m.
func CopyMap[K comparable, V any](m map[K]V) map[K]V {
	r := map[K]V{}
	for k, x := range m {
		r[k] = x
	}
	return r
}

// Receiver is the receiver of the method value f, Method says which method it is.
func Receiver[T any](f interface{}) T        { var t T; return t }
func Method(f interface{}, name string) bool { return true }

// SameArr: both slices lie in the same array.
func SameArr[T any](a, b []T) bool { return true }

package main

// Every harness is decided by an engine of its own, from the same start: what
// a worker decided before must not show in names or in the order of terms.

var restore func()

func keepM[K comparable, V any](m *map[K]V) func() {
	c := make(map[K]V, len(*m))
	for k, v := range *m {
		c[k] = v
	}
	return func() {
		n := make(map[K]V, len(c))
		for k, v := range c {
			n[k] = v
		}
		*m = n
	}
}

// resetTerms notes the state of the term tables when first called and goes
// back to it from then on.
func resetTerms() {
	if restore != nil {
		restore()
		return
	}
	cnt, tags := termCnt, append([]string{}, tagNames...)
	fs := []func(){keepM(&termTab), keepM(&freshCnt), keepM(&datatypes), keepM(&typeTags), keepM(&boxSort), keepM(&qDepths), keepM(&hasQs),
		keepM(&termBound), keepM(&heapSorts), keepM(&typeByKey), keepM(&ptrBoxedSet), keepM(&rxReps), keepM(&mapReps), keepM(&errTyped), keepM(&strTyped)}
	restore = func() {
		termCnt, tagNames = cnt, append([]string{}, tags...)
		for _, f := range fs {
			f()
		}
	}
}

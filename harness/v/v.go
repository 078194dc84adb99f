// Package v is the interface between harnesses and the two ways of running
// them: the symbolic engine intercepts these functions, and natively they read
// a recorded list of values (a counterexample or a sampled path).
package v

import (
	"fmt"
	"sync"
)

type AssertionFailed struct{ Msg string }
type Exhausted struct{}
type AssumeFailed struct{}

var (
	Inputs []int64
	pos    int
	Failed string // first failed assertion
	Obs    []string
	Tier   bool
	// Procs is the number of goroutines Concurrent starts natively.
	Procs = 4
	mu    sync.Mutex
)

// Reset prepares a native run.
func Reset(in []int64) {
	Inputs, pos, Failed, Obs = in, 0, "", nil
}

// Used reports how many inputs were consumed.
func Used() int { return pos }

func next() int64 {
	if pos >= len(Inputs) {
		panic(Exhausted{})
	}
	pos++
	return Inputs[pos-1]
}

// Byte is an arbitrary byte.
func Byte() byte { return byte(next()) }

// ByteOf is an arbitrary byte of the alphabet ("" = any).
func ByteOf(alphabet string) byte { return byte(next()) }

// Int is an arbitrary integer in [lo,hi].
func Int(lo, hi int) int { return int(next()) }

// Choice is a structural choice among n alternatives.
func Choice(n int) int { return int(next()) }

// Bool is a structural choice.
func Bool() bool { return Choice(2) == 1 }

// Str is an arbitrary string of min..max bytes over the alphabet ("" = any bytes).
func Str(min, max int, alphabet string) string {
	n := int(next())
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return string(b)
}

// Assume discards runs where c does not hold.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

// Fail reports a violation.
func Fail(msg string) {
	mu.Lock()
	if Failed == "" {
		Failed = msg
	}
	mu.Unlock()
	panic(AssertionFailed{msg})
}

// Cover marks that a run got here.
func Cover(label string) {}

// Bound records a bound of this exploration for the evidence.
func Bound(s string) {}

// Observe records a value that native runs must reproduce.
func Observe(key, val string) {
	mu.Lock()
	Obs = append(Obs, key+"="+val)
	mu.Unlock()
}

// Thorough reports the tier.
func Thorough() bool { return Tier }

// Symbolic reports whether the symbolic engine is running.
func Symbolic() bool { return false }

// MapOrder makes the iteration order of maps arbitrary from here on (the engine
// explores both directions; natively the runtime randomises it anyway).
func MapOrder() {}

// Pick returns one of the two depending on the tier.
func Pick(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Catch runs f and returns what it panicked with, if anything.
func Catch(f func()) (panicked bool, val any) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case AssertionFailed, Exhausted, AssumeFailed:
				panic(r)
			}
			panicked, val = true, r
		}
	}()
	f()
	return false, nil
}

// Concurrent runs f: the engine checks that it writes to nothing reachable from
// the roots or from the package variables of the code under test (unless under
// a lock); natively several goroutines run f at once (under the race detector).
func Concurrent(roots []any, f func()) {
	var wg sync.WaitGroup
	var pmu sync.Mutex
	var pan any
	for i := 0; i < Procs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					pmu.Lock()
					if pan == nil {
						pan = r
					}
					pmu.Unlock()
				}
			}()
			f()
		}()
	}
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
}

// Itoa avoids strconv in harness code (kept concrete and simple).
func Itoa(i int) string {
	if i < 0 {
		return "-" + Itoa(-i)
	}
	if i < 10 {
		return string([]byte{byte('0' + i)})
	}
	return Itoa(i/10) + string([]byte{byte('0' + i%10)})
}

var _ = fmt.Sprint

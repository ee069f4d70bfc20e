// Package sym is what a harness is written against. The engine replaces every
// function below; this implementation runs a harness on concrete inputs, so
// that a counterexample (or a path's witness) can be replayed against the
// code as the Go compiler builds it.
package sym

import (
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"testing/synctest"
	"unsafe"
)

// In is one recorded input.
type In struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

var (
	mu       sync.Mutex
	vals     map[string]string
	counts   map[string]int
	covers   map[string]bool
	Diverged bool // an input was asked for that the path did not have
	Tier     string
	OnFail   func(msg string) // reports a failed assertion and ends the process
)

// AssumeFailed is what a failed assumption panics with.
type AssumeFailed struct{}

// Reset prepares a run on the given inputs.
func Reset(in []In) {
	mu.Lock()
	defer mu.Unlock()
	vals, counts, covers = map[string]string{}, map[string]int{}, map[string]bool{}
	Diverged = false
	for _, i := range in {
		vals[i.Name] = i.Val
	}
}

// Covered returns the labels seen.
func Covered() []string {
	mu.Lock()
	defer mu.Unlock()
	var r []string
	for k := range covers {
		r = append(r, k)
	}
	return r
}

func next(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	k := counts[name]
	counts[name] = k + 1
	v, ok := vals[fmt.Sprintf("%s#%d", name, k)]
	if !ok {
		Diverged = true
	}
	return v, ok
}

func num(name string) uint64 {
	v, ok := next(name)
	if !ok {
		return 0
	}
	if n, err := strconv.ParseInt(v, 10, 64); err == nil {
		return uint64(n)
	}
	n, err := strconv.ParseUint(v, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

// Int64 is any int64.
func Int64(name string) int64 { return int64(num(name)) }

// Uint64 is any uint64.
func Uint64(name string) uint64 { return num(name) }

// Byte is any byte.
func Byte(name string) byte { return byte(num(name)) }

// Int64Range is any int64 in [lo, hi].
func Int64Range(name string, lo, hi int64) int64 {
	v := int64(num(name))
	if v < lo || v > hi {
		mu.Lock()
		Diverged = true
		mu.Unlock()
		return lo
	}
	return v
}

// Int is an int in [lo, hi]; every value is explored on a path of its own.
func Int(name string, lo, hi int) int { return lo + Choice(name, hi-lo+1) }

// Choice is a number in [0, n); every value is explored on a path of its own.
func Choice(name string, n int) int {
	v := int(num(name))
	if v >= n {
		mu.Lock()
		Diverged = true
		mu.Unlock()
		return 0
	}
	return v
}

// Flag is a bool; both values are explored on paths of their own.
func Flag(name string) bool { return Choice(name, 2) == 1 }

// Bool is a symbolic bool.
func Bool(name string) bool { return num(name) != 0 }

// Float64 is any float64, NaN and infinities included.
func Float64(name string) float64 { return math.Float64frombits(num(name)) }

// Str is any string of n bytes.
func Str(name string, n int) string {
	v, ok := next(name)
	if !ok {
		return string(make([]byte, n))
	}
	b, err := hex.DecodeString(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// StrOf is any string of n bytes from the alphabet.
func StrOf(name string, n int, alphabet string) string {
	s := Str(name, n)
	return s
}

// Assume restricts the exploration to inputs that satisfy c.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

// Fail is a failed assertion.
func Fail(msg string) {
	if OnFail != nil {
		OnFail(msg)
	}
	fmt.Fprintln(os.Stderr, "assertion failed:", msg)
	os.Exit(3)
}

// Cover marks a situation that some explored path must reach.
func Cover(label string) {
	mu.Lock()
	defer mu.Unlock()
	if covers != nil {
		covers[label] = true
	}
}

// Expect lists labels that some explored path must cover.
func Expect(labels ...string) {}

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func IteInt64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// SameFloat is equality of values, NaN being equal to NaN and 0 different
// from -0.
func SameFloat(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return math.Float64bits(a) == math.Float64bits(b)
}

func EqStr(a, b string) bool   { return a == b }
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Native tells a native run from a symbolic one.
func Native() bool { return true }

// Thorough tells the tier.
func Thorough() bool { return Tier == "thorough" }

// Bound gives a bound of the exploration, by tier, and reports it.
func Bound(name string, quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Preemptions lets the engine switch goroutines up to n times at
// synchronisation operations, and pick any goroutine when one blocks.
func Preemptions(n int) {}

// Races turns on the detection of unordered accesses.
func Races() {}

// MapOrder makes the order of map iteration nondeterministic.
func MapOrder() {}

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// Wait waits until every other goroutine is blocked.
func Wait() { synctest.Wait() }

// Concrete enumerates the values of x.
func Concrete(x int64) int64 { return x }

// OnceModel and RangeModel are used by the engine for sync.Once and sync.Map.
func OnceModel(f func(), fin func()) {
	defer fin()
	f()
}

func RangeModel(keys []any, live func(any) (any, bool), f func(k, v any) bool) {
	for _, k := range keys {
		v, ok := live(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

// Field gives a field, exported or not, of the struct p points to.
func Field(p any, name string) any {
	f := reflect.ValueOf(p).Elem().FieldByName(name)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
}

// Seed makes Point switch goroutines now and then; zero leaves it idle.
var Seed uint64

// Point is called before every statement of the code under test when a
// schedule is looked for natively.
func Point() {
	if Seed == 0 {
		return
	}
	Seed ^= Seed << 13
	Seed ^= Seed >> 7
	Seed ^= Seed << 17
	if Seed>>60 < 4 {
		for i := 0; i <= int(Seed>>40&7); i++ {
			runtime.Gosched()
		}
	}
}

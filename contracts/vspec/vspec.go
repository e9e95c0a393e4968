// Package vspec is the specification language: ordinary Go that can be run, and
// that the verifier gives a meaning for all inputs.
package vspec

import (
	"fmt"
	"net/http"
	"reflect"
	"sort"

	"github.com/uber-go/tally"
)

// Skip is what a precondition that does not hold panics with.
type Skip struct{}

// Failures are the names of the clauses that failed.
var Failures []string

// Reached counts the clauses that were evaluated.
var Reached = map[string]int{}

// Requires states a precondition.
func Requires(cond bool) {
	if !cond {
		panic(Skip{})
	}
}

// Assume restricts what follows to the runs in which the condition holds.
func Assume(cond bool) { Requires(cond) }

// Ensures states a postcondition.
func Ensures(name string, cond bool) {
	Reached[name]++
	if !cond {
		Failures = append(Failures, name)
	}
}

// Assert states a theorem.
func Assert(name string, cond bool) { Ensures(name, cond) }

// Forall tells whether f holds for 0..n-1.
func Forall(n int, f func(i int) bool) bool {
	for i := 0; i < n; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists tells whether f holds for one of 0..n-1.
func Exists(n int, f func(i int) bool) bool {
	for i := 0; i < n; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Strings is what ForallString samples at run time.
var Strings []string

// ForallString tells whether f holds for every string; at run time, for those
// in Strings.
func ForallString(f func(s string) bool) bool {
	for _, s := range Strings {
		if !f(s) {
			return false
		}
	}
	return true
}

// Permutation tells whether the slices have the same elements, as often.
func Permutation[T any](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	key := func(xs []T) []string {
		var ks []string
		for _, x := range xs {
			ks = append(ks, fmt.Sprintf("%#v", x))
		}
		sort.Strings(ks)
		return ks
	}
	return reflect.DeepEqual(key(a), key(b))
}

// SameSeq tells whether the slices have the same elements in the same order.
func SameSeq[T any](a, b []T) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

// Clone copies a slice.
func Clone[T any](a []T) []T { return append([]T{}, a...) }

// Same tells whether the values are the same.
func Same[T any](a, b T) bool { return reflect.DeepEqual(a, b) }

var modified map[uintptr]bool

// Modifies permits writing to the elements of a slice.
func Modifies[T any](a []T) {
	if modified != nil {
		modified[reflect.ValueOf(a).Pointer()] = true
	}
}

// Recorder is a response writer that records what was done to it.
type Recorder struct {
	H       http.Header
	Code    int
	Heads   int
	Bodies  [][]byte
	Sent    http.Header
	Err     error
	Count0  int
	started bool
}

// NewRecorder creates a recorder.
func NewRecorder() *Recorder { return &Recorder{H: http.Header{}} }

// Header is that of http.ResponseWriter.
func (r *Recorder) Header() http.Header { return r.H }

func (r *Recorder) start(code int) {
	if r.started {
		return
	}
	r.started, r.Code, r.Sent = true, code, r.H.Clone()
	if r.Sent == nil {
		r.Sent = http.Header{}
	}
}

// WriteHeader is that of http.ResponseWriter.
func (r *Recorder) WriteHeader(code int) {
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	r.Heads++
	r.start(code)
}

// Write is that of http.ResponseWriter.
func (r *Recorder) Write(b []byte) (int, error) {
	r.start(200)
	r.Bodies = append(r.Bodies, append([]byte{}, b...))
	if r.Err != nil {
		return 0, r.Err
	}
	return len(b), nil
}

func rec(w http.ResponseWriter) *Recorder { return w.(*Recorder) }

// Status is the status of the response, or 0.
func Status(w http.ResponseWriter) int { return rec(w).Code }

// StatusWrites is the number of calls of WriteHeader.
func StatusWrites(w http.ResponseWriter) int { return rec(w).Heads }

// Writes is the number of calls of Write.
func Writes(w http.ResponseWriter) int { return len(rec(w).Bodies) }

// Started tells whether anything was sent.
func Started(w http.ResponseWriter) bool { return rec(w).started }

// HeaderTotal is the number of header values that were sent.
func HeaderTotal(w http.ResponseWriter) int { return total(rec(w).Sent) }

// HeaderPending is the number of header values that were added.
func HeaderPending(w http.ResponseWriter) int { return total(rec(w).H) }

func total(h http.Header) int {
	n := 0
	for _, v := range h {
		n += len(v)
	}
	return n
}

// HeaderIs tells whether a header was sent, once, with the value.
func HeaderIs(w http.ResponseWriter, key, value string) bool {
	v := rec(w).Sent[http.CanonicalHeaderKey(key)]
	return len(v) == 1 && v[0] == value
}

// Fresh tells whether nothing was done to a response yet.
func Fresh(w http.ResponseWriter) bool { return !rec(w).started && total(rec(w).H) == 0 }

// Count is the value of a counter of a scope, whatever its tags.
func Count(s tally.Scope, name string) int {
	n := 0
	for _, c := range s.(tally.TestScope).Snapshot().Counters() {
		if c.Name() == name {
			n += int(c.Value())
		}
	}
	return n
}

// Uncounted tells whether no counter of a scope was incremented yet.
func Uncounted(s tally.Scope) bool {
	for _, c := range s.(tally.TestScope).Snapshot().Counters() {
		if c.Value() != 0 {
			return false
		}
	}
	return true
}

// HeaderCount is the number of values of a header that were sent.
func HeaderCount(w http.ResponseWriter, key string) int {
	return len(rec(w).Sent[http.CanonicalHeaderKey(key)])
}

// HeaderAt is a value of a header that was sent.
func HeaderAt(w http.ResponseWriter, key string, i int) string {
	return rec(w).Sent[http.CanonicalHeaderKey(key)][i]
}

// BodyIs tells whether the body was written, at once.
func BodyIs(w http.ResponseWriter, b []byte) bool {
	r := rec(w)
	return len(r.Bodies) == 1 && string(r.Bodies[0]) == string(b)
}

// WriteError is the error that writing the body gives.
func WriteError(w http.ResponseWriter, b []byte) error { return rec(w).Err }

// Package spec is the contract language. Contract functions are ordinary Go:
// the verifier executes them symbolically over all inputs; natively they run
// as a randomized replay harness on the real code.
package spec

import (
	"fmt"
	"reflect"
	"sync"
)

// Skip is raised when a precondition does not hold for a generated input.
type Skip struct{}

// Done ends a run whose code under contract never returns.
type Done struct{}

// Failure is raised when a postcondition is violated.
type Failure struct{ Label, Msg string }

// Trace receives human-readable details of the current native run.
var Trace []string

// Requires states a precondition of the contract.
func Requires(b bool) {
	if !b {
		panic(Skip{})
	}
}

// Ensures states a postcondition: a named proof obligation.
func Ensures(label string, b bool) {
	if !b {
		panic(Failure{Label: label})
	}
}

// Assert states an intermediate lemma; it is an obligation and afterwards a known fact.
func Assert(label string, b bool) {
	if !b {
		panic(Failure{Label: label})
	}
}

// Cover marks a point that must be reachable (vacuity guard).
func Cover(label string) {}

// Show records a value in a native counterexample.
func Show(name string, v interface{}) { Trace = append(Trace, fmt.Sprintf("%s = %s", name, Dump(v))) }

// Invariant adds an inductive loop invariant for the loops executed afterwards.
// f is a func(holes...) bool; holes range over loop-carried and in-scope values of matching type.
func Invariant(f interface{}) {}

// Replace verifies callers of fn against the summary instead of its body.
func Replace(fn, summary interface{}) {}

// GoSkip makes goroutine starts no-ops in the verified execution.
func GoSkip() {}

// Separate: the slices do not share an array, so that writing through one leaves the other as it is.
func Separate[T any](a, b []T) bool { return true }

// Forall holds when f(i) holds for every lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists holds when f(i) holds for some lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// ForallKey holds when f holds for all values of the key type; natively the
// keys of the given maps and a few others are tried.
func ForallKey[K comparable, V any](f func(K) bool, ms ...map[K]V) bool {
	for _, m := range ms {
		for k := range m {
			if !f(k) {
				return false
			}
		}
	}
	var z K
	return f(z)
}

// ForallKeys is ForallKey over abstract maps.
func ForallKeys[K comparable, V any](f func(K) bool, ms ...Map[K, V]) bool {
	for _, m := range ms {
		for k := range m.m {
			if !f(k) {
				return false
			}
		}
	}
	var z K
	return f(z)
}

// Seq is an immutable mathematical sequence.
type Seq[T any] struct{ s []T }

func SeqOf[T any](s []T) Seq[T] { return Seq[T]{append([]T(nil), s...)} }
func Empty[T any]() Seq[T]      { return Seq[T]{} }
func (s Seq[T]) Len() int       { return len(s.s) }
func (s Seq[T]) At(i int) T {
	if i < 0 || i >= len(s.s) {
		var z T
		return z
	}
	return s.s[i]
}
func (s Seq[T]) Append(x T) Seq[T] { return Seq[T]{append(append([]T(nil), s.s...), x)} }
func (s Seq[T]) Concat(t Seq[T]) Seq[T] {
	return Seq[T]{append(append([]T(nil), s.s...), t.s...)}
}
func (s Seq[T]) Take(n int) Seq[T] {
	if n < 0 {
		n = 0
	}
	if n > len(s.s) {
		n = len(s.s)
	}
	return Seq[T]{s.s[:n:n]}
}
func (s Seq[T]) Drop(n int) Seq[T] {
	if n < 0 {
		n = 0
	}
	if n > len(s.s) {
		n = len(s.s)
	}
	return Seq[T]{s.s[n:len(s.s):len(s.s)]}
}

// Slice copies the sequence into a new slice.
func (s Seq[T]) Slice() []T { return append([]T(nil), s.s...) }

// SeqEq is equality of sequences (element equality is ==).
func SeqEq[T any](a, b Seq[T]) bool {
	if len(a.s) != len(b.s) {
		return false
	}
	for i := range a.s {
		if !same(a.s[i], b.s[i]) {
			return false
		}
	}
	return true
}

// Same is identity of two values (== for comparable types).
func Same[T any](a, b T) bool { return same(a, b) }

func same(a, b interface{}) bool {
	defer func() { recover() }()
	if a == nil || b == nil {
		return a == b
	}
	if !reflect.TypeOf(a).Comparable() {
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

// Map is an immutable mathematical finite map.
type Map[K comparable, V any] struct{ m map[K]V }

func MapOf[K comparable, V any](m map[K]V) Map[K, V] {
	r := map[K]V{}
	for k, v := range m {
		r[k] = v
	}
	return Map[K, V]{r}
}
func (m Map[K, V]) Has(k K) bool { _, ok := m.m[k]; return ok }
func (m Map[K, V]) Get(k K) V    { return m.m[k] }
func (m Map[K, V]) With(k K, v V) Map[K, V] {
	r := map[K]V{}
	for a, b := range m.m {
		r[a] = b
	}
	r[k] = v
	return Map[K, V]{r}
}
func (m Map[K, V]) Without(k K) Map[K, V] {
	r := map[K]V{}
	for a, b := range m.m {
		if a != k {
			r[a] = b
		}
	}
	return Map[K, V]{r}
}

// MapEq is equality of maps.
func MapEq[K comparable, V any](a, b Map[K, V]) bool {
	if len(a.m) != len(b.m) {
		return false
	}
	for k, v := range a.m {
		w, ok := b.m[k]
		if !ok || !same(v, w) {
			return false
		}
	}
	return true
}

// EmptyMap is the map without keys.
func EmptyMap[K comparable, V any]() Map[K, V] { return Map[K, V]{map[K]V{}} }

// Visited stands for the set of keys a map iteration has already produced.
type Visited[K comparable] struct{ m map[K]bool }

func (v Visited[K]) Has(k K) bool { return v.m[k] }

// Any is an arbitrary value of type T.
func Any[T any](name string) T {
	v := Gen(reflect.TypeOf((*T)(nil)).Elem(), 0)
	r := v.Interface()
	Show(name, r)
	if r == nil {
		var z T
		return z
	}
	return r.(T)
}

// AnyNew is any slice whose array nobody else has.
func AnyNew[T any](name string) []T { return append([]T{}, Any[[]T](name)...) }

// Fn is an uninterpreted (but deterministic) function of its arguments.
func Fn[R any](name string, args ...interface{}) R {
	k := name + Dump(args)
	t := reflect.TypeOf((*R)(nil)).Elem()
	if v, ok := fnMemo[k]; ok {
		if v == nil {
			var z R
			return z
		}
		return v.(R)
	}
	v := Gen(t, 0)
	r := v.Interface()
	fnMemo[k] = r
	if r == nil {
		var z R
		return z
	}
	return r.(R)
}

var fnMemo = map[string]interface{}{}

// Reset clears per-run state.
func Reset() { fnMemo = map[string]interface{}{}; Trace = nil; ctr = 0 }

// Implies is logical implication.
func Implies(a, b bool) bool { return !a || b }

// Iff is logical equivalence.
func Iff(a, b bool) bool { return a == b }

// Ite chooses a value.
func Ite[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// Inv is the i-th argument of the application of Fn(name, ...) that produced v
// (an uninterpreted function of v when v was not produced that way). Models only.
func Inv[R any](name string, i int, v interface{}) R { panic("spec.Inv is for models only") }

// Known tells whether v was produced by Fn(name, ...). Models only.
func Known(name string, v interface{}) bool { panic("spec.Known is for models only") }

// Assume is an assumption about the environment (an assumed library contract).
func Assume(b bool) { Requires(b) }

// Exit ends the process: nothing after it is executed.
func Exit() { panic(Done{}) }

// Native is true when the contract runs on the compiled code and false in the verifier.
func Native() bool { return true }

// Put sets a ghost field of a library object. Models only.
func Put[T any](obj interface{}, name string, v T) { panic("spec.Put is for models only") }

// Of reads a ghost field of a library object. Models only.
func Of[T any](obj interface{}, name string) T { panic("spec.Of is for models only") }

// Plain: the text has no character that JSON escapes.
func Plain(s string) bool {
	for _, c := range s {
		if c < 0x20 || c == '"' || c == '\\' || c == 0xfffd {
			return false
		}
	}
	return true
}

// NumFields is the number of fields of the struct behind a pointer, -1 if it
// points to something else. Only for models.
func NumFields(t interface{}) int { panic("only for models") }

// FieldPtr points to a field of the struct behind a pointer; nil if the field
// is not exported. Only for models.
func FieldPtr(t interface{}, i int) interface{} { panic("only for models") }

// EnvTag is what a field's env tag says: a name, and whether it is required.
// Only for models.
func EnvTag(t interface{}, i int) (string, bool) { panic("only for models") }

// Unsupported says that a model does not know what would happen. Only for models.
func Unsupported(what string) { panic("only for models") }

// GoRun has goroutines run as a whole where they are started: the contract
// concerns that one schedule (all others, if they share nothing).
func GoRun() {}

// Inside is the map inside a sync.Map, and SetInside sets it. Models only.
func Inside(m *sync.Map) map[interface{}]interface{} { panic("spec.Inside is for models only") }
func SetInside(m *sync.Map, v map[interface{}]interface{}) {
	panic("spec.SetInside is for models only")
}

// Recursive verifies the recursive calls of fn, those made within it, against
// the summary: the hypothesis of an induction. Natively it does nothing.
func Recursive(fn, summary interface{}) {}

// Holds evaluates a condition as one formula, without a case for each of its parts.
func Holds(f func() bool) bool { return f() }

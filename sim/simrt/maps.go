//go:build go1.21

package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// NoteKey gives a map key an identity that does not depend on memory addresses.
func NoteKey[K comparable](k K) {
	s := cur
	if s == nil || s.killing {
		return
	}
	id := keyID(k)
	_, addr := id.(uintptr)
	if _, ok := s.keyIDs[id]; !ok || addr {
		s.keySeq++
		s.keyIDs[id] = s.keySeq
	}
}

// keyID is what identifies a key. Pointers are identified by their address, which does not keep the object
// alive: another object that gets the same address is noted again before it is looked up.
func keyID(k any) any {
	switch v := reflect.ValueOf(k); v.Kind() {
	case reflect.Pointer, reflect.UnsafePointer:
		return v.Pointer()
	}
	return k
}

// Unordered counts map iterations whose order could not be made deterministic.
var Unordered int

// MapKeys returns the keys of a map in an order decided by the seed.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	s := cur
	if len(keys) < 2 || s == nil {
		return keys
	}
	ids := make([]string, len(keys))
	for i, k := range keys {
		ids[i] = s.keyOrder(k)
	}
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return ids[idx[a]] < ids[idx[b]] })
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	// Go randomises iteration order: so does the seed.
	for i := len(out) - 1; i > 0; i-- {
		j := i - TaskDraw("maporder", i+1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *Sim) keyOrder(k any) string {
	if id, ok := s.keyIDs[keyID(k)]; ok {
		return fmt.Sprintf("#%012d", id)
	}
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.String:
		return "s" + v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%020d", v.Int()+1<<40)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("u%020d", v.Uint())
	case reflect.Chan:
		if h := s.lookup(v.Pointer()); h != nil {
			return fmt.Sprintf("c%012d", h.id)
		}
	case reflect.Struct, reflect.Array, reflect.Bool, reflect.Float64:
		return fmt.Sprintf("v%v", k)
	}
	Unordered++
	return "z"
}

var _ = unsafe.Pointer(nil)

// AllocLimit is the largest single allocation instrumented code may request.
var AllocLimit uint64 = 256 << 20

// OnAlloc is told about every sized allocation of instrumented code.
var OnAlloc func(bytes uint64)

// AllocGuard checks the size of an allocation before it is made.
func AllocGuard(n int, elem uintptr) int {
	if n > 0 && OnAlloc != nil && cur != nil && cur.cur != nil && cur.cur.Group == GroupSystem {
		OnAlloc(uint64(n) * uint64(elem))
	}
	if n > 0 && uint64(n)*uint64(elem) > AllocLimit {
		panic(fmt.Sprintf("out of memory: allocation of %d elements of %d bytes requested", n, elem))
	}
	return n
}

// ChanZero, MapZeroK and MapZeroV return zero values of a container's element types.
func ChanZero[T any](ch <-chan T) T { var z T; return z }

// MapZeroK returns the zero key.
func MapZeroK[M ~map[K]V, K comparable, V any](m M) K { var z K; return z }

// MapZeroV returns the zero value.
func MapZeroV[M ~map[K]V, K comparable, V any](m M) V { var z V; return z }

// OSExit ends the run: the process would have exited.
func OSExit(code int) {
	s := cur
	if s == nil || s.killing {
		return
	}
	s.crash = &Crash{Value: fmt.Sprintf("os.Exit(%d)", code), Task: s.cur.Name}
	s.end("crash")
	s.park()
}

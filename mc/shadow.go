package mc

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"unsafe"
)

// ------------------------------------------------------------ race detector

type ent struct {
	tid   int32
	clk   uint32
	site  int32
	mask  uint8
	write bool
}

type shadow struct {
	keep unsafe.Pointer
	ents []ent
}

// Region is a memory mapping of a file.
type Region struct {
	Path  string
	Mem   []byte
	Live  bool
	lo    uintptr
	hi    uintptr
	snap  []byte
	undo  func()
	Undid bool
}

// AddRegion registers a mapping made by the program under test.
func AddRegion(path string, mem []byte, undo func()) *Region {
	x := X
	if x == nil || len(mem) == 0 {
		return nil
	}
	lo := uintptr(unsafe.Pointer(&mem[0]))
	r := &Region{Path: path, Mem: mem, Live: true, lo: lo, hi: lo + uintptr(len(mem)), undo: undo}
	if x.OnMem != nil {
		r.snap = append([]byte(nil), mem...)
	}
	x.regions = append(x.regions, r)
	return r
}

// Regions lists the mappings of the current execution.
func (x *Exec) Regions() []*Region { return x.regions }

// LiveRegion returns the live mapping of path, or nil.
func (x *Exec) LiveRegion(path string) *Region {
	for i := len(x.regions) - 1; i >= 0; i-- {
		if r := x.regions[i]; r.Live && r.Path == path {
			return r
		}
	}
	return nil
}

// FindRegion finds the region starting at the given memory.
func FindRegion(mem []byte) *Region {
	if X == nil || len(mem) == 0 {
		return nil
	}
	lo := uintptr(unsafe.Pointer(&mem[0]))
	for i := len(X.regions) - 1; i >= 0; i-- {
		if r := X.regions[i]; r.Live && r.lo == lo {
			return r
		}
	}
	return nil
}

func (x *Exec) inRegion(a uintptr) *Region {
	for _, r := range x.regions {
		if r.Live && a >= r.lo && a < r.hi {
			return r
		}
	}
	return nil
}

// observe calls the memory observer if a mapping changed since the last call.
func (x *Exec) observe() {
	if x.OnMem == nil || x.inMem {
		return
	}
	ch := x.dirty
	for _, r := range x.regions {
		if r.Live && !bytes.Equal(r.snap, r.Mem) {
			copy(r.snap, r.Mem)
			ch = true
		}
	}
	if !ch {
		return
	}
	x.dirty = false
	x.inMem = true
	x.NObs++
	x.OnMem(x)
	x.inMem = false
}

// Dirty notes a file system change for the observer.
func Dirty() {
	x := X
	if x == nil || x.OnMem == nil || x.aborting {
		return
	}
	x.dirty = true
	x.observe()
	if x.aborting {
		x.bail()
	}
}

func (x *Exec) stored(a uintptr) {
	if x.OnMem == nil || x.inMem || x.aborting {
		return
	}
	if x.inRegion(a) == nil {
		return
	}
	x.observe()
	if x.aborting {
		x.bail()
	}
}

// access notes an access of [p,p+size) by the running thread.
func (x *Exec) access(site int, p unsafe.Pointer, size uintptr, write bool) {
	if size == 0 || x.aborting {
		return
	}
	a := uintptr(p)
	end := a + size
	for w := a &^ 7; w < end; w += 8 {
		mask := uint8(0xff)
		if w < a {
			mask &= 0xff << (a - w)
		}
		if w+8 > end {
			mask &= 0xff >> (w + 8 - end)
		}
		s := x.shadow[w]
		if s == nil {
			s = &shadow{keep: p}
			x.shadow[w] = s
		}
		x.touch(s, site, mask, write)
		if x.aborting {
			return
		}
	}
}

func (x *Exec) touch(s *shadow, site int, mask uint8, write bool) {
	t := x.cur
	me := int32(t.id)
	out := s.ents[:0]
	for _, e := range s.ents {
		if e.mask&mask != 0 && e.tid != me && (write || e.write) && e.clk > t.vc.get(int(e.tid)) {
			x.race(e, site, write)
		}
		// drop what is subsumed: earlier (ordered) accesses covered by this one
		if e.mask&^mask == 0 && (write || !e.write) && (e.tid == me || e.clk <= t.vc.get(int(e.tid))) {
			continue
		}
		out = append(out, e)
	}
	s.ents = append(out, ent{me, t.vc[t.id], int32(site), mask, write})
}

func (x *Exec) race(e ent, site int, write bool) {
	k := [2]int{int(e.site), site}
	if x.raceSeen == nil {
		x.raceSeen = map[[2]int]bool{}
	}
	if x.raceSeen[k] {
		return
	}
	x.raceSeen[k] = true
	rw := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	msg := fmt.Sprintf("%s at %s by thread %d and %s at %s by thread %d are not ordered",
		rw(e.write), SiteName(int(e.site)), e.tid, rw(write), SiteName(site), x.cur.id)
	x.Races = append(x.Races, msg)
	if !x.RaceOK {
		x.fail("data race", msg)
	}
}

func on() *Exec {
	x := X
	if x == nil || !x.Cfg.Data || x.inMem {
		return nil
	}
	return x
}

func R[T any](site int, p *T) *T {
	if x := on(); x != nil {
		x.access(site, unsafe.Pointer(p), unsafe.Sizeof(*p), false)
	}
	return p
}

// RW is a read-modify-write access (x += 1).
func RW[T any](site int, p *T) *T {
	if x := on(); x != nil {
		x.access(site, unsafe.Pointer(p), unsafe.Sizeof(*p), true)
	}
	return p
}

// Assign performs *p = v after noting the write.
func Assign[T any](site int, p *T) func(T) {
	return func(v T) {
		if x := on(); x != nil {
			x.access(site, unsafe.Pointer(p), unsafe.Sizeof(*p), true)
			*p = v
			x.stored(uintptr(unsafe.Pointer(p)))
			return
		}
		*p = v
		if x := X; x != nil && x.OnMem != nil {
			x.stored(uintptr(unsafe.Pointer(p)))
		}
	}
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func (x *Exec) mapAccess(site int, p unsafe.Pointer, write bool) {
	if p == nil || x.aborting {
		return
	}
	s := x.mapObjs[p]
	if s == nil {
		s = &shadow{keep: p}
		x.mapObjs[p] = s
	}
	x.touch(s, site, 1, write)
}

// MR notes a map read and returns the map.
func MR[M ~map[K]V, K comparable, V any](site int, m M) M {
	if x := on(); x != nil {
		x.mapAccess(site, mapPtr[M, K, V](m), false)
	}
	return m
}

// MW notes a map write and returns the map.
func MW[M ~map[K]V, K comparable, V any](site int, m M) M {
	if x := on(); x != nil {
		x.mapAccess(site, mapPtr[M, K, V](m), true)
	}
	return m
}

// MAssign performs m[k] = v.
func MAssign[M ~map[K]V, K comparable, V any](site int, m M, k K) func(V) {
	return func(v V) {
		if x := on(); x != nil {
			x.mapAccess(site, mapPtr[M, K, V](m), true)
		}
		m[k] = v
	}
}

// RS notes a read of all elements of a slice and returns it.
func RS[S ~[]E, E any](site int, s S) S {
	if x := on(); x != nil && len(s) > 0 {
		x.access(site, unsafe.Pointer(&s[0]), unsafe.Sizeof(s[0])*uintptr(len(s)), false)
	}
	return s
}

// Copy is copy(dst, src); each aligned 8-byte word of a mapped region is
// stored in one step.
func Copy[D ~[]E, S ~[]E, E any](site int, dst D, src S) int {
	n := len(src)
	if len(dst) < n {
		n = len(dst)
	}
	if n == 0 {
		return 0
	}
	sz := unsafe.Sizeof(dst[0])
	if x := on(); x != nil {
		x.access(site, unsafe.Pointer(&src[0]), sz*uintptr(n), false)
		x.access(site, unsafe.Pointer(&dst[0]), sz*uintptr(n), true)
	}
	if x := X; x != nil && x.OnMem != nil && sz == 1 && x.inRegion(uintptr(unsafe.Pointer(&dst[0]))) != nil {
		a := uintptr(unsafe.Pointer(&dst[0]))
		for i := 0; i < n; {
			k := 8 - int((a+uintptr(i))%8)
			if k > n-i {
				k = n - i
			}
			copy(dst[i:i+k], src[i:i+k])
			x.stored(a + uintptr(i))
			i += k
		}
		return n
	}
	return copy(dst, src)
}

// CopyS is copy(dst, string).
func CopyS[D ~[]byte](site int, dst D, src string) int { return Copy(site, dst, []byte(src)) }

// OR and OW note that a method of an object of another package reads or
// writes the object.
func OR[T any](site int, p *T) *T {
	if x := on(); x != nil && p != nil {
		x.access(site, unsafe.Pointer(p), 8, false)
	}
	return p
}

func OW[T any](site int, p *T) *T {
	if x := on(); x != nil && p != nil {
		x.access(site, unsafe.Pointer(p), 8, true)
	}
	return p
}

// ORI and OWI do so for the object that an interface holds.
func ORI[T any](site int, v T) T { ifaceAccess(site, v, false); return v }
func OWI[T any](site int, v T) T { ifaceAccess(site, v, true); return v }

func ifaceAccess[T any](site int, v T, write bool) {
	x := on()
	if x == nil {
		return
	}
	if r := reflect.ValueOf(any(v)); r.Kind() == reflect.Pointer && !r.IsNil() {
		x.access(site, r.UnsafePointer(), 1, write)
	}
}

// PutUint16, PutUint32 and PutUint64 are the stores of binary.ByteOrder; on
// this hardware each is one store instruction.
func put(site int, b []byte, n int, f func()) {
	if len(b) < n {
		f() // panics as the original does
		return
	}
	if x := on(); x != nil {
		x.access(site, unsafe.Pointer(&b[0]), uintptr(n), true)
	}
	f()
	if x := X; x != nil && x.OnMem != nil {
		x.stored(uintptr(unsafe.Pointer(&b[0])))
	}
}

func PutUint16(site int, o binary.ByteOrder, b []byte, v uint16) {
	put(site, b, 2, func() { o.PutUint16(b, v) })
}
func PutUint32(site int, o binary.ByteOrder, b []byte, v uint32) {
	put(site, b, 4, func() { o.PutUint32(b, v) })
}
func PutUint64(site int, o binary.ByteOrder, b []byte, v uint64) {
	put(site, b, 8, func() { o.PutUint64(b, v) })
}

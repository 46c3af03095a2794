package mc

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"unsafe"
)

// Primitives for the shims in mcsync, mcatomic and mcos.

// SyncPoint is a scheduling point before an operation of a shim.
func (x *Exec) SyncPoint(op string, enabled func() bool) { x.point(-1, op, enabled) }

// RelPoint is a scheduling point after a release operation.
func (x *Exec) RelPoint() { x.relPoint(-1) }

// AcqPoint is a scheduling point after an acquire operation.
func (x *Exec) AcqPoint() { x.acqPoint(-1) }

func (x *Exec) AcqRel(o *Obj, code uint64)  { x.acqrel(o, code) }
func (x *Exec) Acquire(o *Obj, code uint64) { x.acquire(o, code) }
func (x *Exec) Release(o *Obj, code uint64) { x.release(o, code) }
func (x *Exec) Order(o *Obj, code uint64)   { x.acqrelNoHB(o, code) }

// ReadAcq acquires without ordering against other reads.
func (x *Exec) ReadAcq(o *Obj, code uint64) {
	o.fresh(x)
	t := x.cur
	t.vc.join(o.vc)
	x.setHash(t, mix(mix(t.h, o.h), code))
}

// ReadRel releases a read lock: commutes with other read releases.
func (x *Exec) ReadRel(o *Obj) {
	o.fresh(x)
	t := x.cur
	o.rvc.join(t.vc)
	o.rh += mix(t.h, 0x77)
	t.tick()
}

// WriteAcq acquires after every earlier write and read release.
func (x *Exec) WriteAcq(o *Obj, code uint64) {
	o.fresh(x)
	t := x.cur
	t.vc.join(o.vc)
	t.vc.join(o.rvc)
	h := mix(mix(mix(t.h, o.h), o.rh), code)
	x.setHash(t, h)
	o.h, o.rh = h, 0
}

// CommRel is a release that commutes with other releases of the same kind.
func (x *Exec) CommRel(o *Obj) {
	o.fresh(x)
	t := x.cur
	o.vc.join(t.vc)
	o.rh += mix(t.h, 0x78)
	t.tick()
	x.setHash(t, mix(t.h, 0x79))
}

// CommAcq acquires everything released by CommRel.
func (x *Exec) CommAcq(o *Obj) {
	o.fresh(x)
	t := x.cur
	t.vc.join(o.vc)
	x.setHash(t, mix(mix(t.h, o.rh), 0x7a))
}

// Gen identifies the execution; shim state of another generation is stale.
func (x *Exec) Gen() uint64 { return x.gen }

// Fatal is an unrecoverable error of the program (such as unlocking an
// unlocked mutex).
func (x *Exec) Fatal(msg string) {
	x.fail("fatal error", msg+" at "+callSite(4))
	runtime.Goexit()
}

// IsAborting reports whether the execution is being unwound.
func (x *Exec) IsAborting() bool { return x.aborting }

// HashCur mixes a value the running thread observed into its history.
func (x *Exec) HashCur(v uint64) { x.setHash(x.cur, mix(x.cur.h, v)) }

// FSObj is the object all file system operations are ordered on.
func (x *Exec) FSObj() *Obj { return &x.fsObj }

func callSite(skip int) string {
	pcs := make([]uintptr, 30)
	n := runtime.Callers(skip, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "verif/mc") && !strings.HasPrefix(f.Function, "runtime.") {
			i := strings.LastIndex(f.File, "/")
			return fmt.Sprintf("%s:%d", f.File[i+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// Atomic is the object of an atomic variable.
func (x *Exec) Atomic(p unsafe.Pointer) *Obj {
	o := x.atomics[p]
	if o == nil {
		o = &Obj{}
		x.atomics[p] = o
	}
	return o
}

// Opened and Closed track the file descriptors of the program.
func (x *Exec) Opened(f *os.File, name string) { x.openFDs[f] = name }
func (x *Exec) Closed(f *os.File)              { delete(x.openFDs, f) }

// OpenFiles is the number of file descriptors the program holds.
func (x *Exec) OpenFiles() int { return len(x.openFDs) }

// LiveRegions is the number of mappings the program holds.
func (x *Exec) LiveRegions() int {
	n := 0
	for _, r := range x.regions {
		if r.Live {
			n++
		}
	}
	return n
}

// Helpers of generated tuple assignments: they give untyped operands the
// type of the variable they are assigned to.
func Tmp[T any](p *T) func(T) T                           { return func(v T) T { return v } }
func TmpM[M ~map[K]V, K comparable, V any](m M) func(V) V { return func(v V) V { return v } }
func TmpK[M ~map[K]V, K comparable, V any](m M) func(K) K { return func(k K) K { return k } }

// Gosched is runtime.Gosched.
func Gosched() { Yield(-1) }

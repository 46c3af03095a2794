// Package mcsync stands in for package sync in instrumented code.
package mcsync

import (
	"unsafe"

	"verif/mc"
)

type Locker interface {
	Lock()
	Unlock()
}

// ---------------------------------------------------------------- Mutex

type Mutex struct {
	gen    uint64
	locked bool
	obj    mc.Obj
}

func (m *Mutex) st() *mc.Exec {
	x := mc.X
	if x != nil && m.gen != x.Gen() {
		m.gen, m.locked = x.Gen(), false
	}
	return x
}

func (m *Mutex) Lock() {
	x := m.st()
	if x == nil {
		return
	}
	x.SyncPoint("Mutex.Lock", func() bool { return !m.locked })
	m.locked = true
	x.AcqRel(&m.obj, 0x101)
	x.AcqPoint()
}

func (m *Mutex) TryLock() bool {
	x := m.st()
	if x == nil {
		return true
	}
	x.SyncPoint("Mutex.TryLock", nil)
	if m.locked {
		x.Order(&m.obj, 0x103)
		return false
	}
	m.locked = true
	x.AcqRel(&m.obj, 0x101)
	x.AcqPoint()
	return true
}

func (m *Mutex) Unlock() {
	x := m.st()
	if x == nil || x.IsAborting() {
		return
	}
	if !m.locked {
		x.Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	x.AcqRel(&m.obj, 0x102)
	x.RelPoint()
}

// ---------------------------------------------------------------- RWMutex

type rwait struct{ ok bool }

type RWMutex struct {
	gen     uint64
	writer  bool
	readers int
	pendW   int
	waitR   []*rwait
	obj     mc.Obj
}

func (m *RWMutex) st() *mc.Exec {
	x := mc.X
	if x != nil && m.gen != x.Gen() {
		m.gen, m.writer, m.readers, m.pendW, m.waitR = x.Gen(), false, 0, 0, nil
	}
	return x
}

func (m *RWMutex) Lock() {
	x := m.st()
	if x == nil {
		return
	}
	x.SyncPoint("RWMutex.Lock", nil)
	if m.writer || m.readers > 0 || m.pendW > 0 {
		m.pendW++
		x.Order(&m.obj, 0x110) // readers arriving later must wait: visible
		x.SyncPoint("RWMutex.Lock (blocked)", func() bool { return !m.writer && m.readers == 0 })
		m.pendW--
	}
	m.writer = true
	x.WriteAcq(&m.obj, 0x111)
	x.AcqPoint()
}

func (m *RWMutex) TryLock() bool {
	x := m.st()
	if x == nil {
		return true
	}
	x.SyncPoint("RWMutex.TryLock", nil)
	if m.writer || m.readers > 0 || m.pendW > 0 {
		x.Order(&m.obj, 0x113)
		return false
	}
	m.writer = true
	x.WriteAcq(&m.obj, 0x111)
	x.AcqPoint()
	return true
}

func (m *RWMutex) Unlock() {
	x := m.st()
	if x == nil || x.IsAborting() {
		return
	}
	if !m.writer {
		x.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	x.AcqRel(&m.obj, 0x112)
	for _, w := range m.waitR {
		w.ok = true
		m.readers++
	}
	m.waitR = nil
	x.RelPoint()
}

func (m *RWMutex) RLock() {
	x := m.st()
	if x == nil {
		return
	}
	x.SyncPoint("RWMutex.RLock", nil)
	if m.writer || m.pendW > 0 {
		w := &rwait{}
		m.waitR = append(m.waitR, w)
		x.Order(&m.obj, 0x114)
		x.SyncPoint("RWMutex.RLock (blocked)", func() bool { return w.ok })
	} else {
		m.readers++
	}
	x.ReadAcq(&m.obj, 0x115)
	x.AcqPoint()
}

func (m *RWMutex) TryRLock() bool {
	x := m.st()
	if x == nil {
		return true
	}
	x.SyncPoint("RWMutex.TryRLock", nil)
	if m.writer || m.pendW > 0 {
		x.Order(&m.obj, 0x116)
		return false
	}
	m.readers++
	x.ReadAcq(&m.obj, 0x115)
	x.AcqPoint()
	return true
}

func (m *RWMutex) RUnlock() {
	x := m.st()
	if x == nil || x.IsAborting() {
		return
	}
	if m.readers <= 0 {
		x.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	x.ReadRel(&m.obj)
	x.RelPoint()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---------------------------------------------------------------- WaitGroup

type WaitGroup struct {
	gen uint64
	n   int
	obj mc.Obj
}

func (w *WaitGroup) st() *mc.Exec {
	x := mc.X
	if x != nil && w.gen != x.Gen() {
		w.gen, w.n = x.Gen(), 0
	}
	return x
}

func (w *WaitGroup) Add(d int) {
	x := w.st()
	if x != nil && x.IsAborting() {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if x == nil {
		return
	}
	if d < 0 {
		x.CommRel(&w.obj)
		x.RelPoint()
	} else {
		x.HashCur(0x121)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	x := w.st()
	if x == nil {
		return
	}
	x.SyncPoint("WaitGroup.Wait", func() bool { return w.n == 0 })
	x.CommAcq(&w.obj)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	mc.Go(-1, func() {
		defer w.Done()
		f()
	})
}

// ---------------------------------------------------------------- Once

type Once struct {
	gen  uint64
	done bool
	m    Mutex
	obj  mc.Obj
}

func (o *Once) Do(f func()) {
	x := mc.X
	if x == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	// unlike a mutex, what a Once did outside or in an earlier execution stays done
	x.SyncPoint("Once.Do", nil)
	if o.done && o.gen != x.Gen() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done, o.gen = true, x.Gen() }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// ---------------------------------------------------------------- Cond

type Cond struct {
	L    Locker
	wait []*rwait
	obj  mc.Obj
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	x := mc.X
	w := &rwait{}
	c.wait = append(c.wait, w)
	x.Order(&c.obj, 0x131)
	c.L.Unlock()
	x.SyncPoint("Cond.Wait", func() bool { return w.ok })
	x.Acquire(&c.obj, 0x132)
	c.L.Lock()
}

func (c *Cond) Signal() {
	x := mc.X
	if x == nil || x.IsAborting() {
		return
	}
	x.SyncPoint("Cond.Signal", nil)
	if len(c.wait) > 0 {
		c.wait[0].ok = true
		c.wait = c.wait[1:]
	}
	x.Release(&c.obj, 0x133)
}

func (c *Cond) Broadcast() {
	x := mc.X
	if x == nil || x.IsAborting() {
		return
	}
	x.SyncPoint("Cond.Broadcast", nil)
	for _, w := range c.wait {
		w.ok = true
	}
	c.wait = nil
	x.Release(&c.obj, 0x134)
}

// ---------------------------------------------------------------- Map, Pool

type Map struct {
	m    map[any]any
	keys []any
	obj  mc.Obj
}

func (m *Map) op(name string) {
	if x := mc.X; x != nil {
		x.SyncPoint("Map."+name, nil)
		x.AcqRel(&m.obj, 0x141)
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func post() {
	if x := mc.X; x != nil {
		x.RelPoint()
	}
}

func (m *Map) put(k, v any) {
	defer post()
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	defer post()
	delete(m.m, k)
	for i, o := range m.keys {
		if o == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Load(k any) (any, bool) { m.op("Load"); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.op("Store"); m.put(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op("LoadOrStore")
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op("LoadAndDelete")
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.op("Delete"); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.op("Swap")
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op("CompareAndSwap")
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op("CompareAndDelete")
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.op("Clear"); m.m, m.keys = map[any]any{}, nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.op("Range")
	for _, k := range append([]any(nil), m.keys...) {
		m.op("Range step")
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// Pool never keeps anything back and never loses anything: the last value
// put is the next one got.
type Pool struct {
	New  func() any
	gen  uint64
	free []any
	obj  mc.Obj
}

func (p *Pool) op(name string) {
	if x := mc.X; x != nil {
		x.SyncPoint("Pool."+name, nil)
		if p.gen != x.Gen() {
			p.gen, p.free = x.Gen(), nil
		}
		x.AcqRel(&p.obj, 0x151)
	}
}

func (p *Pool) Get() any {
	p.op("Get")
	if n := len(p.free); n > 0 {
		v := p.free[n-1]
		p.free = p.free[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) { p.op("Put"); p.free = append(p.free, v) }

var _ unsafe.Pointer

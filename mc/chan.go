package mc

import "unsafe"

// Channels keep their real Go type.  Buffered channels store values in the
// real channel; the scheduler guarantees the real operation never blocks.
// Unbuffered channels are modelled as a rendezvous between blocked threads.

type chanState struct {
	keep   interface{}
	cap    int
	closed bool
	recvq  []*rdv // blocked receivers (unbuffered)
	sendq  []*rdv // blocked senders (unbuffered)
	obj    Obj
	msgvc  []VC // vcs of buffered messages
	freevc []VC // vcs released by receives (k-th receive hb (k+cap)-th send)
	nsend  int
	closeV VC
}

type rdv struct {
	t    *Thread
	sel  *selState
	idx  int
	val  interface{}
	ok   bool
	done bool
}

// selState is shared by all cases of one blocked select.
type selState struct {
	done bool
	idx  int
}

func chanKey[T any](c chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func (x *Exec) chanOf(p unsafe.Pointer, keep interface{}, capacity int) *chanState {
	s := x.chans[p]
	if s == nil {
		s = &chanState{keep: keep, cap: capacity}
		x.chans[p] = s
	}
	return s
}

func bidi[T any](c unsafe.Pointer) chan T { return *(*chan T)(unsafe.Pointer(&c)) }
func keyS[T any](c chan<- T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&c))
}
func keyR[T any](c <-chan T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&c))
}

func never() bool { return false }

func (s *chanState) liveRecv() *rdv {
	for len(s.recvq) > 0 {
		r := s.recvq[0]
		if r.done || (r.sel != nil && r.sel.done) {
			s.recvq = s.recvq[1:]
			continue
		}
		return r
	}
	return nil
}

func (s *chanState) liveSend() *rdv {
	for len(s.sendq) > 0 {
		r := s.sendq[0]
		if r.done || (r.sel != nil && r.sel.done) {
			s.sendq = s.sendq[1:]
			continue
		}
		return r
	}
	return nil
}

// sync two threads completely (unbuffered rendezvous)
func (x *Exec) rendezvous(s *chanState, o *Thread, code uint64) {
	t := x.cur
	s.obj.fresh(x)
	h := mix(mix(mix(t.h, o.h), s.obj.h), code)
	s.obj.h = h
	x.setHash(t, mix(h, 1))
	x.setHash(o, mix(h, 2))
	t.vc.join(o.vc)
	o.vc.join(t.vc)
	t.tick()
	o.tick()
}

// Send performs c <- v.
func Send[T any](site int, c chan<- T) func(T) {
	return func(v T) { sendOp(site, c, v) }
}

func sendOp[T any](site int, c chan<- T, v T) {
	x := X
	if x == nil {
		c <- v
		return
	}
	if c == nil {
		x.point(site, "send on nil channel", never)
		return
	}
	p := keyS(c)
	s := x.chanOf(p, c, cap(c))
	if s.cap > 0 {
		x.point(site, "send", func() bool { return s.closed || len(c) < s.cap })
		if x.aborting {
			return
		}
		if s.closed {
			panic("send on closed channel")
		}
		bufSend(x, s, c, v)
		x.relPoint(site)
		return
	}
	// unbuffered: first announce (point), then either match or block
	x.point(site, "send", nil)
	if x.aborting {
		return
	}
	if s.closed {
		panic("send on closed channel")
	}
	if r := s.liveRecv(); r != nil {
		s.recvq = s.recvq[1:]
		completeRecv(r, v, true)
		x.rendezvous(s, r.t, 0x11)
		x.relPoint(site)
		return
	}
	r := &rdv{t: x.cur, val: v}
	s.sendq = append(s.sendq, r)
	x.point(site, "send(blocked)", func() bool { return r.done || s.closed })
	if x.aborting {
		return
	}
	if !r.done {
		panic("send on closed channel")
	}
}

func completeRecv(r *rdv, v interface{}, ok bool) {
	r.val, r.ok, r.done = v, ok, true
	if r.sel != nil {
		r.sel.done, r.sel.idx = true, r.idx
	}
}

func completeSend(r *rdv) {
	r.done = true
	if r.sel != nil {
		r.sel.done, r.sel.idx = true, r.idx
	}
}

func bufSend[T any](x *Exec, s *chanState, c chan<- T, v T) {
	t := x.cur
	if s.nsend >= s.cap && len(s.freevc) > 0 {
		t.vc.join(s.freevc[0])
		s.freevc = s.freevc[1:]
	}
	s.nsend++
	s.obj.fresh(x)
	h := mix(mix(t.h, s.obj.h), 0x21)
	x.setHash(t, h)
	s.obj.h = h
	s.msgvc = append(s.msgvc, t.vc.clone())
	t.tick()
	c <- v
}

func bufRecv[T any](x *Exec, s *chanState, c <-chan T) (T, bool) {
	t := x.cur
	s.obj.fresh(x)
	h := mix(mix(t.h, s.obj.h), 0x22)
	x.setHash(t, h)
	s.obj.h = h
	if len(c) > 0 {
		if len(s.msgvc) > 0 {
			t.vc.join(s.msgvc[0])
			s.msgvc = s.msgvc[1:]
		}
		s.freevc = append(s.freevc, t.vc.clone())
		t.tick()
		v, ok := <-c
		return v, ok
	}
	t.vc.join(s.closeV)
	var z T
	return z, false
}

func Recv[T any](site int, c <-chan T) T {
	v, _ := Recv2(site, c)
	return v
}

func Recv2[T any](site int, c <-chan T) (T, bool) {
	x := X
	var z T
	if x == nil {
		v, ok := <-c
		return v, ok
	}
	if c == nil {
		x.point(site, "receive from nil channel", never)
		return z, false
	}
	s := x.chanOf(keyR(c), c, cap(c))
	if s.cap > 0 {
		x.point(site, "receive", func() bool { return s.closed || len(c) > 0 })
		if x.aborting {
			return z, false
		}
		defer x.acqPoint(site)
		return bufRecv(x, s, c)
	}
	x.point(site, "receive", nil)
	if x.aborting {
		return z, false
	}
	if r := s.liveSend(); r != nil {
		s.sendq = s.sendq[1:]
		completeSend(r)
		x.rendezvous(s, r.t, 0x12)
		return asT[T](r.val), true
	}
	if s.closed {
		x.cur.vc.join(s.closeV)
		return z, false
	}
	r := &rdv{t: x.cur}
	s.recvq = append(s.recvq, r)
	x.point(site, "receive(blocked)", func() bool { return r.done || s.closed })
	if x.aborting {
		return z, false
	}
	if r.done {
		return asT[T](r.val), r.ok
	}
	r.done = true
	x.cur.vc.join(s.closeV)
	return z, false
}

func asT[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func Close[T any](site int, c chan<- T) {
	x := X
	if x == nil {
		close(c)
		return
	}
	if c == nil {
		close(c)
	}
	s := x.chanOf(keyS(c), c, cap(c))
	x.point(site, "close", nil)
	if x.aborting {
		return
	}
	t := x.cur
	s.obj.fresh(x)
	h := mix(mix(t.h, s.obj.h), 0x23)
	x.setHash(t, h)
	s.obj.h = h
	s.closeV = t.vc.clone()
	t.tick()
	s.closed = true
	close(c)
	x.relPoint(site)
}

type ChanIter[T any] struct {
	c    <-chan T
	site int
}

func RangeChan[T any](site int, c <-chan T) (it *ChanIter[T], v T) {
	it = &ChanIter[T]{c, site}
	return
}

func RangeChan0[T any](site int, c <-chan T) *ChanIter[T] { return &ChanIter[T]{c, site} }

func (it *ChanIter[T]) Next(v *T) bool {
	val, ok := Recv2(it.site, it.c)
	if ok && v != nil {
		*v = val
	}
	return ok
}

// ---------------------------------------------------------------- select

type SelCase interface {
	ready(x *Exec) bool
	exec(x *Exec)
	enqueue(x *Exec, s *selState, idx int)
	finish(x *Exec)
}

type RecvC[T any] struct {
	c   <-chan T
	Val T
	Ok  bool
	r   *rdv
}

type SendC[T any] struct {
	c chan<- T
	v T
	r *rdv
}

func CaseRecv[T any](c <-chan T) *RecvC[T] { return &RecvC[T]{c: c} }
func CaseSend[T any](c chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{c: c, v: v} }
}

func (r *RecvC[T]) st(x *Exec) *chanState { return x.chanOf(keyR(r.c), r.c, cap(r.c)) }
func (r *RecvC[T]) ready(x *Exec) bool {
	if r.c == nil {
		return false
	}
	s := r.st(x)
	return s.closed || len(r.c) > 0 || s.liveSend() != nil
}
func (r *RecvC[T]) exec(x *Exec) {
	s := r.st(x)
	if s.cap > 0 {
		r.Val, r.Ok = bufRecv(x, s, r.c)
		return
	}
	if o := s.liveSend(); o != nil {
		s.sendq = s.sendq[1:]
		completeSend(o)
		x.rendezvous(s, o.t, 0x12)
		r.Val, r.Ok = asT[T](o.val), true
		return
	}
	x.cur.vc.join(s.closeV)
}
func (r *RecvC[T]) enqueue(x *Exec, ss *selState, idx int) {
	if r.c == nil {
		return
	}
	s := r.st(x)
	if s.cap == 0 {
		r.r = &rdv{t: x.cur, sel: ss, idx: idx}
		s.recvq = append(s.recvq, r.r)
	}
}
func (r *RecvC[T]) finish(x *Exec) { r.Val, r.Ok = asT[T](r.r.val), r.r.ok }

func (r *SendC[T]) st(x *Exec) *chanState { return x.chanOf(keyS(r.c), r.c, cap(r.c)) }
func (r *SendC[T]) ready(x *Exec) bool {
	if r.c == nil {
		return false
	}
	s := r.st(x)
	if s.cap > 0 {
		return s.closed || len(r.c) < s.cap
	}
	return s.closed || s.liveRecv() != nil
}
func (r *SendC[T]) exec(x *Exec) {
	s := r.st(x)
	if s.closed {
		panic("send on closed channel")
	}
	if s.cap > 0 {
		bufSend(x, s, r.c, r.v)
		return
	}
	o := s.liveRecv()
	s.recvq = s.recvq[1:]
	completeRecv(o, r.v, true)
	x.rendezvous(s, o.t, 0x11)
}
func (r *SendC[T]) enqueue(x *Exec, ss *selState, idx int) {
	if r.c == nil {
		return
	}
	s := r.st(x)
	if s.cap == 0 {
		r.r = &rdv{t: x.cur, sel: ss, idx: idx, val: r.v}
		s.sendq = append(s.sendq, r.r)
	}
}
func (r *SendC[T]) finish(x *Exec) {}

// Select returns the index of the chosen case, or -1 for default.
func Select(site int, hasDefault bool, cases ...SelCase) int {
	x := X
	if x == nil {
		panic("mc: select outside an execution")
	}
	x.point(site, "select", nil)
	if x.aborting {
		return -1
	}
	if i, ok := selReady(x, cases); ok {
		return i
	}
	if hasDefault {
		t := x.cur
		x.setHash(t, mix(t.h, 0x31))
		return -1
	}
	ss := &selState{}
	for i, c := range cases {
		c.enqueue(x, ss, i)
	}
	x.point(site, "select(blocked)", func() bool {
		if ss.done {
			return true
		}
		for _, c := range cases {
			if c.ready(x) {
				return true
			}
		}
		return false
	})
	if x.aborting {
		return -1
	}
	if ss.done {
		cases[ss.idx].finish(x)
		return ss.idx
	}
	ss.done = true
	i, _ := selReady(x, cases)
	return i
}

func selReady(x *Exec, cases []SelCase) (int, bool) {
	var r []int
	for i, c := range cases {
		if c.ready(x) {
			r = append(r, i)
		}
	}
	if len(r) == 0 {
		return 0, false
	}
	i := r[x.Choose(KFree, len(r))]
	cases[i].exec(x)
	return i, true
}

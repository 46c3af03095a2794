// Package mc is a controlled scheduler and stateless explorer for Go programs
// whose synchronisation, channel, goroutine, map-iteration, clock and file
// operations have been routed through it by cmd/mcgen.  One execution (Exec)
// runs at a time per process; exactly one of its threads runs at a time, and
// every nondeterministic decision is taken by Exec.choose.
package mc

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Kind of a choice point.
const (
	KSched = iota // which enabled thread runs next
	KMap          // which map entry an iteration yields next
	KEnv          // environment answer (fault)
	KFree         // free harness choice (every alternative, cost 0)
	nKinds
)

type Point struct {
	N          int
	Kind       int
	CurEnabled bool
}

// VC is a vector clock indexed by thread id.
type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

// tick begins a new interval of the thread; clocks are kept where data
// accesses are observed.
func (t *Thread) tick() {
	if t.x.Cfg.Data {
		t.vc[t.id]++
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

type Thread struct {
	id      int
	idh     uint64
	h       uint64
	vc      VC
	wake    chan struct{}
	enabled func() bool
	op      string
	site    int
	where   string
	done    bool
	nchild  int
	wakeAt  time.Duration // sleeping until (0: not sleeping)
	// rendezvous state of a blocked unbuffered channel operation
	rdv *rdv
	x   *Exec
}

// Violation describes a failed execution.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

type Config struct {
	Data    bool // race detection on data accesses
	Faults  bool // environment may inject faults
	MapPerm bool // map iteration order is a choice
	RelPt   bool // scheduling points also after release operations
	MaxStep int
	MaxThr  int // more threads than this are a violation (0: 20000)
	Order   int // which enabled thread runs by default (see pick)
	Trace   bool
	Fixed   bool // one execution, by the default order: nothing is explored
}

// Default orders of the threads (Config.Order); the ones other than
// CurrentFirst are for executions that are not explored further.
const (
	CurrentFirst = iota
	OldestFirst
	NewestFirst
	RoundRobin
)

type Exec struct {
	Cfg      Config
	prefix   []dev
	nprefix  int // number of points covered by the prefix (position of last deviation +1)
	pi       int
	Points   []Point
	Taken    []int
	threads  []*Thread
	cur      *Thread
	doneCh   chan struct{}
	aborting bool
	pruned   bool
	diverged bool
	Viol     *Violation
	Steps    int
	gen      uint64
	fp       uint64
	now      time.Duration
	cache    func(fp uint64, cur int) bool // returns true to prune
	prunedAt int

	shadow   map[uintptr]*shadow
	mapObjs  map[unsafe.Pointer]*shadow
	chans    map[unsafe.Pointer]*chanState
	atomics  map[unsafe.Pointer]*Obj
	regions  []*Region
	dirty    bool
	OnMem    func(x *Exec)
	inMem    bool
	fsObj    Obj
	markObj  Obj
	clkObj   Obj
	Tick     time.Duration // how far each reading of the clock moves it on
	Races    []string
	raceSeen map[[2]int]bool
	TraceLog []string
	sysUndo  []func()
	EnvLog   []string
	openFDs  map[*os.File]string
	User     interface{}
	Leaked   []string
	States   map[uint64]struct{} // fingerprints seen (only if non-nil)
	NObs     int                 // observer calls
	// Victim, if not 0, is the only thread that is ever preempted; all others
	// do the same and are interchangeable before they begin.
	Victim   int
	RaceOK   bool // races are recorded but are no violation
	EnvUsed  int  // faults injected
	LeakBad  bool
	quiet    int
	live     []*Thread // the threads without those known to have ended
	knownHit bool
	Outcome  uint64 // digest of what the execution produced (0: none)
}

// Known says whether a failure is a listed finding, which ends the execution
// without being a violation.
var Known func(kind, msg string) bool

// Pruned reports whether the execution was cut at a known state.
// NThreads tells how many threads the execution had.
func (x *Exec) NThreads() int { return len(x.threads) }

func (x *Exec) Pruned() bool { return x.pruned }

// Diverged reports whether the execution could not follow its prefix.
func (x *Exec) Diverged() bool { return x.diverged }

// X is the running execution, nil outside of one.
var X *Exec

var genCounter uint64

type dev struct {
	pos int32
	alt int32
}

type abortT struct{}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x7F4A7C159E3779B9 + (a << 6) + (a >> 2))
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return x
}

// Mix is exported for harnesses.
func Mix(a, b uint64) uint64 { return mix(a, b) }

func hstr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// HashString is exported for harnesses.
func HashString(s string) uint64 { return hstr(s) }

// ---------------------------------------------------------------- sites

var siteNames []string

// RegisterSites is called by generated code.
func RegisterSites(names []string) int {
	base := len(siteNames)
	siteNames = append(siteNames, names...)
	return base
}

func atSite(t *Thread) string {
	if t.where != "" {
		return " at " + t.where
	}
	if t.site >= 0 {
		return " at " + SiteName(t.site)
	}
	return ""
}

func SiteName(s int) string {
	if s >= 0 && s < len(siteNames) {
		return siteNames[s]
	}
	return fmt.Sprintf("site%d", s)
}

// ---------------------------------------------------------------- execution

func (x *Exec) setHash(t *Thread, h uint64) {
	x.fp -= mix(t.idh, t.h)
	t.h = h
	x.fp += mix(t.idh, t.h)
}

func newExec(cfg Config, devs []dev) *Exec {
	genCounter++
	x := &Exec{Cfg: cfg, prefix: devs, doneCh: make(chan struct{}), gen: genCounter,
		chans: map[unsafe.Pointer]*chanState{}, atomics: map[unsafe.Pointer]*Obj{},
		openFDs: map[*os.File]string{}}
	if len(devs) > 0 {
		x.nprefix = int(devs[len(devs)-1].pos) + 1
	}
	if cfg.MaxStep == 0 {
		x.Cfg.MaxStep = 2000000
	}
	if cfg.Data {
		x.shadow = map[uintptr]*shadow{}
		x.mapObjs = map[unsafe.Pointer]*shadow{}
	}
	return x
}

// NewExec creates an execution that follows the given choices, then defaults.
func NewExec(cfg Config, choices []int) *Exec {
	var d []dev
	for i, c := range choices {
		if c != 0 {
			d = append(d, dev{int32(i), int32(c)})
		}
	}
	return newExec(cfg, d)
}

func (x *Exec) newThread(parent *Thread) *Thread {
	t := &Thread{id: len(x.threads), wake: make(chan struct{}, 1), x: x}
	if parent != nil {
		parent.nchild++
		t.idh = mix(parent.idh, uint64(parent.nchild)+77)
		t.h = mix(parent.h, 0x51)
		t.vc = parent.vc.clone()
	} else {
		t.idh = 0x1234567
	}
	if x.Cfg.Data {
		for len(t.vc) <= t.id {
			t.vc = append(t.vc, 0)
		}
		t.vc[t.id] = 1
	}
	x.threads = append(x.threads, t)
	x.live = append(x.live, t)
	x.fp += mix(t.idh, t.h)
	return t
}

func (x *Exec) start(t *Thread, f func()) {
	go func() {
		debug.SetPanicOnFault(true)
		<-t.wake
		normal := false
		defer func() {
			if !normal && !x.aborting {
				if r := recover(); r != nil {
					if _, ok := r.(abortT); !ok {
						x.fail("panic", fmt.Sprintf("%v in %s", panicText(r), panicWhere()))
					}
				} else {
					// runtime.Goexit called by the program (or by fail)
				}
			} else if !normal {
				recover()
			}
			x.finish(t)
		}()
		if !x.aborting {
			f()
		}
		normal = true
	}()
}

func panicText(r interface{}) string {
	if e, ok := r.(error); ok {
		return "panic: " + e.Error()
	}
	return fmt.Sprintf("panic: %v", r)
}

func panicWhere() string {
	pcs := make([]uintptr, 40)
	n := runtime.Callers(4, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.File, "/speed") || strings.Contains(f.Function, "performancecopilot") {
			i := strings.LastIndex(f.File, "/")
			return fmt.Sprintf("%s (%s:%d)", f.Function[strings.LastIndex(f.Function, "/")+1:], f.File[i+1:], f.Line)
		}
		if !more {
			return "unknown"
		}
	}
}

func (x *Exec) finish(t *Thread) {
	t.done = true
	if x.aborting {
		// the aborter drives the remaining threads one by one
		x.abortNext()
		return
	}
	x.observe()
	if x.aborting {
		x.abortNext()
		return
	}
	nxt := x.pick(t)
	if nxt == nil {
		return
	}
	x.cur = nxt
	nxt.wake <- struct{}{}
}

// abortNext unwinds one remaining thread, or completes the execution.
func (x *Exec) abortNext() {
	for _, t := range x.threads {
		if !t.done {
			x.cur = t
			t.wake <- struct{}{}
			return
		}
	}
	close(x.doneCh)
}

func (x *Exec) fail(kind, msg string) {
	if x.Viol == nil && !x.pruned && Known != nil && Known(kind, msg) {
		x.knownHit = true
		x.aborting = true
		return
	}
	if x.Viol == nil && !x.pruned && !x.knownHit {
		x.Viol = &Violation{kind, msg}
	}
	x.aborting = true
}

// Fail records a violation and ends the execution.
func (x *Exec) Fail(kind, format string, a ...interface{}) {
	x.fail(kind, fmt.Sprintf(format, a...))
	runtime.Goexit()
}

// FailNoExit records a violation without unwinding (for observers).
func (x *Exec) FailNoExit(kind, format string, a ...interface{}) {
	x.fail(kind, fmt.Sprintf(format, a...))
}

// Run executes body as thread 0 and returns when every thread has ended.
func (x *Exec) Run(body func()) {
	if X != nil {
		panic("mc: nested execution")
	}
	X = x
	t := x.newThread(nil)
	x.cur = t
	x.start(t, body)
	t.wake <- struct{}{}
	<-x.doneCh
	for i := len(x.sysUndo) - 1; i >= 0; i-- {
		x.sysUndo[i]()
	}
	X = nil
	x.shadow, x.mapObjs, x.chans = nil, nil, nil
	for _, r := range x.regions {
		if r.undo != nil {
			r.undo()
		}
	}
	for f := range x.openFDs {
		f.Close()
	}
}

// pick chooses the next thread; t is the thread at the point (or just ended).
// nil means the execution has ended (completed, deadlocked, or aborted).
func (x *Exec) compact() {
	l := x.live[:0]
	for _, o := range x.live {
		if !o.done {
			l = append(l, o)
		}
	}
	x.live = l
}

func (x *Exec) pick(t *Thread) *Thread {
	for {
		if (x.Cfg.Fixed || x.quiet > 0) && x.Cfg.Order == CurrentFirst && x.Victim == 0 {
			// the choice below would be the first one
			if !t.done && (t.enabled == nil || t.enabled()) {
				return t
			}
			gone := 0
			for _, o := range x.live {
				if o.done {
					gone++
				} else if o != t && (o.enabled == nil || o.enabled()) {
					if gone > 64 {
						x.compact()
					}
					return o
				}
			}
		}
		var en [64]*Thread
		l := en[:0]
		curEn := false
		if !t.done && (t.enabled == nil || t.enabled()) {
			l = append(l, t)
			curEn = true
		}
		all := true
		for _, o := range x.threads {
			if o.done {
				continue
			}
			all = false
			if o != t && (o.enabled == nil || o.enabled()) {
				l = append(l, o)
			}
		}
		if len(l) == 0 {
			if all {
				close(x.doneCh)
				return nil
			}
			// advance the clock to the earliest sleeper
			var min time.Duration
			for _, o := range x.threads {
				if !o.done && o.wakeAt > x.now && (min == 0 || o.wakeAt < min) {
					min = o.wakeAt
				}
			}
			if min > 0 {
				x.now = min
				continue
			}
			var b []string
			for _, o := range x.threads {
				if !o.done {
					b = append(b, fmt.Sprintf("thread %d blocked in %s%s", o.id, o.op, atSite(o)))
				}
			}
			if x.threads[0].done {
				x.Leaked = b
				if x.LeakBad {
					x.fail("leak", strings.Join(b, "; "))
				}
				x.aborting = true
			} else {
				x.fail("deadlock", strings.Join(b, "; "))
			}
			return x.abortFrom(t)
		}
		if len(l) == 1 {
			return l[0]
		}
		if x.Victim > 0 {
			if curEn && t.id != x.Victim {
				return t
			}
			// of the threads that have not begun the first is enough
			k, begun := l[:0], true
			for _, o := range l {
				if o.op == "start" && o.id != x.Victim {
					if !begun {
						continue
					}
					begun = false
				}
				k = append(k, o)
			}
			if l = k; len(l) == 1 {
				return l[0]
			}
		}
		if x.Cfg.Order != CurrentFirst { // only the first one matters
			n, best := len(x.threads), 0
			for i := range l {
				a, b := int(l[i].id), int(l[best].id)
				switch x.Cfg.Order {
				case NewestFirst:
					a, b = -a, -b
				case RoundRobin: // the thread after this one
					a, b = (a-int(t.id)-1+n)%n, (b-int(t.id)-1+n)%n
				}
				if a < b {
					best = i
				}
			}
			l[0], l[best] = l[best], l[0]
		}
		alt := x.choose(KSched, len(l), curEn)
		if x.aborting {
			return x.abortFrom(t)
		}
		return l[alt]
	}
}

// abortFrom starts unwinding: if t is still alive it continues (and will
// Goexit); otherwise another live thread is returned; nil when none is left.
func (x *Exec) abortFrom(t *Thread) *Thread {
	if !t.done {
		return t
	}
	for _, o := range x.threads {
		if !o.done {
			return o
		}
	}
	close(x.doneCh)
	return nil
}

func (x *Exec) choose(kind, n int, curEn bool) int {
	if x.quiet > 0 {
		return 0
	}
	i := len(x.Points)
	alt := 0
	if x.pi < len(x.prefix) && int(x.prefix[x.pi].pos) == i {
		alt = int(x.prefix[x.pi].alt)
		x.pi++
		if alt >= n {
			x.diverged = true
			x.aborting = true
			return 0
		}
	}
	if i >= x.nprefix && x.cache != nil {
		cid := uint64(0)
		if curEn {
			cid = x.cur.idh
		}
		key := mix(mix(x.fp, cid), uint64(kind)<<8|uint64(n))
		if x.cache(key, i) {
			x.pruned = true
			x.prunedAt = i
			x.aborting = true
			return 0
		}
	}
	x.Points = append(x.Points, Point{n, kind, curEn})
	x.Taken = append(x.Taken, alt)
	return alt
}

// Quiet runs f under the default schedule and without faults: setup that is
// not part of what is explored.
func (x *Exec) Quiet(f func()) {
	x.quiet++
	f()
	x.quiet--
}

// Choose is a harness- or environment-level choice.
func (x *Exec) Choose(kind, n int) int {
	t := x.cur
	if x.aborting {
		x.bail()
		return 0
	}
	if n <= 1 {
		return 0
	}
	a := x.choose(kind, n, false)
	if x.aborting {
		x.bail()
		return 0
	}
	x.setHash(t, mix(t.h, uint64(a)+1000))
	return a
}

func (x *Exec) bail() {
	runtime.Goexit()
}

// point is a scheduling point of the running thread before operation op.
func (x *Exec) point(site int, op string, enabled func() bool) {
	t := x.cur
	if x.aborting {
		runtime.Goexit()
	}
	x.Steps++
	if x.Steps > x.Cfg.MaxStep {
		x.fail("livelock", fmt.Sprintf("more than %d steps; thread %d in %s at %s", x.Cfg.MaxStep, t.id, op, SiteName(site)))
		runtime.Goexit()
	}
	x.observe()
	if x.aborting {
		runtime.Goexit()
	}
	t.enabled, t.op, t.site = enabled, op, site
	t.where = ""
	if x.Cfg.Trace {
		t.where = SiteName(site)
		if site < 0 {
			t.where = callSite(3)
		}
		x.TraceLog = append(x.TraceLog, fmt.Sprintf("t%d at %s @%s", t.id, op, t.where))
	}
	nxt := x.pick(t)
	if nxt != t {
		if nxt == nil {
			runtime.Goexit()
		}
		x.cur = nxt
		nxt.wake <- struct{}{}
		<-t.wake
	}
	if x.aborting {
		runtime.Goexit()
	}
	t.enabled = nil
	// passing a point is progress of the thread, whatever it does next
	x.setHash(t, mix(t.h, 0x5157))
	if x.Cfg.Trace {
		x.TraceLog = append(x.TraceLog, fmt.Sprintf("t%d does %s @%s", t.id, op, t.where))
	}
}

// Aborting reports whether the current execution is being unwound.
func aborting() bool { return X != nil && X.aborting }

// ---------------------------------------------------------------- objects

// Obj is the model state attached to a synchronisation object.
type Obj struct {
	gen   uint64
	h, rh uint64
	vc    VC
	rvc   VC
}

func (o *Obj) fresh(x *Exec) bool {
	if o.gen != x.gen {
		*o = Obj{gen: x.gen}
		return true
	}
	return false
}

// acqrel: the running thread performs a totally ordered op on o.
func (x *Exec) acqrel(o *Obj, code uint64) {
	o.fresh(x)
	t := x.cur
	t.vc.join(o.vc)
	h := mix(mix(t.h, o.h), code)
	x.setHash(t, h)
	o.h = h
	o.vc = t.vc.clone()
	t.tick()
}

func (x *Exec) acquire(o *Obj, code uint64) {
	o.fresh(x)
	t := x.cur
	t.vc.join(o.vc)
	h := mix(mix(t.h, o.h), code)
	x.setHash(t, h)
	o.h = h
}

func (x *Exec) release(o *Obj, code uint64) {
	o.fresh(x)
	t := x.cur
	h := mix(mix(t.h, o.h), code)
	x.setHash(t, h)
	o.h = h
	o.vc.join(t.vc)
	t.tick()
}

// Go starts a controlled thread.
func Go(site int, f func()) {
	x := X
	if x == nil {
		panic("mc: go statement outside an execution at " + SiteName(site))
	}
	if x.aborting {
		return
	}
	p := x.cur
	if max := x.Cfg.MaxThr; len(x.threads) > max && max > 0 || len(x.threads) > 20000 && max == 0 {
		x.fail("effort", fmt.Sprintf("more than %d goroutines started", len(x.threads)-1))
		runtime.Goexit()
	}
	t := x.newThread(p)
	x.setHash(p, mix(p.h, 0xC0))
	p.tick()
	t.site, t.op = site, "start"
	if x.Cfg.Trace {
		x.TraceLog = append(x.TraceLog, fmt.Sprintf("t%d go t%d @%s", p.id, t.id, SiteName(site)))
	}
	x.start(t, f)
	x.relPoint(site)
}

// relPoint is a scheduling point after a release operation; it matters only
// when memory is observed from outside the program.
func (x *Exec) relPoint(site int) {
	if (x.Cfg.RelPt || polls) && !x.aborting {
		x.point(site, "after release", nil)
	}
}

// acqPoint is a scheduling point after an acquire operation; it matters only
// in programs that look whether a lock is held without waiting for it.
func (x *Exec) acqPoint(site int) {
	if polls && !x.aborting {
		x.point(site, "after acquire", nil)
	}
}

var polls bool

// Polls is called by generated code of programs that do so.
func Polls() bool {
	polls = true
	return true
}

// Yield is runtime.Gosched.
func Yield(site int) {
	if X == nil {
		return
	}
	X.point(site, "yield", nil)
}

// Mark is a scheduling point totally ordered with all other marks; harnesses
// use it for call/return events of a history.
func Mark(tag string) {
	x := X
	x.point(-1, "mark "+tag, nil)
	if x.aborting {
		return
	}
	x.acqrelNoHB(&x.markObj, hstr(tag))
}

// acqrelNoHB orders hashes without creating happens-before.
func (x *Exec) acqrelNoHB(o *Obj, code uint64) {
	o.fresh(x)
	t := x.cur
	h := mix(mix(t.h, o.h), code)
	x.setHash(t, h)
	o.h = h
}

// ThreadID of the running thread.
func ThreadID() int { return X.cur.id }

// ---------------------------------------------------------------- clock

var epoch = time.Unix(1600000000, 123456789).UTC()

// Now is time.Now under the virtual clock.
func Now() time.Time {
	if X == nil {
		return epoch
	}
	if X.cur != nil && !X.aborting && !X.inMem {
		X.setHash(X.cur, mix(X.cur.h, mix(X.clkObj.h, 7)))
	}
	now := epoch.Add(X.now)
	if X.Tick != 0 && X.cur != nil && !X.aborting && !X.inMem {
		Advance(X.Tick)
	}
	return now
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Advance moves the virtual clock (harness only).
func Advance(d time.Duration) {
	X.acqrelNoHB(&X.clkObj, uint64(d)+5)
	X.now += d
}

func Sleep(d time.Duration) {
	x := X
	if x == nil {
		return
	}
	t := x.cur
	if x.aborting {
		return
	}
	t.wakeAt = x.now + d
	at := t.wakeAt
	x.point(-1, "sleep", func() bool { return x.now >= at })
	t.wakeAt = 0
}

func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	if X == nil {
		return c
	}
	Go(-1, func() { Sleep(d); Send(-1, c)(Now()) })
	return c
}

// ---------------------------------------------------------------- map order

type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func RangeMap[M ~map[K]V, K comparable, V any](site int, m M) (it *MapIter[K, V], k K, v V) {
	MR(site, m)
	it = &MapIter[K, V]{m: m}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	return
}

func RangeMap0[M ~map[K]V, K comparable, V any](site int, m M) *MapIter[K, V] {
	it, _, _ := RangeMap(site, m)
	return it
}

func sortKeys[K comparable](ks []K) {
	switch s := any(ks).(type) {
	case []string:
		sort.Strings(s)
	case []int:
		sort.Ints(s)
	case []uint64:
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	default:
		if len(ks) > 1 {
			strs := make([]string, len(ks))
			idx := make([]int, len(ks))
			for i := range ks {
				strs[i] = fmt.Sprintf("%v", ks[i])
				idx[i] = i
			}
			sort.Slice(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
			out := make([]K, len(ks))
			for i, j := range idx {
				out[i] = ks[j]
			}
			copy(ks, out)
		}
	}
}

// Next yields the next entry; the order of entries is a choice (KMap).
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		i := 0
		if x := X; x != nil && x.Cfg.MapPerm && len(it.keys) > 1 && !x.aborting {
			i = x.Choose(KMap, len(it.keys))
		}
		key := it.keys[i]
		copy(it.keys[1:i+1], it.keys[:i])
		it.keys = it.keys[1:]
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

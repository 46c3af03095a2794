package main

// Declarative specifications of registries and the reference model of every
// kind of metric: what each operation has to return and to change.

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	hdr "github.com/HdrHistogram/hdrhistogram-go"
	"github.com/performancecopilot/speed/v4"

	"verif/mc"
	"verif/mc/mcos"
)

type ISpec struct {
	Name  string
	Insts []string
	Desc  []string
	Key   string // of one of several objects with the same name
}

func (d *ISpec) key() string {
	if d.Key != "" {
		return d.Key
	}
	return d.Name
}

type MSpec struct {
	Kind   string // single counter gauge timer inst cvec gvec hist
	Name   string
	Type   speed.MetricType
	Sem    speed.MetricSemantics
	Unit   speed.MetricUnit
	Code   uint32 // expected PMAPI code
	Desc   []string
	Indom  string                 // inst: name of the indom
	Obj    string                 // inst: key of the indom object, if not the name
	Vals   map[string]interface{} // initial values; "" for single
	Lo, Hi int64                  // hist
	Sig    int
}

type RSpec struct {
	Indoms  []ISpec // constructed, in this order
	RegInd  []string
	Metrics []MSpec
	Flag    speed.MMVFlag
}

func (s *MSpec) obj() string {
	if s.Obj != "" {
		return s.Obj
	}
	return s.Indom
}

func (s *MSpec) typ() speed.MetricType {
	switch s.Kind {
	case "counter", "cvec":
		return speed.Int64Type
	case "gauge", "gvec", "timer", "hist":
		return speed.DoubleType
	}
	return s.Type
}

func (s *MSpec) sem() speed.MetricSemantics {
	switch s.Kind {
	case "counter", "cvec":
		return speed.CounterSemantics
	case "gauge", "gvec", "hist":
		return speed.InstantSemantics
	case "timer":
		return speed.DiscreteSemantics
	}
	return s.Sem
}

const (
	codeOne   = 1 << 20
	codeNanos = 1 << 24
)

func (s *MSpec) code() uint32 {
	switch s.Kind {
	case "counter", "cvec", "gauge", "gvec":
		return codeOne
	}
	return s.Code
}

func (s *MSpec) unit() speed.MetricUnit {
	if s.Unit == nil {
		return speed.OneUnit
	}
	return s.Unit
}

func (s *MSpec) indomName() string {
	switch s.Kind {
	case "inst":
		return s.Indom
	case "cvec", "gvec":
		return s.Name + ".indom"
	case "hist":
		return "histogram"
	}
	return ""
}

var histInsts = []string{"max", "mean", "min", "standard_deviation", "variance"}

// LM is a live metric with its reference state.
type LM struct {
	S     *MSpec
	M     speed.Metric
	Indom *speed.PCPInstanceDomain
	Cur   map[string]interface{}
	Rec   []int64 // hist: accepted values
	On    bool    // timer: running
	Since int64   // timer: start on the virtual clock, ns
	Acc   float64
}

func (m *LM) clone() *LM {
	c := *m
	c.Cur = map[string]interface{}{}
	for k, v := range m.Cur {
		c.Cur[k] = v
	}
	c.Rec = append([]int64(nil), m.Rec...)
	return &c
}

func (m *LM) insts() []string {
	var l []string
	for k := range m.Cur {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func cpy(m map[string]interface{}) speed.Instances {
	r := speed.Instances{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// newLM constructs the metric; err is the constructor's error.
func newLM(s *MSpec, ind *speed.PCPInstanceDomain) (*LM, error) {
	m := &LM{S: s, Cur: map[string]interface{}{}, Indom: ind}
	var err error
	switch s.Kind {
	case "single":
		m.M, err = nn(speed.NewPCPSingletonMetric(s.Vals[""], s.Name, s.Type, s.Sem, s.unit(), s.Desc...))
		if err == nil {
			m.Cur[""] = resolve(s.Type, s.Vals[""])
		}
	case "counter":
		m.M, err = nn(speed.NewPCPCounter(s.Vals[""].(int64), s.Name, s.Desc...))
		m.Cur[""] = s.Vals[""]
	case "gauge":
		m.M, err = nn(speed.NewPCPGauge(s.Vals[""].(float64), s.Name, s.Desc...))
		m.Cur[""] = s.Vals[""]
	case "timer":
		m.M, err = nn(speed.NewPCPTimer(s.Name, s.Unit.(speed.TimeUnit), s.Desc...))
		m.Cur[""] = float64(0)
	case "inst":
		m.M, err = nn(speed.NewPCPInstanceMetric(cpy(s.Vals), s.Name, ind, s.Type, s.Sem, s.unit(), s.Desc...))
		if err == nil {
			for k, v := range s.Vals {
				m.Cur[k] = resolve(s.Type, v)
			}
		}
	case "cvec":
		v := map[string]int64{}
		for k, x := range s.Vals {
			v[k] = x.(int64)
			m.Cur[k] = x
		}
		m.M, err = nn(speed.NewPCPCounterVector(v, s.Name, s.Desc...))
	case "gvec":
		v := map[string]float64{}
		for k, x := range s.Vals {
			v[k] = x.(float64)
			m.Cur[k] = x
		}
		m.M, err = nn(speed.NewPCPGaugeVector(v, s.Name, s.Desc...))
	case "hist":
		m.M, err = nn(speed.NewPCPHistogram(s.Name, s.Lo, s.Hi, s.Sig, s.unit(), s.Desc...))
		for _, k := range histInsts {
			m.Cur[k] = float64(0)
		}
	default:
		panic("kind " + s.Kind)
	}
	if err != nil {
		return nil, err
	}
	return m, nil
}

func nn[M speed.Metric](m M, err error) (speed.Metric, error) {
	if err != nil {
		return nil, err
	}
	return m, nil
}

// ------------------------------------------------------------- value model

// accepts says whether type t can hold v (property C12).
func accepts(t speed.MetricType, v interface{}) bool {
	switch v := v.(type) {
	case int:
		switch t {
		case speed.Int32Type:
			return int64(v) >= -1<<31 && int64(v) < 1<<31
		case speed.Uint32Type:
			return int64(v) >= 0 && int64(v) < 1<<32
		case speed.Int64Type:
			return true
		case speed.Uint64Type:
			return v >= 0
		}
	case uint:
		switch t {
		case speed.Uint32Type:
			return uint64(v) < 1<<32
		case speed.Uint64Type:
			return true
		}
	case int32:
		return t == speed.Int32Type
	case int64:
		return t == speed.Int64Type
	case uint32:
		return t == speed.Uint32Type
	case uint64:
		return t == speed.Uint64Type
	case float32:
		return t == speed.FloatType
	case float64:
		return t == speed.DoubleType || t == speed.FloatType && math.Abs(v) <= math.MaxFloat32
	case string:
		return t == speed.StringType && len(v) <= 255
	}
	return false
}

// resolve converts an accepted value to the metric's type.
func resolve(t speed.MetricType, v interface{}) interface{} {
	switch v := v.(type) {
	case int:
		switch t {
		case speed.Int32Type:
			return int32(v)
		case speed.Uint32Type:
			return uint32(v)
		case speed.Int64Type:
			return int64(v)
		case speed.Uint64Type:
			return uint64(v)
		}
	case uint:
		switch t {
		case speed.Uint32Type:
			return uint32(v)
		case speed.Uint64Type:
			return uint64(v)
		}
	case float64:
		if t == speed.FloatType {
			return float32(v)
		}
	}
	return v
}

// same compares values; zeros of either sign are equal, and so are NaNs.
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	case float32:
		y, ok := b.(float32)
		return ok && (x == y || x != x && y != y)
	}
	return a == b
}

// ------------------------------------------------------------- operations

type Op struct {
	Name string
	Arg  interface{}
	Inst string
	N    int64
}

func (o Op) String() string {
	s := o.Name + "("
	if o.Arg != nil {
		a := fmt.Sprintf("%v", o.Arg)
		if len(a) > 40 {
			a = fmt.Sprintf("%.20s...%d bytes", a, len(a))
		}
		s += a
	}
	if o.N != 0 {
		s += fmt.Sprintf(",%d", o.N)
	}
	if o.Inst != "" {
		s += "," + o.Inst
	}
	return s + ")"
}

type Res struct {
	Err   bool
	Panic bool
	Val   interface{}
	Msg   string
}

func (r Res) same(o Res) bool {
	return r.Err == o.Err && r.Panic == o.Panic && same(r.Val, o.Val)
}

func (r Res) String() string {
	switch {
	case r.Panic:
		return "panic"
	case r.Err:
		return "error"
	case r.Val != nil:
		return fmt.Sprintf("%v", r.Val)
	}
	return "ok"
}

func try(f func() (interface{}, error)) (r Res) {
	defer func() {
		if p := recover(); p != nil {
			r = Res{Panic: true, Msg: fmt.Sprint(p)}
		}
	}()
	v, err := f()
	if err != nil {
		return Res{Err: true, Msg: err.Error()}
	}
	return Res{Val: v}
}

func must0(f func()) func() (interface{}, error) {
	return func() (interface{}, error) { f(); return nil, nil }
}

func e0(f func() error) func() (interface{}, error) {
	return func() (interface{}, error) { return nil, f() }
}

// apply performs op on the real metric.
func (m *LM) apply(o Op) Res {
	switch x := m.M.(type) {
	case *speed.PCPSingletonMetric:
		switch o.Name {
		case "Set":
			return try(e0(func() error { return x.Set(o.Arg) }))
		case "MustSet":
			return try(must0(func() { x.MustSet(o.Arg) }))
		case "Val":
			return try(func() (interface{}, error) { return x.Val(), nil })
		}
	case *speed.PCPCounter:
		switch o.Name {
		case "Set":
			return try(e0(func() error { return x.Set(o.Arg.(int64)) }))
		case "Inc":
			return try(e0(func() error { return x.Inc(o.Arg.(int64)) }))
		case "MustInc":
			return try(must0(func() { x.MustInc(o.Arg.(int64)) }))
		case "Up":
			return try(must0(func() { x.Up() }))
		case "Val":
			return try(func() (interface{}, error) { return x.Val(), nil })
		}
	case *speed.PCPGauge:
		switch o.Name {
		case "Set":
			return try(e0(func() error { return x.Set(o.Arg.(float64)) }))
		case "MustSet":
			return try(must0(func() { x.MustSet(o.Arg.(float64)) }))
		case "Inc":
			return try(e0(func() error { return x.Inc(o.Arg.(float64)) }))
		case "MustInc":
			return try(must0(func() { x.MustInc(o.Arg.(float64)) }))
		case "Dec":
			return try(e0(func() error { return x.Dec(o.Arg.(float64)) }))
		case "MustDec":
			return try(must0(func() { x.MustDec(o.Arg.(float64)) }))
		case "Val":
			return try(func() (interface{}, error) { return x.Val(), nil })
		}
	case *speed.PCPTimer:
		switch o.Name {
		case "Start":
			return try(e0(x.Start))
		case "Reset":
			return try(e0(x.Reset))
		case "Stop":
			return try(func() (interface{}, error) {
				v, err := x.Stop()
				return v, err
			})
		}
	case *speed.PCPInstanceMetric:
		switch o.Name {
		case "Set":
			return try(e0(func() error { return x.SetInstance(o.Arg, o.Inst) }))
		case "MustSet":
			return try(must0(func() { x.MustSetInstance(o.Arg, o.Inst) }))
		case "Val":
			return try(func() (interface{}, error) { return x.ValInstance(o.Inst) })
		}
	case *speed.PCPCounterVector:
		switch o.Name {
		case "Set":
			return try(e0(func() error { return x.Set(o.Arg.(int64), o.Inst) }))
		case "MustSet":
			return try(must0(func() { x.MustSet(o.Arg.(int64), o.Inst) }))
		case "SetAll":
			return try(must0(func() { x.SetAll(o.Arg.(int64)) }))
		case "Inc":
			return try(e0(func() error { return x.Inc(o.Arg.(int64), o.Inst) }))
		case "MustInc":
			return try(must0(func() { x.MustInc(o.Arg.(int64), o.Inst) }))
		case "IncAll":
			return try(must0(func() { x.IncAll(o.Arg.(int64)) }))
		case "Up":
			return try(must0(func() { x.Up(o.Inst) }))
		case "UpAll":
			return try(must0(func() { x.UpAll() }))
		case "Val":
			return try(func() (interface{}, error) { v, err := x.Val(o.Inst); return v, err })
		}
	case *speed.PCPGaugeVector:
		switch o.Name {
		case "Set":
			return try(e0(func() error { return x.Set(o.Arg.(float64), o.Inst) }))
		case "MustSet":
			return try(must0(func() { x.MustSet(o.Arg.(float64), o.Inst) }))
		case "SetAll":
			return try(must0(func() { x.SetAll(o.Arg.(float64)) }))
		case "Inc":
			return try(e0(func() error { return x.Inc(o.Arg.(float64), o.Inst) }))
		case "MustInc":
			return try(must0(func() { x.MustInc(o.Arg.(float64), o.Inst) }))
		case "IncAll":
			return try(must0(func() { x.IncAll(o.Arg.(float64)) }))
		case "Dec":
			return try(e0(func() error { return x.Dec(o.Arg.(float64), o.Inst) }))
		case "MustDec":
			return try(must0(func() { x.MustDec(o.Arg.(float64), o.Inst) }))
		case "DecAll":
			return try(must0(func() { x.DecAll(o.Arg.(float64)) }))
		case "Val":
			return try(func() (interface{}, error) { v, err := x.Val(o.Inst); return v, err })
		}
	case *speed.PCPHistogram:
		switch o.Name {
		case "Record":
			return try(e0(func() error { return x.Record(o.Arg.(int64)) }))
		case "RecordN":
			return try(e0(func() error { return x.RecordN(o.Arg.(int64), o.N) }))
		case "MustRecord":
			return try(must0(func() { x.MustRecord(o.Arg.(int64)) }))
		case "MustRecordN":
			return try(must0(func() { x.MustRecordN(o.Arg.(int64), o.N) }))
		case "Max":
			return try(func() (interface{}, error) { return x.Max(), nil })
		case "Min":
			return try(func() (interface{}, error) { return x.Min(), nil })
		case "Mean":
			return try(func() (interface{}, error) { return x.Mean(), nil })
		case "Variance":
			return try(func() (interface{}, error) { return x.Variance(), nil })
		case "StandardDeviation":
			return try(func() (interface{}, error) { return x.StandardDeviation(), nil })
		case "Percentile":
			return try(func() (interface{}, error) { return x.Percentile(o.percentile()), nil })
		case "Buckets":
			return try(func() (interface{}, error) { return bucketText(x.Buckets()), nil })
		}
	}
	panic(fmt.Sprintf("operation %v on %s", o, m.S.Kind))
}

func (o Op) percentile() float64 {
	if p, ok := o.Arg.(float64); ok {
		return p
	}
	return float64(o.N)
}

var errRes, okRes, panicRes = Res{Err: true}, Res{}, Res{Panic: true}

// spec performs op on the reference state and returns the required result.
// Forms that update several instances (SetAll, IncAll, ...) stop at the first
// failing one, whose position depends on the map order; see step.
func (m *LM) spec(o Op) Res {
	fail := errRes
	name := o.Name
	switch name {
	case "MustSet", "MustInc", "MustDec", "MustRecord", "MustRecordN":
		fail, name = panicRes, name[4:]
	case "Up":
		fail, name, o.Arg = panicRes, "Inc", int64(1)
	}
	switch name {
	case "SetAll", "IncAll", "DecAll", "UpAll":
		if name == "UpAll" {
			name, o.Arg = "IncAll", int64(1)
		}
		res := okRes
		for _, i := range m.insts() {
			if r := m.spec(Op{Name: name[:3], Arg: o.Arg, Inst: i}); r.Err {
				res = panicRes
			}
		}
		return res
	}
	cur, ok := m.Cur[o.Inst]
	if !ok && m.S.Kind != "hist" {
		return fail
	}
	switch m.S.Kind {
	case "single", "inst":
		switch name {
		case "Val":
			return Res{Val: cur}
		case "Set":
			if !accepts(m.S.Type, o.Arg) {
				return fail
			}
			m.Cur[o.Inst] = resolve(m.S.Type, o.Arg)
			return okRes
		}
	case "counter", "cvec":
		c := cur.(int64)
		switch name {
		case "Val":
			return Res{Val: c}
		case "Set":
			if o.Arg.(int64) < c {
				return fail
			}
			m.Cur[o.Inst] = o.Arg
			return okRes
		case "Inc":
			n := o.Arg.(int64)
			if n < 0 || c > math.MaxInt64-n {
				return fail
			}
			m.Cur[o.Inst] = c + n
			return okRes
		}
	case "gauge", "gvec":
		c := cur.(float64)
		switch name {
		case "Val":
			return Res{Val: c}
		case "Set":
			m.Cur[o.Inst] = o.Arg
			return okRes
		case "Inc":
			m.Cur[o.Inst] = c + o.Arg.(float64)
			return okRes
		case "Dec":
			m.Cur[o.Inst] = c - o.Arg.(float64)
			return okRes
		}
	case "hist":
		switch name {
		case "Max", "Min":
			return Res{Val: int64(m.Cur[strings.ToLower(name)].(float64))}
		case "Mean":
			return Res{Val: m.Cur["mean"]}
		case "Variance":
			return Res{Val: m.Cur["variance"]}
		case "StandardDeviation":
			return Res{Val: m.Cur["standard_deviation"]}
		case "Percentile":
			return Res{Val: m.refHist().ValueAtQuantile(o.percentile())}
		case "Buckets":
			return Res{Val: barText(m.refHist().Distribution())}
		case "Record", "RecordN":
			n := int64(1)
			if name == "RecordN" {
				n = o.N
			}
			if !m.record(o.Arg.(int64), n) {
				return fail
			}
			return okRes
		}
	case "timer":
		switch name {
		case "Start":
			if m.On {
				return fail
			}
			m.On, m.Since = true, vnow()
			return okRes
		case "Stop":
			if !m.On {
				return fail
			}
			m.On = false
			v := cur.(float64) + float64(vnow()-m.Since)/unitNanos(m.S.Unit.(speed.TimeUnit))
			m.Cur[""] = v
			return Res{Val: v}
		case "Reset":
			if m.On {
				return fail
			}
			m.Cur[""] = float64(0)
			return okRes
		}
	}
	panic(fmt.Sprintf("spec of %v on %s", o, m.S.Kind))
}

// refHist is an independent histogram with the accepted values.
func (m *LM) refHist() *hdr.Histogram {
	lo, hi, sig := clamp(m.S.Lo, 0, 3600000000), clamp(m.S.Hi, 0, 3600000000), clamp(int64(m.S.Sig), 1, 5)
	r := hdr.New(lo, hi, int(sig))
	for i := 0; i < len(m.Rec); i += 2 {
		if err := r.RecordValues(m.Rec[i], m.Rec[i+1]); err != nil {
			panic(err)
		}
	}
	return r
}

func clamp(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// record notes n values v if the histogram can hold them.
func (m *LM) record(v, n int64) bool {
	r := m.refHist()
	if v < 0 || r.RecordValues(v, n) != nil {
		return false
	}
	m.Rec = append(m.Rec, v, n)
	sd := r.StdDev()
	m.Cur = map[string]interface{}{"min": float64(r.Min()), "max": float64(r.Max()), "mean": r.Mean(), "standard_deviation": sd, "variance": sd * sd}
	return true
}

// near compares numbers up to rounding.
func near(a, b interface{}) bool {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if !ok1 || !ok2 {
		return same(a, b)
	}
	return same(a, b) || math.Abs(x-y) <= 1e-9*math.Max(math.Abs(x), math.Abs(y))
}

// eq compares a result; what timers and histograms compute may be rounded
// differently.
func (m *LM) eq(got, want Res) bool {
	switch m.S.Kind {
	case "timer", "hist":
		return got.Err == want.Err && got.Panic == want.Panic && near(got.Val, want.Val)
	}
	return got.same(want)
}

// adopt takes over the exact numbers the metric reports where they may be
// rounded differently.
func (m *LM) adopt(got Res) {
	switch m.S.Kind {
	case "timer":
		if v, ok := got.Val.(float64); ok {
			m.Cur[""] = v
		}
	case "hist":
		for _, i := range histInsts {
			if v, ok := m.read(i); ok && near(v, m.Cur[i]) {
				m.Cur[i] = v
			}
		}
	}
}

// step performs op on the metric and on the reference and compares.
func (m *LM) step(h *H, o Op) Res {
	before := m.clone()
	got := m.apply(o)
	want := m.spec(o)
	if m.eq(got, want) {
		m.adopt(got)
	} else {
		h.Fail("result", "%s %q: %v gives %v, expected %v (before: %v)", m.S.Kind, m.S.Name, o, got, want, before.Cur)
	}
	if want.Panic && strings.HasSuffix(o.Name, "All") {
		// it stopped at the first instance that failed
		for _, i := range m.insts() {
			if v, ok := m.read(i); ok && same(v, before.Cur[i]) {
				m.Cur[i] = before.Cur[i]
			}
		}
	}
	h.W.trans++
	return got
}

func vnow() int64 { return mc.Now().UnixNano() }

func unitNanos(u speed.TimeUnit) float64 {
	switch u {
	case speed.NanosecondUnit:
		return 1
	case speed.MicrosecondUnit:
		return 1e3
	case speed.MillisecondUnit:
		return 1e6
	case speed.SecondUnit:
		return 1e9
	case speed.MinuteUnit:
		return 60e9
	case speed.HourUnit:
		return 3600e9
	}
	panic("unit")
}

// read returns what the real metric reports for an instance, and whether the
// kind has a reader at all.
func (m *LM) read(inst string) (interface{}, bool) {
	switch x := m.M.(type) {
	case *speed.PCPTimer:
		return nil, false
	case *speed.PCPHistogram:
		switch inst {
		case "max":
			return float64(x.Max()), true
		case "min":
			return float64(x.Min()), true
		case "mean":
			return x.Mean(), true
		case "variance":
			return x.Variance(), true
		case "standard_deviation":
			return x.StandardDeviation(), true
		}
		return nil, false
	}
	r := m.apply(Op{Name: "Val", Inst: inst})
	if r.Err || r.Panic {
		return r, true
	}
	return r.Val, true
}

// ------------------------------------------------------------- clients

type CL struct {
	h       *H
	Name    string
	C       *speed.PCPClient
	R       *speed.PCPRegistry
	Ms      []*LM
	Ind     []ISpec // registered indoms
	Objs    map[string]*speed.PCPInstanceDomain
	Flag    speed.MMVFlag
	Started bool
}

func (c *CL) path() string { return filepath.Join(c.h.Tmp, "mmv", c.Name) }

// newClient makes a client with a registry built from s.
func (h *H) newClient(name string, s *RSpec) *CL { return h.newClientWith(name, s, nil) }

// newClientWith uses the given domain objects where the names are the same.
func (h *H) newClientWith(name string, s *RSpec, objs map[string]*speed.PCPInstanceDomain) *CL {
	c := &CL{h: h, Name: name, R: speed.NewPCPRegistry(), Objs: map[string]*speed.PCPInstanceDomain{}, Flag: speed.ProcessFlag}
	var err error
	c.C, err = speed.NewPCPClientWithRegistry(name, c.R)
	if err != nil {
		h.Fail("setup", "NewPCPClientWithRegistry(%q): %v", name, err)
	}
	if s.Flag != 0 {
		if err := c.C.SetFlag(s.Flag); err != nil {
			h.Fail("setup", "SetFlag: %v", err)
		}
		c.Flag = s.Flag
	}
	for i := range s.Indoms {
		d := &s.Indoms[i]
		if o := objs[d.key()]; o != nil {
			c.Objs[d.key()] = o
			continue
		}
		o, err := speed.NewPCPInstanceDomain(d.Name, d.Insts, d.Desc...)
		if err != nil {
			h.Fail("setup", "NewPCPInstanceDomain(%q): %v", d.Name, err)
		}
		c.Objs[d.key()] = o
	}
	for _, n := range s.RegInd {
		if err := c.C.RegisterIndom(c.Objs[n]); err != nil {
			h.Fail("setup", "RegisterIndom(%q): %v", n, err)
		}
		c.addIndom(*s.indom(n))
	}
	for i := range s.Metrics {
		ms := &s.Metrics[i]
		m, err := newLM(ms, c.Objs[ms.obj()])
		if err != nil {
			h.Fail("setup", "constructing %s %q: %v", ms.Kind, ms.Name, err)
		}
		if err := c.C.Register(m.M); err != nil {
			h.Fail("setup", "Register(%q): %v", ms.Name, err)
		}
		c.addMetric(m, s)
	}
	return c
}

func (s *RSpec) indom(n string) *ISpec {
	for i := range s.Indoms {
		if s.Indoms[i].key() == n {
			return &s.Indoms[i]
		}
	}
	return nil
}

func (c *CL) addIndom(d ISpec) {
	for _, o := range c.Ind {
		if o.Name == d.Name {
			return
		}
	}
	c.Ind = append(c.Ind, d)
}

// addMetric notes a registered metric in the reference.
func (c *CL) addMetric(m *LM, s *RSpec) {
	c.Ms = append(c.Ms, m)
	switch m.S.Kind {
	case "inst":
		c.addIndom(*s.indom(m.S.obj()))
	case "cvec", "gvec":
		c.addIndom(ISpec{Name: m.S.Name + ".indom", Insts: m.insts()})
	case "hist":
		c.addIndom(ISpec{Name: "histogram", Insts: histInsts})
	}
}

func (c *CL) version2() bool {
	for _, m := range c.Ms {
		if len(m.S.Name) > 63 {
			return true
		}
	}
	for _, d := range c.Ind {
		for _, i := range d.Insts {
			if len(i) > 63 {
				return true
			}
		}
	}
	return false
}

func d2(d []string) (a, b string) {
	if len(d) > 0 {
		a = d[0]
	}
	if len(d) > 1 {
		b = d[1]
	}
	return
}

// want is the canonical description the file must have.
func (c *CL) want() []string {
	var l []string
	L := func(form string, a ...interface{}) { l = append(l, fmt.Sprintf(form, a...)) }
	v := 1
	if c.version2() {
		v = 2
	}
	L("version %d flag %d cluster %d", v, int32(c.Flag), fnv1a(c.Name, 12))
	for _, d := range c.Ind {
		ids := map[string]uint32{}
		for _, i := range d.Insts {
			ids[i] = fnv1a(i, 0)
		}
		a, b := d2(d.Desc)
		L("indom %d short=%q long=%q instances=%s", fnv1a(d.Name, 22), a, b, instList(ids))
	}
	for _, m := range c.Ms {
		l = append(l, m.line())
		for i, v := range m.Cur {
			l = append(l, valueLine(m.S.Name, i, v))
		}
	}
	return l
}

func (m *LM) line() string {
	ind := int32(-1)
	if n := m.S.indomName(); n != "" {
		ind = int32(fnv1a(n, 22))
	}
	a, b := d2(m.S.Desc)
	return fmt.Sprintf("metric %q item=%d type=%d sem=%d unit=%#x indom=%d short=%q long=%q", m.S.Name, fnv1a(m.S.Name, 10),
		int32(m.S.typ()), int32(m.S.sem()), m.S.code(), ind, a, b)
}

func valueLine(metric, inst string, v interface{}) string {
	if s, ok := v.(string); ok {
		return fmt.Sprintf("value %q[%q] = string %q", metric, inst, s)
	}
	return fmt.Sprintf("value %q[%q] = bits %#x", metric, inst, bits(v))
}

// bytes reads the file as another process would.
func (c *CL) bytes() ([]byte, error) { return os.ReadFile(c.path()) }

// checkFile decides C01 for the current content of the file.
func (c *CL) checkFile(when string) *rFile {
	h := c.h
	b, err := c.bytes()
	if err != nil {
		h.Fail("file", "%s: cannot read the file of %q: %v", when, c.Name, err)
	}
	f, err := parse(b)
	if err != nil {
		h.Fail("file", "%s: file of %q is malformed: %v", when, c.Name, err)
	}
	if int(f.pid) != os.Getpid() && int(f.pid) != mcos.Pid {
		h.Fail("file", "%s: process field is %d", when, f.pid)
	}
	if n := c.C.Length(); n != len(b) {
		h.Fail("file", "%s: client reports length %d, the file has %d bytes", when, n, len(b))
	}
	if d := diff(c.wantFor(f), f.lines); d != "" {
		h.Fail("content", "%s: file of %q: %s", when, c.Name, d)
	}
	h.checks++
	return f
}

// wantFor adapts zero signs to the file (0 and -0 are the same number).
func (c *CL) wantFor(f *rFile) []string {
	w := c.want()
	have := map[string]bool{}
	for _, l := range f.lines {
		have[l] = true
	}
	for i, l := range w {
		if !have[l] && strings.HasSuffix(l, "= bits 0x8000000000000000") {
			w[i] = strings.TrimSuffix(l, "0x8000000000000000") + "0x0"
		} else if !have[l] && strings.HasSuffix(l, "= bits 0x0") && have[strings.TrimSuffix(l, "0x0")+"0x8000000000000000"] {
			w[i] = strings.TrimSuffix(l, "0x0") + "0x8000000000000000"
		}
	}
	return w
}

// checkMem compares what the metrics report with the reference.
func (c *CL) checkMem(when string) {
	for _, m := range c.Ms {
		m.checkMem(c.h, when)
	}
}

func (m *LM) checkMem(h *H, when string) {
	for _, i := range m.insts() {
		if got, ok := m.read(i); ok && !same(got, m.Cur[i]) {
			h.Fail("value", "%s: metric %q[%q] reports %v, expected %v", when, m.S.Name, i, got, m.Cur[i])
		}
	}
}

// checkReg checks the registry's counts against the reference.
func (c *CL) checkReg(when string) {
	if d := c.regDiff(); d != "" {
		c.h.Fail("registry", "%s: %s", when, d)
	}
}

func (c *CL) regDiff() string {
	insts, vals, strs := 0, 0, 0
	for _, d := range c.Ind {
		insts += len(uniq(d.Insts))
		strs += nonEmpty(d.Desc)
		if !c.R.HasInstanceDomain(d.Name) {
			return fmt.Sprintf("indom %q is missing", d.Name)
		}
	}
	for _, m := range c.Ms {
		vals += len(m.Cur)
		strs += nonEmpty(m.S.Desc)
		if m.S.typ() == speed.StringType {
			strs += len(m.Cur)
		}
		if !c.R.HasMetric(m.S.Name) {
			return fmt.Sprintf("metric %q is missing", m.S.Name)
		}
	}
	if c.version2() {
		strs += len(c.Ms) + insts
	}
	got := fmt.Sprintf("metrics=%d indoms=%d instances=%d values=%d strings=%d", c.R.MetricCount(), c.R.InstanceDomainCount(),
		c.R.InstanceCount(), c.R.ValuesCount(), c.R.StringCount())
	want := fmt.Sprintf("metrics=%d indoms=%d instances=%d values=%d strings=%d", len(c.Ms), len(c.Ind), insts, vals, strs)
	if got != want {
		return fmt.Sprintf("registry reports %s, it holds %s", got, want)
	}
	return ""
}

func uniq(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

func nonEmpty(l []string) (n int) {
	for _, s := range l {
		if s != "" {
			n++
		}
	}
	return
}

// start starts the client and requires success.
func (c *CL) start() {
	if err := c.C.Start(); err != nil {
		c.h.Fail("start", "Start of %q: %v", c.Name, err)
	}
	c.Started = true
}

func (c *CL) stop() {
	if err := c.C.Stop(); err != nil {
		c.h.Fail("stop", "Stop of %q: %v", c.Name, err)
	}
	c.Started = false
}

func bucketText(b []*speed.HistogramBucket) string {
	s := ""
	for _, x := range b {
		if x.Count != 0 {
			s += fmt.Sprintf("%d-%d:%d ", x.From, x.To, x.Count)
		}
	}
	return s
}

func barText(b []hdr.Bar) string {
	s := ""
	for _, x := range b {
		if x.Count != 0 {
			s += fmt.Sprintf("%d-%d:%d ", x.From, x.To, x.Count)
		}
	}
	return s
}

func timeDuration(n int) time.Duration { return time.Duration(n) }

// more registers another singleton metric.
func (c *CL) more(name string, t speed.MetricType, v interface{}) *LM {
	s := single(name, t, v)
	m, err := newLM(&s, nil)
	if err != nil {
		c.h.Fail("setup", "constructing %q: %v", name, err)
	}
	if err := c.C.Register(m.M); err != nil {
		c.h.Fail("register", "Register(%q): %v", name, err)
	}
	c.addMetric(m, nil)
	return m
}

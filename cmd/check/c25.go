package main

// C25: readers of the live file never see a torn number.

import (
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

// live observes the file of a started client while metrics are updated.
type live struct {
	c     *CL
	base  []byte
	mask  []bool             // bytes that may change
	slots map[string]*liveSl // by metric and instance
}

type liveSl struct {
	off  uint64
	typ  speed.MetricType
	tol  bool
	vals map[string]interface{} // what may be there now
}

func (h *H) live(c *CL) *live {
	l := &live{c: c, slots: map[string]*liveSl{}}
	var err error
	if l.base, err = c.bytes(); err != nil {
		h.Fail("file", "%v", err)
	}
	f, err := parse(l.base)
	if err != nil {
		h.Fail("file", "%v", err)
	}
	l.mask = make([]bool, len(l.base))
	for _, m := range c.Ms {
		for _, i := range m.insts() {
			k := m.S.Name + "\x00" + i
			s := &liveSl{off: f.valueOff[k], typ: m.S.typ(), tol: m.S.Kind == "hist" || m.S.Kind == "timer"}
			if s.typ == speed.StringType {
				s.off = f.strOff[k]
				for j := uint64(0); j < 256; j++ {
					l.mask[s.off+j] = true
				}
				continue
			}
			for j := uint64(0); j < 8; j++ {
				l.mask[s.off+j] = true
			}
			l.slots[k] = s
			s.allow(m.Cur[i], true)
		}
	}
	h.X.OnMem = l.look
	return l
}

// isNaN tells whether a slot has one of the NaNs; which one is not specified.
func isNaN(t speed.MetricType, b uint64) bool {
	switch t {
	case speed.FloatType:
		return b>>32 == 0 && math.IsNaN(float64(math.Float32frombits(uint32(b))))
	case speed.DoubleType:
		return math.IsNaN(math.Float64frombits(b))
	}
	return false
}

func (s *liveSl) allow(v interface{}, only bool) {
	if only {
		s.vals = map[string]interface{}{}
	}
	s.vals[fmt.Sprintf("%T%v", v, v)] = v
}

func (l *live) look(x *mc.Exec) {
	h := l.c.h
	h.checks++
	b, err := os.ReadFile(l.c.path())
	if err != nil {
		x.FailNoExit("file", "%v", err)
		return
	}
	if len(b) != len(l.base) {
		x.FailNoExit("live", "the file of a started client has %d bytes, not %d", len(b), len(l.base))
		return
	}
	for i, m := range l.mask {
		if !m && b[i] != l.base[i] {
			x.FailNoExit("live", "byte %d of the file changes during an update of a value", i)
			return
		}
	}
	for k, s := range l.slots {
		got := le.Uint64(b[s.off:])
		ok := false
		for _, v := range s.vals {
			if slotOK(s.typ, got, v) || isNaN(s.typ, got) && isNaN(s.typ, bits(v)) || s.tol && near(math.Float64frombits(got), v) {
				ok = true
				break
			}
		}
		if !ok {
			l := ""
			for _, v := range s.vals {
				l += fmt.Sprintf(" %#x", bits(v))
			}
			x.FailNoExit("torn value", "a reader of the file finds %#x as value of %s; allowed:%s", got, strings.ReplaceAll(k, "\x00", "/"), l)
			return
		}
	}
}

// do performs an update; while it is under way its old and new values are
// allowed, afterwards only the new one. One thread updates a metric.
func (l *live) do(h *H, m *LM, o Op) {
	n := m.clone()
	n.spec(o)
	for _, i := range m.insts() {
		if s := l.slots[m.S.Name+"\x00"+i]; s != nil {
			s.allow(n.Cur[i], false)
		}
	}
	m.step(h, o)
	mc.Mark("done")
	for _, i := range m.insts() {
		if s := l.slots[m.S.Name+"\x00"+i]; s != nil {
			s.allow(m.Cur[i], true)
		}
	}
	l.look(h.X)
}

func init() {
	props["C25"] = func(tier string) (l []*Scenario) {
		p := 2
		if tier == "thorough" {
			p = 4
		}
		seqs := map[speed.MetricType][]interface{}{
			speed.Int32Type:  {int32(-1), int32(0x01020304), int32(math.MinInt32), "bad", 0x7f7f7f7f},
			speed.Uint32Type: {uint32(math.MaxUint32), uint32(0x01020304), -1, uint32(1) << 31},
			speed.Int64Type:  {int64(-1), int64(0x0102030405060708), int64(math.MinInt64), 1.5, int64(255)},
			speed.Uint64Type: {uint64(math.MaxUint64), uint64(0x0102030405060708), -3, uint64(1) << 63},
			speed.FloatType:  {float32(-1.1), float32(math.MaxFloat32), "x", 1e-3},
			speed.DoubleType: {-1.1, math.MaxFloat64, 1, 4.9e-324, 123456.789},
		}
		i64 := rep("j", 64)
		for t := range seqs {
			t := t
			for _, in := range []string{"", "p", i64} {
				in := in
				kind := map[string]string{"": "single", "p": "instance", i64: "instance, format 2"}[in]
				l = append(l, &Scenario{Name: fmt.Sprintf("%v %s", t, kind), Cfg: mc.Config{RelPt: true}, B: mc.Bounds{P: p, FreeBlock: true}, OnMem: true, Body: func(h *H) {
					rs := &RSpec{Metrics: []MSpec{single("a", t, zeroOf(t)), single("b", speed.Uint64Type, uint64(0)), single("s", speed.StringType, "some text")}}
					if in != "" {
						rs.Indoms = []ISpec{{Name: "d", Insts: []string{in, "q"}}}
						rs.Metrics[0] = inst("a", "d", t, vals(in, zeroOf(t), "q", zeroOf(t)), "text")
					}
					var c *CL
					h.X.Quiet(func() {
						c = h.newClient("cl", rs)
						c.start()
					})
					lv := h.live(c)
					h.Par(func() {
						for i, v := range seqs[t] {
							lv.do(h, c.Ms[0], Op{Name: "Set", Arg: v, Inst: in})
							if in != "" && i == 1 {
								lv.do(h, c.Ms[0], Op{Name: "Set", Arg: v, Inst: "q"})
							}
						}
					}, func() {
						for _, v := range []uint64{math.MaxUint64, 0x0102030405060708} {
							lv.do(h, c.Ms[1], Op{Name: "Set", Arg: v})
						}
						lv.do(h, c.Ms[2], Op{Name: "Set", Arg: "other"})
					})
					h.X.OnMem = nil
					c.checkFile("at the end")
				}})
			}
		}
		kinds := []struct {
			n   string
			m   MSpec
			ops []Op
		}{
			{"counter", counter("a", 0), []Op{{Name: "Inc", Arg: int64(0x0102030405060708)}, {Name: "Up"}, {Name: "Set", Arg: int64(math.MaxInt64)}, {Name: "Inc", Arg: int64(1)}, {Name: "Set", Arg: int64(1)}}},
			{"gauge", gauge("a", 0), []Op{{Name: "Inc", Arg: 1.1}, {Name: "Dec", Arg: 7e200}, {Name: "Set", Arg: -0.1}, {Name: "MustInc", Arg: 0.3}}},
			{"counter vector", cvec("a", vals("x", int64(0), "y", int64(5))), []Op{{Name: "UpAll"}, {Name: "SetAll", Arg: int64(0x0102030405060708)}, {Name: "Inc", Arg: int64(0x7f00000000), Inst: "y"}, {Name: "IncAll", Arg: int64(0xff)}, {Name: "Set", Arg: int64(0), Inst: "x"}}},
			{"gauge vector", gvec("a", vals("x", 0.0, "y", 5.5)), []Op{{Name: "IncAll", Arg: 1.1}, {Name: "DecAll", Arg: 1e100}, {Name: "SetAll", Arg: -3.3}, {Name: "Inc", Arg: 0.1, Inst: "x"}}},
			{"timer", timer("a"), []Op{{Name: "Start"}, {Name: "Stop"}, {Name: "Start"}, {Name: "Stop"}, {Name: "Stop"}, {Name: "Reset"}}},
			{"histogram", hist("a"), []Op{{Name: "Record", Arg: int64(7)}, {Name: "RecordN", Arg: int64(93), N: 3}, {Name: "Record", Arg: int64(-1)}, {Name: "Record", Arg: int64(1)}}},
		}
		for _, k := range kinds {
			k := k
			l = append(l, &Scenario{Name: k.n, Cfg: mc.Config{RelPt: true}, B: mc.Bounds{P: p, FreeBlock: true}, OnMem: true, Body: func(h *H) {
				var c *CL
				h.X.Quiet(func() {
					c = h.newClient("cl", &RSpec{Metrics: []MSpec{k.m, gauge("b", 0), counter("c", 1)}})
					c.start()
				})
				lv := h.live(c)
				h.Par(func() {
					for _, o := range k.ops {
						if k.n == "timer" {
							mc.Advance(0x10000 * 1e6)
						}
						lv.do(h, c.Ms[0], o)
					}
				}, func() {
					lv.do(h, c.Ms[1], Op{Name: "Set", Arg: -0.1})
					lv.do(h, c.Ms[2], Op{Name: "Inc", Arg: int64(0x0102030405060707)})
				})
				h.X.OnMem = nil
				c.checkFile("at the end")
			}})
		}
		// every boundary value after every other
		l = append(l, c25values()...)
		// several updaters of one metric: what a reader may find are the values
		// of all orders of them
		for _, k := range []struct {
			n    string
			m    MSpec
			prog [][]Op
			vals []interface{}
		}{
			{"one counter", counter("a", 0), [][]Op{{{Name: "Inc", Arg: int64(0x100)}}, {{Name: "Inc", Arg: int64(0x20000)}, {Name: "Up"}}, {{Name: "Inc", Arg: int64(0x0300000000000000)}}},
				sums(0x100, 0x20000, 1, 0x0300000000000000)},
			{"one int64", single("a", speed.Int64Type, int64(0)), [][]Op{{{Name: "Set", Arg: int64(-1)}}, {{Name: "Set", Arg: int64(0x0102030405060708)}}, {{Name: "Set", Arg: 1 << 40}}},
				[]interface{}{int64(0), int64(-1), int64(0x0102030405060708), int64(1 << 40)}},
			{"one double", single("a", speed.DoubleType, 0.0), [][]Op{{{Name: "Set", Arg: -1.1}}, {{Name: "Set", Arg: math.MaxFloat64}}, {{Name: "Set", Arg: 0.1}}},
				[]interface{}{0.0, -1.1, math.MaxFloat64, 0.1}},
		} {
			k := k
			l = append(l, &Scenario{Name: k.n + ", three updaters", Shards: 2, Cfg: mc.Config{RelPt: true}, B: mc.Bounds{P: p, FreeBlock: true}, OnMem: true, Body: func(h *H) {
				var c *CL
				h.X.Quiet(func() {
					c = h.newClient("cl", &RSpec{Metrics: []MSpec{k.m}})
					c.start()
				})
				lv := h.live(c)
				for _, v := range k.vals {
					lv.slots["a\x00"].allow(v, false)
				}
				t := &Hist{h: h}
				var fs []func()
				for _, ops := range k.prog {
					ops := ops
					fs = append(fs, func() {
						for _, o := range ops {
							t.call(c.Ms[0], o)
						}
					})
				}
				h.Par(fs...)
				h.X.OnMem = nil
				t.settle(c, c.Ms)
				c.checkFile("at the end")
			}})
		}
		return l
	}
}

// sums are the sums of all subsets.
func sums(v ...int64) (l []interface{}) {
	for i := 0; i < 1<<len(v); i++ {
		n := int64(0)
		for j := range v {
			if i>>j&1 == 1 {
				n += v[j]
			}
		}
		l = append(l, n)
	}
	return l
}

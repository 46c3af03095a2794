package main

// C04: a successful update shows in the metric and in exactly its file slot.

import (
	"fmt"
	"math"
	"strings"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

// slots tracks the file of a started client byte by byte.
type slots struct {
	c    *CL
	f    *rFile
	last []byte
}

func (c *CL) track() *slots {
	b, err := c.bytes()
	if err != nil {
		c.h.Fail("file", "%v", err)
	}
	return &slots{c: c, f: c.checkFile("when tracking begins"), last: b}
}

// step performs o and compares every byte of the file and every value that
// any metric reports.
func (s *slots) step(m *LM, o Op) {
	h := s.c.h
	before := m.clone()
	m.step(h, o)
	s.after(m, before, o)
}

func (s *slots) after(m, before *LM, o Op) {
	h := s.c.h
	b, err := s.c.bytes()
	if err != nil {
		h.Fail("file", "after %v: %v", o, err)
	}
	if len(b) != len(s.last) {
		h.Fail("file", "after %v: the file has %d bytes, not %d", o, len(b), len(s.last))
	}
	mask := map[int]bool{}
	for _, i := range m.insts() {
		k := m.S.Name + "\x00" + i
		if m.S.typ() == speed.StringType {
			if same(m.Cur[i], before.Cur[i]) {
				continue
			}
			for j := 0; j < 256; j++ {
				mask[int(s.f.strOff[k])+j] = true
			}
		} else if !same(m.Cur[i], before.Cur[i]) || m.S.Kind == "hist" || isZero(m.Cur[i]) {
			for j := 0; j < 8; j++ {
				mask[int(s.f.valueOff[k])+j] = true
			}
		}
		g := slotIn(b, s.f, k, m.S.typ())
		if !slotOK(m.S.typ(), g, m.Cur[i]) {
			h.Fail("value", "after %v: the file shows %v for %s[%s], expected %v", o, g, m.S.Name, i, m.Cur[i])
		}
	}
	for i := range b {
		if b[i] != s.last[i] && !mask[i] {
			h.Fail("value", "after %v on %s: byte %d of the file changed from %#x to %#x, outside what was updated", o, m.S.Name, i, s.last[i], b[i])
		}
	}
	s.last = b
	s.c.checkMem(fmt.Sprintf("after %v", o))
	h.checks++
}

func isZero(v interface{}) bool { f, ok := v.(float64); return ok && f == 0 }

type c04kind struct {
	n   string
	m   MSpec
	ops []Op
}

func c04kinds() []c04kind {
	i32, str := speed.Int32Type, speed.StringType
	ops := func(l ...Op) []Op { return l }
	o := func(n string, a interface{}) Op { return Op{Name: n, Arg: a} }
	oi := func(n string, a interface{}, i string) Op { return Op{Name: n, Arg: a, Inst: i} }
	maxi := int64(math.MaxInt64)
	return []c04kind{
		{"int32", single("m", i32, 5), ops(o("Set", 0), o("Set", -7), o("MustSet", int32(9)), o("Set", 1<<31), o("MustSet", "x"), o("Set", uint(3)), o("Set", math.MinInt32), o("Set", nil))},
		{"uint32", single("m", speed.Uint32Type, 5), ops(o("Set", 0), o("Set", -1), o("MustSet", uint32(math.MaxUint32)), o("Set", 1<<32), o("MustSet", -2), o("Set", uint(3)))},
		{"int64", single("m", speed.Int64Type, int64(5)), ops(o("Set", 0), o("Set", int64(-1)), o("MustSet", maxi), o("Set", uint64(1)), o("MustSet", 1.5), o("Set", math.MinInt64))},
		{"uint64", single("m", speed.Uint64Type, 5), ops(o("Set", 0), o("Set", uint(math.MaxUint64)), o("MustSet", uint64(1)<<63), o("Set", -1), o("MustSet", int64(1)))},
		{"float", single("m", speed.FloatType, 5.5), ops(o("Set", 0.0), o("Set", float32(-1.25)), o("MustSet", 1e-50), o("Set", 1e39), o("MustSet", 1), o("Set", math.Inf(1)))},
		{"double", single("m", speed.DoubleType, 5.5), ops(o("Set", 0.0), o("Set", -1.25), o("MustSet", math.Inf(-1)), o("Set", float32(1)), o("MustSet", 1), o("Set", math.MaxFloat64))},
		{"string", single("m", str, "initial"), ops(o("Set", ""), o("Set", "a"), o("MustSet", rep("long", 20)), o("Set", 5), o("MustSet", nil), o("Set", rep("z", 255)), o("Set", rep("z", 256)), o("Set", "other"))},
		{"int32 instances", inst("m", "d", i32, vals("a", 1, "b", 2)), ops(oi("Set", 0, "a"), oi("Set", 7, "b"), oi("MustSet", -7, "a"), oi("Set", 1<<40, "a"), oi("Set", 1, "c"), oi("MustSet", 1, ""), oi("MustSet", 2, "b"), oi("Val", nil, "c"), oi("Set", nil, "a"))},
		{"string instances", inst("m", "d", str, vals("a", "one", "b", "two")), ops(oi("Set", "", "a"), oi("Set", rep("q", 100), "b"), oi("MustSet", "A", "a"), oi("Set", 1, "b"), oi("Set", "x", "c"), oi("MustSet", "y", "b"), oi("Set", rep("r", 255), "a"), oi("Set", rep("r", 300), "b"))},
		{"double instances", inst("m", "d", speed.DoubleType, vals("a", 1.0, "b", 2.0)), ops(oi("Set", 0.0, "a"), oi("Set", 7.5, "b"), oi("MustSet", -7.5, "a"), oi("Set", 1, "b"), oi("Set", 1.0, "c"))},
		{"counter", counter("m", 3), ops(o("Inc", int64(0)), o("Inc", int64(2)), o("Inc", int64(-1)), o("Up", nil), o("Set", int64(10)), o("Set", int64(2)), o("MustInc", int64(5)), o("MustInc", int64(-5)), o("Inc", maxi), o("Set", maxi), o("Set", maxi-1), o("Set", int64(-1)))},
		{"gauge", gauge("m", 3.5), ops(o("Inc", 1.25), o("Dec", 0.5), o("Inc", -2.0), o("Set", 0.0), o("MustSet", -1e10), o("MustInc", 0.1), o("MustDec", 0.2), o("Dec", math.MaxFloat64), o("Set", math.Inf(1)), o("Inc", 0.0))},
		{"timer", timer("m"), ops(o("Start", nil), o("Stop", nil), o("Reset", nil), o("+", int64(1)), o("+", int64(12345678)))},
		{"counter vector", cvec("m", vals("a", int64(1), "b", int64(2))), ops(oi("Inc", int64(2), "a"), oi("Inc", int64(-2), "b"), oi("Up", nil, "b"), oi("Up", nil, "c"), oi("Set", int64(9), "a"), oi("Set", int64(0), "b"), oi("MustSet", int64(maxi-1), "a"), oi("MustInc", int64(3), "b"),
			o("UpAll", nil), o("IncAll", int64(3)), o("SetAll", int64(20)), o("SetAll", int64(2)), o("IncAll", int64(-1)), oi("Inc", int64(1), "c"), oi("Set", int64(99), "c"), oi("MustInc", int64(-1), "a"), oi("MustSet", int64(-1), "b"))},
		{"gauge vector", gvec("m", vals("a", 1.5, "b", 2.5)), ops(oi("Inc", 2.0, "a"), oi("Dec", 2.0, "b"), oi("Set", 9.0, "a"), oi("MustSet", -1.0, "b"), oi("MustInc", 0.1, "a"), oi("MustDec", 0.1, "b"),
			o("IncAll", 3.0), o("DecAll", 1e300), o("SetAll", 20.0), oi("Inc", 1.0, "c"), oi("Set", 1.0, "c"), oi("MustDec", 1.0, "c"), oi("Dec", 1.0, ""))},
		{"histogram", hist("m"), ops(o("Record", int64(0)), o("Record", int64(50)), o("Record", int64(100)), o("Record", int64(-1)), o("Record", int64(100000)), Op{Name: "RecordN", Arg: int64(7), N: 5}, Op{Name: "RecordN", Arg: int64(7000), N: 5}, o("MustRecord", int64(3)), o("MustRecord", int64(-3)),
			Op{Name: "MustRecordN", Arg: int64(9), N: 2}, Op{Name: "MustRecordN", Arg: int64(90000), N: 2})},
	}
}

// around puts the metric between neighbours of the same and of other kinds.
func around(m MSpec, long bool) *RSpec {
	m2 := m
	m2.Name = "other." + m.Name
	rs := &RSpec{Metrics: []MSpec{single("before", speed.StringType, "text before", "short"), m, m2, single("zbehind", speed.Int32Type, 77, "", "long")}}
	if m.Kind == "inst" {
		rs.Indoms = []ISpec{{Name: "d", Insts: []string{"a", "b"}, Desc: []string{"d short", "d long"}}}
	}
	if long {
		rs.Metrics = append(rs.Metrics, single("l."+rep("x", 70), speed.DoubleType, 0.5))
	}
	return rs
}

func init() {
	props["C04"] = func(tier string) (l []*Scenario) {
		depth := 4
		if tier == "thorough" {
			depth = 5
		}
		for _, k := range c04kinds() {
			for _, long := range []bool{false, true} {
				k, long := k, long
				n := k.n
				d := depth
				if long {
					n += ", format 2"
					d--
				}
				l = append(l, &Scenario{Name: n, Shards: 8, Enum: func(w *W) {
					words(d, len(k.ops), func(i int, word []int) bool {
						if !w.Mine(i) {
							return true
						}
						var ds []string
						for _, x := range word {
							ds = append(ds, k.ops[x].String())
						}
						return w.Exec(strings.Join(ds, " "), func(h *H) {
							c := h.newClient("cl", around(k.m, long))
							c.start()
							s := c.track()
							for _, x := range word {
								o := k.ops[x]
								if o.Name == "+" {
									mc.Advance(timeDuration(int(o.Arg.(int64))))
									continue
								}
								s.step(c.Ms[1], o)
								w.State(k.n + stateKey(c.Ms[1:2]))
							}
							c.checkFile("at the end")
							c.stop()
							c.checkFile("after Stop")
						})
					})
				}})
			}
		}
		// updates of several metrics in turn, with Stop and Start in between
		l = append(l, &Scenario{Name: "several metrics", Shards: 8, Enum: func(w *W) {
			rs := &RSpec{Indoms: []ISpec{{Name: "d", Insts: []string{"a", "b"}}}, Metrics: []MSpec{
				single("s", speed.StringType, "x"), inst("i", "d", speed.StringType, vals("a", "one", "b", "two")), inst("j", "d", speed.Int32Type, vals("a", 1, "b", 2)),
				counter("c", 0), gvec("v", vals("a", 1.0, "b", 2.0)), hist("h")}}
			ops := []struct {
				m int
				o Op
			}{{0, Op{Name: "Set", Arg: "longer"}}, {0, Op{Name: "Set", Arg: ""}}, {1, Op{Name: "Set", Arg: "uno", Inst: "a"}}, {1, Op{Name: "Set", Arg: rep("b", 255), Inst: "b"}},
				{2, Op{Name: "Set", Arg: -1, Inst: "a"}}, {2, Op{Name: "Set", Arg: 3, Inst: "b"}}, {3, Op{Name: "Up"}}, {4, Op{Name: "IncAll", Arg: 0.5}}, {4, Op{Name: "Set", Arg: 7.0, Inst: "b"}},
				{5, Op{Name: "Record", Arg: int64(42)}}, {-1, Op{Name: "restart"}}}
			words(depth, len(ops), func(i int, word []int) bool {
				if !w.Mine(i) {
					return true
				}
				var ds []string
				for _, x := range word {
					ds = append(ds, fmt.Sprintf("%d.%v", ops[x].m, ops[x].o))
				}
				return w.Exec(strings.Join(ds, " "), func(h *H) {
					c := h.newClient("cl", rs)
					c.start()
					s := c.track()
					for _, x := range word {
						if ops[x].m < 0 {
							c.stop()
							c.checkFile("after Stop")
							c.start()
							s = c.track()
							continue
						}
						s.step(c.Ms[ops[x].m], ops[x].o)
						w.State(stateKey(c.Ms))
					}
					c.checkFile("at the end")
				})
			})
		}})
		l = append(l, c04unknown(tier))
		l = append(l, c04pairs(tier)...)
		return append(l, c04wide(tier)...)
	}
}

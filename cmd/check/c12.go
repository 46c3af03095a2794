package main

// C12: a value is accepted exactly if its type can hold it, and stored
// exactly.

import (
	"fmt"
	"math"
	"os"
	"sort"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

type myInt int
type myStr string

// pool is every boundary value of every Go type that could be passed.
func pool(tier string) (l []interface{}) {
	add := func(v ...interface{}) { l = append(l, v...) }
	ks := []uint{7, 8, 15, 16, 31, 32, 63}
	if tier == "thorough" {
		ks = nil
		for k := uint(0); k < 64; k++ {
			ks = append(ks, k)
		}
	}
	us := map[uint64]bool{0: true, math.MaxUint64: true, math.MaxUint64 - 1: true}
	for _, k := range ks {
		for _, d := range []uint64{0, 1, ^uint64(0)} {
			us[1<<k+d] = true
		}
	}
	seen := map[string]bool{}
	put := func(v interface{}) {
		k := fmt.Sprintf("%T %v", v, v)
		if !seen[k] {
			seen[k] = true
			add(v)
		}
	}
	var ul []uint64
	for u := range us {
		ul = append(ul, u)
	}
	sort.Slice(ul, func(i, j int) bool { return ul[i] < ul[j] })
	for _, u := range ul {
		put(uint(u))
		put(u)
		put(uint32(u))
		put(int(u))
		put(int64(u))
		put(int32(u))
		put(-int(u))
		put(-int64(u))
		put(-int32(u))
		put(float64(u))
		put(-float64(int64(u)))
		put(float32(u))
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 0.1, -0.1, 1.5, math.MaxFloat32, -math.MaxFloat32, math.Nextafter(math.MaxFloat32, math.Inf(1)), math.Nextafter(-math.MaxFloat32, math.Inf(-1)),
		math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), math.NaN(), 16777217, 1e300} {
		put(f)
		put(float32(f))
	}
	for _, s := range []string{"", "a", "b", "ab", "é", "\n", rep("x", 63), rep("y", 64), rep("z", 254), rep("w", 255)} {
		put(s)
	}
	add(nil, true, int8(1), int16(1), uint8(1), uint16(1), uintptr(1), complex(1, 0), []byte("a"), []int{1}, struct{}{}, new(int), myInt(1), myStr("a"), error(nil), [1]int{1}, map[string]int{}, func() {})
	return l
}

func pv(v interface{}) string {
	s := fmt.Sprintf("%T(%v)", v, v)
	if len(s) > 60 {
		s = fmt.Sprintf("%.50s...%d", s, len(s))
	}
	return s
}

var allTypes = []speed.MetricType{speed.Int32Type, speed.Uint32Type, speed.Int64Type, speed.Uint64Type, speed.FloatType, speed.DoubleType, speed.StringType}

func zeroOf(t speed.MetricType) interface{} {
	switch t {
	case speed.Int32Type:
		return int32(0)
	case speed.Uint32Type:
		return uint32(0)
	case speed.Int64Type:
		return int64(0)
	case speed.Uint64Type:
		return uint64(0)
	case speed.FloatType:
		return float32(0)
	case speed.DoubleType:
		return float64(0)
	}
	return ""
}

// slot reads the value of a metric in the file of a started client.
func (c *CL) slot(f *rFile, m *LM, inst string) interface{} {
	b, err := os.ReadFile(c.path())
	if err != nil {
		c.h.Fail("file", "%v", err)
	}
	k := m.S.Name + "\x00" + inst
	return slotIn(b, f, k, m.S.typ())
}

func slotIn(b []byte, f *rFile, k string, t speed.MetricType) interface{} {
	if t == speed.StringType {
		s, err := cstr(b[f.strOff[k]:f.strOff[k]+256], "value")
		if err != nil {
			return err
		}
		return s
	}
	return le.Uint64(b[f.valueOff[k]:])
}

func slotOK(t speed.MetricType, got, want interface{}) bool {
	if t == speed.StringType {
		return got == want
	}
	w := bits(want)
	g, ok := got.(uint64)
	if !ok {
		return false
	}
	if g == w {
		return true
	}
	switch t { // zeros of either sign are the same number
	case speed.FloatType:
		return g == 0 && w == 1<<31 || g == 1<<31 && w == 0
	case speed.DoubleType:
		return g == 0 && w == 1<<63 || g == 1<<63 && w == 0
	}
	return false
}

func init() {
	props["C12"] = func(tier string) (l []*Scenario) {
		l = append(l, &Scenario{Name: "construct and publish", Shards: 8, Enum: func(w *W) {
			n := 0
			for _, t := range allTypes {
				for _, v := range pool(w.Tier) {
					t, v := t, v
					if n++; !w.Mine(n) {
						continue
					}
					want := accepts(t, v)
					w.State(fmt.Sprint(t, pv(v)))
					if !w.Exec(fmt.Sprintf("%v with initial value %s", t, pv(v)), func(h *H) {
						if got := t.IsCompatible(v); got != want {
							h.Fail("accept", "IsCompatible says %v", got)
						}
						ms := single("m", t, v)
						ind, err := speed.NewPCPInstanceDomain("d", []string{"p", "q"})
						if err != nil {
							h.Fail("setup", "%v", err)
						}
						is := inst("im", "d", t, vals("p", zeroOf(t), "q", v))
						var got Res
						m, err := (*LM)(nil), error(nil)
						got = try(func() (interface{}, error) { m, err = newLM(&ms, nil); return nil, err })
						if got.Panic || got.Err == want {
							h.Fail("accept", "construction of a single value metric gives %v %s, expected acceptance %v", got, got.Msg, want)
						}
						var im *LM
						got = try(func() (interface{}, error) { im, err = newLM(&is, ind); return nil, err })
						if got.Panic || got.Err == want {
							h.Fail("accept", "construction of an instance metric gives %v %s, expected acceptance %v", got, got.Msg, want)
						}
						h.checks += 3
						if !want {
							return
						}
						s := &RSpec{Indoms: []ISpec{{Name: "d", Insts: []string{"p", "q"}}}}
						c := h.newClient("cl", s)
						for _, x := range []*LM{m, im} {
							if err := c.C.Register(x.M); err != nil {
								h.Fail("setup", "%v", err)
							}
							c.addMetric(x, s)
						}
						c.checkMem("after construction")
						c.start()
						c.checkFile("after Start")
						c.checkMem("after Start")
					}) {
						return
					}
				}
			}
		}})
		l = append(l, &Scenario{Name: "every update after every value", Shards: 14, Enum: func(w *W) {
			for i := 0; i < 14; i++ {
				if !w.Mine(i) {
					continue
				}
				t, kind := allTypes[i%7], i/7
				w.Exec(fmt.Sprintf("updates of %v", t), func(h *H) {
					s := &RSpec{Indoms: []ISpec{{Name: "d", Insts: []string{"p", "q"}}}}
					in := ""
					if kind == 0 {
						s.Metrics = []MSpec{single("m", t, zeroOf(t))}
					} else {
						s.Metrics = []MSpec{inst("m", "d", t, vals("p", zeroOf(t), "q", zeroOf(t)))}
						in = "q"
					}
					c := h.newClient("cl", s)
					c.start()
					f := c.checkFile("after Start")
					m := c.Ms[0]
					var ok, bad []interface{}
					for _, v := range pool(w.Tier) {
						if accepts(t, v) {
							ok = append(ok, v)
						} else {
							bad = append(bad, v)
						}
					}
					set := func(v, prev interface{}) {
						before := m.Cur[in]
						got := m.apply(Op{Name: "Set", Arg: v, Inst: in})
						acc := accepts(t, v)
						if got.Panic || got.Err == acc {
							h.Fail("accept", "Set(%s) after %s gives %v %s, expected acceptance %v", pv(v), pv(prev), got, got.Msg, acc)
						}
						if acc {
							m.Cur[in] = resolve(t, v)
						}
						if r, _ := m.read(in); !same(r, m.Cur[in]) {
							h.Fail("value", "Set(%s) after %s: the metric reports %s", pv(v), pv(prev), pv(r))
						}
						if g := c.slot(f, m, in); !slotOK(t, g, m.Cur[in]) && !(same(before, m.Cur[in]) && same(m.Cur[in], resolve(t, v))) {
							h.Fail("value", "Set(%s) after %s: the file holds %v", pv(v), pv(prev), g)
						}
						h.checks++
						w.trans++
						w.State(pv(prev) + pv(v))
					}
					for _, a := range ok {
						for _, b := range ok {
							set(a, nil)
							set(b, a)
						}
						for _, b := range bad {
							set(b, a)
						}
						if w.cutNow() {
							return
						}
					}
					if math.IsNaN(asF(m.Cur[in])) {
						return
					}
					c.checkFile("at the end")
				})
			}
		}, Cfg: mc.Config{MaxStep: 1 << 30}})
		return l
	}
}

func asF(v interface{}) float64 {
	switch v := v.(type) {
	case float64:
		return v
	case float32:
		return float64(v)
	}
	return 0
}

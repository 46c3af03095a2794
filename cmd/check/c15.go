package main

import (
	"fmt"
	"math"
	"os"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

type hpar struct {
	lo, hi int64
	sig    int
}

var hpars = []hpar{{0, 100, 1}, {0, 3600000000, 3}, {1, 1000, 2}, {1, 100000, 5}, {-5, 50, 0}, {10, 5000000000, 1}, {1000, 100000, 2}, {0, 1000, 9}, {7, 9, 1}}

// hvals are values around the boundaries of p.
func hvals(p hpar) []int64 {
	return []int64{0, 1, clamp(p.lo, 0, HMax), clamp(p.hi, 0, HMax) / 2, clamp(p.hi, 0, HMax), clamp(p.hi, 0, HMax) + 1, 4*clamp(p.hi, 0, HMax) + 5, -1, math.MaxInt64}
}

const HMax = 3600000000

// exact compares what is reported with the exact values, to the configured
// precision.
func (m *LM) exact(h *H, when string) {
	if len(m.Rec) == 0 {
		return
	}
	mn, mx, sum, n := int64(math.MaxInt64), int64(0), 0.0, 0.0
	for i := 0; i < len(m.Rec); i += 2 {
		v, k := m.Rec[i], m.Rec[i+1]
		if k == 0 {
			continue
		}
		if v < mn {
			mn = v
		}
		if v > mx {
			mx = v
		}
		sum += float64(v) * float64(k)
		n += float64(k)
	}
	if n == 0 {
		return
	}
	sig := float64(clamp(int64(m.S.Sig), 1, 5))
	tol := func(v float64) float64 {
		return math.Max(1, math.Max(float64(clamp(m.S.Lo, 0, HMax)), v*math.Pow(10, -sig)))
	}
	c := func(what string, got, want float64) {
		if math.Abs(got-want) > tol(want) {
			h.Fail("precision", "%s: %s is %v, exactly %v", when, what, got, want)
		}
	}
	x := m.M.(*speed.PCPHistogram)
	c("minimum", float64(x.Min()), float64(mn))
	c("maximum", float64(x.Max()), float64(mx))
	if d := math.Abs(x.Mean() - sum/n); d > tol(float64(mx)) {
		h.Fail("precision", "%s: mean is %v, exactly %v", when, x.Mean(), sum/n)
	}
}

func (m *LM) checkHist(h *H, c *CL, f *rFile, when string) {
	for _, o := range []Op{{Name: "Max"}, {Name: "Min"}, {Name: "Mean"}, {Name: "Variance"}, {Name: "StandardDeviation"}, {Name: "Percentile", N: 0}, {Name: "Percentile", N: 50}, {Name: "Percentile", N: 90}, {Name: "Percentile", N: 100}, {Name: "Buckets"}} {
		if o.Name == "Percentile" && len(m.Rec) == 0 {
			continue
		}
		m.step(h, o)
	}
	x := m.M.(*speed.PCPHistogram)
	if lo, hi := clamp(m.S.Lo, 0, HMax), clamp(m.S.Hi, 0, HMax); x.Low() != lo && !(lo == 0 && x.Low() == 1) || x.High() != hi {
		h.Fail("bounds", "%s: Low and High are %d and %d, expected %d and %d", when, x.Low(), x.High(), lo, hi)
	}
	m.exact(h, when)
	if f != nil {
		for _, i := range histInsts {
			if g := c.slot(f, m, i); !slotOK(speed.DoubleType, g, m.Cur[i]) {
				h.Fail("value", "%s: instance %s in the file is %v, expected %v", when, i, math.Float64frombits(g.(uint64)), m.Cur[i])
			}
		}
	}
	h.checks++
}

func init() {
	props["C15"] = func(tier string) (l []*Scenario) {
		depth := 3
		if tier == "thorough" {
			depth = 4
		}
		for _, p := range hpars {
			p := p
			depth := depth
			if p.sig >= 5 || p.hi == HMax {
				depth-- // large histograms are slow
			}
			l = append(l, &Scenario{Name: fmt.Sprintf("records in %d..%d with %d digits", p.lo, p.hi, p.sig), Shards: 8, Enum: func(w *W) {
				vs := hvals(p)
				// letters: Record of every value, RecordN of some, and the Must form
				type let struct {
					v, n int64
				}
				var ls []let
				for _, v := range vs {
					ls = append(ls, let{v, -1})
				}
				ls = append(ls, let{vs[3], 3}, let{vs[4], 1000000}, let{vs[1], 0}, let{vs[6], 2}, let{-1, 2})
				words(depth, len(ls), func(i int, word []int) bool {
					if !w.Mine(i) {
						return true
					}
					desc := ""
					for _, o := range word {
						desc += fmt.Sprintf("%d*%d ", ls[o].v, ls[o].n)
					}
					return w.Exec(desc, func(h *H) {
						s := hist("h")
						s.Lo, s.Hi, s.Sig = p.lo, p.hi, p.sig
						c := h.newClient("cl", &RSpec{Metrics: []MSpec{s}})
						m := c.Ms[0]
						var f *rFile
						for k, o := range word {
							if k == 1 {
								c.start()
								f = c.checkFile("after Start")
							}
							op := Op{Name: "Record", Arg: ls[o].v}
							if ls[o].n >= 0 {
								op = Op{Name: "RecordN", Arg: ls[o].v, N: ls[o].n}
							}
							if (i+k)%3 == 2 {
								op.Name = "Must" + op.Name
							}
							if r := m.step(h, op); (r.Err || r.Panic) && ls[o].v >= 0 && ls[o].v <= clamp(p.hi, 0, HMax) {
								h.Fail("refused", "%v within the bounds is refused: %s", op, r.Msg)
							}
							m.checkHist(h, c, f, "after "+op.String())
						}
						w.State(fmt.Sprint(m.Cur))
					})
				})
			}})
		}
		// many records, and many at once
		many := 300
		if tier == "thorough" {
			many = 3000
		}
		fine := []float64{0, 0.001, 0.1, 0.5, 1, 5.5, 10, 12.5, 25, 33.3, 49.9, 50, 50.1, 62.5, 66.7, 75, 87.5, 90, 95, 99, 99.5, 99.9, 99.99, 99.999, 100}
		l = append(l, &Scenario{Name: fmt.Sprintf("%d records", many), Shards: 8, Enum: func(w *W) {
			for i, p := range append(hpars[:len(hpars):len(hpars)], hpar{0, 1000, 3}, hpar{1, 1000000, 4}) {
				if !w.Mine(i) {
					continue
				}
				p := p
				if !w.Exec(fmt.Sprintf("%d..%d with %d digits", p.lo, p.hi, p.sig), func(h *H) {
					s := hist("h")
					s.Lo, s.Hi, s.Sig = p.lo, p.hi, p.sig
					c := h.newClient("cl", &RSpec{Metrics: []MSpec{s}})
					m := c.Ms[0]
					c.start()
					f := c.checkFile("after Start")
					look := func(when string) {
						m.checkHist(h, c, f, when)
						for _, q := range fine {
							m.step(h, Op{Name: "Percentile", Arg: q})
						}
					}
					hi := clamp(p.hi, 1, HMax)
					for k := 0; k < many; k++ {
						w.beat()
						w.trans++
						m.step(h, Op{Name: "Record", Arg: int64(k) * 7919 % (hi + 1)})
						if k < 20 || k%64 < 2 || k&(k+1) == 0 || k&(k+2) == 0 {
							look(fmt.Sprintf("after %d records", k+1))
						}
					}
					look("after all records")
				}) {
					return
				}
			}
		}})
		l = append(l, &Scenario{Name: "many at once", Shards: 4, Enum: func(w *W) {
			ns := []int64{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1 << 40}
			words(2, len(ns), func(i int, word []int) bool {
				if !w.Mine(i) {
					return true
				}
				return w.Exec(fmt.Sprint(ns[word[0]], " ", ns[word[1]]), func(h *H) {
					for _, must := range []string{"", "Must"} {
						s := hist("h")
						s.Lo, s.Hi, s.Sig = 1, 1000, 3
						c := h.newClient("cl", &RSpec{Metrics: []MSpec{s}})
						m := c.Ms[0]
						os.Remove(c.path())
						c.start()
						f := c.checkFile("after Start")
						for k, v := range []int64{10, 900} {
							m.step(h, Op{Name: must + "RecordN", Arg: v, N: ns[word[k]]})
							m.checkHist(h, c, f, fmt.Sprint("after RecordN of ", v))
							for _, q := range fine {
								if len(m.Rec) > 0 {
									m.step(h, Op{Name: "Percentile", Arg: q})
								}
							}
						}
						w.State(fmt.Sprint(m.Cur))
						c.stop()
					}
				})
			})
		}})
		l = append(l, &Scenario{Name: "construction", Enum: func(w *W) {
			ns := []int64{math.MinInt64, -1, 0, 1, 2, 100, HMax - 1, HMax, HMax + 1, math.MaxInt64}
			for _, lo := range ns {
				for _, hi := range ns {
					for sig := -1; sig <= 7; sig++ {
						lo, hi, sig := lo, hi, sig
						if !w.Exec(fmt.Sprintf("%d %d %d", lo, hi, sig), func(h *H) {
							s := hist("h")
							s.Lo, s.Hi, s.Sig = lo, hi, sig
							var m *LM
							r := try(func() (interface{}, error) {
								var err error
								m, err = newLM(&s, nil)
								return nil, err
							})
							if r.Panic {
								h.Fail("panic", "constructor panics: %s", r.Msg)
							}
							if r.Err != (lo > hi) {
								h.Fail("construct", "constructor gives %v", r)
							}
							if !r.Err {
								m.checkHist(h, nil, nil, "after construction")
							}
						}) {
							return
						}
					}
				}
			}
		}})
		pb := 2
		if tier == "thorough" {
			pb = 4
		}
		conc := []struct {
			n string
			p [][]Op
		}{
			{"two recorders", [][]Op{{{Name: "Record", Arg: int64(5)}}, {{Name: "Record", Arg: int64(90)}}}},
			{"recorder and reader", [][]Op{{{Name: "Record", Arg: int64(5)}, {Name: "RecordN", Arg: int64(40), N: 3}}, {{Name: "Percentile", N: 100}, {Name: "Buckets"}}}},
			{"recorder and statistics", [][]Op{{{Name: "Record", Arg: int64(50)}}, {{Name: "Max"}, {Name: "Mean"}, {Name: "Min"}}}},
			{"recorder and deviation", [][]Op{{{Name: "Record", Arg: int64(50)}, {Name: "Record", Arg: int64(10)}}, {{Name: "Variance"}, {Name: "StandardDeviation"}}}},
			{"three recorders", [][]Op{{{Name: "Record", Arg: int64(1)}}, {{Name: "RecordN", Arg: int64(2), N: 4}}, {{Name: "Record", Arg: int64(-1)}, {Name: "Record", Arg: int64(3)}}}},
		}
		for _, cc := range conc {
			cc := cc
			l = append(l, &Scenario{Name: cc.n, Shards: 4, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: pb, FreeBlock: true}, Body: func(h *H) {
				c := h.newClient("cl", &RSpec{Metrics: []MSpec{hist("h")}})
				m := c.Ms[0]
				h.X.Quiet(func() {
					c.start()
					m.step(h, Op{Name: "Record", Arg: int64(20)})
				})
				t := &Hist{h: h}
				var fs []func()
				for _, ops := range cc.p {
					ops := ops
					fs = append(fs, func() {
						for _, o := range ops {
							t.call(m, o)
						}
					})
				}
				h.Par(fs...)
				t.settle(c, c.Ms)
				f := c.checkFile("at the end")
				m.checkHist(h, c, f, "at the end")
			}})
		}
		return l
	}
}

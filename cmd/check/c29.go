package main

// C29: the Must forms do what the plain forms do, and panic where those fail.

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/bytewriter"

	"verif/mc"
)

// mustErr calls a Must form: nil if it returns, an error if it panics.
func mustErr(f func()) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	f()
	return nil
}

// mustHistory drives one client through its Must forms.
type mustHistory struct {
	h    *H
	c    *CL
	objs map[string]*speed.PCPInstanceDomain
	ops  map[int]*RegOp
}

func (s *mustHistory) register(x int, o RegOp) {
	h, c := s.h, s.c
	r := s.ops[x]
	if r == nil {
		r = &o
		r.Must = true
		r.prepare(h, s.objs)
		s.ops[x] = r
	}
	old, g := c.reg(), c.reg()
	err := r.apply(c.C)
	ok := r.spec(g) && !c.Started
	if ok != (err == nil) {
		h.Fail("must", "the Must form of %v: %v, expected success: %v (client started: %v)", r, err, ok, c.Started)
	}
	if ok {
		c.use(g)
	} else {
		c.use(old)
	}
	h.checks++
}

// cycle is the Must form of Start or Stop. (What Start does to a client that
// is started is not specified, so it is not asked.)
func (s *mustHistory) cycle(start bool) {
	h, c := s.h, s.c
	if start {
		if c.Started {
			return
		}
		if err := mustErr(c.C.MustStart); err != nil {
			h.Fail("must", "MustStart of a stopped client: %v", err)
		}
		c.Started = true
	} else {
		err := mustErr(c.C.MustStop)
		if (err == nil) != c.Started {
			h.Fail("must", "MustStop: %v, while the client is started: %v", err, c.Started)
		}
		c.Started = false
	}
	h.checks++
}

func (s *mustHistory) check(when string) {
	s.c.checkReg(when)
	s.c.checkMem(when)
	if s.c.Started {
		s.c.checkFile(when)
	}
}

func c29pool() (l []RegOp) {
	for _, r := range regPool() {
		if r.Form != "byname" {
			r.Must = true
			l = append(l, r)
		}
	}
	return
}

// mustOf is the Must form of o; ok is false if there is none.
func mustOf(kind string, o Op) (Op, bool) {
	if strings.HasPrefix(o.Name, "Must") {
		return o, true
	}
	have := map[string]string{"single": "Set", "counter": "Inc", "gauge": "Set Inc Dec", "inst": "Set", "cvec": "Set Inc", "gvec": "Set Inc Dec", "hist": "Record RecordN"}[kind]
	for _, n := range strings.Fields(have) {
		if n == o.Name {
			o.Name = "Must" + n
			return o, true
		}
	}
	return o, false
}

func init() {
	props["C29"] = func(tier string) (l []*Scenario) {
		deep := 0
		if tier == "thorough" {
			deep = 1
		}
		pool := c29pool()
		// registrations, starts and stops
		for _, from := range []namedReg{{"nothing", RSpec{}, 3}, {"one metric", RSpec{Metrics: []MSpec{single("i", speed.Int32Type, 1, "text")}}, 2},
			{"several domains", RSpec{Indoms: []ISpec{{Name: "d1", Insts: []string{"a", "b"}}, {Name: "d2", Insts: []string{"c"}}, {Name: "d3"}}, Metrics: []MSpec{inst("m", "d1", speed.Int32Type, vals("a", 1, "b", 2)), counter("c", 0)}}, 2},
			{"every kind", RSpec{Indoms: []ISpec{{Name: "e1", Insts: []string{"a", "b"}, Desc: []string{"short", "long"}}}, Metrics: []MSpec{inst("m", "e1", speed.StringType, vals("a", "1", "b", "2")), counter("c", 0), gauge("g", 1), timer("t"), hist("h"), cvec("cv", vals("x", int64(1), "y", int64(2))), gvec("gv", vals("x", 1.0)),
				single("s1", speed.Int32Type, 1), single("s2", speed.StringType, "x"), single("s3", speed.DoubleType, 0.5)}}, 2}} {
			from := from
			depth := from.Big + deep
			l = append(l, &Scenario{Name: fmt.Sprintf("from %s, histories of %d of %d", from.Name, depth, len(pool)+2), Shards: 16, Enum: func(w *W) {
				words(depth, len(pool)+2, func(i int, word []int) bool {
					if !w.Mine(i) {
						return true
					}
					var ds []string
					for _, x := range word {
						if x < len(pool) {
							ds = append(ds, pool[x].String())
						} else {
							ds = append(ds, []string{"MustStart", "MustStop"}[x-len(pool)])
						}
					}
					return w.Exec("Must forms of "+strings.Join(ds, " "), func(h *H) {
						rs := &RSpec{Indoms: append([]ISpec(nil), from.R.Indoms...), Metrics: append([]MSpec(nil), from.R.Metrics...)}
						s := &mustHistory{h, h.newClient("cl", rs), map[string]*speed.PCPInstanceDomain{}, map[int]*RegOp{}}
						for j, x := range word {
							if x < len(pool) {
								s.register(x, pool[x])
							} else {
								s.cycle(x == len(pool))
							}
							s.check("after " + ds[j])
							w.trans++
							w.State(fmt.Sprint(s.c.Started) + s.c.reg().key())
						}
						s.cycle(true)
						s.check("after MustStart")
						s.cycle(false)
						s.check("after MustStop")
					})
				})
			}})
		}
		// things of other packages
		l = append(l, &Scenario{Name: "foreign metrics and domains", Enum: func(w *W) {
			for k := 0; k < 4; k++ {
				if !w.Exec(fmt.Sprint("case ", k), func(h *H) {
					rs := c23regs()[1].R
					c := h.newClient("cl", &rs)
					s := &mustHistory{h: h, c: c}
					if k%2 == 1 {
						s.cycle(true)
					}
					m, err := newLM(&MSpec{Kind: "single", Name: "foreign", Type: speed.Int32Type, Vals: v1(1)}, nil)
					if err != nil {
						h.Fail("setup", "%v", err)
					}
					d, err := speed.NewPCPInstanceDomain("foreign", []string{"x"})
					if err != nil {
						h.Fail("setup", "%v", err)
					}
					for _, x := range []struct {
						n     string
						plain func() error
						must  func()
					}{
						{"Register(a metric of another package)", func() error { return c.C.Register(fakeMetric{m.M}) }, func() { c.C.MustRegister(fakeMetric{m.M}) }},
						{"RegisterIndom(a domain of another package)", func() error { return c.C.RegisterIndom(fakeIndom{d}) }, func() { c.C.MustRegisterIndom(fakeIndom{d}) }},
					} {
						r := try(e0(x.plain))
						if r.Panic {
							continue // not specified
						}
						if err := mustErr(x.must); (err != nil) != r.Err {
							h.Fail("must", "%s: the plain form %v, the Must form %v", x.n, r, err)
						}
						h.checks++
					}
					if k < 2 {
						s.check("afterwards")
					}
				}) {
					return
				}
			}
		}})
		// file system failures
		for _, r := range c23regs() {
			r := r
			for _, hist := range []string{"S", "SPSPS"} {
				hist := hist
				l = append(l, &Scenario{Name: r.Name + ", file system failures, history " + hist, Shards: 2, Cfg: mc.Config{Faults: true}, B: mc.Bounds{F: 3 + deep*3}, Body: func(h *H) {
					speed.EraseFileOnStop = h.Choose(2) == 1
					defer func() { speed.EraseFileOnStop = false }()
					f := &failing{h: h, must: true, erase: speed.EraseFileOnStop}
					h.X.Quiet(func() { f.c = h.newClient("cl", &r.R) })
					for _, a := range hist {
						if a == 'P' && !f.c.Started {
							continue
						}
						if a == 'S' && f.c.Started {
							f.do(false)
							f.after(true)
						}
						f.do(a == 'S')
						f.after(true)
					}
					h.X.Quiet(func() {
						for _, start := range []bool{true, false, true, false} {
							if f.c.Started != start {
								f.do(start)
								f.after(true)
							}
						}
					})
				}})
			}
		}
		// updates
		for _, k := range c04kinds() {
			k := k
			var ops []Op
			seen := map[string]bool{}
			for _, o := range k.ops {
				if m, ok := mustOf(k.m.Kind, o); ok && !seen[m.String()] {
					seen[m.String()] = true
					ops = append(ops, m)
				}
			}
			if len(ops) == 0 {
				continue
			}
			l = append(l, &Scenario{Name: fmt.Sprintf("%d updates of %s", 3+deep, k.n), Shards: 4, Enum: func(w *W) {
				words(3+deep, len(ops)+1, func(i int, word []int) bool {
					if !w.Mine(i) {
						return true
					}
					var ds []string
					for _, x := range word {
						if x == len(ops) {
							ds = append(ds, "Start/Stop")
						} else {
							ds = append(ds, ops[x].String())
						}
					}
					return w.Exec(strings.Join(ds, " "), func(h *H) {
						for _, from := range []bool{false, true} {
							s := &mustHistory{h: h, c: h.newClient("cl", around(k.m, false))}
							if from {
								s.cycle(true)
							}
							for j, x := range word {
								if x == len(ops) {
									s.cycle(!s.c.Started)
								} else {
									s.c.Ms[1].step(h, ops[x])
								}
								s.check("after " + ds[j])
								w.State(k.n + stateKey(s.c.Ms[1:2]) + fmt.Sprint(s.c.Started))
							}
							if !s.c.Started {
								s.cycle(true)
							}
							s.check("at the end")
							s.cycle(false)
						}
					})
				})
			}})
		}
		// writers
		l = append(l, &Scenario{Name: "writers", Enum: func(w *W) {
			for _, o := range c16ops() {
				o := o
				if !w.Exec(o.n, func(h *H) {
					for size := 0; size <= 20; size++ {
						for off := -2; off <= size+2; off++ {
							a, b := bytes.Repeat([]byte{0xaa}, size), bytes.Repeat([]byte{0xaa}, size)
							wa, wb := bytewriter.NewByteWriterSlice(a), bytewriter.NewByteWriterSlice(b)
							na, err := o.f(wa, off)
							nb := 0
							merr := mustErr(func() { nb = o.must(wb, off) })
							w.trans++
							h.checks++
							if (err != nil) != (merr != nil) {
								h.Fail("must", "%s at %d of %d: the plain form %v, the Must form %v", o.n, off, size, err, merr)
							}
							if err == nil && na != nb {
								h.Fail("must", "%s at %d of %d: the plain form returns %d, the Must form %d", o.n, off, size, na, nb)
							}
							if !bytes.Equal(wa.Bytes(), wb.Bytes()) {
								h.Fail("must", "%s at %d of %d: the plain form leaves %x, the Must form %x", o.n, off, size, wa.Bytes(), wb.Bytes())
							}
						}
					}
				}) {
					return
				}
			}
		}})
		// at the same time
		p := 2
		if deep > 0 {
			p = 3
		}
		for _, x := range []string{"MustStop, MustStop", "MustRegister, MustRegister", "MustRegisterIndom, MustRegisterIndom", "MustRegisterString, MustRegisterString", "MustStart, MustRegister", "MustStop, MustRegister", "MustStart, MustStop"} {
			x := x
			l = append(l, &Scenario{Name: x + " at the same time", Shards: 4, Cfg: mc.Config{Data: true}, B: mc.Bounds{P: p}, Body: func(h *H) {
				rs := RSpec{Metrics: []MSpec{single("i", speed.Int32Type, 1, "text")}}
				var c *CL
				h.X.Quiet(func() { c = h.newClient("cl", &rs) })
				names := strings.Split(x, ", ")
				if names[0] == "MustStop" {
					h.X.Quiet(func() { c.start() })
				}
				var errs [2]error
				var ops [2]RegOp
				var fs [2]func()
				for i, n := range names {
					i, n := i, n
					var f func()
					switch n {
					case "MustStart":
						f = c.C.MustStart
					case "MustStop":
						f = c.C.MustStop
					default:
						r := &ops[i]
						*r = RegOp{Form: "metric", M: single("new", speed.StringType, []string{"first", "second"}[i]), Must: true}
						if n == "MustRegisterIndom" {
							*r = RegOp{Form: "indom", D: ISpec{Name: "d", Insts: []string{"p", "q", "r"}[:i+1], Key: fmt.Sprint(i)}, Must: true}
						} else if n == "MustRegisterString" {
							for _, y := range pool {
								if y.Str == "w" {
									*r = y
								}
							}
						}
						h.X.Quiet(func() { r.prepare(h, map[string]*speed.PCPInstanceDomain{}) })
						f = func() {
							if err := r.apply(c.C); err != nil {
								panic(err)
							}
						}
					}
					fs[i] = func() { errs[i] = mustErr(f) }
				}
				h.Par(fs[0], fs[1])
				n := 0
				for i := range errs {
					if errs[i] == nil {
						n++
						if ops[i].Form != "" {
							g := c.reg()
							if !ops[i].spec(g) {
								h.Fail("must", "%s: both succeed", x)
							}
							c.use(g)
						}
					}
				}
				switch x {
				case "MustStop, MustRegister":
					if errs[0] != nil {
						h.Fail("must", "MustStop of a started client: %v", errs[0])
					}
					c.Started = false
				case "MustStart, MustRegister", "MustStart, MustStop":
					if errs[0] != nil {
						h.Fail("must", "MustStart of a stopped client: %v", errs[0])
					}
					c.Started = names[1] != "MustStop" || errs[1] != nil
				default:
					if n != 1 {
						h.Fail("must", "%s: %d succeed: %v", x, n, errs)
					}
					c.Started = false
				}
				h.checks++
				h.X.Quiet(func() {
					s := &mustHistory{h: h, c: c}
					s.check("afterwards")
					if c.Started {
						s.cycle(false)
					}
					s.cycle(true)
					s.check("after MustStart")
					s.cycle(false)
				})
			}})
		}
		l = append(l, c29updates(tier)...)
		return l
	}
}

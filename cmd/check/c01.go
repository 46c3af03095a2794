package main

import (
	"fmt"
	"time"

	"github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"

	"verif/mc"
)

func init() {
	props["C01"] = func(tier string) (l []*Scenario) {
		for _, r := range regs() {
			r := r
			b := mc.Bounds{P: 2, M: 1}
			if tier == "thorough" {
				b = mc.Bounds{P: 3, M: 2}
			}
			l = append(l, &Scenario{Name: "start/" + r.Name, Shards: 1 + 7*r.Big/2, Cfg: mc.Config{Data: true, MapPerm: true}, B: b, Body: func(h *H) {
				c := h.newClient("cl", &r.R)
				c.checkReg("before Start")
				c.start()
				f := c.checkFile("after Start")
				c.checkMem("after Start")
				c.checkReg("after Start")
				h.X.Outcome = mc.HashString(layout(f))
				h.Note = append(h.Note, r.Name)
				c.stop()
				c.checkFile("after Stop")
			}})
		}
		// combinations of metrics
		pool := c01pool()
		n, p := 2, 1
		if tier == "thorough" {
			n, p = 3, 1
		}
		for k := 1; k <= 3; k++ {
			k := k
			b := mc.Bounds{P: p}
			if k > n {
				b.P = 0
			}
			l = append(l, &Scenario{Name: fmt.Sprintf("%d metrics of a pool of %d", k, len(pool)), Shards: 8, Cfg: mc.Config{Data: b.P > 0, MapPerm: b.P > 0}, B: b, Body: func(h *H) {
				rs := c01combo(h, pool, k)
				c := h.newClient("cl", rs)
				c.start()
				c.checkFile("after Start")
				c.checkMem("after Start")
				c.checkReg("after Start")
				c.stop()
				c.checkFile("after Stop")
			}})
		}
		if tier == "thorough" {
			l = append(l, large("C01", tier, 2049, 4097, 33000))
		}
		return append(l, c01forms(), flags(), c01units(), clocks("C01"), large("C01", tier, 17, 33, 65, 129, 257, 513, 1025), large("C01", tier, 66000))
	}
}

// c01forms are single metrics of every kind with every number of descriptions
// and with names and texts of every critical length.
func c01forms() *Scenario {
	i2 := []string{"p", "q"}
	kinds := []MSpec{single("", speed.Int32Type, -3), single("", speed.Uint32Type, uint32(1)<<31), single("", speed.Int64Type, int64(-1)<<40), single("", speed.Uint64Type, uint64(1)<<63),
		single("", speed.FloatType, float32(0.1)), single("", speed.DoubleType, 0.1), single("", speed.StringType, "v"), single("", speed.StringType, ""), single("", speed.StringType, rep("t", 255)),
		counter("", 5), gauge("", -0.5), timer(""), hist(""), cvec("", vals("p", int64(1), "q", int64(2))), gvec("", vals("p", 1.5, "q", 2.5)),
		inst("", "d", speed.Int32Type, vals("p", 1, "q", -2)), inst("", "d", speed.StringType, vals("p", "", "q", "Q")), inst("", "d", speed.Uint64Type, vals("p", 1, "q", uint(1)<<63)),
		inst("", "d", speed.FloatType, vals("p", 1.5, "q", float32(2))), inst("", "none", speed.StringType, nil)}
	short := rep("s", 255)
	descs := [][]string{nil, {""}, {"s"}, {"s", ""}, {"", "l"}, {"", ""}, {"s", "l"}, {"s", "s"}, {short, rep("l", 255)}, {rep("l", 254), "x"}}
	names := []int{1, 62, 63, 64, 65, 127, 128, 254, 255}
	type cl struct {
		c string
		n int
	}
	var wide []cl // characters of several bytes around the limits
	for _, c := range []string{"\u00e9", "\u20ac", "\U0001f600", "\xff", " ", "%", "\u0301"} {
		for n := 1; n*len(c) <= 255; n++ {
			if b := n * len(c); b >= 60 && b <= 66 || n >= 62 && n <= 65 || b > 250 || n == 1 {
				wide = append(wide, cl{c, n})
			}
		}
	}
	return &Scenario{Name: "every form", Shards: 8, Enum: func(w *W) {
		n := 0
		for _, k := range kinds {
			for _, c := range wide {
				for place := 0; place < 4; place++ {
					s := rep(c.c, c.n)
					m := k
					m.Name = "m"
					rs := &RSpec{Indoms: []ISpec{{Name: "d", Insts: i2}, {Name: "none"}}}
					switch place {
					case 0:
						m.Name = s
					case 1:
						if k.Kind != "inst" || k.Indom == "none" {
							continue
						}
						m.Vals = vals("p", k.Vals["p"], s, k.Vals["q"])
						rs.Indoms[0].Insts = []string{"p", s}
					case 2:
						m.Desc = []string{s, "l"}
						rs.Indoms[0].Desc = []string{"s", s}
					case 3:
						if k.Kind != "inst" || k.Indom == "none" {
							continue
						}
						m.Indom = s
						rs.Indoms[0].Name = s
					}
					if n++; !w.Mine(n) {
						continue
					}
					if place == 0 && len(s) > 200 && (k.Kind == "cvec" || k.Kind == "gvec") {
						continue
					}
					rs.Metrics = []MSpec{m}
					if !w.Exec(fmt.Sprintf("%s type %v, %d times %q at %d", m.Kind, m.typ(), c.n, c.c, place), func(h *H) {
						c := h.newClient("cl", rs)
						c.start()
						c.checkFile("after Start")
						c.checkMem("after Start")
						c.checkReg("after Start")
						c.stop()
						w.State(fmt.Sprint(n))
					}) {
						return
					}
				}
			}
		}
		for _, k := range kinds {
			for di, d := range descs {
				for ni, nl := range names {
					for _, il := range []int{1, 63, 64, 255} {
						if il > 1 && (k.Kind != "inst" || k.Indom == "none" || (di+ni)%3 != 0) {
							continue
						}
						if nl > 200 && (k.Kind == "cvec" || k.Kind == "gvec") {
							continue // the domain is named after the metric
						}
						if n++; !w.Mine(n) {
							continue
						}
						m := k
						m.Name, m.Desc = rep("n", nl), d
						rs := &RSpec{Indoms: []ISpec{{Name: "d", Insts: i2, Desc: d}, {Name: "none", Desc: d}}, Metrics: []MSpec{m}}
						if il > 1 {
							q := rep("q", il)
							m.Vals = vals("p", k.Vals["p"], q, k.Vals["q"])
							rs.Metrics[0] = m
							rs.Indoms[0].Insts = []string{"p", q}
						}
						if !w.Exec(fmt.Sprintf("%s type %v, name of %d, descriptions %d, instance of %d", m.Kind, m.typ(), nl, di, il), func(h *H) {
							c := h.newClient("cl", rs)
							c.start()
							c.checkFile("after Start")
							c.checkMem("after Start")
							c.checkReg("after Start")
							c.stop()
							c.checkFile("after Stop")
							w.State(fmt.Sprint(n))
						}) {
							return
						}
					}
				}
			}
		}
	}}
}

// flags sets every combination of flags, in every order of two.
func flags() *Scenario {
	return &Scenario{Name: "every flag", Enum: func(w *W) {
		defined := speed.NoPrefixFlag | speed.ProcessFlag | speed.SentinelFlag
		for _, r := range []string{"", "m"} {
			for a := speed.MMVFlag(0); a <= defined; a++ {
				for b := speed.MMVFlag(0); b <= defined; b++ {
					if !w.Exec(fmt.Sprintf("flags %d, then %d", a, b), func(h *H) {
						rs := &RSpec{}
						if r != "" {
							rs.Metrics = []MSpec{single(r, speed.StringType, "v", "s")}
						}
						c := h.newClient("cl", rs)
						set := func(f speed.MMVFlag) {
							if err := c.C.SetFlag(f); err != nil {
								h.Fail("registration", "SetFlag(%d): %v", f, err)
							}
							c.Flag = f
						}
						set(a)
						set(b)
						c.start()
						c.checkFile("after Start")
						c.stop()
						c.checkFile("after Stop")
						set(a)
						c.start()
						c.checkFile("after the second Start")
						c.stop()
						w.State(fmt.Sprint(r, a, b))
					}) {
						return
					}
				}
			}
		}
	}}
}

// c01pool are metrics any of which can be registered together.
func c01pool() []MSpec {
	i64 := rep("j", 64)
	u := func(m MSpec, unit speed.MetricUnit, code uint32, sem speed.MetricSemantics) MSpec {
		m.Unit, m.Code, m.Sem = unit, code, sem
		return m
	}
	p := []MSpec{
		u(single("p.i32", speed.Int32Type, -1, "short"), speed.SecondUnit, 1<<24|3<<12, speed.DiscreteSemantics),
		u(single("p.u64", speed.Uint64Type, uint64(1)<<63+5), speed.MegabyteUnit, 1<<28|2<<16, speed.CounterSemantics),
		single("p.float", speed.FloatType, float32(0.1), "", "long only"),
		single("p.string", speed.StringType, "text", "a", "b"),
		counter("p.counter", 9),
		gauge("p.gauge", -2.5, "gauge"),
		timer("p.timer"),
		hist("p.hist"),
		hist("p.hist2", "second"),
		cvec("p.cvec", vals("a", int64(3), "b", int64(4))),
		gvec("p.gvec", vals("b", 5.5), "gv"),
		inst("p.inst", "d", speed.Uint32Type, vals("a", uint32(7), "c", uint32(8)), "in"),
		inst("p.inststr", "d", speed.StringType, vals("a", "sa", "c", "sc")),
		inst("p.noinst", "e", speed.DoubleType, nil),
		inst("p.longinst", "l", speed.Int64Type, vals(i64, int64(-9))),
		single("p."+rep("x", 62), speed.DoubleType, 1e300),
		inst("p.other", "d", speed.FloatType, vals("a", float32(1.5), "c", float32(2.5))),
	}
	p[len(p)-1].Obj = "other d"
	return append(p, single("e.one", speed.StringType, "same", "same", "same"), single("same", speed.Int32Type, 3, "same", "same"),
		inst("e.inst", "same", speed.StringType, vals("same", "same", "x", "same"), "same", "same"))
}

func c01combo(h *H, pool []MSpec, k int) *RSpec {
	rs := &RSpec{Indoms: []ISpec{
		{Name: "d", Insts: []string{"a", "c"}, Desc: []string{"the first d"}},
		{Name: "d", Insts: []string{"c", "a"}, Desc: []string{"the other d", "long"}, Key: "other d"},
		{Name: "same", Insts: []string{"same", "x"}, Desc: []string{"same", "same"}}, {Name: "e"}, {Name: "l", Insts: []string{rep("j", 64)}},
	}}
	left := append([]MSpec(nil), pool...)
	for i := 0; i < k; i++ {
		j := h.Choose(len(left))
		rs.Metrics = append(rs.Metrics, left[j])
		h.Log("%s", left[j].Name)
		left = append(left[:j:j], left[j+1:]...)
	}
	return rs
}

// large registries: many of one thing, where counters and queues of fixed
// size run full.
func large(prop, tier string, sizes ...int) *Scenario {
	type form struct {
		name string
		max  int
		f    func(n int) *RSpec
	}
	nm := func(p string, i int) string { return fmt.Sprintf("%s%d", p, i) }
	i64 := rep("i", 64)
	forms := []form{
		{"numbers", 1 << 20, func(n int) *RSpec {
			r := &RSpec{}
			for i := 0; i < n; i++ {
				r.Metrics = append(r.Metrics, single(nm("m", i), speed.Int32Type, i))
			}
			return r
		}},
		{"strings with texts", 5000, func(n int) *RSpec {
			r := &RSpec{}
			for i := 0; i < n; i++ {
				r.Metrics = append(r.Metrics, single(nm("m", i), speed.StringType, nm("v", i), nm("s", i), nm("l", i)))
			}
			return r
		}},
		{"counters, gauges and timers, version 2", 5000, func(n int) *RSpec {
			r := &RSpec{Metrics: []MSpec{single(i64, speed.Int32Type, 1)}}
			for i := 0; i < n; i++ {
				r.Metrics = append(r.Metrics, []MSpec{counter(nm("c", i), int64(i)), gauge(nm("g", i), float64(i)), timer(nm("t", i))}[i%3])
			}
			return r
		}},
		{"domains", 1 << 20, func(n int) *RSpec {
			r := &RSpec{}
			for i := 0; i < n; i++ {
				r.Indoms = append(r.Indoms, ISpec{Name: nm("d", i), Insts: []string{"a", nm("b", i)}, Desc: []string{nm("s", i)}})
				r.RegInd = append(r.RegInd, nm("d", i))
			}
			return r
		}},
		{"domains without instances", 5000, func(n int) *RSpec {
			r := &RSpec{}
			for i := 0; i < n; i++ {
				r.Indoms = append(r.Indoms, ISpec{Name: nm("d", i)})
				r.RegInd = append(r.RegInd, nm("d", i))
			}
			return r
		}},
		{"instances", 1 << 20, func(n int) *RSpec {
			r := &RSpec{Indoms: []ISpec{{Name: "d"}}}
			v := map[string]interface{}{}
			for i := 0; i < n; i++ {
				v[nm("i", i)] = int64(i)
				r.Indoms[0].Insts = append(r.Indoms[0].Insts, nm("i", i))
			}
			r.Metrics = []MSpec{inst("m", "d", speed.Int64Type, v)}
			return r
		}},
		{"string instances, version 2", 5000, func(n int) *RSpec {
			r := &RSpec{Indoms: []ISpec{{Name: "d", Insts: []string{i64}}}}
			v := vals(i64, "v")
			for i := 0; i < n; i++ {
				v[nm("i", i)] = nm("v", i)
				r.Indoms[0].Insts = append(r.Indoms[0].Insts, nm("i", i))
			}
			r.Metrics = []MSpec{inst("m", "d", speed.StringType, v)}
			return r
		}},
		{"metrics of one domain", 5000, func(n int) *RSpec {
			r := &RSpec{Indoms: []ISpec{{Name: "d", Insts: []string{"a", "b"}}}}
			for i := 0; i < n; i++ {
				r.Metrics = append(r.Metrics, inst(nm("m", i), "d", speed.Uint32Type, vals("a", i, "b", n+i)))
			}
			return r
		}},
		{"vectors and histograms", 5000, func(n int) *RSpec {
			r := &RSpec{}
			for i := 0; i < n; i++ {
				r.Metrics = append(r.Metrics, []MSpec{cvec(nm("c", i), vals("a", int64(i))), gvec(nm("g", i), vals("a", float64(i), "b", 1.5)), hist(nm("h", i))}[i%3])
			}
			return r
		}},
	}
	return &Scenario{Name: fmt.Sprintf("large registries of up to %d", sizes[len(sizes)-1]), Shards: 8, Cfg: mc.Config{MaxThr: 300000, MaxStep: 40000000}, Leak: prop == "C03", Orders: sizes[len(sizes)-1] < 1500, Enum: func(w *W) {
		n := 0
		for _, size := range sizes {
			for _, f := range forms {
				if size > f.max || size > 50000 && f.name != "instances" {
					continue
				}
				if n++; !w.Mine(n) {
					continue
				}
				if !w.Exec(fmt.Sprintf("%d %s", size, f.name), func(h *H) {
					c := h.newClient("cl", f.f(size))
					c.start()
					c.checkFile("after Start")
					c.checkReg("after Start")
					c.stop()
					if prop == "C03" {
						c.start()
						c.checkFile("after the second Start")
						c.stop()
					}
					w.State(fmt.Sprint(size, f.name))
				}) {
					return
				}
			}
		}
	}}
}

// clocks starts clients at every kind of clock reading.
func clocks(prop string) *Scenario {
	return &Scenario{Name: "clock readings", Shards: 2, Enum: func(w *W) {
		n := 0
		for _, r := range regs() { // a clock that moves on at every reading
			for _, tick := range []time.Duration{1, 999999999, 1e9, 1e9 + 1, 2e9, -1e9, 3600e9} {
				if n++; !w.Mine(n) || r.Big > 1 {
					continue
				}
				if !w.Exec(fmt.Sprintf("%s, the clock moves by %d ns at every reading", r.Name, tick), func(h *H) {
					h.clean()
					rs := r.R
					c := h.newClient("cl", &rs)
					for _, at := range []string{"after Start", "after the second Start"} {
						h.X.Tick = tick
						c.start()
						h.X.Tick = 0
						c.checkFile(at)
						c.checkMem(at)
						h.X.Tick = tick
						c.stop()
						h.X.Tick = 0
						c.checkFile(at + " and Stop")
					}
					w.State(fmt.Sprint(r.Name, tick))
				}) {
					return
				}
			}
		}
		for _, sec := range []int64{1, 127, 128, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 256, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 1<<16, 1 << 33} {
			for _, ns := range []int64{0, 1, 999999999} {
				for _, then := range []int64{0, 1, -1, 1e9, -1e9, 1 << 60} {
					if sec == 1 && then < 0 {
						continue
					}
					if n++; !w.Mine(n) {
						continue
					}
					if !w.Exec(fmt.Sprintf("Start at %d.%09d s and %d ns later", sec, ns, then), func(h *H) {
						h.clean()
						mc.Advance(time.Duration(sec*1e9 + ns - vnow()))
						c := h.newClient("cl", &RSpec{Metrics: []MSpec{single("m", speed.Int32Type, 5), timer("t"), single("s", speed.StringType, "x")}})
						look := func(at string) {
							c.checkFile(at)
							b, err := c.bytes()
							if err == nil {
								_, _, _, _, _, _, _, err = mmvdump.Dump(b)
							}
							if err != nil {
								h.Fail("file", "%s: the dump package: %v", at, err)
							}
						}
						c.start()
						look("after Start")
						c.stop()
						c.Ms[0].step(h, Op{Name: "Set", Arg: 6})
						mc.Advance(time.Duration(then))
						c.start()
						look("after the second Start")
						c.stop()
						w.State(fmt.Sprint(sec, ns, then))
					}) {
						return
					}
				}
			}
		}
	}}
}

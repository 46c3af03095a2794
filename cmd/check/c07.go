package main

// C07: the registry holds each name once and counts exactly what it holds.
// C08: concurrent registrations behave as if made one after another.
// C06: registering while the client starts is all or nothing.

import (
	"fmt"
	"os"
	"strings"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

// allNames of metrics and indoms in the pool.
func allNames(pool []RegOp) (ms, ds []string) {
	m, d := map[string]bool{}, map[string]bool{}
	for _, r := range pool {
		if r.M.Name != "" {
			m[r.M.Name] = true
			if n := r.M.indomName(); n != "" {
				d[n] = true
			}
		}
		if r.D.Name != "" {
			d[r.D.Name] = true
		}
	}
	for k := range m {
		ms = append(ms, k)
	}
	for k := range d {
		ds = append(ds, k)
	}
	return
}

func (c *CL) checkNames(when string, ms, ds []string) {
	g := c.reg()
	for _, n := range ms {
		if c.R.HasMetric(n) != g.metric(n) {
			c.h.Fail("registry", "%s: HasMetric(%q) is %v", when, n, !g.metric(n))
		}
	}
	for _, n := range ds {
		if c.R.HasInstanceDomain(n) != (g.indom(n) != nil) {
			c.h.Fail("registry", "%s: HasInstanceDomain(%q) is %v", when, n, g.indom(n) == nil)
		}
	}
}

func init() {
	props["C07"] = func(tier string) (l []*Scenario) {
		depth := 3
		if tier == "thorough" {
			depth = 4
		}
		pool := regPool()
		mn, dn := allNames(pool)
		l = append(l, &Scenario{Name: fmt.Sprintf("sequences of %d registrations of %d", depth, len(pool)), Shards: 16, Enum: func(w *W) {
			words(depth, len(pool), func(i int, word []int) bool {
				if !w.Mine(i) {
					return true
				}
				var ds []string
				for _, x := range word {
					ds = append(ds, pool[x].String())
				}
				return w.Exec(strings.Join(ds, " "), func(h *H) {
					c := h.newClient("cl", &RSpec{})
					objs := map[string]*speed.PCPInstanceDomain{}
					ops := map[int]*RegOp{}
					c.checkReg("at first")
					for _, x := range word {
						// the same object again when the same letter comes again
						r := ops[x]
						if r == nil {
							o := pool[x]
							r = &o
							r.prepare(h, objs)
							ops[x] = r
						}
						old := c.reg()
						g := c.reg()
						err := r.apply(c.C)
						ok := r.spec(g)
						if ok != (err == nil) {
							h.Fail("registration", "%v: error %v, expected success: %v", r, err, ok)
						}
						if ok {
							c.use(g)
						} else {
							c.use(old)
						}
						c.checkReg("after " + r.String())
						c.checkNames("after "+r.String(), mn, dn)
						w.State(c.reg().key())
						h.checks++
					}
					c.start()
					c.checkFile("after Start")
					c.checkReg("after Start")
					c.stop()
					c.checkReg("after Stop")
				})
			})
		}})
		// registrations refused because the client is started
		l = append(l, &Scenario{Name: fmt.Sprintf("one of %d, Start, %d of %d, Stop", len(pool), depth-1, len(pool)), Shards: 16, Enum: func(w *W) {
			words(depth, len(pool), func(i int, word []int) bool {
				if !w.Mine(i) {
					return true
				}
				var ds []string
				for _, x := range word {
					ds = append(ds, pool[x].String())
				}
				return w.Exec("Start after the first of "+strings.Join(ds, " "), func(h *H) {
					c := h.newClient("cl", &RSpec{})
					objs := map[string]*speed.PCPInstanceDomain{}
					var rs []*RegOp
					do := func(r *RegOp) {
						old, g := c.reg(), c.reg()
						err := r.apply(c.C)
						ok := r.spec(g)
						if ok != (err == nil) {
							h.Fail("registration", "%v: error %v, expected success: %v", r, err, ok)
						}
						if ok {
							c.use(g)
						} else {
							c.use(old)
						}
						c.checkReg("after " + r.String())
						c.checkNames("after "+r.String(), mn, dn)
						h.checks++
					}
					for _, x := range word {
						o := pool[x]
						o.prepare(h, objs)
						rs = append(rs, &o)
					}
					do(rs[0])
					c.start()
					for _, r := range rs[1:] {
						if err := r.apply(c.C); err == nil {
							h.Fail("registration", "%v: accepted by a started client", r)
						}
						c.checkReg("after refused " + r.String())
						c.checkNames("after refused "+r.String(), mn, dn)
						h.checks++
					}
					c.checkFile("after refused registrations")
					c.stop()
					c.checkReg("after Stop")
					for _, r := range rs[1:] {
						do(r)
					}
					c.start()
					c.checkFile("after the second Start")
					c.stop()
					w.State(c.reg().key())
				})
			})
		}})
		// longer sequences over the registrations that share names
		few := []int{0, 1, 3, 4, 5, 6, 8, 13, 14}
		d2 := 5
		if tier == "thorough" {
			d2 = 7
		}
		l = append(l, &Scenario{Name: fmt.Sprintf("sequences of %d registrations with shared names", d2), Shards: 16, Enum: func(w *W) {
			words(d2, len(few), func(i int, word []int) bool {
				if !w.Mine(i) {
					return true
				}
				var ds []string
				for _, x := range word {
					ds = append(ds, pool[few[x]].String())
				}
				return w.Exec(strings.Join(ds, " "), func(h *H) {
					c := h.newClient("cl", &RSpec{})
					objs := map[string]*speed.PCPInstanceDomain{}
					for _, x := range word {
						o := pool[few[x]]
						r := &o
						r.prepare(h, objs)
						old, g := c.reg(), c.reg()
						err := r.apply(c.C)
						ok := r.spec(g)
						if ok != (err == nil) {
							h.Fail("registration", "%v: error %v, expected success: %v", r, err, ok)
						}
						if ok {
							c.use(g)
						} else {
							c.use(old)
						}
						c.checkReg("after " + r.String())
						h.checks++
					}
					w.State(c.reg().key())
				})
			})
		}})
		return append(l, c07made(tier), c07filled(tier), c07refused(tier, false), c07refused(tier, true), c07names(tier))
	}

	props["C08"] = func(tier string) (l []*Scenario) {
		pool := regPool()
		p2, p3 := 2, 1
		if tier == "thorough" {
			p2, p3 = 4, 2
		}
		body := func(sub []int, n int, reader bool) func(h *H) {
			return func(h *H) {
				var rs []*RegOp
				for i := 0; i < n; i++ {
					o := pool[sub[h.Choose(len(sub))]]
					rs = append(rs, &o)
				}
				var c *CL
				h.X.Quiet(func() {
					c = h.newClient("cl", &RSpec{Metrics: []MSpec{single("base", speed.Int32Type, 1)}})
					objs := map[string]*speed.PCPInstanceDomain{}
					for _, r := range rs {
						r.prepare(h, objs)
					}
				})
				errs := make([]error, n)
				var fs []func()
				for i := range rs {
					i := i
					h.Log("%v", rs[i])
					fs = append(fs, func() { errs[i] = rs[i].apply(c.C) })
				}
				if reader {
					fs = append(fs, func() { c.readCounts(2) })
				}
				h.Par(fs...)
				h.X.Quiet(func() { c.explain(rs, errs) })
			}
		}
		var all []int
		for i := range pool {
			all = append(all, i)
		}
		l = append(l, &Scenario{Name: "two of all", Shards: 16, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: p2, FreeBlock: true}, Body: body(all, 2, false)})
		l = append(l, &Scenario{Name: "two and a reader", Shards: 16, Cfg: mc.Config{Data: true}, B: mc.Bounds{P: p3, FreeBlock: true}, Body: body([]int{0, 2, 3, 5, 11, 13, 17, 18}, 2, true)})
		l = append(l, &Scenario{Name: "three of some", Shards: 16, Cfg: mc.Config{Data: true}, B: mc.Bounds{P: p3, FreeBlock: true}, Body: body([]int{0, 1, 3, 4, 5, 8, 13, 14}, 3, false)})
		// readers of the registry during one registration
		l = append(l, &Scenario{Name: "one and two readers", Shards: 8, Cfg: mc.Config{Data: true}, B: mc.Bounds{P: p3, FreeBlock: true}, Body: func(h *H) {
			o := pool[all[h.Choose(len(all))]]
			var c *CL
			h.X.Quiet(func() {
				c = h.newClient("cl", &RSpec{Metrics: []MSpec{single("base", speed.Int32Type, 1)}})
				o.prepare(h, map[string]*speed.PCPInstanceDomain{})
			})
			errs := make([]error, 1)
			h.Par(func() { errs[0] = o.apply(c.C) }, func() { c.readCounts(2) }, func() { c.readCounts(1) })
			h.X.Quiet(func() { c.explain([]*RegOp{&o}, errs) })
		}})
		return append(l, c08filled(tier)...)
	}

	props["C06"] = func(tier string) (l []*Scenario) {
		pool := regPool()
		p := 2
		if tier == "thorough" {
			p = 3
		}
		body := func(sub []int, n int, order int, stop bool) func(h *H) {
			return func(h *H) {
				var rs []*RegOp
				for i := 0; i < n; i++ {
					o := pool[sub[h.Choose(len(sub))]]
					rs = append(rs, &o)
				}
				var c *CL
				h.X.Quiet(func() {
					c = h.newClient("cl", &RSpec{Metrics: []MSpec{single("base", speed.Int32Type, 1, "base")}})
					objs := map[string]*speed.PCPInstanceDomain{}
					for _, r := range rs {
						r.prepare(h, objs)
					}
					if stop {
						c.start()
					}
				})
				errs := make([]error, n)
				var fs []func()
				for i := range rs {
					i := i
					h.Log("%v", rs[i])
					fs = append(fs, func() { errs[i] = rs[i].apply(c.C) })
				}
				st := func() {
					var err error
					if stop {
						err = c.C.Stop()
					} else {
						err = c.C.Start()
					}
					if err != nil {
						h.Fail("start", "Start or Stop concurrent with registrations: %v", err)
					}
				}
				if order == 0 {
					fs = append(fs, st)
				} else {
					fs = append([]func(){st}, fs...)
				}
				h.Par(fs...)
				h.X.Quiet(func() {
					var ok []*RegOp
					var re []error
					for i, r := range rs {
						if errs[i] == nil {
							ok, re = append(ok, r), append(re, nil)
						}
					}
					c.Started = !stop
					c.explain(ok, re)
					// what was refused because of the mapping can be registered now
					for i, r := range rs {
						if errs[i] != nil {
							old, g := c.reg(), c.reg()
							err := r.apply(c.C)
							sp := r.spec(g)
							if sp != (err == nil) {
								h.Fail("registration", "%v after Stop: error %v, expected success: %v", r, err, sp)
							}
							if sp {
								c.use(g)
							} else {
								c.use(old)
							}
						}
					}
					c.checkReg("after Stop")
					c.start()
					c.checkFile("after the next Start")
					c.checkReg("after the next Start")
					c.stop()
				})
			}
		}
		good := []int{0, 2, 3, 6, 8, 9, 11, 13, 15, 16, 17, 18, 22, 23}
		bd := mc.Bounds{P: p}
		for order, on := range []string{"registration first", "Start first"} {
			l = append(l, &Scenario{Name: "one registration and Start, " + on, Shards: 16, Cfg: mc.Config{Data: true, RelPt: true}, B: bd, Body: body(good, 1, order, false)})
			l = append(l, &Scenario{Name: "two registrations and Start, " + on, Shards: 16, Cfg: mc.Config{Data: true}, B: mc.Bounds{P: p - 1}, Body: body([]int{0, 2, 3, 4, 8, 13, 17}, 2, order, false)})
		}
		l = append(l, &Scenario{Name: "one registration and Stop", Shards: 8, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: p, FreeBlock: true}, Body: body(good, 1, 0, true)})
		l = append(l, &Scenario{Name: "two registrations and Stop", Shards: 8, Cfg: mc.Config{Data: true}, B: mc.Bounds{P: p - 1, FreeBlock: true}, Body: body([]int{0, 1, 3, 5, 13, 17}, 2, 0, true)})
		return append(l, c06filled(tier)...)
	}
}

// readCounts reads everything the registry reports; counts never shrink.
func (c *CL) readCounts(n int) {
	var last [5]int
	for i := 0; i < n; i++ {
		now := [5]int{c.R.StringCount(), c.R.ValuesCount(), c.R.InstanceCount(), c.R.MetricCount(), c.R.InstanceDomainCount()}
		for j := range now {
			if now[j] < last[j] {
				c.h.Fail("registry", "count %d falls from %d to %d while registrations are made", j, last[j], now[j])
			}
		}
		last = now
		if !c.R.HasMetric("base") || c.R.HasInstanceDomain("no such domain") {
			c.h.Fail("registry", "the registry forgets a metric or invents a domain")
		}
	}
}

// explain looks for an order of the registrations that gives the results and
// the content of the registry and of the file.
func (c *CL) explain(rs []*RegOp, errs []error) {
	h := c.h
	var d []string
	base := c.reg()
	var file []byte
	was := c.Started
	if !was {
		// compare the registry before Start, too
		defer func() { c.checkReg("at the end") }()
	}
	var cands []*Reg
	var rec func(used int, g *Reg)
	rec = func(used int, g *Reg) {
		if used == 1<<len(rs)-1 {
			cands = append(cands, g)
			return
		}
		for i, r := range rs {
			if used>>i&1 == 0 {
				n := g.clone()
				if r.spec(n) == (errs[i] == nil) {
					if errs[i] != nil {
						n = g.clone()
					}
					rec(used|1<<i, n)
				}
			}
		}
	}
	rec(0, base)
	if len(cands) == 0 {
		h.Fail("registration", "no order explains the results %v", errs)
	}
	var fit []*Reg
	for _, g := range cands {
		c.use(g)
		if x := c.regDiff(); x != "" {
			d = append(d, x)
		} else {
			fit = append(fit, g)
		}
	}
	if len(fit) == 0 {
		h.Fail("registry", "results %v: %s", errs, strings.Join(d, " or "))
	}
	if !was {
		c.start()
	}
	file, err := os.ReadFile(c.path())
	if err != nil {
		h.Fail("file", "%v", err)
	}
	f, err := parse(file)
	if err != nil {
		h.Fail("file", "the published file is malformed: %v", err)
	}
	d = nil
	for _, g := range fit {
		c.use(g)
		x := diff(c.wantFor(f), f.lines)
		if x == "" {
			c.checkFile("after Start")
			c.checkReg("after Start")
			c.stop()
			h.checks++
			return
		}
		d = append(d, x)
	}
	h.Fail("content", "results %v: %s", errs, strings.Join(d, " or "))
}

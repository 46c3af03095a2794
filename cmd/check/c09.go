package main

// C09: concurrent updates and reads of metrics are linearizable.
// C10: counters never go backwards.
// C11: updates concurrent with Start or Stop are neither lost nor fatal.

import (
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

type c09kind struct {
	n   string
	m   MSpec
	few []Op // for longer programs
	all []Op // for pairs
}

func c09kinds() (l []c09kind) {
	o := func(n string, a interface{}) Op { return Op{Name: n, Arg: a} }
	oi := func(n string, a interface{}, i string) Op { return Op{Name: n, Arg: a, Inst: i} }
	few := map[string][]Op{
		"int32":            {o("Set", 7), o("Set", -9), o("Val", nil), o("MustSet", 1<<40)},
		"uint64":           {o("Set", 7), o("Set", uint64(math.MaxUint64)), o("Val", nil)},
		"double":           {o("Set", 7.5), o("Set", -1e300), o("Val", nil)},
		"string":           {o("Set", "other text"), o("Set", "x"), o("Val", nil)},
		"int32 instances":  {oi("Set", 7, "a"), oi("Set", 8, "b"), oi("Set", 9, "a"), oi("Val", nil, "a")},
		"string instances": {oi("Set", "new", "a"), oi("Set", "newer", "a"), oi("Set", "B", "b"), oi("Val", nil, "a")},
		"counter":          {o("Inc", int64(2)), o("Up", nil), o("Set", int64(5)), o("Val", nil), o("Inc", int64(-1))},
		"gauge":            {o("Inc", 1.5), o("Dec", 0.25), o("Set", 10.0), o("Val", nil)},
		"timer":            {o("Start", nil), o("Stop", nil), o("Reset", nil)},
		"counter vector":   {oi("Inc", int64(2), "a"), o("UpAll", nil), oi("Set", int64(4), "a"), oi("Val", nil, "a"), oi("Up", nil, "b")},
		"gauge vector":     {oi("Inc", 2.5, "a"), o("DecAll", 0.5), o("SetAll", 4.0), oi("Val", nil, "a"), oi("Dec", 1.0, "b")},
		"histogram":        {o("Record", int64(50)), Op{Name: "RecordN", Arg: int64(7), N: 3}, o("Max", nil), o("Mean", nil), o("Record", int64(-1))},
	}
	for _, k := range c04kinds() {
		f := few[k.n]
		if f == nil {
			continue
		}
		var all []Op
		seen := map[string]bool{}
		for _, x := range append(append([]Op(nil), f...), k.ops...) {
			if k.m.Kind == "cvec" && (x.Name == "SetAll" || x.Name == "IncAll" && x.Arg.(int64) < 0 || x.Name == "MustSet" && x.Arg.(int64) > 100) {
				continue // the forms for all instances may stop half way
			}
			if x.Name == "+" || seen[x.String()] {
				continue
			}
			seen[x.String()] = true
			all = append(all, x)
		}
		all = append(all, readers(k.m)...)
		l = append(l, c09kind{k.n, k.m, f, all})
	}
	return l
}

func readers(m MSpec) (l []Op) {
	switch m.Kind {
	case "hist":
		for _, n := range []string{"Min", "Variance", "StandardDeviation", "Buckets"} {
			l = append(l, Op{Name: n})
		}
		l = append(l, Op{Name: "Percentile", N: 90})
	case "inst", "cvec", "gvec":
		l = append(l, Op{Name: "Val", Inst: "b"})
	case "timer":
	default:
		l = append(l, Op{Name: "Val"})
	}
	return l
}

// program lets the explorer choose a program for each thread.
func (h *H) program(n []int, pool []Op) [][]Op {
	var p [][]Op
	for _, k := range n {
		var t []Op
		for i := 0; i < k; i++ {
			o := pool[h.Choose(len(pool))]
			t = append(t, o)
		}
		p = append(p, t)
		h.Log("%v", t)
	}
	return p
}

func (t *Hist) threads(m *LM, prog [][]Op) (fs []func()) {
	for _, ops := range prog {
		ops := ops
		fs = append(fs, func() {
			for _, o := range ops {
				t.call(m, o)
			}
		})
	}
	return fs
}

// holder puts the metric next to another one.
func holder(m MSpec) *RSpec {
	rs := &RSpec{Metrics: []MSpec{m, single("behind", speed.StringType, "text")}}
	if m.Kind == "inst" {
		rs.Indoms = []ISpec{{Name: "d", Insts: []string{"a", "b"}}}
	}
	return rs
}

func init() {
	props["C09"] = func(tier string) (l []*Scenario) {
		p2, p22, p3 := 2, 1, 1
		if tier == "thorough" {
			p2, p22, p3 = 6, 4, 3
		}
		for _, k := range c09kinds() {
			k := k
			add := func(name string, n []int, pool []Op, p int, started bool, sh int) {
				if !started {
					name += ", not started"
				}
				l = append(l, &Scenario{Name: k.n + ", " + name, Shards: sh, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: p, FreeBlock: true}, Body: func(h *H) {
					prog := h.program(n, pool)
					var c *CL
					h.X.Quiet(func() {
						c = h.newClient("cl", holder(k.m))
						if started {
							c.start()
						}
						if k.m.Kind == "hist" {
							c.Ms[0].step(h, Op{Name: "Record", Arg: int64(20)})
						}
					})
					t := &Hist{h: h}
					h.Par(t.threads(c.Ms[0], prog)...)
					h.X.Quiet(func() {
						t.settle(c, c.Ms)
						if started {
							c.checkFile("at the end")
						}
						c.checkMem("at the end")
					})
				}})
			}
			add("two operations", []int{1, 1}, k.all, p2, true, 2)
			add("two operations", []int{1, 1}, k.few, p2+1, false, 1)
			pool := k.few
			if tier != "thorough" && len(pool) > 4 {
				pool = pool[:4]
			}
			// one operation, and others that all come in between
			n := 4
			if k.m.Kind == "hist" || strings.HasSuffix(k.m.Kind, "vec") {
				n = 3
			}
			if tier == "thorough" {
				n += 2
			}
			l = append(l, &Scenario{Name: fmt.Sprintf("%s, one among %d", k.n, n), Shards: 2, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: n, FreeBlock: true}, Body: func(h *H) {
				var mods []Op
				for _, x := range k.few {
					if x.Name != "Val" && x.Name != "Max" && x.Name != "Mean" {
						mods = append(mods, x)
					}
				}
				prog := [][]Op{{mods[h.Choose(len(mods))]}}
				o := mods[h.Choose(len(mods))]
				for i := 0; i < n; i++ {
					prog = append(prog, []Op{o})
				}
				h.Log("%v", prog)
				var c *CL
				h.X.Quiet(func() {
					c = h.newClient("cl", holder(k.m))
					c.start()
				})
				t := &Hist{h: h}
				h.X.Victim = h.X.NThreads()
				h.Par(t.threads(c.Ms[0], prog)...)
				h.X.Victim = 0
				h.X.Quiet(func() {
					t.settle(c, c.Ms)
					c.checkFile("at the end")
				})
			}})
			add("two by two", []int{2, 2}, pool, p22, true, 4)
			add("three threads", []int{1, 1, 1}, pool, p3, true, 2)
			if tier == "thorough" {
				add("two by two", []int{2, 2}, pool, p22, false, 4)
				add("three by three", []int{3, 3}, pool[:3], p3, true, 8)
				add("four threads", []int{1, 1, 1, 1}, pool[:3], p3, true, 8)
			}
		}
		// different metrics that share a domain or nothing at all
		l = append(l, &Scenario{Name: "different metrics", Shards: 4, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: p22, FreeBlock: true}, Body: func(h *H) {
			rs := &RSpec{Indoms: []ISpec{{Name: "d", Insts: []string{"a", "b"}}}, Metrics: []MSpec{inst("i", "d", speed.Int32Type, vals("a", 1, "b", 2)),
				inst("j", "d", speed.StringType, vals("a", "1", "b", "2")), hist("h"), hist("g"), counter("c", 0), gauge("z", 1)}}
			ops := []Op{{Name: "Set", Arg: 9, Inst: "a"}, {Name: "Set", Arg: "longer", Inst: "a"}, {Name: "Record", Arg: int64(33)}, {Name: "Record", Arg: int64(44)}, {Name: "Up"}, {Name: "Dec", Arg: 4.0}}
			a, b := h.Choose(len(ops)), h.Choose(len(ops))
			var c *CL
			h.X.Quiet(func() {
				c = h.newClient("cl", rs)
				c.start()
			})
			h.Log("%d.%v %d.%v", a, ops[a], b, ops[b])
			t := &Hist{h: h}
			h.Par(func() { t.call(c.Ms[a], ops[a]) }, func() { t.call(c.Ms[b], ops[b]) })
			h.X.Quiet(func() {
				t.settle(c, c.Ms)
				c.checkFile("at the end")
			})
		}})
		// printing a metric while it is updated
		l = append(l, &Scenario{Name: "updates and String", Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: p22, FreeBlock: true}, Body: func(h *H) {
			var c *CL
			h.X.Quiet(func() {
				c = h.newClient("cl", &RSpec{Metrics: []MSpec{single("s", speed.Int32Type, 1)}})
				c.start()
			})
			x := c.Ms[0].M.(*speed.PCPSingletonMetric)
			old := x.String()
			var got [2]string
			h.Par(func() { c.Ms[0].step(h, Op{Name: "Set", Arg: 2}) }, func() { got[0] = x.String(); got[1] = x.String() })
			now := x.String()
			for i, g := range got {
				if g != old && g != now || i == 1 && got[0] == now && g != now {
					h.Fail("linearizability", "String gives %q, then %q; before the update %q, after it %q", got[0], got[1], old, now)
				}
			}
		}})
		return l
	}

	props["C10"] = func(tier string) (l []*Scenario) {
		depth, p := 4, 2
		if tier == "thorough" {
			depth, p = 5, 5
		}
		const maxi, mini = int64(math.MaxInt64), int64(math.MinInt64)
		o := func(n string, a interface{}) Op { return Op{Name: n, Arg: a} }
		oi := func(n string, a interface{}, i string) Op { return Op{Name: n, Arg: a, Inst: i} }
		life := []Op{{Name: "Stop or Start"}}
		single := append([]Op{o("Inc", int64(0)), o("Inc", int64(1)), o("Inc", int64(-1)), o("Inc", maxi), o("Inc", mini), o("Up", nil), o("MustInc", maxi-5), o("MustInc", int64(-3)),
			o("Set", int64(0)), o("Set", int64(-1)), o("Set", mini), o("Set", maxi), o("Set", maxi-1), o("Set", int64(5))}, life...)
		vec := append([]Op{oi("Inc", int64(1), "a"), oi("Inc", int64(-1), "b"), oi("Inc", maxi, "a"), oi("Up", nil, "b"), oi("MustInc", mini, "a"), oi("Set", maxi, "b"), oi("Set", int64(3), "a"), oi("MustSet", int64(-7), "a"),
			o("UpAll", nil), o("IncAll", maxi), o("IncAll", int64(-2)), o("SetAll", int64(6)), o("SetAll", int64(-6))}, life...)
		for _, k := range []struct {
			n   string
			m   MSpec
			ops []Op
		}{
			{"counter from 0", counter("m", 0), single}, {"counter from -3", counter("m", -3), single}, {"counter from the maximum less 2", counter("m", maxi-2), single}, {"counter from the minimum", counter("m", mini), single},
			{"vector", cvec("m", vals("a", int64(1), "b", int64(2))), vec}, {"vector at the limits", cvec("m", vals("a", maxi-1, "b", mini)), vec},
		} {
			k := k
			l = append(l, &Scenario{Name: k.n, Shards: 8, Enum: func(w *W) {
				for _, begun := range []bool{true, false} {
					d := depth
					if !begun {
						d--
					}
					words(d, len(k.ops), func(i int, word []int) bool {
						if !w.Mine(i) {
							return true
						}
						ds := []string{"started"}
						if !begun {
							ds[0] = "not started"
						}
						for _, x := range word {
							ds = append(ds, k.ops[x].String())
						}
						return w.Exec(strings.Join(ds, " "), func(h *H) {
							c := h.newClient("cl", &RSpec{Metrics: []MSpec{k.m}})
							m := c.Ms[0]
							var f *rFile
							started := false
							toggle := func() {
								if started {
									c.stop()
								} else {
									c.start()
									f = c.checkFile("after Start")
								}
								started = !started
							}
							last := map[string]int64{}
							look := func(when string) {
								for _, in := range m.insts() {
									v, _ := m.read(in)
									n, ok := v.(int64)
									fv := n
									if started {
										fv = int64(c.slot(f, m, in).(uint64))
									}
									if old, had := last[in]; had && (!ok || n < old || fv < old) {
										h.Fail("decrease", "%s: counter %q goes from %d to %v, in the file to %d", when, in, old, v, fv)
									}
									if !ok || fv != n {
										h.Fail("value", "%s: counter %q is %v, in the file %d", when, in, v, fv)
									}
									last[in] = n
								}
								h.checks++
							}
							if begun {
								toggle()
							}
							look("at first")
							for _, x := range word {
								if k.ops[x].Name == life[0].Name {
									toggle()
									look("after Stop or Start")
									continue
								}
								m.step(h, k.ops[x])
								look("after " + k.ops[x].String())
								w.State(fmt.Sprint(k.n, started, stateKey(c.Ms)))
							}
							if !started {
								toggle()
								look("after the last Start")
							}
						})
					})
				}
			}})
		}
		// interleavings; every content of the file counts as well
		conc := func(name string, m MSpec, pool []Op, n []int, inst string, cycle bool, b mc.Bounds, sh int) {
			l = append(l, &Scenario{Name: name, Shards: sh, Cfg: mc.Config{Data: true, RelPt: true}, B: b, OnMem: true, Body: func(h *H) {
				prog := h.program(n, pool)
				var c *CL
				var off uint64
				h.X.Quiet(func() {
					c = h.newClient("cl", &RSpec{Metrics: []MSpec{m}})
					c.start()
					off = c.checkFile("at first").valueOff["m\x00"+inst]
				})
				k := c.Ms[0]
				last := k.Cur[inst].(int64)
				h.X.OnMem = func(x *mc.Exec) {
					b, err := os.ReadFile(c.path())
					if err != nil || !complete(b) {
						return
					}
					h.checks++
					if v := int64(le.Uint64(b[off:])); v < last {
						x.FailNoExit("decrease", "the file shows the counter falling from %d to %d", last, v)
					} else {
						last = v
					}
				}
				t := &Hist{h: h}
				fs := t.threads(k, prog)
				fs = append(fs, func() {
					old := int64(math.MinInt64)
					for i := 0; i < 2; i++ {
						v := t.call(k, Op{Name: "Val", Inst: inst}).Val.(int64)
						if v < old {
							h.Fail("decrease", "the counter falls from %d to %d", old, v)
						}
						old = v
					}
				})
				if cycle {
					fs = append(fs, func() {
						c.stop()
						c.start()
					})
				}
				h.Par(fs...)
				h.X.OnMem = nil
				h.X.Quiet(func() {
					t.settle(c, c.Ms)
					c.checkFile("at the end")
				})
			}})
		}
		pool := []Op{o("Inc", int64(3)), o("Up", nil), o("Set", int64(5)), o("Set", int64(2)), o("Inc", maxi-2)}
		fb := mc.Bounds{P: p - 1, FreeBlock: true}
		conc("interleavings, counter", counter("m", 1), pool, []int{1, 1}, "", false, mc.Bounds{P: p, FreeBlock: true}, 4)
		conc("interleavings, counter, two by two", counter("m", 1), pool[:4], []int{2, 2}, "", false, fb, 8)
		conc("interleavings, counter, three updaters", counter("m", 1), pool[:4], []int{1, 1, 1}, "", false, fb, 8)
		vp := []Op{oi("Inc", int64(3), "a"), o("UpAll", nil), oi("Set", int64(5), "a"), oi("Set", int64(2), "a"), oi("Inc", maxi-2, "a")}
		vm := cvec("m", vals("a", int64(1), "b", int64(0)))
		conc("interleavings, vector", vm, vp, []int{1, 1}, "a", false, mc.Bounds{P: p, FreeBlock: true}, 4)
		conc("interleavings, vector, two by two", vm, vp[:4], []int{2, 2}, "a", false, fb, 8)
		conc("across Stop and Start, counter", counter("m", 1), pool[:3], []int{2}, "", true, mc.Bounds{P: p - 1}, 8)
		conc("across Stop and Start, vector", vm, vp[:3], []int{2}, "a", true, mc.Bounds{P: p - 1}, 8)
		return l
	}

	props["C11"] = func(tier string) (l []*Scenario) {
		p := 2
		if tier == "thorough" {
			p = 3
		}
		for _, k := range c09kinds() {
			k := k
			var pool []Op
			for _, x := range k.few {
				if x.Name == "Val" || x.Name == "Max" || x.Name == "Mean" {
					continue
				}
				pool = append(pool, x)
			}
			add := func(what, name string, n []int, p int, sh int) {
				l = append(l, &Scenario{Name: k.n + ", " + name, Shards: sh, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: p}, Body: func(h *H) {
					prog := h.program(n, pool)
					first := h.Choose(2) == 0
					var c *CL
					var before []byte
					h.X.Quiet(func() {
						c = h.newClient("cl", holder(k.m))
						if k.m.Kind == "hist" {
							c.Ms[0].step(h, Op{Name: "Record", Arg: int64(20)})
						}
						if what[0] == 'P' {
							c.start()
							before, _ = c.bytes()
						}
					})
					t := &Hist{h: h}
					fs := t.threads(c.Ms[0], prog)
					life := func() {
						for _, a := range what {
							if a == 'S' {
								c.start()
							} else {
								c.stop()
							}
						}
					}
					if first {
						fs = append(fs, life)
					} else {
						fs = append([]func(){life}, fs...)
					}
					h.Par(fs...)
					h.X.Quiet(func() { c.aftermath(t, before) })
				}})
			}
			// one update, and Starts and Stops that all come in between
			n := 3
			if tier == "thorough" {
				n = 5
			}
			l = append(l, &Scenario{Name: fmt.Sprintf("%s, one update among %d Starts and Stops", k.n, n), Shards: 2, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: n, FreeBlock: true}, Body: func(h *H) {
				o, started := pool[h.Choose(len(pool))], h.Choose(2) == 0
				h.Log("%v, started %v", o, started)
				var c *CL
				h.X.Quiet(func() {
					c = h.newClient("cl", holder(k.m))
					if k.m.Kind == "hist" {
						c.Ms[0].step(h, Op{Name: "Record", Arg: int64(20)})
					}
					if started {
						c.start()
					}
				})
				t := &Hist{h: h}
				fs := []func(){func() { t.call(c.Ms[0], o) }}
				busy := false
				for i := 0; i < n; i++ {
					fs = append(fs, func() {
						h.X.SyncPoint("turn", func() bool { return !busy })
						busy = true
						if c.Started {
							c.stop()
						} else {
							c.start()
						}
						busy = false
					})
				}
				h.X.Victim = h.X.NThreads()
				h.Par(fs...)
				h.X.Victim = 0
				h.X.Quiet(func() { c.aftermath(t, nil) })
			}})
			sh := 2
			pp := p
			if k.m.Kind == "hist" || k.m.Kind == "inst" || strings.HasSuffix(k.m.Kind, "vec") {
				sh, pp = 4, p-1
			}
			add("S", "one update and Start", []int{1}, pp, sh)
			add("P", "one update and Stop", []int{1}, p+1, 1)
			add("P", "two updates and Stop", []int{2}, p, 1)
			add("S", "two updates and Start", []int{1, 1}, p-1, sh)
			add("PS", "one update, Stop and Start", []int{1}, p-1, sh)
			if tier == "thorough" {
				add("SP", "one update, Start and Stop", []int{1}, pp-1, sh)
				add("PSP", "two updates, Stop, Start and Stop", []int{2}, pp-1, sh)
				add("P", "two updaters and Stop", []int{1, 1}, p, 2)
			}
		}
		return append(l, c11sizes(tier)...)
	}
}

// aftermath checks a client after updates concurrent with Start and Stop.
func (c *CL) aftermath(t *Hist, before []byte) {
	h := c.h
	for _, x := range t.calls {
		if x.Res.Panic && !strings.HasPrefix(x.Op.Name, "Must") {
			h.Fail("panic", "%v panics: %s", x.Op, x.Res.Msg)
		}
	}
	m := c.Ms[0]
	old := m.clone()
	t.settle(c, c.Ms)
	c.checkMem("at the end")
	if c.Started {
		c.checkFile("at the end")
		c.stop()
	} else if before != nil {
		// the file keeps a content it had before Stop
		b, err := c.bytes()
		if err != nil {
			h.Fail("file", "after Stop: %v", err)
		}
		f, err := parse(b)
		if err != nil {
			h.Fail("file", "after Stop: %v", err)
		}
		if len(b) != len(before) {
			h.Fail("file", "the file has %d bytes after Stop, %d before", len(b), len(before))
		}
		for _, i := range m.insts() {
			got := slotIn(b, f, m.S.Name+"\x00"+i, m.S.typ())
			if m.S.Kind != "hist" && m.S.Kind != "timer" && len(t.calls) == 1 && !slotOK(m.S.typ(), got, old.Cur[i]) && !slotOK(m.S.typ(), got, m.Cur[i]) {
				h.Fail("value", "after Stop the file shows %v for %q, neither its value before nor after the update", got, i)
			}
		}
	}
	kept, _ := c.bytes()
	// later updates work, and do not touch the file until the next Start
	o := map[string]Op{"single": {Name: "Set", Arg: m.Cur[""]}, "counter": {Name: "Up"}, "gauge": {Name: "Inc", Arg: 1.0}, "timer": {Name: "Start"},
		"inst": {Name: "Set", Arg: m.Cur["a"], Inst: "a"}, "cvec": {Name: "Up", Inst: "b"}, "gvec": {Name: "Dec", Arg: 2.0, Inst: "b"}, "hist": {Name: "Record", Arg: int64(3)}}[m.S.Kind]
	m.step(h, o)
	if now, _ := c.bytes(); string(now) != string(kept) {
		h.Fail("file", "an update changes the file of the stopped client at byte %d", firstDiff(now, kept))
	}
	c.start()
	c.checkFile("after the next Start")
	m.step(h, o)
	c.checkFile("after an update")
	c.stop()
	h.checks++
}

var _ = fmt.Sprint

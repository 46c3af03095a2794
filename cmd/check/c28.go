package main

// C28: constructors accept exactly the well-formed definitions, and an object
// keeps its definition, whatever happens to what was passed to or returned by it.

import (
	"fmt"
	"sort"

	"github.com/performancecopilot/speed/v4"
)

// sameSet compares lists as multisets.
func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(a)
	sort.Strings(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func keysOf(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// checkDomain compares an instance domain with its definition.
func checkDomain(h *H, d *speed.PCPInstanceDomain, s ISpec, when string) {
	set := uniq(s.Insts)
	a, b := d2(s.Desc)
	h.checks++
	switch {
	case d.Name() != s.Name:
		h.Fail("definition", "%s: instance domain %q reports the name %q", when, s.Name, d.Name())
	case d.ID() != myFNV(s.Name, 22):
		h.Fail("definition", "%s: instance domain %q reports the identifier %d", when, s.Name, d.ID())
	case d.Description() != a+"\n"+b:
		h.Fail("definition", "%s: instance domain %q reports the description %q", when, s.Name, d.Description())
	case d.InstanceCount() != len(set):
		h.Fail("definition", "%s: instance domain %q of %d instances reports %d", when, s.Name, len(set), d.InstanceCount())
	case !sameSet(d.Instances(), keysOf(set)):
		h.Fail("definition", "%s: instance domain %q of %q reports %q", when, s.Name, keysOf(set), d.Instances())
	case !d.MatchInstances(s.Insts):
		h.Fail("definition", "%s: instance domain %q does not match its own instances", when, s.Name)
	}
	for i := range set {
		if !d.HasInstance(i) {
			h.Fail("definition", "%s: instance domain %q has no instance %q", when, s.Name, i)
		}
	}
	for _, i := range []string{"no such", "", "A", "a ", "b.", "x0", "extra"} {
		if !set[i] && d.HasInstance(i) {
			h.Fail("definition", "%s: instance domain %q has the instance %q", when, s.Name, i)
		}
		if l := append(keysOf(set), i); !set[i] && d.MatchInstances(l) {
			h.Fail("definition", "%s: instance domain %q matches %q", when, s.Name, l)
		}
	}
	for i := range set {
		var l []string
		for j := range set {
			if j != i {
				l = append(l, j)
			}
		}
		if d.MatchInstances(l) || len(l) > 0 && d.MatchInstances(append(l, l[0])) {
			h.Fail("definition", "%s: instance domain %q matches without %q", when, s.Name, i)
		}
	}
}

// checkDef compares a metric with its definition.
func (m *LM) checkDef(h *H, ind *ISpec, when string) {
	s := m.S
	a, b := d2(s.Desc)
	h.checks++
	p, ok := m.M.(speed.PCPMetric)
	if !ok {
		h.Fail("definition", "%s: %s is no PCPMetric", when, s.Kind)
	}
	switch {
	case p.Name() != s.Name:
		h.Fail("definition", "%s: %s %q reports the name %q", when, s.Kind, s.Name, p.Name())
	case p.ID() != myFNV(s.Name, 10):
		h.Fail("definition", "%s: %s %q reports the identifier %d", when, s.Kind, s.Name, p.ID())
	case p.Type() != s.typ():
		h.Fail("definition", "%s: %s %q reports the type %v", when, s.Kind, s.Name, p.Type())
	case p.Semantics() != s.sem():
		h.Fail("definition", "%s: %s %q reports the semantics %v", when, s.Kind, s.Name, p.Semantics())
	case p.Unit() == nil || p.Unit().PMAPI() != s.code():
		h.Fail("definition", "%s: %s %q reports the unit %v", when, s.Kind, s.Name, p.Unit())
	case p.ShortDescription() != a || p.LongDescription() != b || p.Description() != a+"\n"+b:
		h.Fail("definition", "%s: %s %q with descriptions %q reports %q, %q, %q", when, s.Kind, s.Name, s.Desc, p.ShortDescription(), p.LongDescription(), p.Description())
	case (p.Indom() != nil) != (ind != nil):
		h.Fail("definition", "%s: %s %q reports the instance domain %v", when, s.Kind, s.Name, p.Indom())
	}
	if ind != nil {
		checkDomain(h, p.Indom(), *ind, when)
		if im, ok := m.M.(interface{ Instances() []string }); !ok || !sameSet(im.Instances(), keysOf(uniq(ind.Insts))) {
			h.Fail("definition", "%s: %s %q of %q reports other instances", when, s.Kind, s.Name, ind.Insts)
		}
	}
	m.checkMem(h, when)
}

// domainOf is the definition of the instance domain of a metric.
func (m *LM) domainOf(r *RSpec) *ISpec {
	switch m.S.Kind {
	case "inst":
		return r.indom(m.S.obj())
	case "cvec", "gvec":
		return &ISpec{Name: m.S.Name + ".indom", Insts: m.insts()}
	case "hist":
		return &ISpec{Name: "histogram", Insts: histInsts}
	}
	return nil
}

func c28kinds(name string, desc []string, insts []string) (l []MSpec) {
	i, f, x := vals(), vals(), vals()
	for n, k := range insts {
		i[k], f[k], x[k] = int64(n+1), float64(n)+0.5, int32(n-1)
	}
	return []MSpec{single(name, speed.StringType, "v", desc...), single(name, speed.Int32Type, int32(-7), desc...), inst(name, "dom", speed.Int32Type, x, desc...),
		counter(name, 3, desc...), gauge(name, 1.5, desc...), timer(name, desc...), hist(name, desc...), cvec(name, i, desc...), gvec(name, f, desc...)}
}

func init() {
	props["C28"] = func(tier string) (l []*Scenario) {
		big := tier == "thorough"
		// names and descriptions
		l = append(l, &Scenario{Name: "names and descriptions", Shards: 8, Enum: func(w *W) {
			names := []string{"", "a", " ", ".", "a.b", "\u00e9", rep("n", 63), rep("n", 64), rep("n", 254), rep("n", 255), rep("n", 256), rep("n", 300), rep("\u00e9", 127), rep("\u00e9", 128), "x\ny", "a[b]"}
			texts := []string{"", "t", "u", " ", rep("t", 254), rep("t", 255), rep("t", 256), rep("\u00e9", 128), rep("t", 1000), "\n", "t\n"}
			if big {
				texts = append(texts, rep("t", 63), rep("t", 64), rep("u", 257), rep("t", 511))
			}
			var descs [][]string
			descs = append(descs, nil, []string{"a", "b", "c"}, []string{"", "", ""}, []string{"a", "b", "c", "d"}, []string{"", "", rep("t", 300)})
			for _, a := range texts {
				descs = append(descs, []string{a})
				for _, b := range texts {
					descs = append(descs, []string{a, b})
				}
			}
			i := 0
			for _, n := range names {
				for _, d := range descs {
					for ki := 0; ki < 10; ki++ {
						if i++; !w.Mine(i) {
							continue
						}
						n, d := n, d
						okD := len(d) <= 2
						for _, t := range d {
							okD = okD && len(t) < 256
						}
						if !w.Exec(fmt.Sprintf("kind %d name of %d bytes, %d descriptions", ki, len(n), len(d)), func(h *H) {
							arg := append([]string(nil), d...)
							if ki == 9 { // an instance domain; its name is not published
								spec := ISpec{Name: n, Insts: []string{"a", "b"}, Desc: d}
								o, err := speed.NewPCPInstanceDomain(n, []string{"a", "b"}, arg...)
								if (err == nil) != (okD && n != "") {
									h.Fail("accepted", "instance domain: error %v", err)
								}
								if err == nil {
									for k := range arg {
										arg[k] = "changed"
									}
									checkDomain(h, o, spec, "constructed")
								}
								return
							}
							s := c28kinds(n, d, []string{"a", "b"})[ki]
							dom := &ISpec{Name: "dom", Insts: []string{"a", "b"}}
							o, err := speed.NewPCPInstanceDomain("dom", dom.Insts)
							if err != nil {
								h.Fail("setup", "%v", err)
							}
							s.Desc = arg
							m, err := newLM(&s, o)
							if want := okD && n != "" && len(n) < 256; (err == nil) != want {
								h.Fail("accepted", "%s: error %v, expected acceptance: %v", s.Kind, err, want)
							}
							if err != nil {
								return
							}
							for k := range arg {
								arg[k] = "changed"
							}
							s.Desc = d
							m.checkDef(h, m.domainOf(&RSpec{Indoms: []ISpec{*dom}}), "constructed")
						}) {
							return
						}
					}
				}
			}
		}})
		// metrics without a unit
		l = append(l, &Scenario{Name: "no unit", Enum: func(w *W) {
			for _, n := range []string{"", "a", "a.b", rep("n", 255), rep("n", 256)} {
				for _, d := range [][]string{nil, {"x"}, {"x", "y"}, {"x", "y", "z"}} {
					for k := 0; k < 5; k++ {
						for _, ok := range []bool{false, true} {
							if !w.Exec(fmt.Sprintf("kind %d name of %d bytes, %d descriptions, unit %v", k, len(n), len(d), ok), func(h *H) {
								var u speed.MetricUnit
								if ok {
									u = speed.NewMetricUnit()
								}
								r := speed.NewPCPRegistry()
								dom, err := speed.NewPCPInstanceDomain("dom", []string{"a"})
								if err != nil {
									h.Fail("setup", "%v", err)
								}
								switch k {
								case 0:
									_, err = speed.NewPCPSingletonMetric(1, n, speed.Int32Type, speed.InstantSemantics, u, d...)
								case 1:
									_, err = speed.NewPCPInstanceMetric(speed.Instances{"a": 1}, n, dom, speed.Int32Type, speed.InstantSemantics, u, d...)
								case 2:
									_, err = speed.NewPCPHistogram(n, 0, 100, 1, u, d...)
								case 3:
									_, err = r.AddMetricByString(n, 1, speed.Int32Type, speed.InstantSemantics, u)
								case 4:
									_, err = r.AddMetricByString(n+"[a]", speed.Instances{"a": 1}, speed.Int32Type, speed.InstantSemantics, u)
								}
								want := ok && n != "" && len(n) < 256 && (k > 2 || len(d) < 3)
								if (err == nil) != want {
									h.Fail("accepted", "error %v, expected acceptance: %v", err, want)
								}
								got := [4]int{r.MetricCount(), r.InstanceDomainCount(), r.InstanceCount(), r.ValuesCount()}
								if exp := map[int][4]int{3: {1, 0, 0, 1}, 4: {1, 1, 1, 1}}[k]; want && got != exp || !want && got != [4]int{} {
									h.Fail("registry", "counts %v", got)
								}
							}) {
								return
							}
						}
					}
				}
			}
		}})
		// metrics with instances but without a domain
		l = append(l, &Scenario{Name: "no domain", Enum: func(w *W) {
			for i, v := range []speed.Instances{nil, {}, {"a": 1}, {"": 1}, {"a": 1, "b": 2}, {"a": "text"}} {
				for _, t := range []speed.MetricType{speed.Int32Type, speed.StringType, speed.DoubleType} {
					for _, n := range []string{"", "a", "a.b", rep("n", 256)} {
						for _, d := range [][]string{nil, {"x"}, {"x", "y", "z"}} {
							if !w.Exec(fmt.Sprintf("values %d, type %v, name of %d bytes, %d descriptions", i, t, len(n), len(d)), func(h *H) {
								res := try(func() (interface{}, error) {
									m, err := speed.NewPCPInstanceMetric(v, n, nil, t, speed.InstantSemantics, speed.OneUnit, d...)
									if err == nil || m != nil {
										h.Fail("accepted", "a metric with instances is made without a domain: %v", err)
									}
									return nil, err
								})
								if res.Panic {
									h.Fail("panic", "instead of an error: %s", res.Msg)
								}
								w.State(fmt.Sprint(i, t, len(n), len(d)))
							}) {
								return
							}
						}
					}
				}
			}
		}})
		// instances of domains and values of metrics
		l = append(l, &Scenario{Name: "instances and values", Shards: 8, Enum: func(w *W) {
			pool := []string{"a", "b", "aa", "", "A"}
			if big {
				pool = append(pool, "b ", rep("i", 255))
			}
			bad := []interface{}{nil, "text", int64(1), 1 << 40, 1.5, int32(5), uint32(1), true, []byte("x")}
			n := 0
			for mask := 0; mask < 1<<len(pool); mask++ {
				for vm := 0; vm < 1<<len(pool); vm++ {
					for _, dup := range []bool{false, true} {
						if n++; !w.Mine(n) {
							continue
						}
						if !w.Exec(fmt.Sprintf("domain %b values %b repeated %v", mask, vm, dup), func(h *H) {
							var insts []string
							v := speed.Instances{}
							for i, s := range pool {
								if mask>>i&1 == 1 {
									insts = append(insts, s)
								}
								if vm>>i&1 == 1 {
									v[s] = int32(i * 3)
								}
							}
							if dup && len(insts) > 0 {
								insts = append(insts, insts[0], insts[len(insts)-1])
							}
							dom := ISpec{Name: "dom", Insts: insts}
							o, err := speed.NewPCPInstanceDomain("dom", append([]string(nil), insts...))
							if err != nil {
								h.Fail("accepted", "instance domain of %q: %v", insts, err)
							}
							checkDomain(h, o, dom, "constructed")
							s := inst("m", "dom", speed.Int32Type, v)
							m, err := newLM(&s, o)
							if (err == nil) != (mask == vm) {
								h.Fail("accepted", "values for %v of %q: error %v", v, insts, err)
							}
							checkDomain(h, o, dom, "used")
							if err != nil {
								return
							}
							m.checkDef(h, &dom, "constructed")
							// one value that does not fit
							for i := range pool {
								if vm>>i&1 == 0 {
									continue
								}
								for _, b := range bad {
									v2 := cpy(v)
									v2[pool[i]] = b
									if _, err := speed.NewPCPInstanceMetric(v2, "m", o, speed.Int32Type, speed.InstantSemantics, speed.OneUnit); (err == nil) != accepts(speed.Int32Type, b) {
										h.Fail("accepted", "value %T %v of %q: error %v", b, b, pool[i], err)
									}
								}
							}
							checkDomain(h, o, dom, "used")
							m.checkDef(h, &dom, "after others")
							for _, u := range []string{"no such", "aA", "b\x00"} {
								if _, err := m.M.(*speed.PCPInstanceMetric).ValInstance(u); err == nil {
									h.Fail("definition", "the value of instance %q is reported", u)
								}
							}
						}) {
							return
						}
					}
				}
			}
			// instance names that are too long
			for _, k := range []int{254, 255, 256, 257, 300} {
				for at := 0; at < 3; at++ {
					if n++; !w.Mine(n) {
						continue
					}
					k, at := k, at
					if !w.Exec(fmt.Sprintf("instance name of %d bytes at %d", k, at), func(h *H) {
						l := []string{"a", "b", "c"}
						l[at] = rep("i", k)
						o, err := speed.NewPCPInstanceDomain("dom", append([]string(nil), l...))
						if (err == nil) != (k < 256) {
							h.Fail("accepted", "instance domain: error %v", err)
						}
						if err == nil {
							checkDomain(h, o, ISpec{Name: "dom", Insts: l}, "constructed")
						}
						if _, err := speed.NewPCPCounterVector(map[string]int64{"a": 1, l[at]: 2}, "v"); (err == nil) != (k < 256) {
							h.Fail("accepted", "counter vector: error %v", err)
						}
						if _, err := speed.NewPCPGaugeVector(map[string]float64{l[at]: 2, "b": 4}, "v"); (err == nil) != (k < 256) {
							h.Fail("accepted", "gauge vector: error %v", err)
						}
					}) {
						return
					}
				}
			}
		}})
		l = append(l, c28positions(tier))
		// what was passed or returned is changed afterwards
		l = append(l, &Scenario{Name: "what was passed is changed", Shards: 4, Enum: func(w *W) {
			n := 0
			for kind := 0; kind < 4; kind++ { // instance metric, both vectors, metric registered by string
				for change := 0; change < 10; change++ {
					for moment := 0; moment < 5; moment++ { // constructed, registered, started, updated, stopped
						for _, long := range []bool{false, true} {
							if n++; !w.Mine(n) {
								continue
							}
							kind, change, moment, long := kind, change, moment, long
							if !w.Exec(fmt.Sprintf("kind %d change %d moment %d long %v", kind, change, moment, long), func(h *H) { c28alias(h, kind, change, moment, long) }) {
								return
							}
						}
					}
				}
			}
		}})
		// definitions through the life of a client
		l = append(l, &Scenario{Name: "through the life of a client", Shards: 4, Enum: func(w *W) {
			for i, r := range regs() {
				r := r
				if w.Mine(i) && !w.Exec(r.Name, func(h *H) {
					h.clean()
					c := h.newClient("cl", &r.R)
					all := func(when string) {
						for _, m := range c.Ms {
							m.checkDef(h, m.domainOf(&r.R), when)
						}
						for _, d := range c.Ind {
							for k, o := range c.Objs {
								if s := r.R.indom(k); s != nil && s.Name == d.Name {
									checkDomain(h, o, *s, when)
								}
							}
						}
					}
					all("registered")
					for round := 0; round < 2; round++ {
						c.start()
						all("started")
						for _, m := range c.Ms {
							for _, o := range anOp(m) {
								m.step(h, o)
							}
						}
						all("updated")
						c.checkFile("updated")
						c.stop()
						all("stopped")
					}
				}) {
					return
				}
			}
		}})
		return append(l, c28sizes(tier))
	}
}

// anOp is an update that changes the metric.
func anOp(m *LM) (l []Op) {
	in := ""
	if k := m.insts(); len(k) > 0 {
		in = k[0]
	}
	switch m.S.Kind {
	case "single":
		return []Op{{Name: "Set", Arg: zeroOf(m.S.Type)}}
	case "inst":
		if len(m.Cur) > 0 {
			return []Op{{Name: "Set", Inst: in, Arg: zeroOf(m.S.Type)}}
		}
	case "counter":
		return []Op{{Name: "Up"}}
	case "gauge":
		return []Op{{Name: "Inc", Arg: 2.5}}
	case "cvec":
		if len(m.Cur) > 0 {
			return []Op{{Name: "Inc", Arg: int64(2), Inst: in}}
		}
	case "gvec":
		if len(m.Cur) > 0 {
			return []Op{{Name: "Inc", Arg: 0.25, Inst: in}}
		}
	case "hist":
		return []Op{{Name: "Record", Arg: int64(7)}}
	}
	return nil
}

func c28alias(h *H, kind, change, moment int, long bool) {
	h.clean()
	third := "c"
	if long {
		third = rep("c", 100)
	}
	names := []string{"a", "b", third}
	list := make([]string, 3, 8)
	copy(list, names)
	iv, cv, gv := speed.Instances{"a": int64(1), "b": int64(2), third: int64(3)}, map[string]int64{"a": 1, "b": 2, third: 3}, map[string]float64{"a": 1, "b": 2, third: 3}
	desc := []string{"short", "long"}
	c := &CL{h: h, Name: "cl", R: speed.NewPCPRegistry(), Objs: map[string]*speed.PCPInstanceDomain{}, Flag: speed.ProcessFlag}
	var err error
	if c.C, err = speed.NewPCPClientWithRegistry("cl", c.R); err != nil {
		h.Fail("setup", "%v", err)
	}
	dom := ISpec{Name: "dom", Insts: names, Desc: []string{"short", "long"}}
	m := &LM{Cur: map[string]interface{}{}}
	fv := map[string]interface{}{}
	for i, k := range names {
		if kind == 2 {
			fv[k] = float64(i + 1)
		} else {
			fv[k] = int64(i + 1)
		}
		m.Cur[k] = fv[k]
	}
	var got []string // a returned list
	register := func() {}
	switch kind {
	case 0:
		o, err := speed.NewPCPInstanceDomain("dom", list, desc...)
		if err != nil {
			h.Fail("setup", "%v", err)
		}
		s := inst("m", "dom", speed.Int64Type, fv, "short", "long")
		m.S, m.Indom = &s, o
		m.M, err = nn(speed.NewPCPInstanceMetric(iv, "m", o, speed.Int64Type, speed.InstantSemantics, speed.OneUnit, desc...))
		if err != nil {
			h.Fail("setup", "%v", err)
		}
		m.S.Sem, m.S.Code = speed.InstantSemantics, codeOne
	case 1:
		s := cvec("m", fv, "short", "long")
		m.S = &s
		if m.M, err = nn(speed.NewPCPCounterVector(cv, "m", desc...)); err != nil {
			h.Fail("setup", "%v", err)
		}
	case 2:
		s := gvec("m", fv, "short", "long")
		m.S = &s
		if m.M, err = nn(speed.NewPCPGaugeVector(gv, "m", desc...)); err != nil {
			h.Fail("setup", "%v", err)
		}
	case 3:
		s := inst("dom.m", "dom", speed.Int64Type, fv)
		s.Sem, s.Code = speed.InstantSemantics, codeOne
		m.S = &s
		dom.Desc = nil
		str := "dom[a,b," + third + "].m"
		if m.M, err = c.C.RegisterString(str, iv, speed.Int64Type, speed.InstantSemantics, speed.OneUnit); err != nil {
			h.Fail("setup", "%v", err)
		}
	}
	spec := &RSpec{Indoms: []ISpec{dom}}
	if kind != 3 {
		register = func() {
			if err := c.C.Register(m.M); err != nil {
				h.Fail("setup", "%v", err)
			}
		}
	}
	if kind == 1 || kind == 2 {
		dom = ISpec{Name: "m.indom", Insts: names}
	}
	mutate := func() {
		if im, ok := m.M.(interface{ Instances() []string }); ok {
			got = im.Instances()
		}
		switch change {
		case 0:
			delete(iv, "a")
			delete(cv, "a")
			delete(gv, "a")
			list[0] = "z"
		case 1:
			for k := range cv {
				iv[k], cv[k], gv[k] = int64(77), 77, 77
			}
			list[0], list[1] = list[1], list[0]
		case 2:
			iv["extra"], cv["extra"], gv["extra"] = int64(1), 1, 1
			list = append(list, "extra")
		case 3:
			for k := range cv {
				delete(iv, k)
				delete(cv, k)
				delete(gv, k)
			}
			for i := range list {
				list[i] = ""
			}
		case 4:
			iv["a"] = "text"
			list[1] = "a"
		case 5:
			desc[0], desc[1] = "other", rep("x", 300)
		case 6:
			for i := range got {
				got[i] = "changed"
			}
		case 7:
			_ = append(got[:1], "changed", "changed")
		case 8:
			k := iv.Keys()
			for i := range k {
				k[i] = "changed"
			}
		case 9: // everything is used again for something else
			list[2], desc[0] = "other", "again"
			if _, err := speed.NewPCPInstanceDomain("dom", list, desc...); err != nil {
				h.Fail("setup", "%v", err)
			}
			delete(iv, third)
			iv["other"], cv["other"], gv["other"] = int64(9), 9, 9
			if _, err := speed.NewPCPCounterVector(cv, "m2", desc...); err != nil {
				h.Fail("setup", "%v", err)
			}
			if _, err := speed.NewPCPGaugeVector(gv, "m2", desc...); err != nil {
				h.Fail("setup", "%v", err)
			}
		}
	}
	for t := 0; t < 5; t++ {
		switch t {
		case 1:
			register()
			c.addMetric(m, spec)
		case 2:
			c.start()
		case 3:
			for _, o := range anOp(m) {
				m.step(h, o)
			}
		case 4:
			c.stop()
		}
		if t == moment {
			mutate()
		}
		when := fmt.Sprintf("step %d", t)
		m.checkDef(h, &dom, when)
		if t >= 1 {
			c.checkReg(when)
		}
		if t == 2 || t == 3 {
			c.checkFile(when)
		}
	}
	c.start()
	c.checkFile("restarted")
	c.stop()
}

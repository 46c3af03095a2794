package main

// The same properties from registries of many sizes, where anything that is
// done in batches, kept in tables of fixed size or switched at a limit shows.

import (
	"bytes"
	"fmt"

	"github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/bytewriter"

	"verif/mc"
)

// filled is a registry of n metrics of many kinds, none of them of the pool
// of registrations.
func filled(n int) *RSpec {
	r := &RSpec{}
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("f%d", i)
		var m MSpec
		switch i % 7 {
		case 0:
			m = single(nm, speed.Int32Type, i)
		case 1:
			m = single(nm, speed.StringType, "text "+nm, "short "+nm)
		case 2:
			m = counter(nm, int64(i), "short", "long "+nm)
		case 3:
			d := fmt.Sprintf("fd%d", i/14)
			if r.indom(d) == nil {
				r.Indoms = append(r.Indoms, ISpec{Name: d, Insts: []string{"p", nm}, Desc: []string{"domain " + d}})
			}
			in := r.indom(d).Insts
			m = inst(nm, d, speed.Uint64Type, vals(in[0], i, in[1], i+1))
		case 4:
			m = gvec(nm, vals("x", float64(i)))
		case 5:
			m = gauge(nm, float64(i)/2)
		case 6:
			m = timer(nm)
			if i%14 == 6 {
				m = hist(nm)
			}
		}
		r.Metrics = append(r.Metrics, m)
	}
	return r
}

// regStep registers with client and reference and compares.
func (c *CL) regStep(r *RegOp) {
	old, g := c.reg(), c.reg()
	err := r.apply(c.C)
	ok := r.spec(g)
	if ok != (err == nil) {
		c.h.Fail("registration", "%v: error %v, expected success: %v", r, err, ok)
	}
	if ok {
		c.use(g)
	} else {
		c.use(old)
	}
	c.h.checks++
}

func (c *CL) filledNames() (ms, ds []string) {
	for _, m := range c.Ms {
		ms = append(ms, m.S.Name, m.S.Name+"0", m.S.Name[:len(m.S.Name)-1])
	}
	for _, d := range c.Ind {
		ds = append(ds, d.Name, d.Name+"0", d.Name[:len(d.Name)-1])
	}
	return
}

func c07filled(tier string) *Scenario {
	sizes := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 49, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 511, 512, 513}
	if tier == "thorough" {
		sizes = append(sizes, 999, 1000, 1023, 1024, 1025, 2047, 2048, 4097)
	}
	pool := regPool()
	mn, dn := allNames(pool)
	return &Scenario{Name: "from filled registries", Shards: 16, Enum: func(w *W) {
		n := 0
		for _, size := range sizes {
			depth := 2
			if size > 70 && tier != "thorough" || size > 300 {
				depth = 1
			}
			if !words(depth, len(pool), func(i int, word []int) bool {
				if n++; !w.Mine(n) {
					return true
				}
				return w.Exec(fmt.Sprintf("%d metrics, then %v", size, word), func(h *H) {
					c := h.newClient("cl", filled(size))
					c.checkReg("at first")
					objs := map[string]*speed.PCPInstanceDomain{}
					for _, x := range word {
						o := pool[x]
						o.prepare(h, objs)
						c.regStep(&o)
						c.checkReg("after " + o.String())
						c.checkNames("after "+o.String(), mn, dn)
					}
					w.State(fmt.Sprint(size, len(c.Ms), len(c.Ind), word))
				})
			}) {
				return
			}
		}
		// everything once more, in every form
		for _, size := range sizes {
			if n++; !w.Mine(n) {
				continue
			}
			if !w.Exec(fmt.Sprintf("%d metrics and all of them again", size), func(h *H) {
				rs := filled(size)
				c := h.newClient("cl", &RSpec{Indoms: rs.Indoms})
				for i := range rs.Metrics { // counts after every one
					ms := &rs.Metrics[i]
					m, err := newLM(ms, c.Objs[ms.obj()])
					if err != nil {
						h.Fail("setup", "%v", err)
					}
					if err := c.C.Register(m.M); err != nil {
						h.Fail("registration", "%q, number %d: %v", ms.Name, i, err)
					}
					c.addMetric(m, rs)
					if size < 300 || i > size-20 {
						c.checkReg("after " + ms.Name)
					}
				}
				look := func(when string) {
					c.checkReg(when)
					ms, ds := c.filledNames()
					c.checkNames(when, ms, ds)
				}
				look("when filled")
				for _, m := range append([]*LM(nil), c.Ms...) {
					w.beat()
					ms := single(m.S.Name, speed.StringType, "again", "s", "l")
					a := RegOp{Form: "metric", M: ms}
					a.prepare(h, map[string]*speed.PCPInstanceDomain{})
					c.regStep(&a)
					if err := c.C.Register(m.M); err == nil {
						h.Fail("registration", "%q is registered twice", m.S.Name)
					}
					if x, err := c.C.RegisterString(m.S.Name, int32(1), speed.Int32Type, speed.CounterSemantics, speed.OneUnit); err == nil {
						h.Fail("registration", "%q is registered again by string: %v", m.S.Name, x)
					}
				}
				for _, d := range append([]ISpec(nil), c.Ind...) {
					w.beat()
					a := RegOp{Form: "indom", D: ISpec{Name: d.Name, Insts: []string{"other"}, Desc: []string{"s"}, Key: "again"}}
					a.prepare(h, map[string]*speed.PCPInstanceDomain{})
					c.regStep(&a)
					b := RegOp{Form: "byname", D: ISpec{Name: d.Name, Insts: d.Insts}}
					c.regStep(&b)
				}
				look("after registering everything again")
				c.start()
				c.checkFile("after Start")
				c.stop()
				look("after Stop")
				w.State(fmt.Sprint("again", size))
			}) {
				return
			}
		}
	}}
}

func c08filled(tier string) (l []*Scenario) {
	pool := regPool()
	sizes := []int{7, 15, 16, 31, 32, 63, 64}
	p := 1
	if tier == "thorough" {
		sizes = append(sizes, 127, 128, 255, 256)
		p = 2
	}
	sub := []int{0, 1, 3, 6, 8, 13, 17}
	for _, size := range sizes {
		size := size
		l = append(l, &Scenario{Name: fmt.Sprintf("two into a registry of %d", size), Shards: 4, Cfg: mc.Config{Data: true}, B: mc.Bounds{P: p, FreeBlock: true}, Body: func(h *H) {
			var rs []*RegOp
			for i := 0; i < 2; i++ {
				o := pool[sub[h.Choose(len(sub))]]
				rs = append(rs, &o)
			}
			var c *CL
			h.X.Quiet(func() {
				c = h.newClient("cl", filled(size))
				objs := map[string]*speed.PCPInstanceDomain{}
				for _, r := range rs {
					r.prepare(h, objs)
				}
			})
			errs := make([]error, 2)
			h.Par(func() { errs[0] = rs[0].apply(c.C) }, func() { errs[1] = rs[1].apply(c.C) })
			h.X.Quiet(func() { c.explain(rs, errs) })
		}})
	}
	return l
}

func c06filled(tier string) (l []*Scenario) {
	pool := regPool()
	sizes := []int{9, 17}
	if tier == "thorough" {
		sizes = append(sizes, 33, 65)
	}
	sub := []int{0, 3, 8, 13}
	for _, size := range sizes {
		size := size
		l = append(l, &Scenario{Name: fmt.Sprintf("one registration and Start of a registry of %d", size), Shards: 8, Cfg: mc.Config{Data: true}, B: mc.Bounds{P: 1}, Body: func(h *H) {
			o := pool[sub[h.Choose(len(sub))]]
			r := &o
			first := h.Choose(2) == 1
			var c *CL
			h.X.Quiet(func() {
				c = h.newClient("cl", filled(size))
				r.prepare(h, map[string]*speed.PCPInstanceDomain{})
			})
			var err error
			fs := []func(){c.start, func() { err = r.apply(c.C) }}
			if first {
				fs[0], fs[1] = fs[1], fs[0]
			}
			h.Par(fs...)
			h.X.Quiet(func() {
				if err == nil {
					c.explain([]*RegOp{r}, []error{nil})
				} else {
					c.checkFile("after Start")
					c.checkReg("after Start")
					c.stop()
				}
			})
		}})
	}
	return l
}

// c04big updates vectors and instances of many sizes as a whole.
func c04big(tier string) *Scenario {
	sizes := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257}
	if tier == "thorough" {
		sizes = append(sizes, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2049)
	}
	return &Scenario{Name: "vectors of many sizes", Shards: 8, Enum: func(w *W) {
		n := 0
		for _, size := range sizes {
			for form := 0; form < 4; form++ {
				if n++; !w.Mine(n) {
					continue
				}
				if !w.Exec(fmt.Sprintf("%d instances, form %d", size, form), func(h *H) {
					v := map[string]interface{}{}
					for i := 0; i < size; i++ {
						nm := fmt.Sprintf("i%d", i)
						switch form {
						case 0, 2:
							v[nm] = int64(i % 5)
						case 1, 3:
							v[nm] = float64(i) / 2
						}
					}
					m := cvec("m", v)
					ops := []Op{{Name: "UpAll"}, {Name: "IncAll", Arg: int64(3)}, {Name: "SetAll", Arg: int64(1000)}, {Name: "SetAll", Arg: int64(1)}, {Name: "IncAll", Arg: int64(-1)}, {Name: "UpAll"}, {Name: "IncAll", Arg: int64(1) << 40}}
					if form%2 == 1 {
						m = gvec("m", v)
						ops = []Op{{Name: "IncAll", Arg: 1.5}, {Name: "DecAll", Arg: 0.25}, {Name: "SetAll", Arg: -7.5}, {Name: "IncAll", Arg: -2.0}, {Name: "SetAll", Arg: 0.0}, {Name: "DecAll", Arg: 1e10}}
					}
					rs := around(m, false)
					c := h.newClient("cl", rs)
					if form >= 2 { // first while the client is not started
						for _, o := range ops[:3] {
							c.Ms[1].step(h, o)
						}
						c.checkMem("before Start")
					}
					c.start()
					s := c.track()
					for _, o := range ops {
						w.beat()
						w.extra++
						s.step(c.Ms[1], o)
					}
					c.checkFile("at the end")
					c.stop()
					w.State(fmt.Sprint(size, form))
				}) {
					return
				}
			}
		}
	}}
}

// c01units publishes every kind with every semantics and units of every sort.
func c01units() *Scenario {
	type unit struct {
		u    speed.MetricUnit
		code uint32
	}
	var us []unit
	for i, s := range []speed.SpaceUnit{speed.ByteUnit, speed.KilobyteUnit, speed.MegabyteUnit, speed.GigabyteUnit, speed.TerabyteUnit, speed.PetabyteUnit, speed.ExabyteUnit} {
		us = append(us, unit{s, 1<<28 | uint32(i)<<16})
	}
	for i, s := range []speed.TimeUnit{speed.NanosecondUnit, speed.MicrosecondUnit, speed.MillisecondUnit, speed.SecondUnit, speed.MinuteUnit, speed.HourUnit} {
		us = append(us, unit{s, 1<<24 | uint32(i)<<12})
	}
	us = append(us, unit{speed.OneUnit, codeOne}, unit{speed.NewMetricUnit(), 0})
	kinds := []MSpec{single("m", speed.Int32Type, -3), single("m", speed.Uint32Type, 3), single("m", speed.Int64Type, -3), single("m", speed.Uint64Type, 3), single("m", speed.FloatType, 0.5), single("m", speed.DoubleType, 0.5), single("m", speed.StringType, "v")}
	for _, k := range append([]MSpec(nil), kinds...) {
		v := k.Vals[""]
		kinds = append(kinds, inst("m", "d", k.Type, vals("p", v, "q", v)))
	}
	return &Scenario{Name: "every semantics and unit", Shards: 4, Enum: func(w *W) {
		n := 0
		for _, k := range kinds {
			for _, sem := range []speed.MetricSemantics{speed.CounterSemantics, speed.InstantSemantics, speed.DiscreteSemantics} {
				for ui, u := range us {
					for long := 0; long < 2; long++ {
						if n++; !w.Mine(n) {
							continue
						}
						if !w.Exec(fmt.Sprintf("%s type %v, %v, unit %d, version %d", k.Kind, k.Type, sem, ui, 1+long), func(h *H) {
							m := k
							m.Sem, m.Unit, m.Code = sem, u.u, u.code
							if long == 1 {
								m.Name = rep("n", 64)
							}
							c := h.newClient("cl", &RSpec{Indoms: []ISpec{{Name: "d", Insts: []string{"p", "q"}}}, Metrics: []MSpec{m, single("other", speed.Int32Type, 1)}})
							c.start()
							c.checkFile("after Start")
							c.stop()
							w.State(fmt.Sprint(n))
						}) {
							return
						}
					}
				}
			}
		}
	}}
}

// c02sizes watches Starts of registries of many sizes.
func c02sizes(tier string) *Scenario {
	sizes := []int{3, 8, 15, 16, 17, 31, 32, 33, 64, 65}
	if tier == "thorough" {
		sizes = append(sizes, 100, 128, 129, 257)
	}
	return &Scenario{Name: "registries of many sizes", Shards: 8, OnMem: true, Orders: true, Cfg: mc.Config{RelPt: true}, Enum: func(w *W) {
		n := 0
		for _, size := range sizes {
			for again := 0; again < 3; again++ {
				if n++; !w.Mine(n) {
					continue
				}
				if !w.Exec(fmt.Sprintf("%d metrics, %d", size, again), func(h *H) {
					h.clean()
					c := h.newClient("cl", filled(size))
					wt := h.watch(c)
					var old []byte
					if again > 0 {
						c.start()
						c.stop()
						old, _ = c.bytes()
						mc.Advance(2e9)
						if again == 2 {
							c.more("zz.more", speed.StringType, "more")
						}
					}
					wt.begin(old)
					c.start()
					wt.end(true)
					h.X.OnMem = nil
					w.State(fmt.Sprint(size, again))
				}) {
					return
				}
			}
		}
	}}
}

// c22sizes are two clients with registries of many sizes.
func c22sizes(tier string) *Scenario {
	sizes := []int{1, 8, 17, 33, 65, 129}
	return &Scenario{Name: "registries of many sizes", Shards: 8, Enum: func(w *W) {
		n := 0
		for _, s1 := range sizes {
			for _, s2 := range sizes {
				if !words(4, 4, func(i int, word []int) bool {
					if n++; !w.Mine(n) || tier != "thorough" && s1+s2 > 100 && i%4 != 1 {
						return true
					}
					return w.Exec(fmt.Sprintf("%d and %d metrics, %v", s1, s2, word), func(h *H) {
						h.clean()
						d := h.duo(*filled(s1), *filled(s2))
						for k, x := range word {
							c := d.c[x%2]
							switch {
							case x/2 == 1:
								for j := range c.Ms {
									if c.Ms[j].S.Kind != "inst" && c.Ms[j].S.Kind != "gvec" {
										c.update(j, k+3)
									}
								}
							case c.Started:
								c.stop()
							default:
								c.start()
							}
							d.check(fmt.Sprintf("after step %d of %v", k, word))
						}
						w.State(fmt.Sprint(s1, s2, d.c[0].Started, d.c[1].Started))
					})
				}) {
					return
				}
			}
		}
	}}
}

// c28sizes constructs domains and metrics of many sizes, complete and with one
// instance too few, too many or listed twice.
func c28sizes(tier string) *Scenario {
	var sizes []int
	for i := 1; i <= 140; i++ {
		sizes = append(sizes, i)
	}
	sizes = append(sizes, 199, 200, 201, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025)
	return &Scenario{Name: "domains of many sizes", Shards: 8, Enum: func(w *W) {
		for i, size := range sizes {
			if !w.Mine(i) {
				continue
			}
			if !w.Exec(fmt.Sprintf("%d instances", size), func(h *H) {
				var names []string
				full := map[string]interface{}{}
				for k := 0; k < size; k++ {
					names = append(names, fmt.Sprintf("i%d", k))
					full[names[k]] = k
				}
				for _, twice := range []int{-1, 0, size / 2, size - 1} {
					l := append([]string(nil), names...)
					if twice >= 0 {
						l = append(l, names[twice])
					}
					d, err := speed.NewPCPInstanceDomain("d", l)
					if err != nil {
						h.Fail("definition", "a domain of %d instances is refused: %v", size, err)
					}
					if d.InstanceCount() != size || len(d.Instances()) != size || !sameInsts(d.Instances(), names) {
						h.Fail("definition", "a domain of %d instances reports %d", size, d.InstanceCount())
					}
					for _, k := range names {
						if !d.HasInstance(k) {
							h.Fail("definition", "a domain of %d instances has not %q", size, k)
						}
					}
					if d.HasInstance("x") || d.HasInstance("i") || d.HasInstance(fmt.Sprintf("i%d", size)) {
						h.Fail("definition", "a domain of %d instances has one that was not given", size)
					}
					try := func(what string, v map[string]interface{}, ok bool) {
						m, err := speed.NewPCPInstanceMetric(speed.Instances(v), "m", d, speed.Int64Type, speed.InstantSemantics, speed.OneUnit)
						if (err == nil) != ok {
							h.Fail("definition", "a metric of %d instances, %s: %v", size, what, err)
						}
						if !ok {
							return
						}
						for _, k := range names {
							if x, err := m.ValInstance(k); err != nil || x != int64(full[k].(int)) {
								h.Fail("definition", "a metric of %d instances has %v, %v for %q", size, x, err, k)
							}
						}
						h.checks++
					}
					try("complete", full, true)
					for _, k := range []int{0, size / 2, size - 1} {
						v := cpy(full)
						delete(v, names[k])
						try("without "+names[k], v, false)
						v["other"] = 5
						try("other instead of "+names[k], v, false)
						v[names[k]] = k
						try("one more", v, false)
						v = cpy(full)
						v[names[k]] = "text"
						try("text for "+names[k], v, false)
					}
				}
				w.State(fmt.Sprint(size))
			}) {
				return
			}
		}
	}}
}

// c14cycles are long histories of a timer.
func c14cycles(tier string) *Scenario {
	rounds := 300
	if tier == "thorough" {
		rounds = 5000
	}
	return &Scenario{Name: "many intervals", Shards: 6, Enum: func(w *W) {
		n := 0
		for _, u := range timeU {
			for _, step := range []int64{1, 999, 1000, 1001, 999999999, 1000000000, 3600e9 + 1, 86400e9, 1 << 40} {
				for form := 0; form < 4; form++ {
					if n++; !w.Mine(n) {
						continue
					}
					if !w.Exec(fmt.Sprintf("%d intervals of %d ns in %v, form %d", rounds, step, u, form), func(h *H) {
						ts := timer("t")
						ts.Unit, ts.Code = u, uint32(u)
						c := h.newClient("cl", &RSpec{Metrics: []MSpec{ts}})
						m := c.Ms[0]
						if form > 0 {
							c.start()
						}
						for r := 0; r < rounds; r++ {
							w.beat()
							m.step(h, Op{Name: "Start"})
							if form == 2 && r%16 == 3 {
								c.stop()
							}
							mc.Advance(timeDuration(int(step) + r%3))
							if form == 2 && r%16 == 3 {
								c.start()
							}
							m.step(h, Op{Name: "Stop"})
							mc.Advance(timeDuration(r % 5))
							if form == 3 && r%100 == 99 {
								m.step(h, Op{Name: "Reset"})
							}
							if c.Started && r%8 == 0 {
								c.checkFile("during the rounds")
							}
						}
						c.checkMem("at the end")
						if c.Started {
							c.checkFile("at the end")
						}
						w.State(fmt.Sprint(n))
					}) {
						return
					}
				}
			}
		}
	}}
}

// c16sizes writes long texts and slices where they just fit and just do not,
// and numbers around the powers of two of a long buffer.
func c16sizes(tier string) *Scenario {
	var lens []int
	for i := 0; i <= 300; i++ {
		lens = append(lens, i)
	}
	for _, p := range []int{9, 10, 11, 12, 13, 15, 16, 17} {
		lens = append(lens, 1<<p-1, 1<<p, 1<<p+1)
	}
	lens = append(lens, 1000, 4000, 100000)
	type form struct {
		n    string
		f    func(w bytewriter.Writer, b []byte, off int) (int, error)
		must func(w bytewriter.Writer, b []byte, off int) int
	}
	forms := []form{
		{"Write", func(w bytewriter.Writer, b []byte, o int) (int, error) { return w.Write(b, o) }, func(w bytewriter.Writer, b []byte, o int) int { return w.MustWrite(b, o) }},
		{"WriteString", func(w bytewriter.Writer, b []byte, o int) (int, error) { return w.WriteString(string(b), o) }, func(w bytewriter.Writer, b []byte, o int) int { return w.MustWriteString(string(b), o) }},
		{"WriteVal string", func(w bytewriter.Writer, b []byte, o int) (int, error) { return w.WriteVal(string(b), o) }, func(w bytewriter.Writer, b []byte, o int) int { return w.MustWriteVal(string(b), o) }},
		{"WriteVal bytes", func(w bytewriter.Writer, b []byte, o int) (int, error) { return w.WriteVal(b, o) }, func(w bytewriter.Writer, b []byte, o int) int { return w.MustWriteVal(b, o) }},
	}
	one := func(h *H, w bytewriter.Writer, what string, want []byte, off int, f func() (int, error)) {
		before := append([]byte(nil), w.Bytes()...)
		fits := off >= 0 && len(want) <= len(before)-off
		var got int
		r := try(func() (interface{}, error) {
			var err error
			got, err = f()
			return nil, err
		})
		if fits && (r.Err || r.Panic || got != off+len(want)) || !fits && !r.Err && !r.Panic {
			h.Fail("result", "%s of %d bytes at %d of %d gives %d, %v", what, len(want), off, len(before), got, r)
		}
		if fits {
			copy(before[off:], want)
		}
		if now := w.Bytes(); !bytes.Equal(now, before) {
			h.Fail("bytes", "%s of %d bytes at %d of %d: byte %d is wrong", what, len(want), off, len(before), firstDiff(now, before))
		}
		h.checks++
	}
	ops := c16ops()
	return &Scenario{Name: "long texts and long buffers", Shards: 8, Enum: func(w *W) {
		n := 0
		for _, ln := range lens {
			if n++; !w.Mine(n) {
				continue
			}
			if !w.Exec(fmt.Sprintf("%d bytes", ln), func(h *H) {
				for pat := 0; pat < 3; pat++ {
					b := make([]byte, ln)
					for i := range b {
						switch pat {
						case 0:
							b[i] = byte('a' + i%26)
						case 1:
							b[i] = byte(i * 7) // any byte, zeros, no UTF-8
						case 2:
							b[i] = "\u20ac"[i%3]
						}
					}
					for _, off := range []int{0, 1, 7, 8, 13} {
						for _, room := range []int{0, 1, -1, 40} {
							for _, f := range forms {
								size := off + ln + room
								if size < 0 {
									continue
								}
								w.beat()
								w.extra++
								bw := bytewriter.NewByteWriter(size)
								for i := range bw.Bytes() {
									bw.Bytes()[i] = byte(0x91 + i)
								}
								one(h, bw, f.n, b, off, func() (int, error) { return f.f(bw, b, off) })
								for i := range bw.Bytes() {
									bw.Bytes()[i] = byte(0x31 + i)
								}
								r := try(func() (interface{}, error) {
									one(h, bw, "Must"+f.n, b, off, func() (int, error) { return f.must(bw, b, off), nil })
									return nil, nil
								})
								if r.Panic {
									h.Fail("result", "%s of %d bytes at %d of %d: %s", f.n, ln, off, size, r.Msg)
								}
							}
						}
					}
				}
				w.State(fmt.Sprint(ln))
			}) {
				return
			}
		}
		for _, op := range ops {
			if n++; !w.Mine(n) {
				continue
			}
			if !w.Exec("long buffer: "+op.n, func(h *H) {
				if op.want == nil {
					return
				}
				for _, p := range []int{5, 6, 7, 8, 9, 10, 11, 12, 13} {
					for d := -3; d <= 3; d++ {
						size := 1<<p + d
						bw := bytewriter.NewByteWriter(size)
						for _, q := range []int{0, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192} {
							for e := -9; e <= 9; e++ {
								off := q + e
								if off < 0 || off > size+3 || (size > 600 || q > 0) && (d+e)%3 != 0 {
									continue
								}
								w.beat()
								w.extra++
								one(h, bw, op.n, op.want, off, func() (int, error) { return op.f(bw, off) })
							}
						}
					}
				}
				w.State(op.n)
			}) {
				return
			}
		}
	}}
}

// c11sizes is one update against Start and Stop of a larger registry.
func c11sizes(tier string) (l []*Scenario) {
	sizes := []int{9, 17}
	if tier == "thorough" {
		sizes = append(sizes, 33, 65)
	}
	for _, size := range sizes {
		size := size
		l = append(l, &Scenario{Name: fmt.Sprintf("one update and Start or Stop of a registry of %d", size), Shards: 8, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: 1}, Body: func(h *H) {
			var c *CL
			stop := h.Choose(2) == 1
			var before []byte
			h.X.Quiet(func() {
				rs := filled(size)
				// the metric updated is the first one
				k := []int{0, 1, 4, 8}[h.Choose(4)]
				rs.Metrics[0], rs.Metrics[k] = rs.Metrics[k], rs.Metrics[0]
				c = h.newClient("cl", rs)
				if stop {
					c.start()
					before, _ = c.bytes()
				}
			})
			m := c.Ms[0]
			o := Op{Name: "Set", Arg: 1001}
			switch m.S.Kind {
			case "gvec":
				o = Op{Name: "Inc", Arg: 2.5, Inst: "x"}
			case "timer":
				o = Op{Name: "Start"}
			case "single":
				if m.S.Type == speed.StringType {
					o.Arg = "updated"
				}
			}
			h.Log("%v on %s", o, m.S.Kind)
			t := &Hist{h: h}
			life := c.start
			if stop {
				life = c.stop
			}
			h.Par(life, func() { t.call(m, o) })
			h.X.Quiet(func() { c.aftermath(t, before) })
		}})
	}
	return l
}

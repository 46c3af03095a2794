package main

// Names that are easily taken for one another, instances that a metric does
// not have, and lists of instances against what is registered.

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

// confusable are names of metrics, instance domains and instances, each of
// which becomes another one when something is trimmed, folded or cut.
func confusable() []string {
	l := []string{"a", "A", "b", "a ", " a", "a.", ".a", "a.b", "a.B", "A.b", "a_b", "ab", "a..b", "a[b]", "a[b", "a,b", "a\n", "a\t", "aa", "a1", "a01", "a/b", "a-b", "a:b", "a*", "a?", "%s", "a%d",
		"\u00e4", "a\u0308", "\u00c4", "\u00df", "ss", "\u0131", "i", "I", "\u212a", "k", "K", "\xff", "\xfe", "\ufffd", "a.indom", "b.indom", "histogram", "Histogram", "min", "metric"}
	for _, n := range []int{62, 63, 64, 65, 127, 128, 129, 254} {
		l = append(l, rep("n", n)+"x", rep("n", n)+"y")
	}
	return l
}

func c07names(tier string) *Scenario {
	names := confusable()
	return &Scenario{Name: "pairs of names that differ in little", Shards: 16, Enum: func(w *W) {
		words(2, len(names), func(i int, word []int) bool {
			a, b := names[word[0]], names[word[1]]
			if a == b || !w.Mine(i) {
				return true
			}
			for form := 0; form < 4; form++ {
				var rs []*RegOp
				add := func(r RegOp) { rs = append(rs, &r) }
				both := func(f func(n string)) { f(a); f(b); f(a); f(b) }
				d := func(n string) ISpec { return ISpec{Name: n, Insts: []string{"p", "q"}, Key: "d" + n} }
				switch form {
				case 0:
					both(func(n string) { add(RegOp{Form: "metric", M: single(n, speed.StringType, "text", "short")}) })
				case 1:
					both(func(n string) { add(RegOp{Form: "indom", D: d(n)}) })
				case 2:
					both(func(n string) { add(RegOp{Form: "byname", D: d(n)}) })
					add(RegOp{Form: "metric", M: single(a, speed.Int32Type, 1)})
				case 3: // one is the name of the domain of the other
					m := inst(a, b, speed.Int32Type, vals("p", 1, "q", 2))
					m.Obj = "d" + b
					add(RegOp{Form: "metric", M: m, D: d(b)})
					m2 := inst(b, a, speed.Int32Type, vals("p", 1, "q", 2))
					m2.Obj = "d" + a
					add(RegOp{Form: "metric", M: m2, D: d(a)})
					add(RegOp{Form: "indom", D: d(a)})
				}
				if !w.Exec(fmt.Sprintf("%v", rs), func(h *H) {
					h.clean()
					c := h.newClient("cl", &RSpec{})
					objs := map[string]*speed.PCPInstanceDomain{}
					for _, r := range rs {
						r.prepare(h, objs)
						c.regStep(r)
						c.checkNames("after "+r.String(), names, names)
					}
					w.State(c.reg().key())
					c.start()
					c.checkFile("after Start")
					c.stop()
				}) {
					return false
				}
			}
			return true
		})
	}}
}

// c04unknown updates instances that a metric does not have.
func c04unknown(tier string) *Scenario {
	sets := [][]string{nil, {"a"}, {"b"}, {""}, {"A"}, {"a "}, {"ab"}, {"0"}, {"m"}, {"d"}, {"a", "b"}, {"a", "A"}, {"aa", "ab"}, {"0", "1"}, {"", "a"}, {"a", "b", "c"}, {"a", "b", "c", "d", "e", "f", "g", "h"}}
	probe := append(confusable(), "", "0", "1", "-1", "2", "d", "m", "m.indom", "m[a]", "*", "all", "default", "c", "x", "nil", "<nil>", "\x00")
	type kc struct {
		n     string
		mk    func(names []string) MSpec
		forms []string
		arg   []interface{}
	}
	mv := func(names []string, f func(i int) interface{}) map[string]interface{} {
		v := map[string]interface{}{}
		for i, n := range names {
			v[n] = f(i)
		}
		return v
	}
	ks := []kc{
		{"counter vector", func(n []string) MSpec { return cvec("m", mv(n, func(i int) interface{} { return int64(i) })) }, []string{"Set", "MustSet", "Inc", "MustInc", "Up"}, []interface{}{int64(77), int64(1)}},
		{"gauge vector", func(n []string) MSpec { return gvec("m", mv(n, func(i int) interface{} { return float64(i) })) }, []string{"Set", "MustSet", "Inc", "MustInc", "Dec", "MustDec"}, []interface{}{7.5}},
		{"int32 instances", func(n []string) MSpec {
			return inst("m", "d", speed.Int32Type, mv(n, func(i int) interface{} { return i }))
		}, []string{"Set", "MustSet"}, []interface{}{-7, "x"}},
		{"string instances", func(n []string) MSpec {
			return inst("m", "d", speed.StringType, mv(n, func(i int) interface{} { return fmt.Sprint(i) }))
		}, []string{"Set", "MustSet"}, []interface{}{"new", 1}},
	}
	return &Scenario{Name: "instances a metric does not have", Shards: 8, Enum: func(w *W) {
		i := 0
		for _, k := range ks {
			for _, set := range sets {
				for _, f := range k.forms {
					if i++; !w.Mine(i) {
						continue
					}
					if !w.Exec(fmt.Sprintf("%s of %s with the instances %q", f, k.n, set), func(h *H) {
						h.clean()
						m := k.mk(set)
						rs := &RSpec{Metrics: []MSpec{single("before", speed.StringType, "text"), m, single("zbehind", speed.Int32Type, 77)}}
						if m.Kind == "inst" {
							rs.Indoms = []ISpec{{Name: "d", Insts: set}}
						}
						c := h.newClient("cl", rs)
						for round := 0; round < 2; round++ {
							var s *slots
							if round == 1 {
								c.start()
								s = c.track()
							}
							for _, n := range append(append([]string(nil), probe...), set...) {
								for _, a := range k.arg {
									for _, o := range []Op{{Name: f, Arg: a, Inst: n}, {Name: "Val", Inst: n}} {
										w.extra++
										if s != nil {
											s.step(c.Ms[1], o)
										} else {
											c.Ms[1].step(h, o)
											c.checkMem(fmt.Sprintf("after %v", o))
										}
									}
								}
								w.beat()
							}
						}
						w.State(k.n + f + strings.Join(set, ","))
						c.checkFile("at the end")
						c.stop()
					}) {
						return
					}
				}
			}
		}
	}}
}

// c20step registers by string with client and reference and compares.
func (c *CL) c20step(g *Reg, s string, v interface{}) {
	h := c.h
	p, ok, _ := refParse(s)
	op := RegOp{Form: "string", Str: s, V: v, Bad: true,
		M: MSpec{Kind: "single", Name: p.name, Type: speed.Int32Type, Sem: speed.CounterSemantics, Unit: speed.OneUnit, Code: codeOne, Vals: v1(int32(7))}}
	if vi, isI := v.(speed.Instances); ok && isI && p.insts != nil && len(vi) == len(uniq(p.insts)) {
		op.Bad = false
		op.M.Kind, op.M.Indom = "inst", p.indom
		op.M.Vals = map[string]interface{}{}
		for _, n := range p.insts {
			x, there := vi[n]
			_, isInt := x.(int)
			if !there || !isInt {
				op.Bad = true
			}
			op.M.Vals[n] = x
		}
		op.D = ISpec{Name: p.indom, Insts: p.insts}
	} else if v == 7 && ok && p.insts == nil {
		op.Bad = false
	}
	want := op.spec(g)
	err := op.apply(c.C)
	if want != (err == nil) {
		h.Fail("answer", "RegisterString(%q, %v): %v", s, v, err)
	}
	for _, m := range g.Ms { // the real object
		if m.S == &op.M && op.m != nil {
			*m = *op.m
		}
	}
	c.use(g)
	c.checkReg(fmt.Sprintf("after RegisterString(%q, %v)", s, v))
	h.checks++
}

// c20lists registers every short list of instances under the name of a domain
// that is registered with other, the same or some of them.
func c20lists(tier string) *Scenario {
	names := []string{"p", "q", "r"}
	top := 4
	if tier == "thorough" {
		names = append(names, "s")
		top = 5
	}
	subset := func(x int) (l []string) {
		for i, n := range names {
			if x>>i&1 != 0 {
				l = append(l, n)
			}
		}
		return
	}
	values := func(l []string) speed.Instances {
		v := speed.Instances{}
		for i, n := range l {
			v[n] = i + 1
		}
		return v
	}
	return &Scenario{Name: "lists against registered domains", Shards: 8, Enum: func(w *W) {
		i := 0
		for n := 1; n <= top; n++ {
			words(n, len(names), func(_ int, word []int) bool {
				var list []string
				mine := 0
				for _, x := range word {
					list = append(list, names[x])
					mine |= 1 << x
				}
				for dom := 0; dom < 1<<len(names); dom++ {
					if i++; !w.Mine(i) {
						continue
					}
					for _, sep := range []string{",", ", "} {
						s := "d[" + strings.Join(list, sep) + "].x"
						if !w.Exec(fmt.Sprintf("%s with d registered as %q", s, subset(dom)), func(h *H) {
							for vs := 0; vs < 1<<len(names); vs++ {
								for how := 0; how < 3; how++ {
									h.clean()
									d := ISpec{Name: "d", Insts: subset(dom)}
									rs := &RSpec{Indoms: []ISpec{d}, RegInd: []string{"d"}}
									if how == 1 { // registered along with a metric
										v := map[string]interface{}{}
										for k, x := range values(d.Insts) {
											v[k] = x
										}
										rs = &RSpec{Indoms: []ISpec{d}, Metrics: []MSpec{inst("m", "d", speed.Int32Type, v)}}
									}
									c := h.newClient("cl", rs)
									g := c.reg()
									if how == 2 && dom != 0 { // registered by string
										c = h.newClient("cl", &RSpec{})
										g = c.reg()
										c.c20step(g, "d["+strings.Join(d.Insts, ",")+"]", values(d.Insts))
									}
									c.c20step(g, s, values(subset(vs)))
									if vs == dom || vs == mine {
										c.start()
										c.checkFile("after Start")
										c.stop()
									}
									w.extra++
								}
							}
							w.beat()
							w.State(s + fmt.Sprint(dom))
						}) {
							return false
						}
					}
				}
				return true
			})
		}
	}}
}

// form is a metric, an operation that gives it a value, and the boundary values.
type form struct {
	m    MSpec
	t    speed.MetricType
	op   string
	inst string
	vs   []interface{}
}

func valueForms() (all []form) {
	nan2 := math.Float64frombits(math.Float64bits(math.NaN()) ^ 1<<63 ^ 0x12345)
	f64 := []interface{}{0.0, math.Copysign(0, -1), math.NaN(), nan2, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 4.9e-324, -4.9e-324, 1.0, -1.0, -1.1, 1e-3, float64(1 << 53), 0.1}
	var f32, i64, u64, i32, u32 []interface{}
	for _, v := range f64 {
		if f := float32(v.(float64)); math.Float32bits(f) != 1<<31 {
			f32 = append(f32, f)
		}
	}
	for _, s := range []uint{0, 1, 7, 8, 15, 16, 23, 24, 30, 31} {
		i32 = append(i32, int32(1)<<s, int32(1)<<s-1, -(int32(1) << s))
		u32 = append(u32, uint32(1)<<s, uint32(1)<<s-1, -(uint32(1) << s))
	}
	for _, s := range []uint{0, 1, 8, 16, 24, 31, 32, 33, 47, 52, 53, 62, 63} {
		i64 = append(i64, int64(1)<<s, int64(1)<<s-1, -(int64(1) << s))
		u64 = append(u64, uint64(1)<<s, uint64(1)<<s-1, -(uint64(1) << s))
	}
	pools := []struct {
		t  speed.MetricType
		vs []interface{}
	}{{speed.Int32Type, i32}, {speed.Uint32Type, u32}, {speed.Int64Type, i64}, {speed.Uint64Type, u64}, {speed.FloatType, f32}, {speed.DoubleType, f64}}
	for _, p := range pools {
		p := p
		var counts []interface{} // a counter takes what is not less
		for _, v := range i64 {
			if v.(int64) >= 0 {
				counts = append(counts, v)
			}
		}
		sort.Slice(counts, func(i, j int) bool { return counts[i].(int64) < counts[j].(int64) })
		fs := []form{{single("a", p.t, zeroOf(p.t)), p.t, "Set", "", p.vs}, {inst("a", "d", p.t, vals("p", zeroOf(p.t), "q", zeroOf(p.t))), p.t, "Set", "q", p.vs}}
		switch p.t {
		case speed.DoubleType:
			var fin []interface{} // which NaN a sum is depends on how it is computed
			for _, v := range p.vs {
				if v := v.(float64); !math.IsNaN(v) && !math.IsInf(v, 0) {
					fin = append(fin, v)
				}
			}
			fs = append(fs, form{gauge("a", 0), p.t, "Set", "", p.vs}, form{gauge("a", 0), p.t, "Inc", "", fin}, form{gauge("a", 0), p.t, "Dec", "", fin}, form{gvec("a", vals("p", 0.0, "q", 0.0)), p.t, "Set", "q", p.vs},
				form{gvec("a", vals("p", 0.0, "q", 0.0)), p.t, "SetAll", "", p.vs}, form{gvec("a", vals("p", 0.0, "q", 0.0)), p.t, "Inc", "q", fin})
		case speed.Int64Type:
			fs = append(fs, form{counter("a", 0), p.t, "Set", "", counts}, form{cvec("a", vals("p", int64(0), "q", int64(0))), p.t, "Set", "q", counts})
		}
		all = append(all, fs...)
	}
	return all
}

// c25values sets every boundary value after every other one, and looks at the
// file at every step.
func c25values() (l []*Scenario) {
	for _, f := range valueForms() {
		f := f
		l = append(l, &Scenario{Name: fmt.Sprintf("values of %s %v by %s", f.m.Kind, f.t, f.op), Shards: 4, OnMem: true, Enum: func(w *W) {
			words(2, len(f.vs), func(i int, word []int) bool {
				if !w.Mine(i) {
					return true
				}
				a, b := f.vs[word[0]], f.vs[word[1]]
				return w.Exec(fmt.Sprintf("%v (%#x), then %v (%#x)", a, bits(a), b, bits(b)), func(h *H) {
					h.clean()
					rs := &RSpec{Metrics: []MSpec{f.m, single("s", speed.StringType, "text")}}
					if f.m.Kind == "inst" {
						rs.Indoms = []ISpec{{Name: "d", Insts: []string{"p", "q"}}}
					}
					c := h.newClient("cl", rs)
					c.start()
					lv := h.live(c)
					for _, v := range []interface{}{a, b, a} {
						lv.do(h, c.Ms[0], Op{Name: f.op, Arg: v, Inst: f.inst})
					}
					h.X.OnMem = nil
					c.checkFile("at the end")
					c.stop()
				})
			})
		}})
	}
	return l
}

// c05values gives one value before the first start and another one at every
// stage of the history that follows it.
func c05values() (l []*Scenario) {
	for _, f := range valueForms() {
		f := f
		l = append(l, &Scenario{Name: fmt.Sprintf("values of %s %v by %s across restarts", f.m.Kind, f.t, f.op), Shards: 4, Enum: func(w *W) {
			words(2, len(f.vs), func(i int, word []int) bool {
				if !w.Mine(i) {
					return true
				}
				a, b := f.vs[word[0]], f.vs[word[1]]
				return w.Exec(fmt.Sprintf("%v (%#x), then %v (%#x)", a, bits(a), b, bits(b)), func(h *H) {
					h.clean()
					rs := &RSpec{Metrics: []MSpec{f.m, single("s", speed.StringType, "text")}}
					if f.m.Kind == "inst" {
						rs.Indoms = []ISpec{{Name: "d", Insts: []string{"p", "q"}}}
					}
					c := h.newClient("cl", rs)
					set := func(v interface{}, when string) {
						c.Ms[0].step(h, Op{Name: f.op, Arg: v, Inst: f.inst})
						c.checkMem(when)
						w.State(fmt.Sprint(f.m.Kind, f.t, f.op, when, bits(v)))
					}
					set(a, "before the first start")
					for round := 1; round <= 2; round++ {
						c.start()
						c.checkFile(fmt.Sprint("after start ", round))
						set(b, fmt.Sprint("in session ", round))
						c.checkFile(fmt.Sprint("in session ", round))
						c.stop()
						set(a, fmt.Sprint("after stop ", round))
						set(b, fmt.Sprint("after stop again ", round))
					}
				})
			})
		}})
	}
	return l
}

// c29updates are two or three Must updates at the same time.
func c29updates(tier string) (l []*Scenario) {
	for _, k := range c09kinds() {
		var ops []Op
		seen := map[string]bool{}
		for _, o := range append(append([]Op(nil), k.few...), k.all...) {
			if m, ok := mustOf(k.m.Kind, o); ok {
				o = m
			}
			read := o.Name == "Val"
			for _, r := range readers(k.m) {
				read = read || r.Name == o.Name
			}
			if !seen[o.String()] && !read {
				seen[o.String()] = true
				ops = append(ops, o)
			}
		}
		if len(ops) == 0 || k.m.Kind == "timer" {
			continue
		}
		k := k
		add := func(n []int, pool []Op, p int) {
			l = append(l, &Scenario{Name: fmt.Sprintf("%s, updates %v at the same time", k.n, n), Shards: 2, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: p, FreeBlock: true}, Body: func(h *H) {
				prog := h.program(n, pool)
				var c *CL
				h.X.Quiet(func() {
					c = h.newClient("cl", holder(k.m))
					c.start()
				})
				t := &Hist{h: h}
				h.Par(t.threads(c.Ms[0], prog)...)
				h.X.Quiet(func() {
					t.settle(c, c.Ms)
					c.checkFile("at the end")
				})
			}})
		}
		few := ops
		if len(few) > 3 {
			few = few[:3]
		}
		if tier == "thorough" {
			add([]int{1, 1}, ops, 4)
			add([]int{2, 1}, ops, 3)
			add([]int{1, 1, 1}, few, 3)
		} else {
			add([]int{1, 1}, ops, 2)
			add([]int{2, 1}, few, 2)
		}
	}
	return l
}

// c07refused makes registrations that have to be refused, for every reason,
// with everything in them that counts anywhere, and looks whether anything of
// them is left behind; with started it makes them (and good ones) at a started
// client.
func c07refused(tier string, started bool) *Scenario {
	long, i64 := "l."+rep("x", 70), rep("i", 64)
	pq := ISpec{Name: "d", Insts: []string{"p", "q"}, Key: "base d"}
	base := func() *RSpec {
		m := inst("m.d", "d", speed.Int32Type, vals("p", 1, "q", 2), "about it")
		m.Obj = pq.Key
		return &RSpec{Indoms: []ISpec{pq, {Name: "histogram", Insts: []string{"a"}}, {Name: long + ".indom", Insts: []string{"x"}}, {Name: "v.indom", Insts: []string{"x"}}},
			RegInd: []string{"histogram", long + ".indom", "v.indom"}, Metrics: []MSpec{single("m", speed.StringType, "text"), m}}
	}
	var ops []RegOp
	descs := [][]string{nil, {"short"}, {"", "long"}, {"short", "long"}}
	names := []string{"n", long}
	lists := [][]string{{"r"}, {i64}, {"p", i64}, {"p", "q", "r"}, {"p"}}
	for _, n := range names {
		for di, ds := range descs {
			for li, list := range lists {
				for ti, t := range []speed.MetricType{speed.Int32Type, speed.StringType} {
					v := map[string]interface{}{}
					for _, x := range list {
						v[x] = zeroOf(t)
					}
					m := inst(n, "d", t, v, ds...)
					d := ISpec{Name: "d", Insts: list, Desc: descs[(di+li)%4], Key: fmt.Sprint("d", di, li, ti)}
					m.Obj = d.Key
					ops = append(ops, RegOp{Form: "metric", M: m, D: d})
				}
			}
			vn := n
			if n == "n" {
				vn = "v"
			}
			ops = append(ops, RegOp{Form: "metric", M: cvec(vn, vals("y", int64(1), i64, int64(2)), ds...)}, RegOp{Form: "metric", M: gvec(vn, vals("y", 1.0), ds...)}, RegOp{Form: "metric", M: hist(n, ds...)},
				RegOp{Form: "indom", D: ISpec{Name: "d", Insts: []string{i64, "z"}, Desc: ds, Key: fmt.Sprint("again", di)}})
			// a taken name with a new domain
			d := ISpec{Name: "new" + n, Insts: []string{i64, "z"}, Desc: ds, Key: fmt.Sprint("new", di, n)}
			m := inst("m", "new"+n, speed.StringType, vals(i64, "x", "z", "y"), ds...)
			m.Obj = d.Key
			ops = append(ops, RegOp{Form: "metric", M: m, D: d})
		}
		bad := func(s string, v interface{}) {
			ops = append(ops, RegOp{Form: "string", Str: s, Bad: true, V: v, M: MSpec{Kind: "single", Name: s, Type: speed.Int32Type, Sem: speed.CounterSemantics, Unit: speed.OneUnit, Code: codeOne, Vals: v1(int32(7))}})
		}
		bad("d[r]."+n, speed.Instances{"r": 1})
		bad("d["+i64+"]."+n, speed.Instances{i64: 1})
		bad("d[p,q]."+n, speed.Instances{"p": 1, "q": "x"})
		bad("d[p,q]."+n, speed.Instances{"p": 1})
		bad("e["+i64+"]."+n, speed.Instances{i64: "x"})
		bad("e["+i64+"]."+n, speed.Instances{"x": 1})
		bad("e["+i64+"]."+n, 7)
		bad(n, "x")
		bad(n, nil)
		bad(n+".", 7)
		bad(n+"[]", 7)
	}
	ops = append(ops, RegOp{Form: "byname", D: ISpec{Name: "d", Insts: []string{i64}}}, RegOp{Form: "byname", D: ISpec{Name: "histogram", Insts: []string{i64, "b"}}})
	if started {
		for _, n := range names {
			ops = append(ops, RegOp{Form: "metric", M: single(n, speed.StringType, "text", "short", "long")}, RegOp{Form: "metric", M: counter(n, 1)}, RegOp{Form: "metric", M: timer(n)},
				RegOp{Form: "metric", M: cvec(n+".y", vals(i64, int64(1), "b", int64(2)))}, RegOp{Form: "indom", D: ISpec{Name: "free" + n, Insts: []string{i64, "b"}, Desc: []string{"s", "l"}, Key: "free" + n}},
				RegOp{Form: "byname", D: ISpec{Name: "free" + n, Insts: []string{i64}}}, RegOp{Form: "indom", D: ISpec{Name: "empty" + n, Key: "empty" + n}})
		}
	}
	sn := "refused registrations leave nothing"
	if started {
		sn = "registrations refused by a started client leave nothing"
	}
	return &Scenario{Name: sn, Shards: 16, Enum: func(w *W) {
		words(2, len(ops), func(i int, word []int) bool {
			if !w.Mine(i) || tier != "thorough" && word[0] != word[1] && (word[0]+word[1])%7 != 0 {
				return true
			}
			return w.Exec(fmt.Sprintf("%v %v", &ops[word[0]], &ops[word[1]]), func(h *H) {
				h.clean()
				c := h.newClient("cl", base())
				objs := map[string]*speed.PCPInstanceDomain{}
				for round := 0; round < 2; round++ {
					if started {
						c.start()
					}
					for _, x := range word {
						r := ops[x]
						r.prepare(h, objs)
						if err := r.apply(c.C); err == nil {
							h.Fail("registration", "%v: accepted", &r)
						}
						h.checks++
						c.checkReg("after " + r.String())
					}
					if !started {
						c.start()
					}
					c.checkFile("after refused registrations")
					c.stop()
					c.checkReg("after Stop")
				}
				for _, r := range []RegOp{{Form: "metric", M: single("z", speed.StringType, "text", "short")}, {Form: "metric", M: single("z."+long, speed.StringType, "text", "short")}} {
					r.prepare(h, objs)
					c.regStep(&r)
					c.start()
					c.checkFile("after " + r.String())
					c.stop()
				}
			})
		})
	}}
}

// c28positions has lists of many sizes, in which the instance at one position is out of the ordinary.
func c28positions(tier string) *Scenario {
	return &Scenario{Name: "instances at every position", Shards: 16, Enum: func(w *W) {
		sizes := []int{1, 2, 3, 5, 9, 17, 33, 65, 129, 257, 300}
		if tier == "thorough" {
			sizes = append(sizes, 513, 1025)
		}
		n := 0
		for _, size := range sizes {
			for at := 0; at < size; at++ {
				if size > 70 && tier != "thorough" && at%7 != 0 && at != size-1 && at&(at-1) != 0 && (at+1)&at != 0 {
					continue
				}
				if n++; !w.Mine(n) {
					continue
				}
				size, at := size, at
				if !w.Exec(fmt.Sprintf("position %d of %d", at, size), func(h *H) {
					w.beat()
					l := make([]string, size)
					for i := range l {
						l[i] = fmt.Sprint("i", (i*7+3)%size, "-", i)
					}
					with := func(s string) []string {
						x := append([]string(nil), l...)
						x[at] = s
						return x
					}
					// names at and beyond the limit
					for _, k := range []int{255, 256, 257, 400} {
						x := with(rep("z", k))
						o, err := speed.NewPCPInstanceDomain("dom", append([]string(nil), x...))
						if (err == nil) != (k < 256) {
							h.Fail("accepted", "instance domain, name of %d bytes at %d of %d: error %v", k, at, size, err)
						}
						if err == nil && size < 20 {
							checkDomain(h, o, ISpec{Name: "dom", Insts: x}, "constructed")
						}
						c, g, v := map[string]int64{}, map[string]float64{}, speed.Instances{}
						for i, s := range x {
							c[s], g[s], v[s] = int64(i), float64(i), int32(i)
						}
						if _, err := speed.NewPCPCounterVector(c, "v"); (err == nil) != (k < 256) {
							h.Fail("accepted", "counter vector: error %v", err)
						}
						if _, err := speed.NewPCPGaugeVector(g, "v"); (err == nil) != (k < 256) {
							h.Fail("accepted", "gauge vector: error %v", err)
						}
						r := speed.NewPCPRegistry()
						if _, err := r.AddInstanceDomainByName("dom", append([]string(nil), x...)); (err == nil) != (k < 256) || r.HasInstanceDomain("dom") != (k < 256) {
							h.Fail("accepted", "AddInstanceDomainByName, name of %d bytes at %d of %d: error %v", k, at, size, err)
						}
					}
					// an instance given twice, far from its first place
					for _, j := range []int{0, size / 2, size - 1} {
						x := with(l[j])
						o, err := speed.NewPCPInstanceDomain("dom", append([]string(nil), x...))
						if err != nil {
							h.Fail("accepted", "instance %d repeated at %d of %d: %v", j, at, size, err)
						}
						if want := len(uniq(x)); o.InstanceCount() != want || len(o.Instances()) != want || o.HasInstance(l[at]) != uniq(x)[l[at]] || !o.MatchInstances(x) {
							h.Fail("definition", "instance %d repeated at %d of %d: %d instances, want %d", j, at, size, o.InstanceCount(), want)
						}
					}
					// a value that is missing, misnamed or of another type
					o, err := speed.NewPCPInstanceDomain("dom", append([]string(nil), l...))
					if err != nil {
						h.Fail("accepted", "%v", err)
					}
					for tn, t := range []speed.MetricType{speed.Int32Type, speed.Int32Type, speed.Uint32Type, speed.StringType, speed.Uint64Type, speed.FloatType, speed.DoubleType} {
						full := func() speed.Instances {
							v := speed.Instances{}
							for i, s := range l {
								v[s] = []interface{}{int32(i), i, uint32(i), fmt.Sprint(i), i, float64(i) / 2, float64(i)}[tn]
							}
							return v
						}
						mk := func(v speed.Instances, ok bool, what string) *speed.PCPInstanceMetric {
							h.checks++
							m, err := speed.NewPCPInstanceMetric(v, "m", o, t, speed.InstantSemantics, speed.OneUnit)
							if (err == nil) != ok {
								h.Fail("accepted", "%v values for %d instances, the one of %d %s: error %v", t, size, at, what, err)
							}
							return m
						}
						m := mk(full(), true, "ordinary")
						v := full()
						delete(v, l[at])
						mk(v, false, "missing")
						v[l[at]+" "] = full()[l[at]]
						mk(v, false, "under another name")
						v = full()
						v["more"] = v[l[at]]
						mk(v, false, "twice")
						for _, b := range []interface{}{nil, "text", 1.5, int32(4), 1 << 40, -1, uint32(1 << 31), math.MaxFloat64, math.Inf(1), rep("s", 255), rep("s", 256), []byte{1}} {
							v = full()
							v[l[at]] = b
							mk(v, accepts(t, b), fmt.Sprintf("a %T", b))
							if m.SetInstance(b, l[at]) == nil != accepts(t, b) {
								h.Fail("accepted", "SetInstance of a %T to instance %d of %d", b, at, size)
							}
						}
					}
					w.State(fmt.Sprint(size, at))
				}) {
					return
				}
			}
		}
	}}
}

// suffixed are names with beginnings and ends that could be taken for something else.
func suffixed() (l []string) {
	fix := []string{".", "..", "...", ".mmv", ".MMV", "mmv", ".tmp", ".go", ".txt", ".gz", ".sock", ".pid", ".log", ".conf", ".indom", ".metric", "-1", "_1", ".1", "#1", "@host", ":80", ":0", "_total", "_count", "_bucket", ".p99", "pcp.", "mmv.", "proc.", "kernel.all.", "histogram", "/", "\\", "~",
		" ", "\t", "\n", "\r\n", "\u00a0", "\ufeff", "\u200b", "[0]", "[]", "{}", "()", "<>", "\"", "'", "`", "%", "%s", "%20", "&", "+", "=", "?", "*", "!", "$", "^", "|", ";", ",", "0", "00", "0x", "1e9", "v2", "-", "--", "_", "__", "test", "main", "client", "PCP", "go", "default", "nil", "null"}
	for _, f := range fix {
		l = append(l, f, f+f)
		for _, b := range []string{"a", "name", "some.metric.name", "x1"} {
			l = append(l, b+f, f+b, b+f+b)
		}
	}
	for i := 0; i <= 300; i++ {
		l = append(l, fmt.Sprint(i), fmt.Sprint("c", i))
	}
	l = append(l, "123e4567-e89b-12d3-a456-426614174000", "d41d8cd98f00b204e9800998ecf8427e", "2026-11-19T07:58:59Z", "1.2.3.4", "::1", "localhost", "http://a.b/c?d=e#f", "C:\\x", "true", "NaN", "-Inf", "1.5", "-7")
	return
}

// c19header has every boundary value in every field of the header and in the
// fields of records that refer to nothing.
func c19header(check func(h *H, b []byte)) *Scenario {
	return &Scenario{Name: "fields of the header and of records", Shards: 4, Enum: func(w *W) {
		i := 0
		for _, ver := range []int{1, 2} {
			std := stdFile(ver).build()
			sec := map[uint32]uint64{}
			for k := 0; k < 5; k++ {
				sec[le.Uint32(std[40+16*k:])] = le.Uint64(std[48+16*k:])
			}
			in := func(t uint32, at uint64) int { return int(sec[t] + at) }
			p := uint64(64)
			if ver == 2 {
				p = 8
			}
			type field struct {
				name string
				at   []int
				size int
			}
			fields := []field{{"generation", []int{8, 16}, 8}, {"flags", []int{28}, 4}, {"process", []int{32}, 4}, {"cluster", []int{36}, 4},
				{"instance id", []int{in(2, 12)}, 4}, {"padding of an instance", []int{in(2, 8)}, 4}, {"item", []int{in(3, p)}, 4}, {"semantics", []int{in(3, p+8)}, 4},
				{"unit", []int{in(3, p+12)}, 4}, {"padding", []int{in(3, p+20)}, 4}, {"value", []int{in(4, 0)}, 8}, {"second half of a value", []int{in(4, 8)}, 8},
				{"first half of a text value", []int{in(4, 3*32)}, 8}}
			var vs []uint64
			for s := uint(0); s < 64; s++ {
				vs = append(vs, 1<<s, 1<<s-1, ^uint64(0)<<s, 1<<s+1, 0xa5a5a5a5a5a5a5a5>>s)
			}
			for _, f := range fields {
				done := map[uint64]bool{}
				for _, v := range vs {
					if f.size == 4 {
						v = uint64(uint32(v))
					}
					if done[v] || f.name == "generation" && v == 0 {
						continue
					}
					done[v] = true
					if i++; !w.Mine(i) {
						continue
					}
					b := append([]byte(nil), std...)
					for _, at := range f.at {
						if f.size == 4 {
							le.PutUint32(b[at:], uint32(v))
						} else {
							le.PutUint64(b[at:], v)
						}
					}
					if !w.Exec(fmt.Sprintf("version %d, %s %#x", ver, f.name, v), func(h *H) { check(h, b) }) {
						return
					}
				}
			}
		}
	}}
}

// c19tail has every section last, with bytes of no meaning behind it.
func c19tail(check func(h *H, b []byte)) *Scenario {
	return &Scenario{Name: "bytes behind the last record", Shards: 8, Enum: func(w *W) {
		i := 0
		for _, ver := range []int{1, 2} {
			for last := range allSecs {
				for tail := 0; tail <= 300; tail++ {
					if i++; !w.Mine(i) {
						continue
					}
					f := stdFile(ver)
					f.order = append(append([]int{}, allSecs[last+1:]...), allSecs[:last+1]...)
					b := append(f.build(), make([]byte, tail)...)
					if tail%2 == 1 {
						for k := len(b) - tail; k < len(b); k++ {
							b[k] = 0xff
						}
					}
					if !w.Exec(fmt.Sprintf("version %d, data %v, %d more bytes", ver, f.order, tail), func(h *H) { check(h, b) }) {
						return
					}
				}
			}
		}
	}}
}

// c19refs has every reference of a record lead to every record that it can.
func c19refs(check func(h *H, b []byte)) *Scenario {
	return &Scenario{Name: "references to every record", Shards: 8, Enum: func(w *W) {
		i := 0
		for _, ver := range []int{1, 2} {
			std := stdFile(ver).build()
			type sec struct{ off, n, size uint64 }
			secs := map[int]sec{}
			for k := 0; k < 5; k++ {
				t := int(le.Uint32(std[40+16*k:]))
				secs[t] = sec{le.Uint64(std[48+16*k:]), uint64(le.Uint32(std[44+16*k:])), recSize(int32(t), int32(ver))}
			}
			all := func(t int, none bool) (l []uint64) {
				if none {
					l = append(l, 0)
				}
				for k := uint64(0); k < secs[t].n; k++ {
					l = append(l, secs[t].off+k*secs[t].size)
				}
				return
			}
			// pairs of references of one record
			try := func(t int, rec, at1, at2 uint64, to1, to2 []uint64) bool {
				for _, a := range to1 {
					for _, c := range to2 {
						if i++; !w.Mine(i) {
							continue
						}
						b := append([]byte(nil), std...)
						o := secs[t].off + rec*secs[t].size
						le.PutUint64(b[o+at1:], a)
						le.PutUint64(b[o+at2:], c)
						if !w.Exec(fmt.Sprintf("version %d, record %d of section %d, references %d and %d", ver, rec, t, a, c), func(h *H) { check(h, b) }) {
							return false
						}
					}
				}
				return true
			}
			p := uint64(64)
			if ver == 2 {
				p = 8
			}
			strs, opt := all(5, false), all(5, true)
			for r := uint64(0); r < secs[1].n; r++ {
				if !try(1, r, 16, 24, opt, opt) {
					return
				}
			}
			for r := uint64(0); r < secs[3].n; r++ {
				if !try(3, r, p+24, p+32, opt, opt) || ver == 2 && (!try(3, r, 0, p+24, strs, opt) || !try(3, r, 0, p+32, strs, opt)) {
					return
				}
			}
			for r := uint64(0); r < secs[2].n; r++ {
				if !try(2, r, 0, 0, []uint64{secs[1].off}, all(1, false)) || ver == 2 && !try(2, r, 0, 16, all(1, false), strs) {
					return
				}
			}
			for r := uint64(0); r < secs[4].n; r++ {
				o := secs[4].off + r*secs[4].size
				ms := all(3, false)
				if le.Uint64(std[o+8:]) == 0 {
					ms = ms[:2] // not the metric of texts
				}
				if !try(4, r, 16, 24, ms, all(2, false)) || le.Uint64(std[o+8:]) != 0 && !try(4, r, 8, 24, strs, all(2, false)) {
					return
				}
			}
		}
	}}
}

// c07made mixes the domains that histograms and vectors make for themselves
// with registered ones of the same names, of the same instances or of others.
func c07made(tier string) *Scenario {
	var ops []RegOp
	add := func(r RegOp) { ops = append(ops, r) }
	dom := func(m, key string, d ISpec) {
		d.Key = key
		v := map[string]interface{}{}
		for i, s := range d.Insts {
			v[s] = int32(i)
		}
		x := inst(m, d.Name, speed.Int32Type, v, "about")
		x.Obj = key
		add(RegOp{Form: "metric", M: x, D: d})
	}
	own := ISpec{Name: "histogram", Insts: histInsts, Desc: []string{"short", "long"}}
	other := ISpec{Name: "histogram", Insts: []string{"min", "max"}}
	vec := ISpec{Name: "v.indom", Insts: []string{"x", "y"}}
	add(RegOp{Form: "metric", M: hist("h")})
	add(RegOp{Form: "metric", M: hist("h2", "short")})
	dom("own", "own", own)
	dom("other", "other", other)
	add(RegOp{Form: "indom", D: ISpec{Name: "histogram", Insts: histInsts, Key: "own2"}})
	add(RegOp{Form: "byname", D: ISpec{Name: "histogram", Insts: histInsts[:2]}})
	add(RegOp{Form: "metric", M: cvec("v", vals("x", int64(1), "y", int64(2)))})
	add(RegOp{Form: "metric", M: gvec("v", vals("x", 1.0))})
	dom("with v", "vec", vec)
	add(RegOp{Form: "indom", D: ISpec{Name: "v.indom", Insts: []string{"x"}, Key: "vx"}})
	add(RegOp{Form: "indom", D: ISpec{Name: "same", Insts: []string{"same", "x"}, Desc: []string{"same", "same"}, Key: "same"}})
	add(RegOp{Form: "metric", M: single("same", speed.StringType, "same", "same", "same")})
	dom("same too", "same too", ISpec{Name: "same", Insts: []string{"x", "same"}, Desc: []string{"", "same too"}})
	add(RegOp{Form: "indom", D: ISpec{Name: "free", Insts: []string{"p"}, Desc: []string{"s"}, Key: "free"}})
	n := 3
	if tier == "thorough" {
		n = 4
	}
	return &Scenario{Name: "domains that metrics make", Shards: 16, Enum: func(w *W) {
		words(n, len(ops), func(i int, word []int) bool {
			if !w.Mine(i) {
				return true
			}
			return w.Exec(fmt.Sprintf("operations %v", word), func(h *H) {
				h.clean()
				c := h.newClient("cl", &RSpec{})
				objs := map[string]*speed.PCPInstanceDomain{}
				for k := 0; k < n+2; k++ {
					x := len(ops) - 1 // afterwards everything still goes on
					if k < n {
						x = word[k]
					}
					r := ops[x]
					r.prepare(h, objs)
					c.regStep(&r)
					c.checkReg("after " + r.String())
				}
				w.State(c.reg().key())
				c.start()
				c.checkFile("after Start")
				c.stop()
				c.checkReg("after Stop")
			})
		})
	}}
}

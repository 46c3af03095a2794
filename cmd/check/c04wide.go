package main

// C04, second part: every form of every kind with a wide pool of arguments,
// from several initial states (equal values, zeros, empty texts, extremes).

import (
	"fmt"
	"math"
	"strings"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

type wideCase struct {
	n   string
	m   MSpec
	ops []Op
}

var (
	wideInts   = []int64{0, 1, -1, 2, 7, -7, 1 << 20, 1<<31 - 1, 1 << 31, -1 << 31, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64, math.MinInt64}
	wideFloats = []float64{0, 1, -1, 0.1, -0.1, 2.5, -7.25, 1e-300, -5e-324, 1 << 53, 1e16, -1e100, math.MaxFloat64, math.Inf(1), math.Inf(-1)}
)

func wideArgs(t speed.MetricType) []interface{} {
	switch t {
	case speed.Int32Type:
		return []interface{}{int32(0), int32(-1), int32(5), int32(math.MaxInt32), int32(math.MinInt32), 0, 1, -1, 5, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, int64(1), uint(1), "1", 1.0, nil}
	case speed.Uint32Type:
		return []interface{}{uint32(0), uint32(5), uint32(math.MaxUint32), uint32(1) << 31, 0, 1, 5, -1, math.MaxUint32, math.MaxUint32 + 1, uint(7), uint(math.MaxUint32), uint(math.MaxUint32 + 1), int32(1), "1", nil}
	case speed.Int64Type:
		return []interface{}{int64(0), int64(-1), int64(5), int64(math.MaxInt64), int64(math.MinInt64), int64(1)<<32 + 3, 0, 1, -1, math.MaxInt64, math.MinInt64, int32(1), uint64(1), "1", 1.0, nil}
	case speed.Uint64Type:
		return []interface{}{uint64(0), uint64(5), uint64(math.MaxUint64), uint64(1) << 63, uint64(1)<<32 + 3, 0, 5, -1, math.MaxInt64, uint(9), uint(math.MaxUint64), uint32(1), int64(1), "1", nil}
	case speed.FloatType:
		return []interface{}{float32(0), float32(-1.5), float32(5.5), float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32), float32(math.Inf(-1)), 0.0, 0.1, -2.5, math.MaxFloat32, math.MaxFloat64, 1, "1", nil}
	case speed.DoubleType:
		return []interface{}{0.0, 0.1, -2.5, 5.5, math.MaxFloat64, 5e-324, math.Inf(1), math.Inf(-1), float32(1), 1, int64(1), "1", nil}
	}
	return []interface{}{"", "a", "b", "one", "text before", "m", " ", "\x01", "ü", rep("v", 63), rep("v", 64), rep("w", 254), rep("w", 255), rep("w", 256), 5, nil, []byte("x")}
}

func wideCases() (l []wideCase) {
	add := func(n string, m MSpec, forms []string, args []interface{}) {
		names := []string{""}
		if m.Kind == "inst" || m.Kind == "cvec" || m.Kind == "gvec" {
			names = (&LM{Cur: m.Vals}).insts()
			names = append(names, "nobody", "")
		}
		var ops []Op
		for _, f := range forms {
			all := len(f) > 3 && f[len(f)-3:] == "All"
			for i, nm := range names {
				if all && i > 0 {
					break
				}
				if all {
					nm = ""
				}
				if f == "Up" || f == "UpAll" {
					ops = append(ops, Op{Name: f, Inst: nm})
					continue
				}
				for k, a := range args {
					if _, known := m.Vals[nm]; !known && !all && (k > 4 || a == int64(0) || a == 0.0) {
						continue // adding nothing to an unknown instance: left open
					}
					ops = append(ops, Op{Name: f, Arg: a, Inst: nm})
				}
			}
		}
		l = append(l, wideCase{n, m, ops})
	}
	var ints, floats []interface{}
	for _, x := range wideInts {
		ints = append(ints, x)
	}
	for _, x := range wideFloats {
		floats = append(floats, x)
	}
	set := []string{"Set", "MustSet"}
	types := []struct {
		t     speed.MetricType
		n     string
		z, v  interface{}
		v2    interface{}
		limit interface{}
	}{
		{speed.Int32Type, "int32", 0, 5, -1, math.MaxInt32}, {speed.Uint32Type, "uint32", 0, 5, 1, math.MaxUint32}, {speed.Int64Type, "int64", 0, 5, -1, math.MaxInt64}, {speed.Uint64Type, "uint64", 0, 5, 1, uint(math.MaxUint64)},
		{speed.FloatType, "float", 0.0, 5.5, -2.5, math.MaxFloat32}, {speed.DoubleType, "double", 0.0, 5.5, -2.5, math.MaxFloat64}, {speed.StringType, "string", "", "a", "b", rep("w", 255)},
	}
	for _, t := range types {
		a := wideArgs(t.t)
		for i, v := range []interface{}{t.z, t.v, t.limit} {
			add(fmt.Sprintf("%s.%d", t.n, i), single("m", t.t, v), set, a)
		}
		for i, v := range []map[string]interface{}{vals("a", t.z, "b", t.z, "c", t.z), vals("a", t.v, "b", t.v, "c", t.v), vals("a", t.z, "b", t.v, "c", t.z), vals("a", t.limit, "b", t.v, "c", t.v2)} {
			add(fmt.Sprintf("%s instances.%d", t.n, i), inst("m", "d", t.t, v), set, a)
		}
	}
	for i, v := range []int64{0, 5, math.MaxInt64 - 1, -5} {
		add(fmt.Sprintf("counter.%d", i), counter("m", v), []string{"Set", "Inc", "MustInc", "Up"}, ints)
	}
	for i, v := range []float64{0, 2.5, -math.MaxFloat64} {
		add(fmt.Sprintf("gauge.%d", i), gauge("m", v), []string{"Set", "MustSet", "Inc", "MustInc", "Dec", "MustDec"}, floats)
	}
	for i, v := range []map[string]interface{}{vals("a", int64(0), "b", int64(0)), vals("a", int64(3), "b", int64(math.MaxInt64-1)), vals("a", int64(3), "b", int64(3), "c", int64(0))} {
		add(fmt.Sprintf("counter vector.%d", i), cvec("m", v), []string{"Set", "MustSet", "Inc", "MustInc", "Up", "SetAll", "IncAll", "UpAll"}, ints)
	}
	for i, v := range []map[string]interface{}{vals("a", 0.0, "b", 0.0), vals("a", 1.5, "b", 1e300), vals("a", 1.5, "b", 1.5, "c", 0.0)} {
		add(fmt.Sprintf("gauge vector.%d", i), gvec("m", v), []string{"Set", "MustSet", "Inc", "MustInc", "Dec", "MustDec", "SetAll", "IncAll", "DecAll"}, floats)
	}
	return l
}

// nearTexts are texts that are easily taken for each other.
func nearTexts() (l []string) {
	add := func(s string) {
		if plainOnce(l, s) {
			l = append(l, s)
		}
	}
	for _, b := range []string{"Some text", rep("k", 64), "0", "true"} {
		add(b)
		for _, i := range []int{0, len(b) / 2, len(b) - 1} {
			for _, c := range []byte{' ', 'x', b[i] ^ 0x20, b[i] ^ 0x80, b[i] ^ 1} {
				if c != 0 {
					add(b[:i] + string([]byte{c}) + b[i+1:])
				}
			}
			add(b[:i] + b[i+1:])
			add(b[:i] + " " + b[i:])
		}
		add(b + " ")
		add(b + "\n")
		add(b + b)
		add(strings.ToUpper(b))
		add(strings.ToLower(b))
		r := []byte(b)
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
		add(string(r))
	}
	for _, s := range []string{"", " ", "  ", "\t", "1", "1.0", "01", "+1", "1e0", "0x1", "-0", "nil", "<nil>", "null", "false", "%d", "%s", "%!s(int=5)", "K", "k", "\u212a", "s", "\u017f", "\u00e9", "e\u0301", "\xff", "\ufffd", "\xfe", "costarring", "liquid", "m1109", "m1202", rep("a", 254), rep("a", 255), rep("a", 254) + "b", "b" + rep("a", 254), rep("a", 127) + "b" + rep("a", 127), rep("\u00e9", 127), rep("\u00e9", 127) + "x"} {
		add(s)
	}
	return l
}

// bitNeighbours are values of the type that differ from each other in one bit of
// the published form.
func bitNeighbours(t speed.MetricType) (l []interface{}) {
	n := 64
	if t == speed.Int32Type || t == speed.Uint32Type || t == speed.FloatType {
		n = 32
	}
	for _, base := range []uint64{0x123456789abcdef0, 0} {
		for b := -1; b < n; b++ {
			u := base
			if b >= 0 {
				u ^= 1 << b
			}
			var v interface{}
			switch t {
			case speed.Int32Type:
				v = int32(u)
			case speed.Uint32Type:
				v = uint32(u)
			case speed.Int64Type:
				v = int64(u)
			case speed.Uint64Type:
				v = u
			case speed.FloatType:
				v = math.Float32frombits(uint32(u))
			case speed.DoubleType:
				v = math.Float64frombits(u)
			}
			if f, ok := v.(float64); ok && (f != f || f == 0 && b >= 0) {
				continue
			}
			if f, ok := v.(float32); ok && (f != f || f == 0 && b >= 0) {
				continue
			}
			l = append(l, v)
		}
	}
	return l
}

// c04pairs changes a value from each of the pool to each of the pool.
func c04pairs(tier string) (l []*Scenario) {
	times := 270
	if tier == "thorough" {
		times = 5000
	}
	pool := func(n string, t speed.MetricType, vs []interface{}) {
		for _, kind := range []string{"single", "instance"} {
			kind := kind
			l = append(l, &Scenario{Name: "from each value to each: " + n + ", " + kind, Shards: 4, Enum: func(w *W) {
				for i, a := range vs {
					if !w.Mine(i) {
						continue
					}
					if !w.Exec(fmt.Sprintf("%#v and others", a), func(h *H) {
						m := single("m", t, vs[0])
						rs := &RSpec{}
						o := Op{Name: "Set"}
						if kind == "instance" {
							m = inst("m", "d", t, vals("a", vs[0], "b", vs[len(vs)-1]))
							rs.Indoms = []ISpec{{Name: "d", Insts: []string{"a", "b"}}}
							o.Inst = "a"
						}
						rs.Metrics = []MSpec{m}
						c := h.newClient("cl", rs)
						c.start()
						s := c.track()
						for j, b := range vs {
							w.beat()
							w.extra++
							o.Arg = a
							s.step(c.Ms[0], o)
							if j%2 == 1 && kind == "instance" {
								s.step(c.Ms[0], Op{Name: "MustSet", Arg: b, Inst: "b"})
							}
							o.Arg = b
							s.step(c.Ms[0], o)
						}
						w.State(stateKey(c.Ms))
					}) {
						return
					}
				}
			}})
		}
	}
	var texts []interface{}
	for _, s := range nearTexts() {
		texts = append(texts, s)
	}
	pool("texts", speed.StringType, texts)
	for n, t := range []speed.MetricType{speed.Int32Type, speed.Uint32Type, speed.Int64Type, speed.Uint64Type, speed.FloatType, speed.DoubleType} {
		pool([]string{"int32", "uint32", "int64", "uint64", "float", "double"}[n], t, bitNeighbours(t))
	}
	// metrics with colliding identifiers in registries of several sizes: every
	// value is changed and every byte compared
	for _, n := range []int{3, 70, 260} {
		n := n
		l = append(l, &Scenario{Name: fmt.Sprintf("each of %d metrics and instances", n), Shards: 4, Enum: func(w *W) {
			for part := 0; part < 8; part++ {
				if !w.Mine(part) {
					continue
				}
				if !w.Exec(fmt.Sprintf("part %d", part), func(h *H) {
					rs := &RSpec{}
					names := []string{"m1109", "m1202", "costarring", "liquid", "declinate", "macallums", "altarage", "zinke"}
					var insts []string
					in := map[string]interface{}{}
					st := map[string]interface{}{}
					cv := map[string]interface{}{}
					for i := 0; i < n; i++ {
						nm := fmt.Sprintf("n%d", i)
						if i < len(names) {
							nm = names[i]
						}
						insts = append(insts, nm)
						in[nm], st[nm], cv[nm] = i, fmt.Sprint("t", i), int64(i)
						switch i % 3 {
						case 0:
							rs.Metrics = append(rs.Metrics, single(nm, speed.Int32Type, i))
						case 1:
							rs.Metrics = append(rs.Metrics, single(nm, speed.StringType, fmt.Sprint("s", i)))
						case 2:
							rs.Metrics = append(rs.Metrics, counter(nm, int64(i)))
						}
					}
					rs.Indoms = []ISpec{{Name: "d", Insts: insts}}
					rs.Metrics = append(rs.Metrics, inst("in", "d", speed.Uint64Type, in), inst("st", "d", speed.StringType, st), cvec("cv", cv))
					c := h.newClient("cl", rs)
					c.start()
					s := c.track()
					k := 0
					step := func(m *LM, o Op) {
						if k++; k%8 == part {
							w.beat()
							s.step(m, o)
						}
					}
					for _, m := range c.Ms {
						switch {
						case m.S.Kind == "cvec":
							for _, i := range insts {
								step(m, Op{Name: "Up", Inst: i})
							}
						case m.S.Kind == "counter":
							step(m, Op{Name: "Inc", Arg: int64(1000)})
						case m.S.Kind == "inst" && m.S.Type == speed.StringType:
							for _, i := range insts {
								step(m, Op{Name: "Set", Arg: "new " + i, Inst: i})
							}
						case m.S.Kind == "inst":
							for _, i := range insts {
								step(m, Op{Name: "Set", Arg: uint(math.MaxUint64), Inst: i})
							}
						case m.S.Type == speed.StringType:
							step(m, Op{Name: "Set", Arg: "new " + m.S.Name})
						default:
							step(m, Op{Name: "Set", Arg: -1})
						}
					}
					w.extra += int64(k) / 8
					c.checkFile("at the end")
					c.stop()
					c.checkFile("after Stop")
				}) {
					return
				}
			}
		}})
	}
	// one operation or two in turn, again and again
	l = append(l, &Scenario{Name: "again and again", Shards: 8, Enum: func(w *W) {
		n := 0
		for _, k := range c04kinds() {
			k := k
			if !words(2, len(k.ops), func(i int, word []int) bool {
				if n++; !w.Mine(n) {
					return true
				}
				a, b := k.ops[word[0]], k.ops[word[1]]
				return w.Exec(fmt.Sprintf("%s: %v, %v", k.n, a, b), func(h *H) {
					c := h.newClient("cl", around(k.m, false))
					c.start()
					s := c.track()
					for r := 0; r < times; r++ {
						w.beat()
						w.extra++
						o := a
						if r%2 == 1 {
							o = b
						}
						if o.Name == "+" {
							mc.Advance(timeDuration(int(o.Arg.(int64))))
							continue
						}
						s.step(c.Ms[1], o)
					}
					w.State(k.n + stateKey(c.Ms[1:2]))
					c.stop()
				})
			}) {
				return
			}
		}
	}})
	l = append(l, c04big(tier))
	// long histories
	l = append(l, &Scenario{Name: "long histories", Shards: 4, Enum: func(w *W) {
		for i, k := range c04kinds() {
			if !w.Mine(i) {
				continue
			}
			k := k
			if !w.Exec(k.n, func(h *H) {
				c := h.newClient("cl", around(k.m, false))
				c.start()
				s := c.track()
				for r := 0; r < 1100; r++ {
					w.beat()
					w.extra++
					o := k.ops[(r*7+r/len(k.ops))%len(k.ops)]
					if o.Name == "+" {
						mc.Advance(timeDuration(int(o.Arg.(int64))))
						continue
					}
					s.step(c.Ms[1], o)
				}
				for r := 0; r < 140; r++ {
					w.beat()
					w.extra++
					c.stop()
					c.Ms[1].step(h, noAdvance(k.ops, r))
					c.start()
					s = c.track()
					s.step(c.Ms[1], noAdvance(k.ops, r+1))
				}
				c.checkFile("at the end")
				c.stop()
				c.checkFile("after Stop")
			}) {
				return
			}
		}
	}})
	return l
}

func noAdvance(ops []Op, r int) Op {
	for ops[r%len(ops)].Name == "+" {
		r++
	}
	return ops[r%len(ops)]
}

func c04wide(tier string) (l []*Scenario) {
	for _, k := range wideCases() {
		k := k
		l = append(l, &Scenario{Name: "every argument: " + k.n, Shards: 4, Enum: func(w *W) {
			// the first operation is any of them; the second any of a prefix-free
			// thinning in the quick tier
			words(2, len(k.ops), func(i int, word []int) bool {
				if !w.Mine(i) {
					return true
				}
				if tier != "thorough" && len(k.ops) > 40 && (word[0]+word[1])%(1+len(k.ops)/40) != 0 && word[0] != word[1] {
					return true
				}
				a, b := k.ops[word[0]], k.ops[word[1]]
				return w.Exec(a.String()+" "+b.String(), func(h *H) {
					rs := around(k.m, false)
					if k.m.Kind == "inst" {
						rs.Indoms = []ISpec{{Name: "d", Insts: (&LM{Cur: k.m.Vals}).insts()}}
					}
					c := h.newClient("cl", rs)
					c.start()
					s := c.track()
					s.step(c.Ms[1], a)
					s.step(c.Ms[1], b)
					w.State(k.n + stateKey(c.Ms[1:2]))
				})
			})
		}})
	}
	return l
}

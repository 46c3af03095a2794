package main

// C26: identifiers depend only on names and fit their fields.

import (
	"fmt"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

// myFNV is FNV-1a, 32 bits.
func myFNV(s string, bits uint) uint32 {
	v := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		v = (v ^ uint32(s[i])) * 16777619
	}
	return v & uint32(uint64(1)<<bits-1)
}

// idNames are names of every shape.
func idNames(tier string) (l []string) {
	for b := 0; b < 256; b++ {
		if b != 0 {
			l = append(l, string([]byte{byte(b)}), "n"+string([]byte{byte(b)})+"n")
		}
	}
	syms := []string{"a", "b", ".", "_", "\u00e9", "7"}
	n := 4
	if tier == "thorough" {
		n = 6
	}
	for k := 1; k <= n; k++ {
		words(k, len(syms), func(_ int, w []int) bool {
			s := ""
			for _, x := range w {
				s += syms[x]
			}
			l = append(l, s)
			return true
		})
	}
	for k := 1; k <= 255; k++ {
		l = append(l, rep("q", k), rep("ab", k)[:k])
	}
	return append(append(l, confusable()...), suffixed()...)
}

func init() {
	props["C26"] = func(tier string) (l []*Scenario) {
		names := idNames(tier)
		// reported identifiers of every kind
		l = append(l, &Scenario{Name: "reported identifiers", Shards: 4, Enum: func(w *W) {
			for i, n := range names {
				if !w.Mine(i) {
					continue
				}
				if !w.Exec(fmt.Sprintf("name %q", n), func(h *H) {
					for round := 0; round < 2; round++ {
						for _, s := range []MSpec{single(n, speed.Int32Type, 1), single(n, speed.StringType, "x", "other", "texts"), counter(n, 1), gauge(n, 2), timer(n), hist(n), cvec(n, vals("x", int64(1))), gvec(n, vals("x", 1.0))} {
							m, err := newLM(&s, nil)
							if err != nil {
								h.Fail("refused", "%s %q: %v", s.Kind, n, err)
							}
							h.checks++
							if id := m.M.ID(); id != myFNV(n, 10) {
								h.Fail("id", "%s %q has id %d, want %d", s.Kind, n, id, myFNV(n, 10))
							}
							if p, ok := m.M.(interface {
								Indom() *speed.PCPInstanceDomain
							}); ok && p.Indom() != nil {
								if id := p.Indom().ID(); id != myFNV(s.indomName(), 22) {
									h.Fail("id", "indom of %s %q has id %d, want %d", s.Kind, n, id, myFNV(s.indomName(), 22))
								}
							}
						}
						for _, in := range [][]string{nil, {"a"}, {n, "b"}} {
							d, err := speed.NewPCPInstanceDomain(n, in, "t")
							if err != nil {
								h.Fail("refused", "indom %q: %v", n, err)
							}
							if d.ID() != myFNV(n, 22) {
								h.Fail("id", "indom %q has id %d, want %d", n, d.ID(), myFNV(n, 22))
							}
						}
					}
					w.State(fmt.Sprint(myFNV(n, 32)))
				}) {
					return
				}
			}
		}})
		// published identifiers: names in groups, in both orders, in two registries
		group := 12
		l = append(l, &Scenario{Name: "published identifiers", Shards: 8, Enum: func(w *W) {
			for g := 0; g*group < len(names); g++ {
				if !w.Mine(g) {
					continue
				}
				ns := names[g*group:]
				if len(ns) > group {
					ns = ns[:group]
				}
				for _, rev := range []bool{false, true} {
					if !w.Exec(fmt.Sprintf("names %q reverse %v", ns, rev), func(h *H) {
						h.clean()
						c := h.newClient("cl", &RSpec{})
						var l []string
						for i := range ns {
							n := ns[i]
							if rev {
								n = ns[len(ns)-1-i]
							}
							if plainOnce(l, n) {
								l = append(l, n)
							}
						}
						g := &Reg{}
						for _, n := range l {
							op := RegOp{Form: "metric", M: single(n, speed.Int32Type, 1)}
							op.prepare(h, map[string]*speed.PCPInstanceDomain{})
							if err := op.apply(c.C); err != nil {
								h.Fail("refused", "Register(%q): %v", n, err)
							}
							op.spec(g)
						}
						for i, n := range l {
							op := RegOp{Form: "indom", D: ISpec{Name: "indom " + n, Insts: []string{n, fmt.Sprint("i", i)}}}
							op.prepare(h, map[string]*speed.PCPInstanceDomain{})
							if err := op.apply(c.C); err != nil {
								h.Fail("refused", "RegisterIndom(%q): %v", n, err)
							}
							op.spec(g)
						}
						c.use(g)
						c.start()
						f := c.checkFile("after Start")
						byName := map[string]uint32{}
						for _, m := range f.metrics {
							byName[m.name] = m.item
						}
						for _, m := range g.Ms {
							if m.M.ID() != byName[m.S.Name] {
								h.Fail("id", "metric %q reports id %d, the file has %d", m.S.Name, m.M.ID(), byName[m.S.Name])
							}
						}
						c.stop()
						w.State(layout(f))
					}) {
						return
					}
				}
			}
		}})
		// cluster identifiers
		l = append(l, &Scenario{Name: "cluster identifiers", Shards: 4, Enum: func(w *W) {
			for i, n := range names {
				if !w.Mine(i) || !plainName(n) {
					continue
				}
				if !w.Exec(fmt.Sprintf("client %q", n), func(h *H) {
					h.clean()
					c := h.newClient(n, &RSpec{})
					c.start()
					f := c.checkFile("after Start")
					if f.cluster != myFNV(n, 12) {
						h.Fail("id", "client %q has cluster %d, want %d", n, f.cluster, myFNV(n, 12))
					}
					c.stop()
					w.State(fmt.Sprint(f.cluster))
				}) {
					return
				}
			}
		}})
		// identifiers of equal names made at the same time
		p := 2
		if tier == "thorough" {
			p = 3
		}
		l = append(l, &Scenario{Name: "made concurrently", Shards: 4, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: p}, Body: func(h *H) {
			kinds := []func(n string) uint32{
				func(n string) uint32 {
					m, err := speed.NewPCPSingletonMetric(1, n, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
					if err != nil {
						h.Fail("refused", "%v", err)
					}
					return m.ID()
				},
				func(n string) uint32 {
					d, err := speed.NewPCPInstanceDomain(n, []string{n, "b"})
					if err != nil {
						h.Fail("refused", "%v", err)
					}
					return d.ID()
				},
				func(n string) uint32 {
					v, err := speed.NewPCPCounterVector(map[string]int64{n: 1}, n)
					if err != nil {
						h.Fail("refused", "%v", err)
					}
					return v.ID()
				},
				func(n string) uint32 {
					c, err := speed.NewPCPClient(n)
					if err != nil {
						h.Fail("refused", "%v", err)
					}
					c.MustRegisterString(n, 1, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
					return 0
				},
			}
			want := func(k int, n string) uint32 {
				switch k {
				case 0, 2:
					return myFNV(n, 10)
				case 1:
					return myFNV(n, 22)
				}
				return 0
			}
			a, b := h.Choose(len(kinds)), h.Choose(len(kinds))
			n2 := []string{"name", "other"}[h.Choose(2)]
			h.Log("kinds %d and %d, %q", a, b, n2)
			var x, y uint32
			h.Par(func() { x = kinds[a]("name") }, func() { y = kinds[b](n2) })
			h.checks++
			if x != want(a, "name") || y != want(b, n2) {
				h.Fail("id", "ids %d and %d, want %d and %d", x, y, want(a, "name"), want(b, n2))
			}
		}})
		return l
	}
}

func plainOnce(l []string, n string) bool {
	for _, x := range l {
		if x == n {
			return false
		}
	}
	return true
}

package main

// C24: text stays within its slot or is refused.

import (
	"bytes"
	"fmt"

	"github.com/performancecopilot/speed/v4"
)

// textSlot is one place a text can be given in.
type textSlot struct {
	n   string
	set func(s *MSpec, d *ISpec, t string)
	v   func(s *MSpec) bool // applies to this kind
}

func anyKind(*MSpec) bool { return true }
func hasIndom(s *MSpec) bool {
	return s.Kind == "inst"
}

func desc2(l []string, i int, t string) []string {
	r := []string{"", ""}
	copy(r, l)
	r[i] = t
	return r
}

var textSlots = []textSlot{
	{"name", func(s *MSpec, d *ISpec, t string) { s.Name = t }, anyKind},
	{"short description", func(s *MSpec, d *ISpec, t string) { s.Desc = desc2(s.Desc, 0, t) }, anyKind},
	{"long description", func(s *MSpec, d *ISpec, t string) { s.Desc = desc2(s.Desc, 1, t) }, anyKind},
	{"instance", func(s *MSpec, d *ISpec, t string) {
		v := map[string]interface{}{}
		for k, x := range s.Vals {
			if k == "p" {
				k = t
			}
			v[k] = x
		}
		s.Vals = v
		if d != nil {
			d.Insts = []string{t, "q"}
		}
	}, func(s *MSpec) bool { return s.Kind == "inst" || s.Kind == "cvec" || s.Kind == "gvec" }},
	{"value", func(s *MSpec, d *ISpec, t string) {
		v := map[string]interface{}{}
		for k, x := range s.Vals {
			if k == "" || k == "p" {
				x = t
			}
			v[k] = x
		}
		s.Vals = v
	}, func(s *MSpec) bool {
		return (s.Kind == "single" || s.Kind == "inst") && s.Type == speed.StringType
	}},
	{"short description of the indom", func(s *MSpec, d *ISpec, t string) { d.Desc = desc2(d.Desc, 0, t) }, hasIndom},
	{"long description of the indom", func(s *MSpec, d *ISpec, t string) { d.Desc = desc2(d.Desc, 1, t) }, hasIndom},
}

var textKinds = []MSpec{
	single("t.int", speed.Int32Type, 5), single("t.str", speed.StringType, "value"), counter("t.counter", 3, "c"), gauge("t.gauge", 0.5), timer("t.timer"), hist("t.hist", "h"),
	inst("t.inst", "td", speed.Uint64Type, vals("p", uint64(1), "q", uint64(2)), "i", "j"), inst("t.insts", "td", speed.StringType, vals("p", "one", "q", "two")),
	cvec("t.cvec", vals("p", int64(1), "q", int64(2))), gvec("t.gvec", vals("p", 1.5, "q", 2.5), "g"),
}

func textOf(fill, n int) string {
	switch fill {
	case 1:
		return rep("\u00e9", n/2) + rep("x", n%2)
	case 2:
		if n == 0 {
			return ""
		}
		return rep("y", n-1) + "\xff"
	}
	return rep("x", n)
}

// neighbours surround the text in the file.
func neighbours(ver2 bool) *RSpec {
	r := &RSpec{Indoms: []ISpec{{"nd", []string{"n1", "n2"}, []string{rep("d", 255), rep("e", 255)}, ""}},
		Metrics: []MSpec{single("a.neighbour", speed.StringType, rep("v", 255), rep("s", 255), rep("l", 255)),
			inst("z.neighbour", "nd", speed.StringType, vals("n1", rep("1", 255), "n2", "")), single("y.number", speed.Int64Type, -1)}}
	if ver2 {
		r.Metrics = append(r.Metrics, single(rep("long", 16), speed.DoubleType, 1.5))
	}
	return r
}

func init() {
	props["C24"] = func(tier string) (l []*Scenario) {
		var lens []int
		for n := 0; n <= 300; n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 511, 512, 513, 767, 1023, 4095, 4096, 5000, 65535, 65536, 70000)
		for ki := range textKinds {
			for si := range textSlots {
				ki, si := ki, si
				if !textSlots[si].v(&textKinds[ki]) {
					continue
				}
				l = append(l, &Scenario{Name: fmt.Sprintf("%s of %s", textSlots[si].n, textKinds[ki].Name), Shards: 2, Enum: func(w *W) {
					i := 0
					for _, n := range lens {
						for fill := 0; fill < 3; fill++ {
							for nb := 0; nb < 3; nb++ {
								if i++; !w.Mine(i) || nb > 0 && tier != "thorough" && fill != nb-1 && n > 3 && (n < 60 || n > 66) && (n < 250 || n > 260) {
									continue
								}
								if !w.Exec(fmt.Sprintf("%d bytes (fill %d, neighbours %d)", n, fill, nb), func(h *H) { c24one(h, ki, si, textOf(fill, n), nb) }) {
									return
								}
							}
						}
					}
				}})
			}
		}
		// registration by string and domains by name
		l = append(l, &Scenario{Name: "by string and by name", Shards: 4, Enum: func(w *W) {
			i := 0
			for _, n := range lens {
				for form := 0; form < 4; form++ {
					if i++; !w.Mine(i) || n == 0 {
						continue
					}
					if !w.Exec(fmt.Sprintf("form %d with %d bytes", form, n), func(h *H) {
						h.clean()
						t := rep("x", n)
						c := h.newClient("cl", neighbours(false))
						g := c.reg()
						mt := MSpec{Kind: "single", Type: speed.Int32Type, Sem: speed.CounterSemantics, Unit: speed.OneUnit, Code: codeOne}
						op := RegOp{Form: "string", Str: t, M: mt}
						switch form {
						case 0:
							op.M.Name, op.M.Vals = t, v1(int32(7))
						case 1:
							op.Str, op.D = "in["+t+",q].m", ISpec{Name: "in", Insts: []string{t, "q"}}
							op.M.Kind, op.M.Name, op.M.Indom, op.M.Vals = "inst", "in.m", "in", vals(t, int32(1), "q", int32(2))
						case 2:
							op.M.Name, op.Str, op.M.Type, op.M.Vals = "s", "s", speed.StringType, v1(t)
						case 3:
							op.Form, op.D = "byname", ISpec{Name: "in", Insts: []string{t, "q"}}
						}
						err := op.apply(c.C)
						if (err == nil) != (n <= 255) {
							h.Fail("limit", "a text of %d bytes: %v", n, err)
						}
						if err == nil {
							op.spec(g)
							c.use(g)
						}
						c.checkReg("after the registration")
						c.start()
						c.checkFile("after Start")
						c.stop()
						w.State(fmt.Sprint(form, n))
					}) {
						return
					}
				}
			}
		}})
		// updates: every pair of lengths, started and stopped
		pairs := []int{0, 1, 2, 62, 63, 64, 127, 128, 253, 254, 255, 256, 257, 300, 512, 5000}
		l = append(l, &Scenario{Name: "updates", Shards: 8, Enum: func(w *W) {
			i := 0
			depth := 3
			if tier == "thorough" {
				depth = 4
			}
			for _, kind := range []int{1, 7} {
				for _, must := range []bool{false, true} {
					words(depth, len(pairs), func(_ int, word []int) bool {
						if i++; !w.Mine(i) {
							return true
						}
						return w.Exec(fmt.Sprintf("updates of %s, lengths %v must %v", textKinds[kind].Name, word, must), func(h *H) {
							h.clean()
							r := neighbours(i%2 == 0)
							s := textKinds[kind]
							if s.Kind == "inst" {
								r.Indoms = append(r.Indoms, ISpec{"td", []string{"p", "q"}, nil, ""})
							}
							r.Metrics = append(r.Metrics, s)
							c := h.newClient("cl", r)
							m := c.Ms[len(c.Ms)-1]
							op := Op{Name: "Set", Inst: ""}
							if must {
								op.Name = "MustSet"
							}
							if s.Kind == "inst" {
								op.Inst = "p"
								if must {
									op.Name = "MustSet"
								}
							}
							for j, x := range word {
								if j == 1 {
									c.start()
								}
								op.Arg = textOf(j%3, pairs[x])
								before, _ := c.bytes()
								res := m.step(h, op)
								if c.Started {
									c.checkFile("after " + op.String())
									if after, _ := c.bytes(); (res.Err || res.Panic) && !bytes.Equal(before, after) {
										h.Fail("changed", "a refused %v changes the file", op)
									}
								}
								m.checkMem(h, "after "+op.String())
							}
							c.stop()
							c.start()
							c.checkFile("after another Start")
							c.stop()
							w.State(fmt.Sprint(m.Cur))
						})
					})
				}
			}
		}})
		return l
	}
}

func c24one(h *H, ki, si int, t string, nb int) {
	h.clean()
	s := textKinds[ki]
	d := ISpec{Name: "td", Insts: []string{"p", "q"}}
	textSlots[si].set(&s, &d, t)
	base := &RSpec{}
	if nb > 0 {
		base = neighbours(nb == 2)
	}
	c := h.newClient("cl", base)
	g := c.reg()
	op := RegOp{Form: "metric", M: s}
	err := func() (err error) {
		defer func() {
			if p := recover(); p != nil {
				h.Fail("panic", "constructing panics: %v", p)
			}
		}()
		var o *speed.PCPInstanceDomain
		if s.Kind == "inst" {
			op.D = d
			if o, err = speed.NewPCPInstanceDomain(d.Name, d.Insts, d.Desc...); err != nil {
				return err
			}
		}
		op.m, err = newLM(&op.M, o)
		if err == nil {
			err = op.apply(c.C)
		}
		return err
	}()
	ok := len(t) <= 255
	open := len(t) == 0 && (textSlots[si].n == "name" || textSlots[si].n == "instance")
	if (err == nil) != ok && !open {
		h.Fail("limit", "a text of %d bytes: error %v", len(t), err)
	}
	if err == nil {
		op.spec(g)
		c.use(g)
	}
	c.checkReg("after the registration")
	c.start()
	c.checkFile("after Start")
	if err == nil {
		op.m.checkMem(h, "after Start")
	}
	c.stop()
	h.W.State(fmt.Sprint(ki, si, t, nb))
}

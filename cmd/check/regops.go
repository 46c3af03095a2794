package main

// Registrations as operations with a reference: used by C06, C07, C08, C22.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/performancecopilot/speed/v4"
)

// RegOp is one registration.
type RegOp struct {
	Form string // metric indom string addstring addname
	M    MSpec
	D    ISpec  // form indom, or the indom of an instance metric
	Str  string // form string
	m    *LM    // constructed object
	o    *speed.PCPInstanceDomain
	Must bool
	Bad  bool        // has to be refused whatever is registered
	V    interface{} // value of form string, if it is a bad one
}

func (r *RegOp) String() string {
	switch r.Form {
	case "indom", "byname":
		return r.Form + "(" + r.D.key() + ")"
	case "string":
		return "RegisterString(" + r.Str + ")"
	}
	return "Register(" + r.M.Kind + " " + r.M.Name + ")"
}

// Reg is the reference registry.
type Reg struct {
	Ms  []*LM
	Ind []ISpec
}

func (g *Reg) clone() *Reg {
	return &Reg{append([]*LM(nil), g.Ms...), append([]ISpec(nil), g.Ind...)}
}

func (g *Reg) metric(n string) bool {
	for _, m := range g.Ms {
		if m.S.Name == n {
			return true
		}
	}
	return false
}

func (g *Reg) indom(n string) *ISpec {
	for i := range g.Ind {
		if g.Ind[i].Name == n {
			return &g.Ind[i]
		}
	}
	return nil
}

func sameInsts(a, b []string) bool {
	x, y := uniq(a), uniq(b)
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if !y[k] {
			return false
		}
	}
	return true
}

// prepare constructs the object to register (nothing for strings).
func (r *RegOp) prepare(h *H, objs map[string]*speed.PCPInstanceDomain) {
	var err error
	switch r.Form {
	case "indom":
		r.o = objs[r.D.key()]
		if r.o == nil {
			if r.o, err = speed.NewPCPInstanceDomain(r.D.Name, r.D.Insts, r.D.Desc...); err != nil {
				h.Fail("setup", "%v", err)
			}
			objs[r.D.key()] = r.o
		}
	case "metric":
		if r.M.Kind == "inst" {
			r.o = objs[r.D.key()]
			if r.o == nil {
				if r.o, err = speed.NewPCPInstanceDomain(r.D.Name, r.D.Insts, r.D.Desc...); err != nil {
					h.Fail("setup", "%v", err)
				}
				objs[r.D.key()] = r.o
			}
		}
		if r.m, err = newLM(&r.M, r.o); err != nil {
			h.Fail("setup", "%v", err)
		}
	}
}

// apply registers with the real client.
func (r *RegOp) apply(c *speed.PCPClient) (err error) {
	if r.Must {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
	}
	switch r.Form {
	case "indom":
		if r.Must {
			c.MustRegisterIndom(r.o)
			return nil
		}
		return c.RegisterIndom(r.o)
	case "byname":
		_, err := c.Registry().AddInstanceDomainByName(r.D.Name, r.D.Insts)
		return err
	case "string":
		var v interface{} = r.M.Vals[""]
		if r.M.Kind == "inst" {
			v = cpy(r.M.Vals)
		}
		if r.Bad {
			v = r.V
		}
		if r.Must {
			r.m = &LM{S: &r.M, M: c.MustRegisterString(r.Str, v, r.M.Type, r.M.Sem, r.M.unit())}
		} else {
			m, err := c.RegisterString(r.Str, v, r.M.Type, r.M.Sem, r.M.unit())
			if err != nil {
				return err
			}
			r.m = &LM{S: &r.M, M: m}
		}
		r.m.Cur = map[string]interface{}{}
		for k, v := range r.M.Vals {
			r.m.Cur[k] = resolve(r.M.Type, v)
		}
		return nil
	}
	if r.Must {
		c.MustRegister(r.m.M)
		return nil
	}
	return c.Register(r.m.M)
}

// spec registers with the reference; false: it has to be refused.
func (r *RegOp) spec(g *Reg) bool {
	if r.Bad {
		return false
	}
	if r.Form == "indom" || r.Form == "byname" {
		if g.indom(r.D.Name) != nil {
			return false
		}
		g.Ind = append(g.Ind, r.D)
		return true
	}
	if g.metric(r.M.Name) {
		return false
	}
	m := r.m
	if m == nil {
		m = &LM{S: &r.M, Cur: r.M.Vals}
	}
	var d *ISpec
	switch r.M.Kind {
	case "inst":
		d = &r.D
	case "cvec", "gvec":
		d = &ISpec{Name: r.M.Name + ".indom", Insts: m.insts()}
	case "hist":
		d = &ISpec{Name: "histogram", Insts: histInsts}
	}
	if d != nil {
		if o := g.indom(d.Name); o != nil {
			if !sameInsts(o.Insts, d.Insts) {
				return false
			}
		} else {
			g.Ind = append(g.Ind, *d)
		}
	}
	g.Ms = append(g.Ms, m)
	return true
}

func regPool() []RegOp {
	d := ISpec{Name: "d", Insts: []string{"p", "q"}, Desc: []string{"first d"}}
	d2 := ISpec{Name: "d", Insts: []string{"q", "p"}, Desc: []string{"", "other d"}, Key: "other d"}
	d3 := ISpec{Name: "d", Insts: []string{"p", "r"}, Key: "different d"}
	pq := vals("p", int32(1), "q", int32(2))
	by := func(str, name, indom string, v map[string]interface{}) RegOp {
		m := MSpec{Kind: "single", Name: name, Type: speed.Int32Type, Sem: speed.CounterSemantics, Unit: speed.OneUnit, Code: codeOne, Vals: v}
		r := RegOp{Form: "string", Str: str, M: m}
		if indom != "" {
			r.M.Kind, r.M.Indom = "inst", indom
			r.D = ISpec{Name: indom, Insts: r.M.valNames()}
		}
		return r
	}
	bad := func(str string, v interface{}) RegOp {
		r := by(str, str, "", v1(int32(1)))
		r.Bad, r.V = true, v
		return r
	}
	i64 := rep("i", 64)
	l := []RegOp{
		{Form: "metric", M: single("a", speed.Int32Type, 1)},
		{Form: "metric", M: counter("a", 5, "counter")},
		{Form: "metric", M: single("b", speed.StringType, "text", "short", "long")},
		{Form: "metric", M: inst("c", "d", speed.Int32Type, pq, "c"), D: d},
		{Form: "metric", M: inst("e", "d", speed.StringType, vals("p", "1", "q", "2")), D: d2},
		{Form: "metric", M: inst("f", "d", speed.Int32Type, vals("p", int32(1), "r", int32(2))), D: d3},
		{Form: "indom", D: d},
		{Form: "indom", D: d3},
		{Form: "byname", D: ISpec{Name: "d", Insts: []string{"p", "q"}}},
		{Form: "metric", M: cvec("v", vals("x", int64(1)))},
		{Form: "indom", D: ISpec{Name: "v.indom", Insts: []string{"x", "y"}}},
		{Form: "metric", M: hist("h")},
		{Form: "byname", D: ISpec{Name: "histogram", Insts: []string{"a"}}},
		by("d[p,q].s", "d.s", "d", pq),
		bad("d[p].t", speed.Instances{"p": 1, "q": 2}),
		by("w", "w", "", v1(int32(3))),
		by("w[a].x", "w.x", "w", vals("a", int32(4))),
		{Form: "metric", M: single("l."+rep("x", 62), speed.DoubleType, 0.5)},
		{Form: "indom", D: ISpec{Name: "long", Insts: []string{i64}}},
		by("a", "a", "", v1(int32(9))),
		bad("n[a]", 7),
		bad("n[a", 7),
		{Form: "metric", M: timer("t"), Must: true},
		{Form: "indom", D: ISpec{Name: "empty"}, Must: true},
		// names of others with everything that changes counts or version
		{Form: "indom", D: ISpec{Name: "d", Insts: []string{i64, "p", "q"}, Desc: []string{"s", "l"}, Key: "longer d"}},
		{Form: "byname", D: ISpec{Name: "d", Insts: []string{i64}}},
		{Form: "metric", M: single("a", speed.StringType, "text", "short", "long")},
		{Form: "metric", M: inst("a", "new", speed.StringType, vals(i64, "text"), "short"), D: ISpec{Name: "new", Insts: []string{i64}, Desc: []string{"s", "l"}}},
		{Form: "metric", M: inst("g", "d", speed.StringType, vals(i64, "text"), "short", "long"), D: ISpec{Name: "d", Insts: []string{i64}, Desc: []string{"s", "l"}, Key: "long d"}},
		{Form: "metric", M: cvec("v", vals(i64, int64(1), "z", int64(2)), "short")},
		by("a["+i64+"]", "a", "a", vals(i64, int32(4))),
		by("d["+i64+"].u", "d.u", "d", vals(i64, int32(4))),
		bad("m["+i64+"]", speed.Instances{i64: "text"}),
		bad(rep("m", 70), "text"),
		// different names with the same identifiers: of metrics (10 bits),
		// domains (22 bits) and instances (32 bits)
		{Form: "metric", M: single("m1109", speed.StringType, "text")},
		{Form: "metric", M: single("m1202", speed.Int32Type, 5)},
		{Form: "indom", D: ISpec{Name: "costarring", Insts: []string{"altarage", "zinke"}}},
		{Form: "metric", M: inst("declinate", "liquid", speed.Int32Type, vals("altarage", int32(1), "zinke", int32(2))), D: ISpec{Name: "liquid", Insts: []string{"altarage", "zinke"}}},
		// metrics without any instance
		{Form: "metric", M: inst("none", "empty", speed.StringType, nil, "short"), D: ISpec{Name: "empty"}},
		{Form: "metric", M: cvec("ev", nil)},
	}
	l[15].Must = true
	for i := range l {
		if l[i].D.Name != "" && l[i].M.Kind == "inst" {
			l[i].M.Obj = l[i].D.Key
		}
	}
	return l
}

func (s *MSpec) valNames() (l []string) {
	for k := range s.Vals {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// key describes the content.
func (g *Reg) key() string {
	var l []string
	for _, m := range g.Ms {
		l = append(l, fmt.Sprintf("m:%s:%s:%v", m.S.Kind, m.S.Name, m.S.Desc))
	}
	for _, d := range g.Ind {
		l = append(l, fmt.Sprintf("d:%s:%v:%v", d.Name, d.Insts, d.Desc))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// use makes g the reference of the client.
func (c *CL) use(g *Reg) { c.Ms, c.Ind = g.Ms, g.Ind }
func (c *CL) reg() *Reg  { return &Reg{append([]*LM(nil), c.Ms...), append([]ISpec(nil), c.Ind...)} }

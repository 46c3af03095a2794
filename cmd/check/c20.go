package main

// C20: metrics registered by string.

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/performancecopilot/speed/v4"
)

type parsed struct {
	name, indom string
	insts       []string // nil: no list
}

// refParse is the reference of the accepted strings. unspec is true where
// the property leaves the answer open.
func refParse(s string) (p parsed, ok, unspec bool) {
	pos := 0
	ident := func() string {
		from := pos
		for pos < len(s) {
			r, n := utf8.DecodeRuneInString(s[pos:])
			if r == utf8.RuneError && n == 1 || !(r == '_' || unicode.IsLetter(r) || unicode.IsNumber(r)) {
				break
			}
			pos += n
		}
		return s[from:pos]
	}
	for {
		id := ident()
		if id == "" {
			return p, false, unspec
		}
		p.name += id
		if pos < len(s) && s[pos] == '[' {
			if p.insts != nil {
				return p, false, unspec
			}
			pos++
			p.indom = p.name
			for {
				i := ident()
				if i == "" {
					return p, false, unspec
				}
				p.insts = append(p.insts, i)
				if pos >= len(s) || s[pos] != ',' {
					break
				}
				pos++
				// one blank may follow a comma; other white space is left open
				if pos < len(s) && strings.IndexByte(" \t\n\r\f\v", s[pos]) >= 0 {
					unspec = unspec || s[pos] != ' '
					pos++
				}
			}
			if pos >= len(s) || s[pos] != ']' {
				return p, false, unspec
			}
			pos++
		}
		if pos == len(s) {
			return p, true, unspec
		}
		if s[pos] != '.' {
			return p, false, unspec
		}
		pos++
		p.name += "."
	}
}

func regCounts(r *speed.PCPRegistry) string {
	return fmt.Sprintf("metrics=%d indoms=%d instances=%d values=%d strings=%d", r.MetricCount(), r.InstanceDomainCount(), r.InstanceCount(), r.ValuesCount(), r.StringCount())
}

var noCounts = regCounts(speed.NewPCPRegistry())

func (p *parsed) value(v int32) interface{} {
	if p.insts == nil {
		return v
	}
	m := speed.Instances{}
	for i, n := range p.insts {
		m[n] = v + int32(i)
	}
	return m
}

// likelyValues are values with which a refused string might be accepted by
// mistake: a single one, and those of what can be taken for instances in it.
func likelyValues(s string) []interface{} {
	l := []interface{}{10}
	i := strings.IndexByte(s, '[')
	if i < 0 {
		return append(l, speed.Instances{"a": 10})
	}
	in := s[i+1:]
	if j := strings.LastIndexByte(in, ']'); j >= 0 {
		in = in[:j]
	}
	seen := map[string]bool{}
	add := func(names []string) {
		m := speed.Instances{}
		for _, n := range names {
			m[n] = 10
		}
		if k := fmt.Sprint(m); !seen[k] {
			seen[k] = true
			l = append(l, m)
		}
	}
	add(strings.FieldsFunc(in, func(r rune) bool { return r != '_' && !unicode.IsLetter(r) && !unicode.IsNumber(r) }))
	raw := strings.Split(in, ",")
	add(raw)
	trimmed := append([]string(nil), raw...)
	for i := range trimmed {
		trimmed[i] = strings.TrimSpace(trimmed[i])
	}
	add(trimmed)
	for i := range raw {
		raw[i] = strings.TrimPrefix(raw[i], " ")
	}
	add(raw)
	if j := strings.IndexByte(in, ']'); j >= 0 {
		add(strings.Split(in[:j], ","))
	}
	return l
}

// c20string decides one string.
func c20string(h *H, s string) (p parsed, ok bool) {
	p, ok, unspec := refParse(s)
	h.checks++
	reg := func(v interface{}) (*speed.PCPRegistry, speed.Metric, Res) {
		r := speed.NewPCPRegistry()
		var m speed.Metric
		res := try(func() (interface{}, error) {
			var err error
			m, err = r.AddMetricByString(s, v, speed.Int32Type, speed.CounterSemantics, speed.OneUnit)
			return nil, err
		})
		if res.Panic {
			h.Fail("panic", "AddMetricByString(%q, %v) panics: %s", s, v, res.Msg)
		}
		return r, m, res
	}
	nothing := func(r *speed.PCPRegistry, m speed.Metric, v interface{}) {
		if c := regCounts(r); c != noCounts || r.HasMetric(s) || r.HasMetric(p.name) || p.indom != "" && r.HasInstanceDomain(p.indom) {
			h.Fail("trace", "refused AddMetricByString(%q, %v) leaves a trace: %s", s, v, c)
		}
	}
	if !ok {
		for _, v := range likelyValues(s) {
			r, m, res := reg(v)
			if unspec && !res.Err {
				return
			}
			if !res.Err {
				h.Fail("accepted", "AddMetricByString(%q, %v) is accepted as %q", s, v, m.Name())
			}
			nothing(r, m, v)
		}
		return
	}
	v := p.value(7)
	r, m, res := reg(v)
	if res.Err {
		if unspec {
			return p, false
		}
		h.Fail("refused", "AddMetricByString(%q, %v): %s", s, v, res.Msg)
	}
	if m == nil || m.Name() != p.name {
		h.Fail("name", "AddMetricByString(%q): metric %v, want name %q", s, m, p.name)
	}
	if !r.HasMetric(p.name) || r.MetricCount() != 1 {
		h.Fail("registry", "after AddMetricByString(%q) the registry does not hold exactly %q: %s", s, p.name, regCounts(r))
	}
	if m.Type() != speed.Int32Type || m.Semantics() != speed.CounterSemantics || m.Unit().PMAPI() != speed.OneUnit.PMAPI() {
		h.Fail("attributes", "AddMetricByString(%q): type %v semantics %v unit %v", s, m.Type(), m.Semantics(), m.Unit())
	}
	if p.insts == nil {
		sm, isS := m.(speed.SingletonMetric)
		if !isS {
			h.Fail("kind", "AddMetricByString(%q) gives a %T", s, m)
		}
		if sm.Val() != int32(7) {
			h.Fail("value", "AddMetricByString(%q): value %v", s, sm.Val())
		}
		if r.InstanceDomainCount() != 0 || r.InstanceCount() != 0 || r.ValuesCount() != 1 {
			h.Fail("registry", "after AddMetricByString(%q): %s", s, regCounts(r))
		}
		if r2, m2, res := reg(speed.Instances{"a": 1}); !res.Err {
			h.Fail("value", "AddMetricByString(%q) with values of instances is accepted", s)
		} else {
			nothing(r2, m2, "instances")
		}
		return
	}
	want := uniq(p.insts)
	im, isI := m.(speed.InstanceMetric)
	pm, isP := m.(interface {
		Indom() *speed.PCPInstanceDomain
	})
	if !isI || !isP {
		h.Fail("kind", "AddMetricByString(%q) gives a %T", s, m)
	}
	if d := pm.Indom(); d == nil || d.Name() != p.indom {
		h.Fail("indom", "AddMetricByString(%q): indom %v, want %q", s, d, p.indom)
	} else {
		var wl []string
		for k := range want {
			wl = append(wl, k)
			if !d.HasInstance(k) {
				h.Fail("instances", "AddMetricByString(%q): instance %q is missing", s, k)
			}
		}
		l := d.Instances()
		sort.Strings(l)
		sort.Strings(wl)
		if !eqStrings(l, wl) || d.InstanceCount() != len(wl) {
			h.Fail("instances", "AddMetricByString(%q): instances %q, want %q", s, l, wl)
		}
	}
	for _, n := range p.insts {
		w := v.(speed.Instances)[n]
		if got, err := im.ValInstance(n); err != nil || got != w {
			h.Fail("value", "AddMetricByString(%q): instance %q has %v %v, want %v", s, n, got, err, w)
		}
	}
	if !r.HasInstanceDomain(p.indom) || r.InstanceDomainCount() != 1 || r.InstanceCount() != len(want) || r.ValuesCount() != len(want) {
		h.Fail("registry", "after AddMetricByString(%q): %s", s, regCounts(r))
	}
	// values that do not fit
	bad := []interface{}{7, nil, "x", speed.Instances{}, speed.Instances(nil), map[string]interface{}{p.insts[0]: 1, "zz~": 2}}
	less, more, other, wrong := cpy(v.(speed.Instances)), cpy(v.(speed.Instances)), cpy(v.(speed.Instances)), cpy(v.(speed.Instances))
	delete(less, p.insts[0])
	more["zz~"] = int32(1)
	delete(other, p.insts[0])
	other["zz~"] = int32(1)
	wrong[p.insts[0]] = "text"
	bad = append(bad, less, more, other, wrong)
	for _, b := range bad {
		r, m, res := reg(b)
		if !res.Err {
			h.Fail("value", "AddMetricByString(%q) with the values %v is accepted", s, b)
		}
		nothing(r, m, b)
	}
	return
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// c20words runs every string of n symbols, a few hundred per execution.
func c20words(w *W, syms []string, n int, more func(h *H, s string, p parsed)) {
	k := len(syms)
	tail := n
	for t, c := n, 1; t > 0 && c*k <= 2000; t-- {
		c *= k
		tail = n - t + 1
	}
	if tail > n {
		tail = n
	}
	lead := n - tail
	nl, nt := 1, 1
	for i := 0; i < lead; i++ {
		nl *= k
	}
	for i := 0; i < tail; i++ {
		nt *= k
	}
	digit := func(i, m int) string {
		s := ""
		for ; m > 0; m-- {
			s = syms[i%k] + s
			i /= k
		}
		return s
	}
	for i := 0; i < nl; i++ {
		if !w.Mine(i) {
			continue
		}
		pre := digit(i, lead)
		if !w.Exec(fmt.Sprintf("strings of %d symbols that begin with %q", n, pre), func(h *H) {
			for j := 0; j < nt; j++ {
				s := pre + digit(j, tail)
				w.beat()
				w.extra++
				if p, ok := c20string(h, s); ok {
					w.State(s)
					if more != nil {
						more(h, s, p)
					}
				}
			}
		}) {
			return
		}
	}
}

// c20long are accepted strings of many parts and of long ones, within the
// limits on the names, and the same with one symbol too many or too few.
func c20long(tier string) *Scenario {
	var ss []string
	add := func(comp, after, insts int, sep string, width, repeats int) {
		s := strings.Repeat(rep("c", width)+".", comp)
		s = s[:len(s)-1]
		if insts > 0 {
			s += "["
			for i := 0; i < insts; i++ {
				if i > 0 {
					s += "," + sep
				}
				s += fmt.Sprintf("i%d", i%(insts-repeats))
			}
			s += "]"
		}
		s += strings.Repeat("."+rep("d", width), after)
		ss = append(ss, s)
	}
	for n := 1; n <= 128; n++ { // places before and after the list of instances
		add(n, 0, 0, "", 1, 0)
		add(n, 0, 2, "", 1, 0)
		if n < 128 {
			add(1, n, 1, "", 1, 0)
		}
		if n < 64 {
			add(n, n, 2, " ", 1, 0)
		}
	}
	for n := 1; n <= 255; n++ { // lengths of an identifier
		add(1, 0, 0, "", n, 0)
		add(1, 0, 2, "", n, 0)
		if n <= 127 {
			add(1, 1, 2, "", n, 0)
			add(2, 0, 0, "", n, 0)
		}
		ss = append(ss, "a["+rep("i", n)+"].b", "a[j, "+rep("i", n)+",k]")
	}
	top := 300
	if tier == "thorough" {
		top = 1200
	}
	for n := 1; n <= top; n++ { // numbers of instances
		add(1, 1, n, []string{"", " "}[n%2], 1, 0)
		if n > 1 && n%7 == 0 {
			add(2, 0, n, "", 1, n/2)
		}
	}
	for _, n := range []int{511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097} {
		add(1, 0, n, " ", 1, 0)
		add(1, 2, n, "", 1, 0)
	}
	return &Scenario{Name: "long strings", Shards: 8, Enum: func(w *W) {
		for i, s := range ss {
			if !w.Mine(i) {
				continue
			}
			name := s
			if len(s) > 60 {
				name = fmt.Sprintf("%s... of %d bytes", s[:60], len(s))
			}
			if !w.Exec(fmt.Sprintf("%d: %s", i, name), func(h *H) {
				if _, ok := c20string(h, s); !ok {
					h.Fail("setup", "the reference refuses %q", s)
				}
				w.State(s)
				for _, t := range []string{s + ".", s + "[", s + "]", "." + s, s + ",", s + " ", s[:len(s)-1] + "-", strings.Replace(s, ".", "..", 1) + "x.", strings.Replace(s, "]", "", 1) + "[", strings.Replace(s, "]", ",]", 1), strings.Replace(s, "]", "][x]", 1)} {
					if _, ok, _ := refParse(t); !ok {
						w.extra++
						c20string(h, t)
					}
				}
				w.beat()
			}) {
				return
			}
		}
	}}
}

func init() {
	props["C20"] = func(tier string) (l []*Scenario) {
		wide := []string{"a", "1", "_", ".", "[", "]", ",", " ", "\u00e9", "-", "\n"}
		small := []string{"a", "b", ".", "[", "]", ","}
		odd := []string{"a", "[", "]", ",", ".", "\u0301", "\u00bd", "\xff", "\u2167", "\x00", "\t", "A", "9", "[b]", "\u4e2d"}
		nw, ns, no := 6, 8, 5
		if tier == "thorough" {
			nw, ns, no = 7, 10, 6
		}
		for n := 0; n <= nw; n++ {
			n := n
			sh := 1
			if n > 4 {
				sh = 8
			}
			l = append(l, &Scenario{Name: fmt.Sprintf("strings of %d of 11 symbols", n), Shards: sh, Enum: func(w *W) { c20words(w, wide, n, nil) }})
		}
		for n := nw + 1; n <= ns; n++ {
			n := n
			l = append(l, &Scenario{Name: fmt.Sprintf("strings of %d of 6 symbols", n), Shards: 8, Enum: func(w *W) { c20words(w, small, n, nil) }})
		}
		for n := 1; n <= no; n++ {
			n := n
			l = append(l, &Scenario{Name: fmt.Sprintf("strings of %d of 15 other symbols", n), Shards: 4, Enum: func(w *W) { c20words(w, odd, n, nil) }})
		}
		// strings of larger parts: several instances and components
		parts := []string{"abc", "d_1", ".", "[", "]", ",", ", ", "x", "[x,y]", "[p, q,r]", ".mid.", "  "}
		np := 5
		if tier == "thorough" {
			np = 7
		}
		for n := 2; n <= np; n++ {
			n := n
			l = append(l, &Scenario{Name: fmt.Sprintf("strings of %d parts", n), Shards: 4, Enum: func(w *W) { c20words(w, parts, n, nil) }})
		}
		// valid strings with one or two symbols put in, at the same place or elsewhere, or put in place of others
		syms := []string{" ", ",", ".", "[", "]", "_", "-", "Z", "\n", "\t", "\u00e9", "\u00a0", "\u0301", "\xff", "\x00", "'", "*", "(", "/", "[q]", ".."}
		bases := []string{"a.b[c, d].e", "ab.cd", "x[yy,zz]", "a[b]", "p.q.r[s,t,u].v.w"}
		for _, base := range bases {
			base := base
			l = append(l, &Scenario{Name: fmt.Sprintf("changes of %q", base), Shards: 4, Enum: func(w *W) {
				ed := func(s string, at int, sym string, over bool) string {
					if over {
						if at >= len(s) {
							return s
						}
						return s[:at] + sym + s[at+1:]
					}
					return s[:at] + sym + s[at:]
				}
				for i := 0; i <= len(base); i++ {
					if !w.Mine(i) {
						continue
					}
					for _, a := range syms {
						if !w.Exec(fmt.Sprintf("%q with %q at %d and others", base, a, i), func(h *H) {
							for _, o1 := range []bool{false, true} {
								s1 := ed(base, i, a, o1)
								c20string(h, s1)
								for j := 0; j <= len(s1); j++ {
									if tier != "thorough" && (j < i-2 || j > i+2) {
										continue
									}
									for _, b := range syms {
										for _, o2 := range []bool{false, true} {
											w.beat()
											w.extra++
											s := ed(s1, j, b, o2)
											if _, ok := c20string(h, s); ok {
												w.State(s)
											}
										}
									}
								}
							}
						}) {
							return
						}
					}
				}
			}})
		}
		l = append(l, c20long(tier), c20lists(tier))
		// the client's forms and what is published
		for n := 1; n <= 4; n++ {
			n := n
			l = append(l, &Scenario{Name: fmt.Sprintf("published strings of %d parts", n), Shards: 4, Enum: func(w *W) {
				c20words(w, []string{"a", "b2", ".", "[x]", "[x,y]", "[x, a]", "\u00e9"}, n, func(h *H, s string, p parsed) {
					for _, must := range []bool{false, true} {
						h.clean()
						c := h.newClient("cl", &RSpec{})
						mt := MSpec{Kind: "single", Name: p.name, Type: speed.Int32Type, Sem: speed.CounterSemantics, Unit: speed.OneUnit, Code: codeOne, Vals: v1(int32(7))}
						op := RegOp{Form: "string", Str: s, M: mt, Must: must}
						if p.insts != nil {
							op.M.Kind, op.M.Indom = "inst", p.indom
							op.M.Vals = map[string]interface{}{}
							for k, v := range p.value(7).(speed.Instances) {
								op.M.Vals[k] = v
							}
							op.D = ISpec{Name: p.indom, Insts: p.insts}
						}
						if err := op.apply(c.C); err != nil {
							h.Fail("refused", "RegisterString(%q): %v", s, err)
						}
						g := &Reg{}
						op.spec(g)
						c.use(g)
						c.checkReg("after RegisterString")
						c.start()
						c.checkFile("after RegisterString(" + s + ") and Start")
						c.stop()
					}
				})
			}})
		}
		// a refused string leaves no trace in a registry that holds something
		l = append(l, &Scenario{Name: "refusals with other content", Shards: 2, Enum: func(w *W) {
			strs := []string{"m", "d[p,q].x", "d[p].x", "d[p,q,r].x", "n[a].m", "m[p,q]", "d[p,q]", "new[a,b].v", "m.", ".m", "new[]", "new[a", "new]a[", "new[a][b]", "other"}
			vs := []interface{}{7, speed.Instances{"p": 1, "q": 2}, speed.Instances{"p": 1}, speed.Instances{"a": 1, "b": 2}, speed.Instances{"a": "text", "b": 2}, speed.Instances{"p": 1, "q": "x"}, nil, "text", speed.Instances{}}
			i := 0
			for _, s := range strs {
				for _, v := range vs {
					for _, s2 := range strs {
						if i++; !w.Mine(i) {
							continue
						}
						if !w.Exec(fmt.Sprintf("RegisterString(%q, %v) then %q", s, v, s2), func(h *H) {
							h.clean()
							d := ISpec{Name: "d", Insts: []string{"p", "q"}}
							c := h.newClient("cl", &RSpec{Indoms: []ISpec{d}, RegInd: []string{"d"}, Metrics: []MSpec{single("m", speed.Int32Type, 1)}})
							g := c.reg()
							for _, in := range []struct {
								s string
								v interface{}
							}{{s, v}, {s2, v}} {
								c.c20step(g, in.s, in.v)
							}
							w.State(g.key())
							c.start()
							c.checkFile("after Start")
							c.stop()
						}) {
							return
						}
					}
				}
			}
		}})
		return l
	}
}

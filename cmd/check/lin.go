package main

// Linearizability against the reference model of metrics.

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc"
)

// Call is one operation of a concurrent history.
type Call struct {
	M        *LM
	Op       Op
	Inv, Ret int
	Res      Res
	Thread   int
}

func (c Call) String() string {
	return fmt.Sprintf("[%d..%d] %s.%v=%v", c.Inv, c.Ret, c.M.S.Name, c.Op, c.Res)
}

// Hist collects a concurrent history.
type Hist struct {
	h     *H
	calls []Call
	clock int
}

// call performs one operation and notes when it began and ended.
func (t *Hist) call(m *LM, o Op) Res {
	mc.Mark("inv")
	t.clock++
	c := Call{M: m, Op: o, Inv: t.clock, Thread: mc.ThreadID()}
	c.Res = m.apply(o)
	mc.Mark("ret")
	t.clock++
	c.Ret = t.clock
	t.calls = append(t.calls, c)
	return c.Res
}

// expand replaces the forms that update every instance, which are no single
// step, by their parts.
func expand(l []Call) (r []Call) {
	for _, c := range l {
		if !strings.HasSuffix(c.Op.Name, "All") {
			r = append(r, c)
			continue
		}
		o := c.Op
		if o.Name == "UpAll" {
			o.Name, o.Arg = "IncAll", int64(1)
		}
		for _, i := range c.M.insts() {
			d := c
			d.Op = Op{Name: "Must" + strings.TrimSuffix(o.Name, "All"), Arg: o.Arg, Inst: i}
			r = append(r, d)
		}
	}
	return r
}

// stateKey of the reference of all metrics.
func stateKey(ms []*LM) string {
	var b strings.Builder
	for _, m := range ms {
		ks := m.insts()
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, "%v;", m.Cur[k])
		}
		fmt.Fprintf(&b, "%v%v%v|", m.On, m.Since, m.Rec)
	}
	return b.String()
}

// linearize looks for an order of the calls that explains all results and
// ends in a state final accepts; it returns that state.
func linearize(ms []*LM, calls []Call, final func([]*LM) bool) ([]*LM, bool) {
	calls = expand(calls)
	idx := map[*LM]int{}
	for i, m := range ms {
		idx[m] = i
	}
	seen := map[string]bool{}
	var rec func(done uint64, st []*LM) ([]*LM, bool)
	rec = func(done uint64, st []*LM) ([]*LM, bool) {
		if done == 1<<uint(len(calls))-1 {
			return st, final(st)
		}
		k := fmt.Sprint(done, "#", stateKey(st))
		if seen[k] {
			return nil, false
		}
		seen[k] = true
		min := 1 << 60
		for i, c := range calls {
			if done&(1<<uint(i)) == 0 && c.Ret < min {
				min = c.Ret
			}
		}
		for i, c := range calls {
			if done&(1<<uint(i)) != 0 || c.Inv > min {
				continue
			}
			j := idx[c.M]
			m := st[j].clone()
			if want := m.spec(c.Op); !m.eq(c.Res, want) {
				continue
			}
			n := append([]*LM(nil), st...)
			n[j] = m
			if r, ok := rec(done|1<<uint(i), n); ok {
				return r, true
			}
		}
		return nil, false
	}
	st := make([]*LM, len(ms))
	for i, m := range ms {
		st[i] = m.clone()
	}
	return rec(0, st)
}

// settle requires that the history is linearizable with a final state the
// metrics report, and makes that state the reference.
func (t *Hist) settle(c *CL, ms []*LM) {
	h := t.h
	var f *rFile
	var file []byte
	if c != nil && c.Started {
		b, err := c.bytes()
		if err != nil {
			h.Fail("file", "%v", err)
		}
		if f, err = parse(b); err != nil {
			h.Fail("file", "file is malformed: %v", err)
		}
		file = b
	}
	final := func(st []*LM) bool {
		for i, m := range ms {
			for _, k := range m.insts() {
				if v, ok := m.read(k); ok && !near(v, st[i].Cur[k]) {
					return false
				}
				if f == nil || m.S.Kind == "hist" {
					continue
				}
				if !slotOK(m.S.typ(), slotIn(file, f, m.S.Name+"\x00"+k, m.S.typ()), st[i].Cur[k]) {
					return false
				}
			}
		}
		return true
	}
	st, ok := linearize(ms, t.calls, final)
	if !ok {
		l := ""
		for _, c := range t.calls {
			l += " " + c.String()
		}
		got := ""
		for _, m := range ms {
			for _, k := range m.insts() {
				v, _ := m.read(k)
				got += fmt.Sprintf(" %s[%s]=%v", m.S.Name, k, v)
				if f != nil {
					got += fmt.Sprintf(" (file %v)", slotIn(file, f, m.S.Name+"\x00"+k, m.S.typ()))
				}
			}
		}
		h.Fail("linearizability", "no order explains the history%s ending with%s", l, got)
	}
	for i, m := range ms {
		m.Cur, m.On, m.Since, m.Rec = st[i].Cur, st[i].On, st[i].Since, st[i].Rec
		m.adopt(Res{})
	}
	t.calls = nil
	h.checks++
}

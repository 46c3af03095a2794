package main

// C13: composed units.

import (
	"fmt"
	"strconv"

	"github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"

	"verif/mc"
)

var spaceU = []speed.SpaceUnit{speed.ByteUnit, speed.KilobyteUnit, speed.MegabyteUnit, speed.GigabyteUnit, speed.TerabyteUnit, speed.PetabyteUnit, speed.ExabyteUnit}
var timeU = []speed.TimeUnit{speed.NanosecondUnit, speed.MicrosecondUnit, speed.MillisecondUnit, speed.SecondUnit, speed.MinuteUnit, speed.HourUnit}
var spaceN = []string{"ByteUnit", "KilobyteUnit", "MegabyteUnit", "GigabyteUnit", "TerabyteUnit", "PetabyteUnit", "ExabyteUnit"}
var timeN = []string{"NanosecondUnit", "MicrosecondUnit", "MillisecondUnit", "SecondUnit", "MinuteUnit", "HourUnit"}

// uref is the reference of a composition; -1 scale means not given.
type uref struct {
	ss, ts, cs int
	sd, td, cd int
}

// codes are the admissible codes: a scale given with dimension 0 may be kept
// or dropped.
func (r uref) codes() []uint32 {
	base := uint32(r.sd)&15<<28 | uint32(r.td)&15<<24 | uint32(r.cd)&15<<20
	l := []uint32{base}
	or := func(v uint32, opt bool) {
		var n []uint32
		for _, c := range l {
			n = append(n, c|v)
			if opt {
				n = append(n, c)
			}
		}
		l = n
	}
	if r.ss > 0 {
		or(uint32(r.ss)<<16, r.sd == 0)
	}
	if r.ts > 0 {
		or(uint32(r.ts)<<12, r.td == 0)
	}
	return l
}

func (r uref) text() string {
	s := ""
	if r.sd != 0 {
		s += spaceN[r.ss] + "^" + strconv.Itoa(r.sd)
	}
	if r.td != 0 {
		s += timeN[r.ts] + "^" + strconv.Itoa(r.td)
	}
	if r.cd != 0 {
		s += "OneUnit^" + strconv.Itoa(r.cd)
	}
	return s
}

type dims interface {
	SpaceDim() int8
	TimeDim() int8
	CountDim() int8
	SpaceScale() speed.SpaceUnit
	TimeScale() speed.TimeUnit
	CountScale() speed.CountUnit
}

// checkUnit compares a composed unit with the reference.
func checkUnit(u speed.MetricUnit, r uref, desc func() string) string {
	code := u.PMAPI()
	ok := false
	for _, c := range r.codes() {
		ok = ok || c == code
	}
	if !ok {
		return fmt.Sprintf("%s: code %#08x, expected %#08x", desc(), code, r.codes()[0])
	}
	if d, ok := u.(dims); ok {
		if int(d.SpaceDim()) != r.sd || int(d.TimeDim()) != r.td || int(d.CountDim()) != r.cd {
			return fmt.Sprintf("%s: dimensions %d %d %d", desc(), d.SpaceDim(), d.TimeDim(), d.CountDim())
		}
		if r.sd != 0 && d.SpaceScale() != spaceU[r.ss] {
			return fmt.Sprintf("%s: space scale %v", desc(), d.SpaceScale())
		}
		if r.td != 0 && d.TimeScale() != timeU[r.ts] {
			return fmt.Sprintf("%s: time scale %v", desc(), d.TimeScale())
		}
		if r.cd != 0 && d.CountScale() != speed.OneUnit {
			return fmt.Sprintf("%s: count scale %v", desc(), d.CountScale())
		}
		if s := u.String(); s != r.text() {
			return fmt.Sprintf("%s: text %q, expected %q", desc(), s, r.text())
		}
	}
	m := mmvdump.Unit(code)
	if int(m.SpaceDim()) != r.sd || int(m.TimeDim()) != r.td || int(m.CountDim()) != r.cd ||
		r.sd != 0 && int(m.SpaceScale()) != r.ss || r.td != 0 && int(m.TimeScale()) != r.ts || m.CountScale() != 0 {
		return fmt.Sprintf("%s: the dump package reads %v", desc(), m)
	}
	return ""
}

// step of a composition
type ustep struct {
	kind  int // 0 space 1 time 2 count
	scale int
	dim   int
}

func (s ustep) String() string {
	switch s.kind {
	case 0:
		return fmt.Sprintf("Space(%s,%d)", spaceN[s.scale], s.dim)
	case 1:
		return fmt.Sprintf("Time(%s,%d)", timeN[s.scale], s.dim)
	}
	return fmt.Sprintf("Count(OneUnit,%d)", s.dim)
}

func (s ustep) do(u speed.MetricUnit) speed.MetricUnit {
	switch s.kind {
	case 0:
		return u.Space(spaceU[s.scale], int8(s.dim))
	case 1:
		return u.Time(timeU[s.scale], int8(s.dim))
	}
	return u.Count(speed.OneUnit, int8(s.dim))
}

func (s ustep) ref(r uref) uref {
	switch s.kind {
	case 0:
		r.ss, r.sd = s.scale, s.dim
	case 1:
		r.ts, r.td = s.scale, s.dim
	case 2:
		r.cs, r.cd = 0, s.dim
	}
	return r
}

func ubases() (l []struct {
	u func() speed.MetricUnit
	r uref
	n string
}) {
	add := func(n string, r uref, u func() speed.MetricUnit) {
		l = append(l, struct {
			u func() speed.MetricUnit
			r uref
			n string
		}{u, r, n})
	}
	none := uref{-1, -1, -1, 0, 0, 0}
	add("NewMetricUnit()", none, speed.NewMetricUnit)
	for i, s := range spaceU {
		r := none
		r.ss, r.sd = i, 1
		s := s
		add(spaceN[i], r, func() speed.MetricUnit { return s })
	}
	for i, s := range timeU {
		r := none
		r.ts, r.td = i, 1
		s := s
		add(timeN[i], r, func() speed.MetricUnit { return s })
	}
	r := none
	r.cs, r.cd = 0, 1
	add("OneUnit", r, func() speed.MetricUnit { return speed.OneUnit })
	return l
}

func usteps(kind int, dims []int) (l []ustep) {
	n := []int{len(spaceU), len(timeU), 1}[kind]
	for s := 0; s < n; s++ {
		for _, d := range dims {
			l = append(l, ustep{kind, s, d})
		}
	}
	return l
}

var allDims = []int{-8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7}

func init() {
	props["C13"] = func(tier string) (l []*Scenario) {
		l = append(l, &Scenario{Name: "every composition", Shards: 16, Enum: func(w *W) {
			n := 0
			for _, b := range ubases() {
				has := [3]bool{b.r.sd != 0, b.r.td != 0, b.r.cd != 0}
				var rec func(u func() speed.MetricUnit, r uref, has [3]bool, path []ustep)
				rec = func(u func() speed.MetricUnit, r uref, has [3]bool, path []ustep) {
					if w.viol != nil || w.cut {
						return
					}
					if n++; n&4095 == 0 && w.cutNow() {
						return
					}
					if m := checkUnit(u(), r, func() string { return fmt.Sprint(b.n, path) }); m != "" {
						w.Fail("unit", "%s", m)
						return
					}
					w.cases++
					w.trans++
					w.State(fmt.Sprint(r))
					if len(w.samples) < 3 && len(path) > 1 {
						w.samples = append(w.samples, fmt.Sprint(b.n, path))
					}
					for k := 0; k < 3; k++ {
						if has[k] {
							continue
						}
						h2 := has
						h2[k] = true
						for i, s := range usteps(k, allDims) {
							if len(path) == 0 && !w.Mine(i) {
								continue
							}
							s := s
							rec(func() speed.MetricUnit { return s.do(u()) }, s.ref(r), h2, append(path[:len(path):len(path)], s))
						}
					}
				}
				rec(b.u, b.r, has, nil)
			}
		}})
		l = append(l, &Scenario{Name: "dimensions out of range and repeated bases", Enum: func(w *W) {
			for _, b := range ubases() {
				for k := 0; k < 3; k++ {
					for d := -128; d < 128; d++ {
						bare := [3]bool{b.r.sd != 0, b.r.td != 0, b.r.cd != 0}
						if bare[k] {
							continue
						}
						s := ustep{k, 0, d}
						r := try(must0(func() { s.do(b.u()) }))
						want := d < -8 || d > 7
						w.cases++
						w.State(fmt.Sprint(b.n, s))
						if r.Panic != want {
							w.Fail("unit", "%s.%v: panic %v, expected %v", b.n, s, r.Panic, want)
							return
						}
						// also as a second step, which must not change the unit
						for k2 := 0; k2 < 3; k2++ {
							if k2 == k || bare[k2] || !want {
								continue
							}
							s2 := ustep{k2, 0, -3}
							u := s2.do(b.u())
							before := u.PMAPI()
							r := try(must0(func() { s.do(u) }))
							w.cases++
							if !r.Panic || u.PMAPI() != before {
								w.Fail("unit", "%s.%v.%v: panic %v, code %#x before %#x", b.n, s2, s, r.Panic, u.PMAPI(), before)
								return
							}
						}
					}
				}
			}
			for i, s := range spaceU {
				if s.PMAPI() != 1<<28|uint32(i)<<16 || s.String() != spaceN[i] {
					w.Fail("unit", "%s is %#x %s", spaceN[i], s.PMAPI(), s)
				}
			}
			for i, s := range timeU {
				if s.PMAPI() != 1<<24|uint32(i)<<12 || s.String() != timeN[i] {
					w.Fail("unit", "%s is %#x %s", timeN[i], s.PMAPI(), s)
				}
			}
			if speed.OneUnit.PMAPI() != 1<<20 || speed.OneUnit.String() != "OneUnit" {
				w.Fail("unit", "OneUnit is %#x %s", speed.OneUnit.PMAPI(), speed.OneUnit)
			}
		}})
		dd := []int{-8, -1, 2, 7}
		if tier == "thorough" {
			dd = []int{-8, -4, -1, 0, 1, 2, 5, 7}
		}
		l = append(l, &Scenario{Name: "published code", Shards: 8, Cfg: mc.Config{}, Enum: func(w *W) {
			// several metrics with different units per client
			var ms []MSpec
			flush := func() bool {
				if len(ms) == 0 {
					return true
				}
				m := ms
				ms = nil
				return w.Exec(fmt.Sprintf("%d metrics from unit %#x to %#x", len(m), m[0].Code, m[len(m)-1].Code), func(h *H) {
					c := h.newClient("cl", &RSpec{Metrics: m})
					c.start()
					c.checkFile("after Start")
					c.stop()
				})
			}
			n := 0
			for _, b := range ubases() {
				for _, s := range append(append(usteps(0, dd), usteps(1, dd)...), usteps(2, dd)...) {
					has := [3]bool{b.r.sd != 0, b.r.td != 0, b.r.cd != 0}
					if has[s.kind] {
						continue
					}
					if n++; !w.Mine(n) {
						continue
					}
					u := s.do(b.u())
					code := u.PMAPI()
					w.State(fmt.Sprint(code))
					sp := single(fmt.Sprintf("u%d", n), speed.Int32Type, 1)
					sp.Unit, sp.Code = u, s.ref(b.r).codes()[0]
					if s.dim == 0 {
						sp.Code = code
					}
					if ms = append(ms, sp); len(ms) == 16 {
						if !flush() {
							return
						}
					}
				}
			}
			flush()
		}})
		return l
	}
}

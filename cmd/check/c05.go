package main

// C05: values, registrations and the file survive every Start/Stop history.

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

// story is the state of one history.
type story struct {
	h     *H
	c     *CL
	rs    *RSpec
	erase bool
	file  []byte // content the file must have while stopped; nil: no file
	n     int
	flags []speed.MMVFlag
	by    *bystanders
}

var c05letters = []string{"Start", "Stop", "set", "text", "instances", "counter", "metric", "long metric", "indom", "string", "flag", "erase", "histogram", "register again"}

func (s *story) do(l string) {
	h, c := s.h, s.c
	s.n++
	reg := func(what string, err error) bool {
		if (err != nil) != c.Started {
			h.Fail("registration", "%s gives %v while the client is started: %v", what, err, c.Started)
		}
		return err == nil
	}
	switch l {
	case "Start":
		err := c.C.Start()
		if err != nil && !c.Started {
			h.Fail("start", "Start of a stopped client: %v", err)
		}
		c.Started = true
	case "Stop":
		err := c.C.Stop()
		if (err != nil) == c.Started {
			h.Fail("stop", "Stop gives %v while the client is started: %v", err, c.Started)
		}
		if c.Started {
			c.Started = false
			if s.erase {
				s.file = nil
			}
		}
	case "set":
		c.Ms[0].step(h, Op{Name: "Set", Arg: int32(s.n * 1001)})
	case "text":
		c.Ms[1].step(h, Op{Name: "Set", Arg: rep("t", 20-s.n%20)})
	case "instances":
		c.Ms[2].step(h, Op{Name: "Set", Arg: fmt.Sprint("v", s.n), Inst: "a"})
		c.Ms[3].step(h, Op{Name: "Inc", Arg: 0.5, Inst: "y"})
	case "counter":
		c.Ms[4].step(h, Op{Name: "Up"})
		c.Ms[4].step(h, Op{Name: "Set", Arg: int64(-1)})
	case "histogram":
		c.Ms[5].step(h, Op{Name: "Record", Arg: int64(s.n)})
	case "metric", "long metric":
		name := fmt.Sprintf("new.metric%d", s.n)
		if l == "long metric" {
			name += rep("x", 64)
		}
		ms := single(name, speed.Int64Type, int64(s.n), "new")
		m, err := newLM(&ms, nil)
		if err != nil {
			h.Fail("setup", "%v", err)
		}
		if reg("Register", c.C.Register(m.M)) {
			c.addMetric(m, s.rs)
		} else {
			m.step(h, Op{Name: "Set", Arg: int64(8)})
		}
	case "indom":
		d := ISpec{Name: fmt.Sprintf("dom%d", s.n), Insts: []string{"i", "j"}, Desc: []string{"new domain"}}
		o, err := speed.NewPCPInstanceDomain(d.Name, d.Insts, d.Desc...)
		if err != nil {
			h.Fail("setup", "%v", err)
		}
		if reg("RegisterIndom", c.C.RegisterIndom(o)) {
			c.addIndom(d)
		}
	case "string":
		ms := inst(fmt.Sprintf("by%d.string", s.n), fmt.Sprintf("by%d", s.n), speed.Int32Type, vals("p", int32(1), "q", int32(s.n)))
		ms.Sem, ms.Unit, ms.Code = speed.InstantSemantics, speed.OneUnit, codeOne
		r, err := c.C.RegisterString(fmt.Sprintf("by%d[p,q].string", s.n), speed.Instances{"p": 1, "q": s.n}, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
		if reg("RegisterString", err) {
			s.rs.Indoms = append(s.rs.Indoms, ISpec{Name: ms.Indom, Insts: []string{"p", "q"}})
			m := &LM{S: &ms, M: r, Cur: ms.Vals}
			c.addMetric(m, s.rs)
			m.step(h, Op{Name: "Set", Arg: int32(-s.n), Inst: "p"})
		}
	case "register again":
		if err := c.C.Register(c.Ms[0].M); err == nil {
			h.Fail("registration", "a metric is accepted twice")
		}
		ms := single("a.int", speed.StringType, "imposter")
		m, _ := newLM(&ms, nil)
		if err := c.C.Register(m.M); err == nil {
			h.Fail("registration", "a second metric is accepted under a taken name")
		}
	case "flag":
		f := []speed.MMVFlag{speed.NoPrefixFlag, speed.SentinelFlag, speed.ProcessFlag}[s.n%3]
		err := c.C.SetFlag(f)
		if reg("SetFlag", err) {
			c.Flag = f
		}
	case "erase":
		s.erase = !s.erase
		speed.EraseFileOnStop = s.erase
	}
	s.check("after " + l)
}

// check compares everything observable with the reference.
func (s *story) check(when string) {
	h, c := s.h, s.c
	s.by.check(h, when)
	c.checkMem(when)
	c.checkReg(when)
	if c.Started {
		c.checkFile(when)
		s.file, _ = c.bytes()
		return
	}
	b, err := os.ReadFile(c.path())
	switch {
	case s.file == nil && err == nil:
		h.Fail("file", "%s: the file of the stopped client is there, it should not", when)
	case s.file == nil && !os.IsNotExist(err):
		h.Fail("file", "%s: %v", when, err)
	case s.file != nil && err != nil:
		h.Fail("file", "%s: the file of the stopped client is gone: %v", when, err)
	case !bytes.Equal(b, s.file):
		h.Fail("file", "%s: the file of the stopped client changed at byte %d", when, firstDiff(b, s.file))
	}
	h.checks++
}

func (h *H) story() *story {
	return h.storyOf(&RSpec{Indoms: []ISpec{{Name: "d", Insts: []string{"a", "b"}, Desc: []string{"dd"}}}, Metrics: []MSpec{
		single("a.int", speed.Int32Type, 1, "short", "long"), single("a.text", speed.StringType, "initial"), inst("i", "d", speed.StringType, vals("a", "one", "b", "two")),
		gvec("v", vals("x", 1.0, "y", 2.0)), counter("c", 0), hist("h")}})
}

func (h *H) storyOf(rs *RSpec) *story {
	speed.EraseFileOnStop = false
	s := &story{h: h, rs: rs}
	s.c = h.newClient("cl", s.rs)
	os.Remove(s.c.path()) // of the history before
	s.by = h.bystanders(s.c)
	return s
}

func init() {
	props["C05"] = func(tier string) (l []*Scenario) {
		add := func(name string, depth int, letters []string) {
			l = append(l, &Scenario{Name: fmt.Sprintf("%s, length %d", name, depth), Shards: 16, Enum: func(w *W) {
				defer func() { speed.EraseFileOnStop = false }()
				words(depth, len(letters), func(i int, word []int) bool {
					if !w.Mine(i) {
						return true
					}
					var ds []string
					for _, x := range word {
						ds = append(ds, letters[x])
					}
					return w.Exec(strings.Join(ds, ", "), func(h *H) {
						s := h.story()
						s.check("at first")
						for _, x := range word {
							s.do(letters[x])
							w.trans++
							w.State(fmt.Sprint(stateKey(s.c.Ms), len(s.c.Ind), s.c.Started, s.c.Flag, s.erase, s.file != nil))
						}
						// the history must leave a client that works
						if s.c.Started {
							s.do("Stop")
						}
						s.do("set")
						s.do("Start")
						s.do("text")
						s.do("Stop")
					})
				})
			}})
		}
		d1, d2 := 4, 6
		if tier == "thorough" {
			d1, d2 = 5, 8
		}
		add("all operations", d1, c05letters)
		add("few operations", d2, []string{"Start", "Stop", "text", "metric", "erase"})
		// from a registry that holds little or nothing
		for _, r := range []namedReg{{"nothing", RSpec{}, 0}, {"one domain", RSpec{Indoms: []ISpec{{Name: "only", Insts: []string{"a"}}}}, 0},
			{"an empty domain", RSpec{Indoms: []ISpec{{Name: "only", Desc: []string{"short", "long"}}}}, 0}, {"one number", RSpec{Metrics: []MSpec{single("a.int", speed.Int32Type, 1)}}, 0}} {
			r := r
			letters := []string{"Start", "Stop", "metric", "long metric", "indom", "string", "flag", "erase"}
			l = append(l, &Scenario{Name: fmt.Sprintf("from %s, length %d", r.Name, d1), Shards: 4, Enum: func(w *W) {
				defer func() { speed.EraseFileOnStop = false }()
				words(d1, len(letters), func(i int, word []int) bool {
					if !w.Mine(i) {
						return true
					}
					var ds []string
					for _, x := range word {
						ds = append(ds, letters[x])
					}
					return w.Exec(strings.Join(ds, ", "), func(h *H) {
						rs := r.R
						rs.Indoms = append([]ISpec(nil), rs.Indoms...)
						s := h.storyOf(&rs)
						s.check("at first")
						for _, x := range word {
							s.do(letters[x])
							w.trans++
							w.State(fmt.Sprint(r.Name, len(s.c.Ms), len(s.c.Ind), s.c.Started, s.c.Flag, s.erase, s.file != nil))
						}
						if s.c.Started {
							s.do("Stop")
						}
						s.do("Start")
						s.do("Stop")
					})
				})
			}})
		}
		// every operation of every kind of metric, before, between and after
		for _, k := range c04kinds() {
			k := k
			l = append(l, &Scenario{Name: "updates of " + k.n, Shards: 4, Enum: func(w *W) {
				words(d1-1, len(k.ops)+1, func(i int, word []int) bool {
					if !w.Mine(i) {
						return true
					}
					ds := []string{}
					for _, x := range word {
						if x == len(k.ops) {
							ds = append(ds, "Start/Stop")
						} else {
							ds = append(ds, k.ops[x].String())
						}
					}
					return w.Exec(strings.Join(ds, " "), func(h *H) {
						for _, from := range []string{"new", "started", "stopped"} {
							s := h.storyOf(around(k.m, false))
							c := s.c
							if from != "new" {
								s.do("Start")
							}
							if from == "stopped" {
								s.do("Stop")
							}
							flip := func() {
								if c.Started {
									s.do("Stop")
								} else {
									s.do("Start")
								}
							}
							for _, x := range word {
								if x == len(k.ops) {
									flip()
									continue
								}
								if o := k.ops[x]; o.Name == "+" {
									mc.Advance(timeDuration(int(o.Arg.(int64))))
								} else {
									c.Ms[1].step(h, o)
									s.check("after " + o.String())
								}
								w.State(k.n + stateKey(c.Ms[1:2]) + fmt.Sprint(c.Started))
							}
							flip()
							flip()
						}
					})
				})
			}})
		}
		// many rounds
		l = append(l, &Scenario{Name: "many rounds", Shards: 4, Enum: func(w *W) {
			defer func() { speed.EraseFileOnStop = false }()
			for v := 0; v < 8; v++ {
				if !w.Mine(v) {
					continue
				}
				if !w.Exec(fmt.Sprintf("variant %d", v), func(h *H) {
					s := h.story()
					for r := 0; r < 70; r++ {
						w.beat()
						w.extra++
						s.n = r%19 + 1
						s.do("Start")
						s.do(c05letters[2+(r*(v+1))%4])
						s.do("Stop")
						if x := c05letters[2+(r*(v+3)+v)%(len(c05letters)-2)]; !strings.Contains("metric, long metric, indom, string", x) {
							s.do(x)
						} else if r < 24 {
							s.n = r + 1000
							s.do(x)
						}
					}
				}) {
					return
				}
			}
		}})
		// very many rounds; more than a small counter of them can hold
		rounds := 600
		if tier == "thorough" {
			rounds = 66000
		}
		l = append(l, &Scenario{Name: fmt.Sprintf("%d rounds", rounds), Shards: 4, Enum: func(w *W) {
			defer func() { speed.EraseFileOnStop = false }()
			for v, r := range []namedReg{{"nothing", RSpec{}, 0}, {"a number", RSpec{Metrics: []MSpec{single("a", speed.Int32Type, 1)}}, 0},
				{"instances", RSpec{Indoms: []ISpec{{Name: "d", Insts: []string{"a", "b"}}}, Metrics: []MSpec{inst("i", "d", speed.Int32Type, vals("a", 1, "b", 2))}}, 0}, {"a counter, erased", RSpec{Metrics: []MSpec{counter("a", 1)}}, 0}} {
				if !w.Mine(v) {
					continue
				}
				r := r
				if !w.Exec(r.Name, func(h *H) {
					rs := r.R
					s := h.storyOf(&rs)
					if strings.HasSuffix(r.Name, "erased") {
						s.do("erase")
					}
					for k := 0; k < rounds; k++ {
						w.beat()
						w.extra++
						for _, start := range []bool{true, false} {
							if start {
								s.do("Start")
							} else {
								s.do("Stop")
							}
							for j := range s.c.Ms {
								s.c.update(j, k)
							}
							s.check(fmt.Sprint("round ", k))
						}
					}
				}) {
					return
				}
			}
		}})
		// the same over the interleavings of the goroutines of the second Start
		p := 1
		if tier == "thorough" {
			p = 2
		}
		l = append(l, &Scenario{Name: "second Start, interleavings", Shards: 8, Cfg: mc.Config{Data: true}, B: mc.Bounds{P: p}, Body: func(h *H) {
			k := h.Choose(len(c05letters))
			var s *story
			h.X.Quiet(func() {
				s = h.story()
				s.do("Start")
				s.do(c05letters[k])
				if s.c.Started {
					s.do("Stop")
				}
				s.do("set")
			})
			s.c.start()
			h.X.Quiet(func() { s.check("after Start"); s.do("text"); s.do("Stop"); speed.EraseFileOnStop = false })
		}})
		l = append(l, c07refused(tier, true))
		l = append(l, c05values()...)
		return l
	}
}

package main

// C22: clients do not disturb each other.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

// pairs of registries; domains named in both are the same object.
func c22pairs() []struct {
	n    string
	a, b RSpec
} {
	d := []ISpec{{Name: "d", Insts: []string{"p", "q"}, Desc: []string{"shared"}}}
	i32, str := speed.Int32Type, speed.StringType
	return []struct {
		n    string
		a, b RSpec
	}{
		{"plain", RSpec{Metrics: []MSpec{single("x", i32, 1)}}, RSpec{Metrics: []MSpec{single("x", str, "two", "text")}}},
		{"histograms", RSpec{Metrics: []MSpec{hist("h")}}, RSpec{Metrics: []MSpec{hist("h"), counter("c", 1)}}},
		{"one domain, different layouts", RSpec{Indoms: d, Metrics: []MSpec{inst("m", "d", i32, vals("p", 1, "q", 2)), single("s", str, "s")}},
			RSpec{Indoms: d, Metrics: []MSpec{inst("m", "d", str, vals("p", "P", "q", "Q")), single("long."+rep("x", 70), i32, 5)}}},
		{"the same names", RSpec{Metrics: []MSpec{counter("c", 1), gvec("g", vals("p", 1.0, "q", 2.0)), timer("t"), single("s", str, "one"), cvec("v", vals("p", int64(1), "q", int64(2)))}},
			RSpec{Metrics: []MSpec{cvec("v", vals("p", int64(10), "q", int64(20))), single("s", str, "two"), counter("c", 10), timer("t"), gvec("g", vals("p", 10.0, "q", 20.0))}}},
		{"one domain, one without it", RSpec{Indoms: d, RegInd: []string{"d"}, Metrics: []MSpec{gauge("g", 1)}}, RSpec{Metrics: []MSpec{cvec("v", vals("p", int64(1), "q", int64(2)))}}},
	}
}

type duo struct {
	h    *H
	c    [2]*CL
	file [2][]byte
	by   *bystanders
}

func (h *H) duo(a, b RSpec) *duo { return h.duoNamed("one", "two", a, b) }

func (h *H) duoNamed(n1, n2 string, a, b RSpec) *duo {
	d := &duo{h: h}
	d.c[0] = h.newClient(n1, &a)
	d.c[1] = h.newClientWith(n2, &b, d.c[0].Objs)
	for _, c := range d.c {
		os.Remove(c.path())
	}
	return d
}

// bystanders are files of other programs near the files of the clients.
type bystanders struct {
	dir   string
	files map[string]string
	mine  map[string]bool
}

func (h *H) bystanders(c ...*CL) *bystanders {
	b := &bystanders{dir: filepath.Dir(c[0].path()), files: map[string]string{}, mine: map[string]bool{}}
	if err := os.MkdirAll(b.dir, 0o700); err != nil {
		h.Fail("setup", "%v", err)
	}
	for _, x := range c {
		b.mine[x.Name] = true
	}
	for _, x := range c {
		for _, n := range []string{x.Name + "2", x.Name + "-old", "a" + x.Name, x.Name[:1], "other", ".hidden", x.Name + ".new", x.Name + ".tmp", x.Name + "~", x.Name + ".lock", "." + x.Name} {
			if !b.mine[n] {
				b.files[n] = "content of " + n
			}
		}
	}
	for n, s := range b.files {
		p := filepath.Join(b.dir, n)
		if old, err := os.ReadFile(p); err == nil && string(old) == s {
			continue
		}
		if err := os.WriteFile(p, []byte(s), 0o600); err != nil {
			h.Fail("setup", "%v", err)
		}
	}
	return b
}

func (b *bystanders) check(h *H, when string) {
	for n, s := range b.files {
		if now, err := os.ReadFile(filepath.Join(b.dir, n)); err != nil || string(now) != s {
			h.Fail("bystander", "%s: the file %q of another program, next to the files of the clients, is not what it was (%v)", when, n, err)
		}
	}
	l, err := os.ReadDir(b.dir)
	if err != nil {
		h.Fail("bystander", "%s: %v", when, err)
	}
	for _, e := range l {
		if _, ok := b.files[e.Name()]; !ok && !b.mine[e.Name()] {
			h.Fail("bystander", "%s: the file %q is left next to the files of the clients", when, e.Name())
		}
	}
	h.checks++
}

// update the i-th metric of a client in some way.
func (c *CL) update(i, n int) {
	m := c.Ms[i]
	o := Op{}
	switch m.S.Kind {
	case "single", "inst":
		o = Op{Name: "Set", Arg: n * 1001}
		if m.S.Type == speed.StringType {
			o.Arg = rep("u", n%40)
		}
		if m.S.Kind == "inst" {
			o.Inst = []string{"p", "q"}[n%2]
		}
	case "counter":
		o = Op{Name: "Up"}
	case "gauge":
		o = Op{Name: "Inc", Arg: 1.5}
	case "hist":
		o = Op{Name: "Record", Arg: int64(n % 90)}
	case "cvec":
		o = Op{Name: "Up", Inst: []string{"p", "q"}[n%2]}
	case "gvec":
		o = Op{Name: "Dec", Arg: 0.25, Inst: []string{"p", "q"}[n%2]}
	case "timer":
		m.step(c.h, Op{Name: "Start"})
		mc.Advance(timeDuration(n * 1000001))
		o = Op{Name: "Stop"}
	}
	m.step(c.h, o)
}

// check compares both clients and both files with the reference.
func (d *duo) check(when string) {
	if d.by != nil {
		d.by.check(d.h, when)
	}
	for i, c := range d.c {
		c.checkMem(when)
		c.checkReg(when)
		if c.Started {
			c.checkFile(when)
			d.file[i], _ = c.bytes()
			continue
		}
		b, err := c.bytes()
		if d.file[i] == nil && err == nil || d.file[i] != nil && !bytes.Equal(b, d.file[i]) {
			d.h.Fail("disturbed", "%s: the file of the stopped client %q changed at byte %d", when, c.Name, firstDiff(b, d.file[i]))
		}
	}
}

func init() {
	props["C22"] = func(tier string) (l []*Scenario) {
		depth, p := 5, 2
		if tier == "thorough" {
			depth, p = 7, 3
		}
		for _, pr := range c22pairs() {
			pr := pr
			ps := p
			if tier != "thorough" && pr.n != "plain" && !strings.Contains(pr.n, "without") {
				ps = 1
			}
			letters := []string{"start/stop one", "start/stop two", "update one", "update two", "register one", "register two"}
			l = append(l, &Scenario{Name: "histories, " + pr.n, Shards: 8, Enum: func(w *W) {
				words(depth, len(letters), func(i int, word []int) bool {
					if !w.Mine(i) {
						return true
					}
					var ds []string
					for _, x := range word {
						ds = append(ds, letters[x])
					}
					return w.Exec(strings.Join(ds, ", "), func(h *H) {
						d := h.duo(pr.a, pr.b)
						for k, x := range word {
							c := d.c[x%2]
							switch x / 2 {
							case 0:
								if c.Started {
									c.stop()
								} else {
									c.start()
								}
							case 1:
								for j := range c.Ms {
									c.update(j, k+3)
								}
							case 2:
								name := "new" + rep("w", k)
								ms := hist(name)
								if k%2 == 1 {
									ms = single(name, speed.StringType, "new")
								}
								m, err := newLM(&ms, nil)
								if err != nil {
									h.Fail("setup", "%v", err)
								}
								err = c.C.Register(m.M)
								if (err != nil) != c.Started {
									h.Fail("registration", "registration gives %v while the client is started: %v", err, c.Started)
								}
								if err == nil {
									c.addMetric(m, nil)
								}
							}
							d.check("after " + letters[x])
							w.State(stateKey(d.c[0].Ms) + stateKey(d.c[1].Ms) + boolText(d.c[0].Started, d.c[1].Started))
						}
					})
				})
			}})
			// names that begin or end like the other's, among files of others
			for _, nm := range [][2]string{{"cl", "cl2"}, {"cl2", "cl"}, {"a.b", "a.b.c"}, {"x", "xx"}, {"cl", "CL"}, {"mmv", "mmv.mmv"}, {"c118", "c200"}, {"costarring", "liquid"}} {
				nm := nm
				dn := depth - 1
				if pr.n != "plain" {
					dn--
				}
				ls := append(append([]string{}, letters[:4]...), "erase files")
				l = append(l, &Scenario{Name: "names " + nm[0] + " and " + nm[1] + ", " + pr.n, Shards: 2, Enum: func(w *W) {
					defer func() { speed.EraseFileOnStop = false }()
					words(dn, len(ls), func(i int, word []int) bool {
						if !w.Mine(i) {
							return true
						}
						var ds []string
						for _, x := range word {
							ds = append(ds, ls[x])
						}
						return w.Exec(strings.Join(ds, ", "), func(h *H) {
							h.clean()
							speed.EraseFileOnStop = false
							d := h.duoNamed(nm[0], nm[1], pr.a, pr.b)
							d.by = h.bystanders(d.c[:]...)
							for k, x := range word {
								c := d.c[x%2]
								switch x / 2 {
								case 0:
									if c.Started {
										c.stop()
										if speed.EraseFileOnStop {
											d.file[x%2] = nil
										}
									} else {
										c.start()
									}
								case 1:
									for j := range c.Ms {
										c.update(j, k+3)
									}
								case 2:
									speed.EraseFileOnStop = !speed.EraseFileOnStop
								}
								d.check("after " + ls[x])
								w.State(stateKey(d.c[0].Ms) + stateKey(d.c[1].Ms) + boolText(d.c[0].Started, d.c[1].Started, speed.EraseFileOnStop))
							}
							speed.EraseFileOnStop = false
						})
					})
				}})
			}
			if pr.n == "plain" {
				l = append(l, c22related(pr.a, pr.b, depth), c22sizes(tier))
			}
			cfg := mc.Config{Data: true}
			l = append(l, &Scenario{Name: "Start and Start, " + pr.n, Shards: 8, Cfg: cfg, B: mc.Bounds{P: ps}, Body: func(h *H) {
				d := h.duo(pr.a, pr.b)
				h.Par(d.c[0].start, d.c[1].start)
				h.X.Quiet(func() { d.finish() })
			}})
			l = append(l, &Scenario{Name: "Start and the other client live, " + pr.n, Shards: 4, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: ps}, OnMem: true, Body: func(h *H) {
				d := h.duo(pr.a, pr.b)
				k := h.Choose(2)
				a, b := d.c[k], d.c[1-k]
				upd := h.Choose(2) == 1
				h.X.Quiet(a.start)
				live, _ := a.bytes()
				h.X.OnMem = func(x *mc.Exec) {
					now, err := a.bytes()
					if !upd && (err != nil || !bytes.Equal(now, live)) {
						x.FailNoExit("disturbed", "the file of the live client %q changes at byte %d while %q starts (%v)", a.Name, firstDiff(now, live), b.Name, err)
					} else if _, e := parse(now); err != nil || e != nil {
						x.FailNoExit("disturbed", "the file of the live client %q is no longer complete while %q starts: %v %v", a.Name, b.Name, err, e)
					}
					h.checks++
				}
				fs := []func(){b.start}
				if upd {
					fs = append(fs, func() { a.update(0, 7); a.update(len(a.Ms)-1, 8) })
				}
				h.Par(fs...)
				h.X.OnMem = nil
				h.X.Quiet(func() { d.finish() })
			}})
			l = append(l, &Scenario{Name: "Start and Stop, " + pr.n, Shards: 4, Cfg: cfg, B: mc.Bounds{P: p}, Body: func(h *H) {
				d := h.duo(pr.a, pr.b)
				k := h.Choose(2)
				h.X.Quiet(d.c[k].start)
				kept, _ := d.c[k].bytes()
				h.Par(d.c[k].stop, d.c[1-k].start)
				h.X.Quiet(func() {
					if now, _ := d.c[k].bytes(); !bytes.Equal(now, kept) {
						h.Fail("disturbed", "the file of %q changed at byte %d after Stop", d.c[k].Name, firstDiff(now, kept))
					}
					d.c[k].start()
					d.finish()
				})
			}})
			// with the removal of files at Stop
			l = append(l, &Scenario{Name: "Start and Stop that removes, " + pr.n, Shards: 4, Cfg: cfg, B: mc.Bounds{P: p}, Body: func(h *H) {
				defer func() { speed.EraseFileOnStop = false }()
				h.clean()
				d := h.duo(pr.a, pr.b)
				k := h.Choose(2)
				h.X.Quiet(d.c[k].start)
				speed.EraseFileOnStop = true
				h.Par(d.c[k].stop, d.c[1-k].start)
				h.X.Quiet(func() {
					if _, err := d.c[k].bytes(); err == nil {
						h.Fail("left", "the file of %q is still there after Stop, which is to remove it", d.c[k].Name)
					}
					d.check("after Start and Stop")
					speed.EraseFileOnStop = false
					d.c[k].start()
					d.finish()
				})
			}})
			l = append(l, &Scenario{Name: "Stop and Stop that remove, " + pr.n, Shards: 2, Cfg: cfg, B: mc.Bounds{P: p}, Body: func(h *H) {
				defer func() { speed.EraseFileOnStop = false }()
				h.clean()
				d := h.duo(pr.a, pr.b)
				h.X.Quiet(func() { d.c[0].start(); d.c[1].start() })
				by := h.bystanders(d.c[:]...)
				speed.EraseFileOnStop = true
				h.Par(d.c[0].stop, d.c[1].stop)
				h.X.Quiet(func() {
					for _, c := range d.c {
						if _, err := c.bytes(); err == nil {
							h.Fail("left", "the file of %q is still there after Stop, which is to remove it", c.Name)
						}
					}
					by.check(h, "after both have stopped")
					d.check("after both have stopped")
					speed.EraseFileOnStop = false
					d.c[1].start()
					d.c[0].start()
					d.finish()
				})
			}})
			l = append(l, &Scenario{Name: "updates of both, " + pr.n, Shards: 2, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: ps + 1, FreeBlock: true}, Body: func(h *H) {
				d := h.duo(pr.a, pr.b)
				h.X.Quiet(func() { d.c[0].start(); d.c[1].start() })
				f := func(c *CL) func() {
					return func() { c.update(0, 5); c.update(len(c.Ms)-1, 6); c.update(0, 7) }
				}
				h.Par(f(d.c[0]), f(d.c[1]))
				h.X.Quiet(func() { d.finish() })
			}})
			l = append(l, &Scenario{Name: "Start and registration, " + pr.n, Shards: 4, Cfg: cfg, B: mc.Bounds{P: p}, Body: func(h *H) {
				d := h.duo(pr.a, pr.b)
				k := h.Choose(2)
				ms := []MSpec{hist("new.h"), single("new.s", speed.StringType, "x"), inst("new.i", "d", speed.Int32Type, vals("p", 5, "q", 6))}
				j := h.Choose(len(ms))
				o := d.c[0].Objs["d"]
				if o == nil && ms[j].Kind == "inst" {
					return
				}
				m, err := newLM(&ms[j], o)
				if err != nil {
					h.Fail("setup", "%v", err)
				}
				h.Par(d.c[k].start, func() {
					if err := d.c[1-k].C.Register(m.M); err != nil {
						h.Fail("registration", "with %q while %q starts: %v", d.c[1-k].Name, d.c[k].Name, err)
					}
				})
				h.X.Quiet(func() {
					d.c[1-k].addMetric(m, &pr.a)
					d.c[1-k].start()
					d.finish()
				})
			}})
			l = append(l, &Scenario{Name: "construction and Start, " + pr.n, Shards: 2, Cfg: cfg, B: mc.Bounds{P: p}, Body: func(h *H) {
				d := &duo{h: h}
				d.c[0] = h.newClient("one", &pr.a)
				h.Par(d.c[0].start, func() {
					d.c[1] = h.newClientWith("two", &pr.b, d.c[0].Objs)
				})
				h.X.Quiet(func() {
					d.c[1].start()
					d.finish()
				})
			}})
		}
		return l
	}
}

// finish checks two started clients and stops them one after the other.
func (d *duo) finish() {
	d.check("at the end")
	for _, c := range d.c {
		for j := range c.Ms {
			c.update(j, 11)
		}
	}
	d.check("after updates")
	d.c[0].stop()
	d.check("after Stop of one")
	d.c[1].update(0, 13)
	d.check("after an update of two")
	d.c[1].stop()
	d.check("after Stop of both")
}

func boolText(l ...bool) (s string) {
	for _, b := range l {
		if b {
			s += "1"
		} else {
			s += "0"
		}
	}
	return s
}

// c22related are clients one of which has the name of the other with something
// before or behind it, as programs name the files they work on.
func c22related(a, b RSpec, depth int) *Scenario {
	var pairs [][2]string
	for _, e := range []string{".new", ".tmp", ".temp", "~", ".bak", ".old", ".lock", ".lck", ".swp", ".part", ".0", ".1", "-tmp", "-new", "_", ".mmv", ".pid", ".orig", ".d"} {
		pairs = append(pairs, [2]string{"job", "job" + e})
	}
	for _, e := range []string{".", "tmp.", "new.", "tmp-", "_", "mmv.", "#", "~", ".#", "~$", ".tmp-", ".new-"} {
		pairs = append(pairs, [2]string{"job", e + "job"})
	}
	return &Scenario{Name: "names that extend the other's", Shards: 8, Enum: func(w *W) {
		n := 0
		for _, nm := range pairs {
			for swap := 0; swap < 2; swap++ {
				ok := words(4, 4, func(i int, word []int) bool {
					if n++; !w.Mine(n) {
						return true
					}
					return w.Exec(fmt.Sprintf("%v %v", nm, word), func(h *H) {
						h.clean()
						d := h.duoNamed(nm[swap], nm[1-swap], a, b)
						for k, x := range word {
							c := d.c[x%2]
							switch {
							case x/2 == 1:
								for j := range c.Ms {
									c.update(j, k+3)
								}
							case c.Started:
								c.stop()
							default:
								c.start()
							}
							d.check(fmt.Sprintf("after step %d of %v", k, word))
						}
						w.State(fmt.Sprint(nm, swap, d.c[0].Started, d.c[1].Started))
					})
				})
				if !ok {
					return
				}
			}
		}
	}}
}

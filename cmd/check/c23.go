package main

// C23: file system failures are reported and survivable.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
	"verif/mc/mcos"
)

func c23regs() []namedReg {
	return []namedReg{
		{"empty", RSpec{}, 0},
		{"metrics", RSpec{Metrics: []MSpec{single("i", speed.Int32Type, 1, "text"), single("s", speed.StringType, "x"), counter("c", 4)}}, 0},
		{"instances", RSpec{Indoms: []ISpec{{Name: "d", Insts: []string{"p", "q"}}}, Metrics: []MSpec{inst("m", "d", speed.StringType, vals("p", "P", "q", "Q")), gauge("g", 1)}}, 0},
	}
}

// ops lets every metric be updated once.
func (c *CL) updateAll(n int) {
	for j := range c.Ms {
		c.update(j, n)
	}
}

type failing struct {
	h      *H
	c      *CL
	n      int
	unmaps int // munmap calls that failed: their mappings stay
	must   bool
	erase  bool // the file goes at Stop
	racing bool // with updates
}

// do performs Start or Stop, in which faults may happen.
func (f *failing) do(start bool) bool {
	h, c := f.h, f.c
	f.n++
	used, log := h.X.EnvUsed, len(h.X.EnvLog)
	old, wrong := c.bytes()
	var r Res
	switch {
	case f.must:
		call := c.C.MustStop
		if start {
			call = c.C.MustStart
		}
		if err := mustErr(call); err != nil {
			r = Res{Err: true, Msg: err.Error()}
		}
	case start:
		r = try(e0(c.C.Start))
	default:
		r = try(e0(c.C.Stop))
	}
	what := map[bool]string{true: "Start", false: "Stop"}[start]
	removal := false // failed
	hit := h.X.EnvUsed > used
	for _, l := range h.X.EnvLog[log:] {
		if strings.HasPrefix(l, "munmap") {
			f.unmaps++
		}
		removal = removal || strings.HasPrefix(l, "remove") || strings.HasPrefix(l, "unlink") || strings.HasPrefix(l, "rename") || strings.HasPrefix(l, "truncate")
		what += ", in which " + l + ","
	}
	h.Log("%s %v", what, r)
	if r.Panic {
		h.Fail("panic", "%s panics: %s", what, r.Msg)
	}
	if hit != r.Err {
		h.Fail("fault", "%s gives %v %s", what, r, r.Msg)
	}
	c.Started = start && !r.Err
	// a Stop that fails does the rest nevertheless
	if !start && wrong == nil && !removal {
		if now, err := c.bytes(); f.erase && !os.IsNotExist(err) {
			h.Fail("file", "after %s the file to be erased is there (%v)", what, err)
		} else if !f.erase && (err != nil || len(now) != len(old) || !f.racing && !bytes.Equal(now, old)) {
			h.Fail("file", "after %s the file has changed: %v", what, err)
		}
	}
	fds := 0
	if c.Started {
		fds = h.X.OpenFiles() // how many a started client keeps is its own affair
		if fds > 1 {
			h.Fail("leak", "%d open files after %s", fds, what)
		}
	} else if n := h.X.OpenFiles(); n != 0 {
		h.Fail("leak", "%d open files after %s", n, what)
	}
	live := f.unmaps
	if c.Started {
		live++
	}
	if n := h.X.LiveRegions(); n > live {
		h.Fail("leak", "%d mappings after %s", n-f.unmaps, what)
	}
	h.checks++
	return !r.Err
}

// aftermath of a call: what was asked for works on.
func (f *failing) after(register bool) {
	h, c := f.h, f.c
	h.X.Quiet(func() {
		if c.Started {
			c.checkFile("while started")
		} else if register {
			name := fmt.Sprintf("new%d", f.n)
			ms := single(name, speed.StringType, "new")
			m, err := newLM(&ms, nil)
			if err != nil {
				h.Fail("setup", "%v", err)
			}
			if err := c.C.Register(m.M); err != nil {
				h.Fail("registration", "refused although the client is not started: %v", err)
			}
			c.addMetric(m, nil)
			if err := c.C.SetFlag(c.Flag); err != nil {
				h.Fail("registration", "SetFlag refused although the client is not started: %v", err)
			}
		} else if err := c.C.Stop(); err == nil {
			h.Fail("stop", "Stop of a client that is not started succeeds")
		}
		c.updateAll(f.n + 3)
		c.checkMem("after updates")
		c.checkReg("after updates")
		if c.Started {
			c.checkFile("after updates")
		}
	})
}

// errors that no program takes for success or tries again
var c23errs = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EPERM, syscall.EROFS, syscall.ENOMEM, syscall.EMFILE}

func init() {
	props["C23"] = func(tier string) (l []*Scenario) {
		fmax := 4
		if tier == "thorough" {
			fmax = 7
		}
		for _, r := range c23regs() {
			r := r
			for _, hist := range []string{"S", "SPS", "SPSPS"} {
				hist := hist
				l = append(l, &Scenario{Name: r.Name + ", history " + hist, Shards: 2, Cfg: mc.Config{Faults: true}, B: mc.Bounds{F: fmax}, Body: func(h *H) {
					erase, register := h.Choose(2) == 1, h.Choose(2) == 1
					if len(hist) < 5 || tier == "thorough" {
						mcos.Errno = c23errs[h.Choose(len(c23errs))]
						h.Log("errors are %v", mcos.Errno)
						defer func() { mcos.Errno = syscall.EIO }()
					}
					speed.EraseFileOnStop = erase
					defer func() { speed.EraseFileOnStop = false }()
					f := &failing{h: h, erase: erase}
					h.X.Quiet(func() { f.c = h.newClient("cl", &r.R) })
					for _, a := range hist {
						if a == 'P' && !f.c.Started {
							continue
						}
						if a == 'S' && f.c.Started {
							f.do(false)
							f.after(register)
						}
						f.do(a == 'S')
						f.after(register)
					}
					// from here on the environment is healthy
					h.X.Quiet(func() {
						if !f.c.Started {
							f.do(true)
							f.after(register)
						}
						f.do(false)
						f.after(register)
						f.do(true)
						f.after(register)
						f.do(false)
					})
				}})
			}
			// updates and registrations at the same time
			p := 1
			if tier == "thorough" {
				p = 2
			}
			l = append(l, &Scenario{Name: r.Name + ", with an updater", Shards: 4, Cfg: mc.Config{Faults: true, Data: true}, B: mc.Bounds{P: p, F: 1}, Body: func(h *H) {
				stop, who := h.Choose(2) == 1, h.Choose(3)
				f := &failing{h: h, racing: true}
				h.X.Quiet(func() {
					f.c = h.newClient("cl", &r.R)
					if stop {
						f.do(true)
					}
				})
				c := f.c
				var err error
				ms := single("late", speed.StringType, "late")
				m, _ := newLM(&ms, nil)
				h.Par(func() { f.do(!stop) }, func() {
					switch who {
					case 0:
						c.updateAll(5)
					case 1:
						err = c.C.Register(m.M)
					case 2:
						c.R.HasMetric("x")
						c.R.StringCount()
					}
				})
				if who == 1 && err == nil {
					c.addMetric(m, nil)
				}
				f.after(true)
				h.X.Quiet(func() {
					if c.Started {
						f.do(false)
					}
					f.do(true)
					f.after(true)
					f.do(false)
				})
			}})
		}
		// the environment itself is in the way
		envs := []struct {
			n         string
			set, undo func(p string) error
		}{
			{"mmv is a file", func(p string) error { return os.WriteFile(filepath.Dir(p), []byte("x"), 0600) }, func(p string) error { return os.Remove(filepath.Dir(p)) }},
			{"a directory with content is in the place of the file", func(p string) error { return os.MkdirAll(filepath.Join(p, "sub"), 0700) }, func(p string) error {
				if err := os.Remove(filepath.Join(p, "sub")); err != nil {
					return err
				}
				return os.Remove(p)
			}},
			{"the file is a dangling link", func(p string) error {
				if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
					return err
				}
				return os.Symlink(filepath.Join(filepath.Dir(p), "nowhere", "x"), p)
			}, func(p string) error { return nil }},
			{"an unrelated file is in the place", func(p string) error {
				if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
					return err
				}
				return os.WriteFile(p, []byte(rep("left over ", 1000)), 0600)
			}, func(p string) error { return nil }},
			{"mmv is missing", func(p string) error { return os.RemoveAll(filepath.Dir(p)) }, func(p string) error { return nil }},
		}
		l = append(l, &Scenario{Name: "obstacles", Cfg: mc.Config{Faults: true}, B: mc.Bounds{F: fmax - 1}, Body: func(h *H) {
			e := envs[h.Choose(len(envs))]
			again := h.Choose(2) == 1
			h.Log("%s, again=%v", e.n, again)
			f := &failing{h: h}
			c := h.newClient("cl", &c23regs()[1].R)
			f.c = c
			h.X.Quiet(func() {
				if again {
					f.do(true)
					f.do(false)
					os.RemoveAll(filepath.Dir(c.path()))
				}
			})
			if err := e.set(c.path()); err != nil {
				h.Fail("setup", "%v", err)
			}
			r := try(e0(c.C.Start))
			if r.Panic {
				h.Fail("panic", "Start panics: %s", r.Msg)
			}
			if r.Err {
				if h.X.OpenFiles() != 0 || h.X.LiveRegions() != 0 {
					h.Fail("leak", "%d open files and %d mappings after a failed Start", h.X.OpenFiles(), h.X.LiveRegions())
				}
				f.after(true)
				if err := e.undo(c.path()); err != nil && !os.IsNotExist(err) {
					h.Fail("setup", "%v", err)
				}
				os.Remove(c.path())
				h.X.Quiet(func() { f.do(true) })
			} else {
				c.Started = true
			}
			f.after(true)
			h.X.Quiet(func() { f.do(false); f.after(true); f.do(true); f.after(false); f.do(false) })
		}})
		return l
	}
}

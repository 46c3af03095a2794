package main

// C02: at no instant of a Start does the file look complete without being so.

import (
	"bytes"
	"fmt"
	"os"

	"github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"

	"verif/mc"
)

// watch observes the file of one client.
type watch struct {
	h    *H
	c    *CL
	old  []byte // complete content before Start, still acceptable
	fin  []byte // first complete content seen
	seen map[uint64][]byte
	on   bool
}

var c02seen = map[uint64]bool{}

func (h *H) watch(c *CL) *watch {
	w := &watch{h: h, c: c, seen: map[uint64][]byte{}}
	h.X.OnMem = func(x *mc.Exec) {
		if w.on {
			w.look(x)
		}
	}
	h.post = append(h.post, w.dump)
	return w
}

func (w *watch) look(x *mc.Exec) {
	b, err := os.ReadFile(w.c.path())
	if err != nil {
		return
	}
	w.h.checks++
	switch {
	case w.fin != nil:
		if !bytes.Equal(b, w.fin) {
			x.FailNoExit("final", "the file of %q changes after it was complete (byte %d of %d)", w.c.Name, firstDiff(b, w.fin), len(w.fin))
		}
	case w.old != nil && bytes.Equal(b, w.old):
	case complete(b):
		f, err := parse(b)
		if err == nil {
			if d := diff(w.c.wantFor(f), f.lines); d != "" {
				err = fmt.Errorf("%s", d)
			}
		}
		if err != nil {
			x.FailNoExit("half-written", "the file of %q looks complete and is not: %v", w.c.Name, err)
			return
		}
		w.fin = b
	default:
		k := mc.HashString(string(b))
		if !c02seen[k] {
			w.seen[k] = b
		}
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// dump requires that the dump package refuses every intermediate content.
func (w *watch) dump() *mc.Violation {
	for k, b := range w.seen {
		if c02seen[k] {
			continue
		}
		x := mc.NewExec(mc.Config{}, nil)
		var err error
		x.Run(func() {
			_, _, _, _, _, _, _, err = mmvdump.Dump(append([]byte(nil), b...))
		})
		if x.Viol != nil {
			return x.Viol
		}
		if err == nil {
			n := len(b)
			if n > 40 {
				n = 40
			}
			return &mc.Violation{Kind: "half-written", Msg: fmt.Sprintf("the dump package accepts an incomplete file of %d bytes, header %x", len(b), b[:n])}
		}
		c02seen[k] = true
		w.h.checks++
	}
	return nil
}

// begin and end bracket a Start.
func (w *watch) begin(old []byte) { w.old, w.fin, w.on = old, nil, true }

func (w *watch) end(started bool) {
	w.on = false
	if !started {
		return
	}
	if b, err := w.c.bytes(); w.fin == nil && (err != nil || w.old == nil || !bytes.Equal(b, w.old)) {
		w.h.Fail("half-written", "the file of %q is not complete when Start has returned", w.c.Name)
	}
	w.c.checkFile("after Start")
}

func init() {
	props["C02"] = func(tier string) (l []*Scenario) {
		for _, r := range regs() {
			r := r
			p, sh := 2, 1+r.Big*3
			if tier == "thorough" {
				p++
				sh = 8
			}
			l = append(l, &Scenario{Name: "start/" + r.Name, Shards: sh, Cfg: mc.Config{RelPt: true}, B: mc.Bounds{P: p}, OnMem: true, Body: func(h *H) {
				c := h.newClient("cl", &r.R)
				w := h.watch(c)
				w.begin(nil)
				c.start()
				w.end(true)
				h.X.Outcome = mc.HashString(string(w.fin))
				h.X.OnMem = nil
			}})
			if r.Big == 2 && tier != "thorough" {
				continue
			}
			l = append(l, &Scenario{Name: "restart/" + r.Name, Shards: sh, Cfg: mc.Config{RelPt: true}, B: mc.Bounds{P: p - 1}, OnMem: true, Body: func(h *H) {
				c := h.newClient("cl", &r.R)
				w := h.watch(c)
				var old []byte
				grow := h.Choose(3)
				adv := h.Choose(2)
				h.X.Quiet(func() {
					c.start()
					c.stop()
					old, _ = c.bytes()
					switch grow {
					case 1:
						c.more("zz.more", speed.Int32Type, 77)
					case 2:
						c.more("zz.str", speed.StringType, "more text")
						c.more("zz.double", speed.DoubleType, 3.5)
					}
					mc.Advance(1e9 * 5 * timeDuration(adv))
				})
				w.begin(old)
				c.start()
				w.end(true)
				h.X.OnMem = nil
			}})
			l = append(l, &Scenario{Name: "failing start/" + r.Name, Shards: sh, Cfg: mc.Config{RelPt: true, Faults: true}, B: mc.Bounds{P: 1, F: 1}, OnMem: true, Body: func(h *H) {
				c := h.newClient("cl", &r.R)
				w := h.watch(c)
				again := h.Choose(2)
				var old []byte
				if again == 1 {
					h.X.Quiet(func() {
						c.start()
						c.stop()
						old, _ = c.bytes()
						mc.Advance(2e9)
					})
				}
				w.begin(old)
				err := c.C.Start()
				if err == nil {
					c.Started = true
				}
				w.end(err == nil)
				if err != nil {
					w.begin(w.fin)
					h.X.Quiet(func() { err = c.C.Start() })
					if err != nil {
						h.Fail("start", "Start after a failed Start: %v", err)
					}
					w.end(true)
				}
				h.X.OnMem = nil
			}})
		}
		return append(l, c02sizes(tier))
	}
}

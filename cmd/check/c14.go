package main

import (
	"fmt"
	"time"

	"verif/mc"
)

// words enumerates all words of length n over k letters; f gets the index.
func words(n, k int, f func(i int, w []int) bool) bool {
	w := make([]int, n)
	for i := 0; ; i++ {
		if !f(i, w) {
			return false
		}
		j := n - 1
		for j >= 0 && w[j] == k-1 {
			w[j] = 0
			j--
		}
		if j < 0 {
			return true
		}
		w[j]++
	}
}

func init() {
	props["C14"] = func(tier string) (l []*Scenario) {
		depth := 5
		if tier == "thorough" {
			depth = 7
		}
		advs := []time.Duration{1, 90*time.Minute + 1500*time.Millisecond + 7, 0}
		for _, u := range timeU {
			u := u
			l = append(l, &Scenario{Name: "sequences in " + u.String(), Shards: 4, Enum: func(w *W) {
				words(depth, 7, func(i int, word []int) bool {
					if !w.Mine(i) {
						return true
					}
					desc := ""
					for _, o := range word {
						desc += []string{"start ", "stop ", "reset ", "+1ns ", "+5401.5s ", "client ", "+0 "}[o]
					}
					return w.Exec(desc, func(h *H) {
						ts := timer("t")
						ts.Unit, ts.Code = u, uint32(u)
						c := h.newClient("cl", &RSpec{Metrics: []MSpec{ts}})
						m := c.Ms[0]
						for _, o := range word {
							switch o {
							case 0:
								m.step(h, Op{Name: "Start"})
							case 1:
								m.step(h, Op{Name: "Stop"})
							case 2:
								m.step(h, Op{Name: "Reset"})
							case 3, 4:
								mc.Advance(advs[o-3])
							case 5:
								if c.Started {
									c.stop()
								} else {
									c.start()
								}
							case 6:
								mc.Advance(advs[2])
							}
							if c.Started {
								c.checkFile(fmt.Sprintf("after %v", desc))
							}
							h.checks++
						}
						w.State(fmt.Sprint(m.Cur, m.On, c.Started, vnow()-m.Since))
					})
				})
			}})
		}
		// several goroutines; the clock moves between the phases only
		progs := []struct {
			n string
			p [][]string
		}{
			{"two starters", [][]string{{"Start"}, {"Start"}}},
			{"two stoppers", [][]string{{"Stop"}, {"Stop"}}},
			{"stop and reset", [][]string{{"Stop"}, {"Reset"}}},
			{"start, stop, reset", [][]string{{"Start", "Stop"}, {"Reset", "Start"}}},
			{"three", [][]string{{"Start"}, {"Stop"}, {"Reset"}}},
			{"stop start and stop start", [][]string{{"Stop", "Start"}, {"Stop", "Start"}}},
			{"three stoppers", [][]string{{"Stop"}, {"Stop"}, {"Stop"}}},
		}
		p := 3
		if tier == "thorough" {
			p = 6
		}
		for _, pr := range progs {
			pr := pr
			for _, running := range []bool{false, true} {
				running := running
				p, sh := p, 1
				if len(pr.p) > 2 {
					p, sh = p-1, 4
				}
				l = append(l, &Scenario{Name: fmt.Sprintf("%s, running %v", pr.n, running), Shards: sh, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: p, FreeBlock: true}, Body: func(h *H) {
					c := h.newClient("cl", &RSpec{Metrics: []MSpec{timer("t")}})
					m := c.Ms[0]
					h.X.Quiet(func() {
						c.start()
						m.step(h, Op{Name: "Start"})
						mc.Advance(10)
						if !running {
							m.step(h, Op{Name: "Stop"})
							mc.Advance(100)
						}
					})
					t := &Hist{h: h}
					var fs []func()
					for _, ops := range pr.p {
						ops := ops
						fs = append(fs, func() {
							for _, o := range ops {
								t.call(m, Op{Name: o})
							}
						})
					}
					h.Par(fs...)
					t.settle(c, c.Ms)
					mc.Advance(1000)
					if m.On {
						m.step(h, Op{Name: "Stop"})
					} else {
						m.step(h, Op{Name: "Reset"})
						m.step(h, Op{Name: "Start"})
						mc.Advance(3)
						m.step(h, Op{Name: "Stop"})
					}
					c.checkFile("at the end")
				}})
			}
		}
		return append(l, c14cycles(tier))
	}
}

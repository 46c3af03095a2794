package main

// C03: Start and Stop complete, and leave no goroutine behind.

import (
	"fmt"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
)

func init() {
	props["C03"] = func(tier string) (l []*Scenario) {
		for _, r := range regs() {
			r := r
			p, sh := 3, 1
			if r.Big == 2 {
				p, sh = 2, 4
			}
			if r.Name == "histogram" {
				sh = 8
			}
			m := 1
			if tier == "thorough" {
				p, m, sh = p+1, 2, 8
			}
			l = append(l, &Scenario{Name: "rounds/" + r.Name, Shards: sh, Leak: true, Cfg: mc.Config{MapPerm: true}, B: mc.Bounds{P: p, M: m}, Body: func(h *H) {
				c := h.newClient("cl", &r.R)
				c.start()
				c.stop()
				h.X.Quiet(func() {
					c.start()
					c.checkFile("after the second Start")
					c.stop()
				})
			}})
			l = append(l, &Scenario{Name: "second round/" + r.Name, Shards: sh, Leak: true, Cfg: mc.Config{MapPerm: true}, B: mc.Bounds{P: p - 1, M: m}, Body: func(h *H) {
				c := h.newClient("cl", &r.R)
				more := h.Choose(2)
				h.X.Quiet(func() {
					c.start()
					c.stop()
					if more == 1 {
						c.more("zz.more", speed.StringType, "more")
					}
				})
				c.start()
				c.stop()
			}})
		}
		// everything the registry accepts: unusual metrics and domains, by the
		// default schedule and its single deviations
		for k := 1; k <= 3; k++ {
			k := k
			pool := c03pool()
			l = append(l, &Scenario{Name: fmt.Sprintf("%d unusual registrations of %d", k, len(pool)), Shards: 8, Leak: true, Cfg: mc.Config{}, B: mc.Bounds{P: []int{0, 2, 1, 0}[k]}, Body: func(h *H) {
				c, err := speed.NewPCPClient("cl")
				if err != nil {
					h.Fail("setup", "%v", err)
				}
				for i := 0; i < k; i++ {
					j := h.Choose(len(pool))
					h.Log("%s", pool[j].n)
					pool[j].f(h, c)
				}
				round := func() {
					if err := c.Start(); err != nil {
						h.Fail("start", "Start of what was accepted: %v", err)
					}
					if err := c.Stop(); err != nil {
						h.Fail("stop", "Stop: %v", err)
					}
				}
				round()
				h.X.Quiet(func() { round(); round() })
			}})
		}
		if tier == "thorough" {
			l = append(l, large("C03", tier, 2049, 4097, 33000))
		}
		l = append(l, large("C03", tier, 17, 33, 65, 129, 257, 513, 1025))
		return l
	}
}

type regAct struct {
	n string
	f func(h *H, c *speed.PCPClient)
}

type fakeIndom struct{ *speed.PCPInstanceDomain }
type fakeMetric struct{ speed.Metric }
type bareMetric struct{}

func (bareMetric) ID() uint32                       { return 7 }
func (bareMetric) Name() string                     { return "bare" }
func (bareMetric) Type() speed.MetricType           { return speed.Int32Type }
func (bareMetric) Unit() speed.MetricUnit           { return speed.OneUnit }
func (bareMetric) Semantics() speed.MetricSemantics { return speed.InstantSemantics }
func (bareMetric) Description() string              { return "" }

// c03pool are registrations the registry may refuse or accept; what it
// accepts has to be startable.
func c03pool() []regAct {
	add := func(n string, f func() (speed.Metric, error)) regAct {
		return regAct{n, func(h *H, c *speed.PCPClient) {
			if m, err := f(); err == nil {
				_ = c.Register(m)
			}
		}}
	}
	dom := func(n string, name string, insts []string, desc ...string) regAct {
		return regAct{n, func(h *H, c *speed.PCPClient) {
			if d, err := speed.NewPCPInstanceDomain(name, insts, desc...); err == nil {
				_ = c.RegisterIndom(d)
			}
		}}
	}
	str := func(s string, v interface{}, t speed.MetricType) regAct {
		return regAct{s, func(h *H, c *speed.PCPClient) {
			_, _ = c.RegisterString(s, v, t, speed.InstantSemantics, speed.OneUnit)
		}}
	}
	return []regAct{
		dom("empty domain", "e", nil),
		dom("empty domain with texts", "et", nil, "x", "y"),
		dom("domain without name", "", []string{"a"}),
		dom("instance without name", "n", []string{""}),
		dom("same instance twice", "t", []string{"a", "a"}),
		dom("domain named histogram", "histogram", []string{"a", "b"}),
		dom("domain of a vector", "cv.indom", []string{"zz"}),
		dom("long instance", "l", []string{rep("k", 255)}),
		dom("too long instance", "l2", []string{rep("k", 256)}),
		add("empty counter vector", func() (speed.Metric, error) { return nn(speed.NewPCPCounterVector(map[string]int64{}, "ecv")) }),
		add("counter vector", func() (speed.Metric, error) {
			return nn(speed.NewPCPCounterVector(map[string]int64{"a": 1}, "cv"))
		}),
		add("empty gauge vector", func() (speed.Metric, error) { return nn(speed.NewPCPGaugeVector(nil, "egv")) }),
		add("vector with empty instance", func() (speed.Metric, error) {
			return nn(speed.NewPCPGaugeVector(map[string]float64{"": 1}, "evi"))
		}),
		add("histogram", func() (speed.Metric, error) {
			return nn(speed.NewPCPHistogram("h", 0, 100, 1, speed.OneUnit))
		}),
		add("metric over an empty domain", func() (speed.Metric, error) {
			d, err := speed.NewPCPInstanceDomain("e", nil)
			if err != nil {
				return nil, err
			}
			return nn(speed.NewPCPInstanceMetric(nil, "over.e", d, speed.StringType, speed.InstantSemantics, speed.OneUnit))
		}),
		add("metric over the other domain of that name", func() (speed.Metric, error) {
			d, err := speed.NewPCPInstanceDomain("t", []string{"b"})
			if err != nil {
				return nil, err
			}
			return nn(speed.NewPCPInstanceMetric(speed.Instances{"b": 1}, "over.t", d, speed.Int32Type, speed.InstantSemantics, speed.OneUnit))
		}),
		add("wrapped metric", func() (speed.Metric, error) {
			m, err := speed.NewPCPCounter(0, "wrapped")
			return fakeMetric{m}, err
		}),
		add("foreign metric", func() (speed.Metric, error) { return bareMetric{}, nil }),
		{"wrapped domain", func(h *H, c *speed.PCPClient) {
			if d, err := speed.NewPCPInstanceDomain("wrapped", []string{"a"}); err == nil {
				_ = c.RegisterIndom(fakeIndom{d})
			}
		}},
		add("metric with long name", func() (speed.Metric, error) { return nn(speed.NewPCPGauge(1, rep("g", 255))) }),
		add("metric with too long name", func() (speed.Metric, error) { return nn(speed.NewPCPGauge(1, rep("g", 256))) }),
		add("empty string", func() (speed.Metric, error) {
			return nn(speed.NewPCPSingletonMetric("", "es", speed.StringType, speed.InstantSemantics, speed.OneUnit))
		}),
		add("metric without unit", func() (speed.Metric, error) {
			return nn(speed.NewPCPSingletonMetric(1, "nu", speed.Int32Type, speed.InstantSemantics, nil))
		}),
		add("instance metric without unit", func() (speed.Metric, error) {
			d, err := speed.NewPCPInstanceDomain("nud", []string{"a"})
			if err != nil {
				return nil, err
			}
			return nn(speed.NewPCPInstanceMetric(speed.Instances{"a": 1}, "nui", d, speed.Int32Type, speed.InstantSemantics, nil))
		}),
		add("histogram without unit", func() (speed.Metric, error) { return nn(speed.NewPCPHistogram("nuh", 0, 100, 1, nil)) }),
		{"string without unit", func(h *H, c *speed.PCPClient) {
			_, _ = c.RegisterString("nu.string", 1, speed.Int32Type, speed.InstantSemantics, nil)
		}},
		{"string with instances and without unit", func(h *H, c *speed.PCPClient) {
			_, _ = c.RegisterString("nu.in[a,b].x", speed.Instances{"a": 1, "b": 2}, speed.Int32Type, speed.InstantSemantics, nil)
		}},
		str("s[a,b].t", speed.Instances{"a": "x", "b": "y"}, speed.StringType),
		str("s[a,b]", speed.Instances{"a": 1, "b": 2}, speed.Int32Type),
		str("s[a].u", speed.Instances{"a": "x", "b": "y"}, speed.StringType),
		str("plain", 1.5, speed.DoubleType),
	}
}

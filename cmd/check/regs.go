package main

import (
	"strings"

	"github.com/performancecopilot/speed/v4"
)

func vals(kv ...interface{}) map[string]interface{} {
	m := map[string]interface{}{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

func v1(v interface{}) map[string]interface{} { return map[string]interface{}{"": v} }

func single(name string, t speed.MetricType, v interface{}, desc ...string) MSpec {
	return MSpec{Kind: "single", Name: name, Type: t, Sem: speed.InstantSemantics, Unit: speed.OneUnit, Code: codeOne, Vals: v1(v), Desc: desc}
}

func inst(name, indom string, t speed.MetricType, v map[string]interface{}, desc ...string) MSpec {
	return MSpec{Kind: "inst", Name: name, Type: t, Sem: speed.DiscreteSemantics, Unit: speed.SecondUnit, Code: 1<<24 | 3<<12, Indom: indom, Vals: v, Desc: desc}
}

func counter(name string, v int64, desc ...string) MSpec {
	return MSpec{Kind: "counter", Name: name, Vals: v1(v), Desc: desc}
}

func gauge(name string, v float64, desc ...string) MSpec {
	return MSpec{Kind: "gauge", Name: name, Vals: v1(v), Desc: desc}
}

func timer(name string, desc ...string) MSpec {
	return MSpec{Kind: "timer", Name: name, Unit: speed.NanosecondUnit, Code: codeNanos, Desc: desc}
}

func hist(name string, desc ...string) MSpec {
	return MSpec{Kind: "hist", Name: name, Unit: speed.OneUnit, Code: codeOne, Lo: 0, Hi: 100, Sig: 1, Desc: desc}
}

func cvec(name string, v map[string]interface{}, desc ...string) MSpec {
	return MSpec{Kind: "cvec", Name: name, Vals: v, Desc: desc}
}

func gvec(name string, v map[string]interface{}, desc ...string) MSpec {
	return MSpec{Kind: "gvec", Name: name, Vals: v, Desc: desc}
}

func rep(c string, n int) string { return strings.Repeat(c, n) }

type namedReg struct {
	Name string
	R    RSpec
	Big  int // 0: small enough for 3 delays
}

// regs are the registries Start is explored on.
func regs() []namedReg {
	long63, long64 := "m."+rep("x", 61), "m."+rep("y", 62)
	i63, i64, i255 := rep("i", 63), rep("j", 64), rep("k", 255)
	i32 := speed.Int32Type
	return []namedReg{
		{"empty", RSpec{}, 0},
		{"int", RSpec{Metrics: []MSpec{single("a.int", i32, 42)}}, 0},
		{"string", RSpec{Metrics: []MSpec{single("a.str", speed.StringType, "hello", "short", "long text")}}, 0},
		{"counter+gauge", RSpec{Metrics: []MSpec{counter("c", 7, "only short"), gauge("g", -1.5)}, Flag: speed.NoPrefixFlag}, 1},
		{"two strings", RSpec{Metrics: []MSpec{single("s.one", speed.StringType, "one"), single("s.two", speed.StringType, rep("z", 255), "", "second only")}}, 1},
		{"indom alone", RSpec{Indoms: []ISpec{{"d", []string{"p", "q"}, []string{"dshort", "dlong"}, ""}}, RegInd: []string{"d"}}, 0},
		{"indom without instances", RSpec{Indoms: []ISpec{{"d", nil, []string{"nothing"}, ""}}, RegInd: []string{"d"}}, 0},
		{"empty indom and metric", RSpec{Indoms: []ISpec{{"d", nil, nil, ""}}, RegInd: []string{"d"}, Metrics: []MSpec{single("a", i32, 1)}}, 0},
		{"metric without instances", RSpec{Indoms: []ISpec{{"d", nil, nil, ""}}, Metrics: []MSpec{inst("im", "d", i32, nil), single("a", i32, 1)}}, 0},
		{"metric without instances alone", RSpec{Indoms: []ISpec{{"d", nil, nil, ""}}, Metrics: []MSpec{inst("im", "d", i32, nil)}}, 0},
		{"instances", RSpec{Indoms: []ISpec{{"d", []string{"p", "q"}, nil, ""}}, Metrics: []MSpec{inst("im", "d", speed.Int64Type, vals("p", int64(-5), "q", int64(6)), "imshort")}}, 0},
		{"shared indom", RSpec{Indoms: []ISpec{{"d", []string{"p", "q"}, []string{"ds"}, ""}}, Metrics: []MSpec{
			inst("m1", "d", speed.Uint32Type, vals("p", uint32(1), "q", uint32(2))), inst("m2", "d", speed.StringType, vals("p", "sp", "q", "sq"))}}, 2},
		{"two indoms", RSpec{Indoms: []ISpec{{"d", []string{"p"}, nil, ""}, {"e", []string{"p", "r"}, nil, ""}}, RegInd: []string{"e"}, Metrics: []MSpec{
			inst("m1", "d", speed.FloatType, vals("p", float32(2.5))), inst("m2", "e", speed.DoubleType, vals("p", 1.0, "r", 2.0))}}, 2},
		{"name of 63", RSpec{Metrics: []MSpec{single(long63, i32, 3), single("b", speed.Uint64Type, uint64(1)<<63)}}, 1},
		{"name of 64", RSpec{Metrics: []MSpec{single(long64, i32, 3, "with", "texts")}}, 0},
		{"instance of 63", RSpec{Indoms: []ISpec{{"d", []string{i63}, nil, ""}}, Metrics: []MSpec{inst("im", "d", i32, vals(i63, 1))}}, 0},
		{"instance of 64", RSpec{Indoms: []ISpec{{"d", []string{i64, "s"}, []string{"v2 indom"}, ""}}, Metrics: []MSpec{inst("im", "d", i32, vals(i64, 1, "s", 2))}}, 1},
		{"long instance, indom alone", RSpec{Indoms: []ISpec{{"d", []string{i255}, nil, ""}}, RegInd: []string{"d"}}, 0},
		{"version 2 mixed", RSpec{Indoms: []ISpec{{"d", []string{i64}, []string{"x", "y"}, ""}}, Metrics: []MSpec{
			inst("im", "d", speed.StringType, vals(i64, "text"), "is", "il"), single("b", speed.DoubleType, 0.25)}}, 2},
		{"histogram", RSpec{Metrics: []MSpec{hist("h", "hs")}}, 2},
		{"counter vector+timer", RSpec{Metrics: []MSpec{cvec("cv", vals("x", int64(1), "y", int64(2))), timer("t")}}, 2},
		{"gauge vector", RSpec{Metrics: []MSpec{gvec("gv", vals("x", 1.5), "gs", "gl")}, Flag: speed.SentinelFlag}, 0},
		{"equal texts", RSpec{Indoms: []ISpec{{"same", []string{"same", "x"}, []string{"same", "same"}, ""}}, Metrics: []MSpec{
			inst("same.i", "same", speed.StringType, vals("same", "same", "x", "same"), "same", "same"), single("same", i32, 1, "same", "same")}}, 2},
		{"equal identifiers", RSpec{Indoms: []ISpec{{"costarring", []string{"altarage", "zinke"}, nil, ""}, {"liquid", []string{"zinke", "altarage"}, nil, ""}}, Metrics: []MSpec{
			inst("declinate", "costarring", i32, vals("altarage", 1, "zinke", 2))}, RegInd: []string{"liquid"}}, 2},
		{"equal texts, version 2", RSpec{Metrics: []MSpec{single(long64, speed.StringType, long64, long64, long64), single("b", i32, 1, "b", "b")}}, 2},
	}
}

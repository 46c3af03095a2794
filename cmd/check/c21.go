package main

// C21: the file location follows the PCP configuration.  Each case runs a
// program that uses the code (this binary with -probe) in a file tree of its
// own: the program's root directory is a scratch directory, so that every
// absolute path, /etc and /tmp included, lies in it.  Where the system does
// not allow that, only the cases whose paths lie in the scratch directory
// anyway are run.

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/performancecopilot/speed/v4"

	"verif/mc"
	"verif/mc/mcos"
)

type probeSpec struct {
	Names []string
	Root  string // confine modifying calls (no chroot)
}

type probeOut struct {
	New, Start string // errors
}

// runProbe is the program: a client of each name is made and started.
func runProbe(spec string) {
	var s probeSpec
	if err := json.Unmarshal([]byte(spec), &s); err != nil {
		panic(err)
	}
	mcos.Root = s.Root
	var out []probeOut
	x := mc.NewExec(mc.Config{}, nil)
	x.Run(func() { out = s.run() })
	if x.Viol != nil {
		panic(x.Viol.Kind + ": " + x.Viol.Msg)
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(append([]byte("RESULT "), append(b, '\n')...))
}

func (s *probeSpec) run() (out []probeOut) {
	for _, n := range s.Names {
		var o probeOut
		c, err := speed.NewPCPClient(n)
		if err != nil {
			o.New = err.Error()
			out = append(out, o)
			continue
		}
		m, err := speed.NewPCPSingletonMetric(1, "m", speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
		if err == nil {
			err = c.Register(m)
		}
		if err != nil {
			panic(err)
		}
		if err := c.Start(); err != nil {
			o.Start = err.Error()
		}
		out = append(out, o)
	}
	return
}

// tree is where probes run.
type tree struct {
	dir    string
	chroot bool
	exe    string
}

func (t *tree) cmd(spec probeSpec, env []string) *exec.Cmd {
	if !t.chroot {
		spec.Root = t.dir
	}
	js, _ := json.Marshal(spec)
	c := &exec.Cmd{Path: "/probe", Args: []string{"/probe", "-probe", string(js)}, Env: env, Dir: "/",
		SysProcAttr: &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}}
	if t.chroot {
		c.SysProcAttr.Chroot = t.dir
		c.SysProcAttr.Cloneflags = syscall.CLONE_NEWUSER
		c.SysProcAttr.UidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}}
		c.SysProcAttr.GidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}
	} else {
		c.Path, c.Dir = t.exe, t.dir
	}
	return c
}

// clear removes everything but the program.
func (t *tree) clear() {
	l, _ := os.ReadDir(t.dir)
	for _, e := range l {
		if e.Name() != "probe" {
			os.RemoveAll(filepath.Join(t.dir, e.Name()))
		}
	}
}

func (t *tree) files() (l []string) {
	filepath.Walk(t.dir, func(p string, fi os.FileInfo, err error) error {
		if r, _ := filepath.Rel(t.dir, p); err == nil && !fi.IsDir() && r != "probe" {
			l = append(l, "/"+r)
		}
		return nil
	})
	sort.Strings(l)
	return
}

// newTree prepares a tree; it tries whether a program can be run in it.
func newTree(w *W) *tree {
	t := &tree{dir: filepath.Join(w.Tmp, "root"), chroot: true}
	os.RemoveAll(t.dir)
	if err := os.MkdirAll(t.dir, 0755); err != nil {
		panic(err)
	}
	t.exe, _ = os.Readlink("/proc/self/exe")
	in, err := os.Open("/proc/self/exe")
	if err != nil {
		panic(err)
	}
	defer in.Close()
	o, err := os.OpenFile(filepath.Join(t.dir, "probe"), os.O_CREATE|os.O_WRONLY, 0755)
	if err != nil {
		panic(err)
	}
	if _, err := io.Copy(o, in); err != nil {
		panic(err)
	}
	o.Close()
	if out, err := t.cmd(probeSpec{}, nil).CombinedOutput(); err != nil || !strings.Contains(string(out), "RESULT ") {
		t.chroot = false
		w.samples = append(w.samples, fmt.Sprintf("NOTE: no private root directory (%v): only cases inside the scratch directory", err))
	}
	t.clear()
	return t
}

type c21case struct {
	dir, conf, tmp *string           // PCP_DIR, PCP_CONF, TMPDIR
	files          map[string]string // configuration files; a name ending in / is a directory
	names          []string
	more           []string // other environment variables, NAME=value
}

func strp(s string) *string { return &s }

func show(p *string) string {
	if p == nil {
		return "unset"
	}
	return fmt.Sprintf("%q", *p)
}

func (c *c21case) String() string {
	var l []string
	for n, s := range c.files {
		if len(s) > 1000 {
			s = s[:30] + fmt.Sprintf("[%d bytes]", len(s)) + s[len(s)-30:]
		}
		l = append(l, fmt.Sprintf("%s=%q", n, s))
	}
	sort.Strings(l)
	m := ""
	if c.more != nil {
		m = fmt.Sprintf(" others %q", c.more)
	}
	return fmt.Sprintf("PCP_DIR %s PCP_CONF %s TMPDIR %s%s files {%s} names %q", show(c.dir), show(c.conf), show(c.tmp), m, strings.Join(l, " "), c.names)
}

// location is the reference: the directory of the client files.
func (c *c21case) location() string {
	root := "/"
	if c.dir != nil {
		root = *c.dir
	}
	conf := root + "/etc/pcp.conf"
	if c.conf != nil {
		conf = *c.conf
	}
	text, there := c.files[filepath.Join("/", conf)]
	tdir, set := "", false
	if there {
		for _, l := range strings.Split(text, "\n") {
			k, v, eq := strings.Cut(l, "=")
			if eq && k == "PCP_TMP_DIR" {
				tdir, set = v, true
			}
		}
	}
	d := "/tmp"
	if c.tmp != nil && *c.tmp != "" {
		d = *c.tmp
	}
	if set {
		d = root + "/" + tdir
	}
	return filepath.Join("/", d, "mmv")
}

func plainName(n string) bool {
	return n != "" && n != "." && n != ".." && !strings.Contains(n, "/") && !strings.Contains(n, "\x00") && len(n) <= 255
}

func (t *tree) run(w *W, c *c21case) bool {
	return w.Exec(c.String(), func(h *H) {
		t.clear()
		at := func(p string) string { return filepath.Join(t.dir, p) }
		in := func(p *string) *string { // paths of the program
			if p == nil || t.chroot {
				return p
			}
			return strp(filepath.Join(t.dir, *p))
		}
		env := append([]string{"HOME=/home"}, c.more...)
		var want []string
		set := func(k string, v *string) {
			if v != nil {
				env = append(env, k+"="+*v)
			}
		}
		set("PCP_DIR", in(c.dir))
		set("PCP_CONF", in(c.conf))
		set("TMPDIR", in(c.tmp))
		for n, s := range c.files {
			if strings.HasSuffix(n, "/") {
				os.MkdirAll(at(n), 0755)
				continue
			}
			if err := os.MkdirAll(filepath.Dir(at(n)), 0755); err != nil {
				panic(err)
			}
			if err := os.WriteFile(at(n), []byte(s), 0644); err != nil {
				panic(err)
			}
			want = append(want, n)
		}
		loc := c.location()
		cmd := t.cmd(probeSpec{Names: c.names}, env)
		o, err := cmd.CombinedOutput()
		var outs []probeOut
		_, js, found := strings.Cut(string(o), "RESULT ")
		if err != nil || !found || json.Unmarshal([]byte(js), &outs) != nil || len(outs) != len(c.names) {
			h.Fail("program", "the program fails: %v: %.600s", err, o)
		}
		for i, n := range c.names {
			r := outs[i]
			h.checks++
			if plainName(n) {
				if r.New != "" || r.Start != "" {
					h.Fail("refused", "client %q: %s%s; its file should be %s", n, r.New, r.Start, filepath.Join(loc, n))
				}
				want = append(want, filepath.Join(loc, n))
			} else if r.New == "" && r.Start == "" {
				h.Fail("accepted", "a client named %q is accepted; files: %q", n, t.files())
			}
		}
		sort.Strings(want)
		if got := t.files(); !eqStrings(got, want) {
			h.Fail("location", "files %q, expected %q", got, want)
		}
		w.State(fmt.Sprint(want))
	})
}

func init() {
	props["C21"] = func(tier string) (l []*Scenario) {
		one := []string{"client"}
		lines := []string{"PCP_TMP_DIR=/var/tmp", "PCP_TMP_DIR=/second", "#PCP_TMP_DIR=/no", "# PCP_TMP_DIR=/no", "PCP_TMP_DIR", "PCP_TMP_DIR2=/no", "XPCP_TMP_DIR=/no",
			"-PCP_TMP_DIR=/no", "PCP_TMP_DIR =/no", "pcp_tmp_dir=/no", "PCP_TMP_DIR=/a b", "PCP_TMP_DIR=/x=y", "PCP_TMP_DIR=rel/dir", "", "PCP_DIR=/no",
			"PCP_TMP_DIR=/trail ", "PCP_TMP_DIR=/d/../up", "PCP_TMP_DIR=\"/quoted\"", "PCP_TMP_DIR=/$HOME", "PCP_TMP_DIR=/hash#tag", "A=PCP_TMP_DIR=/no", "/PCP_TMP_DIR=/no", "PCP_TMP_DIR=/caf\u00e9\xff"}
		n := 2
		if tier == "thorough" {
			n = 3
		}
		l = append(l, &Scenario{Name: "configuration lines", Shards: 8, Enum: func(w *W) {
			t := newTree(w)
			i := 0
			for k := 0; k <= n; k++ {
				words(k, len(lines), func(_ int, word []int) bool {
					for last := 0; last < 2; last++ {
						if i++; !w.Mine(i) || k == 0 && last == 1 {
							continue
						}
						s := ""
						for j, x := range word {
							if j > 0 {
								s += "\n"
							}
							s += lines[x]
						}
						if last == 0 {
							s += "\n"
						}
						c := &c21case{dir: strp("/pcp"), tmp: strp("/t"), files: map[string]string{"/pcp/etc/pcp.conf": s}, names: one}
						if !t.run(w, c) {
							return false
						}
					}
					return true
				})
			}
		}})
		// variables of the environment that are not the ones that count
		l = append(l, &Scenario{Name: "other variables", Shards: 4, Enum: func(w *W) {
			t := newTree(w)
			vars := []string{"PCP_TMP_DIR", "PCP_TMPDIR", "PCP_TMPFILE_DIR", "PCP_RUN_DIR", "PCP_VAR_DIR", "PCP_LOG_DIR", "PCP_ROOT", "PCP_ETC_DIR", "PCP_SYSCONF_DIR", "PCP_CONF_DIR", "PCP_CONFIG",
				"PCP_MMV_DIR", "MMV_DIR", "TMP", "TEMP", "TEMPDIR", "XDG_RUNTIME_DIR", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "PWD", "DESTDIR", "ROOT", "PREFIX", "PCP_PREFIX", "HOME", "USER", "pcp_dir", "PCP_dir", "SPEED_DIR"}
			var sets [][]string
			for _, v := range []string{"/envno", "/tmp", "envrel", "", "mmv"} {
				all := []string{}
				for _, k := range vars {
					sets = append(sets, []string{k + "=" + v})
					all = append(all, k+"="+v)
				}
				sets = append(sets, all)
			}
			i := 0
			for _, more := range sets {
				for _, conf := range []string{"PCP_TMP_DIR=/conf\n", "OTHER=/conf\n", "absent"} {
					for k := 0; k < 4; k++ {
						if i++; !w.Mine(i) {
							continue
						}
						c := &c21case{files: map[string]string{}, names: one, more: more}
						at := "/etc/pcp.conf"
						if k&1 != 0 || !t.chroot {
							c.dir = strp("/pcp")
							at = "/pcp/etc/pcp.conf"
						}
						if k&2 != 0 || !t.chroot {
							c.tmp = strp("/t")
						}
						if conf != "absent" {
							c.files[at] = conf
						}
						if !t.run(w, c) {
							return
						}
					}
				}
			}
		}})
		// lines of every kind and many lengths, and many lines
		l = append(l, &Scenario{Name: "long configurations", Shards: 4, Enum: func(w *W) {
			t := newTree(w)
			i := 0
			for _, n := range []int{1, 255, 256, 1023, 1024, 4094, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 131072, 1 << 20} {
				for _, long := range []string{"#" + rep("c", n), "OTHER=" + rep("v", n), rep("K", n) + "=v", rep(" ", n), rep("# a\n", n/4) + "#", rep("A=b\n", n/4), rep("\n", n)} {
					for pos := 0; pos < 3; pos++ {
						if i++; !w.Mine(i) {
							continue
						}
						l := []string{"PCP_TMP_DIR=/one", "PCP_TMP_DIR=/two"}
						l = append(l[:pos:pos], append([]string{long}, l[pos:]...)...)
						c := &c21case{dir: strp("/pcp"), tmp: strp("/t"), files: map[string]string{"/pcp/etc/pcp.conf": strings.Join(l, "\n") + "\n"}, names: one}
						if !t.run(w, c) {
							return
						}
					}
				}
			}
			for n := 1; n <= 1000; n += 37 { // long values
				for _, sep := range []string{"/", "d", "= "} {
					if i++; !w.Mine(i) {
						continue
					}
					v := ""
					for len(v) < n {
						v += "/" + rep(sep[:1], 30) + sep
					}
					if !t.run(w, &c21case{dir: strp("/pcp"), tmp: strp("/t"), files: map[string]string{"/pcp/etc/pcp.conf": "PCP_TMP_DIR=" + v + "\n"}, names: one}) {
						return
					}
				}
			}
		}})
		l = append(l, &Scenario{Name: "environments and configuration files", Shards: 8, Enum: func(w *W) {
			t := newTree(w)
			i := 0
			dirs := []*string{nil, strp("/"), strp("/pcp"), strp("/pcp/"), strp("/deep/er/pcp"), strp("pcp"), strp("")}
			confs := []*string{nil, strp("/conf/my.conf"), strp("/missing"), strp("/pcp/etc/pcp.conf"), strp("/adir")}
			places := []string{"/etc/pcp.conf", "/pcp/etc/pcp.conf", "/conf/my.conf", "/deep/er/pcp/etc/pcp.conf"}
			texts := []string{"", "PCP_TMP_DIR=/from", "PCP_VERSION=5\n#PCP_TMP_DIR=/x\n"}
			for _, d := range dirs {
				for _, cf := range confs {
					for _, tm := range []*string{nil, strp("/t"), strp("/t/u/")} {
						words(len(places), len(texts)+1, func(_ int, word []int) bool {
							if i++; !w.Mine(i) || !t.chroot && (d == nil && cf == nil || tm == nil || d != nil && !strings.HasPrefix(*d, "/")) {
								return true
							}
							c := &c21case{dir: d, conf: cf, tmp: tm, files: map[string]string{}, names: one}
							c.files["/adir/"] = ""
							for j, x := range word {
								if x > 0 {
									s := texts[x-1]
									if strings.Contains(s, "/from") {
										s += fmt.Sprint(j) + "\n"
									}
									c.files[places[j]] = s
								}
							}
							if tier != "thorough" && i%3 != 0 && len(c.files) > 3 {
								return true
							}
							return t.run(w, c)
						})
					}
				}
			}
		}})
		// directories with names of every kind
		l = append(l, &Scenario{Name: "unusual directories", Shards: 8, Enum: func(w *W) {
			t := newTree(w)
			dirs := []string{"/mmv", "mmv", "/mmv/", "/a/mmv", "/a/mmv/mmv", "/mmv/a", "/pcp", "/pcp/tmp", "/tmp", "tmp", "/etc", "/var/tmp/mmv/", ".", "..", "./x", "../x", "/", "//x", "/x//y", "/x/../y", "/x/./y/", "/x/..", "~", "/~", "/%d", "/%s%v", "%", "/x y", " /x", "-", "-x", "C:\\tmp",
				"\\x", "/x*", "/?", "/[x]", "/{x}", "/$TMPDIR", "/${PCP_DIR}", "/\u00e9", "/\xff", "/e\u0301", "/x#y", "/x;y", "/x&y", "/x|y", "/'x'", "/x:y", "/x,y", "/x@y", "/x.d", "/.x", "/...", "/MMV", "/mmv.d", "/" + rep("d", 255), "/" + rep("d", 200) + "/" + rep("e", 200)}
			i := 0
			for _, d := range dirs {
				for _, e := range append([]string{"/pcp", "/t"}, dirs...) {
					for k := 0; k < 4; k++ {
						if i++; !w.Mine(i) || k > 0 && e != "/pcp" && e != "/t" && tier != "thorough" {
							continue
						}
						c := &c21case{dir: strp("/pcp"), files: map[string]string{}, names: one}
						switch k {
						case 0: // PCP_TMP_DIR, below another directory
							if !strings.HasPrefix(e, "/") {
								continue
							}
							c.dir, c.tmp = strp(e), strp("/t")
							c.files[filepath.Join(e, "etc/pcp.conf")] = "PCP_TMP_DIR=" + d + "\n"
						case 1: // TMPDIR
							c.dir, c.tmp = strp(e), strp(d)
						case 2: // PCP_DIR
							c.dir, c.tmp = strp(d), strp("/t")
							c.files[filepath.Join("/", d, "etc/pcp.conf")] = "PCP_TMP_DIR=" + e + "\n"
						case 3: // PCP_CONF
							c.conf, c.tmp = strp(d+"/x.conf"), strp("/t")
							c.files[filepath.Join("/", d, "x.conf")] = "PCP_TMP_DIR=" + e + "\n"
						}
						if k > 1 && strings.Contains(d, "..") {
							c.files["/x/"] = "" // the way to it
						}
						if !t.chroot && (k == 3 || !strings.HasPrefix(d, "/")) {
							continue
						}
						if !t.run(w, c) {
							return
						}
					}
				}
			}
		}})
		l = append(l, &Scenario{Name: "client names", Shards: 4, Enum: func(w *W) {
			t := newTree(w)
			i := 0
			syms := []string{"a", ".", "/", " ", "\\", "\u00e9", "\x00", "-", "~", ":"}
			for k := 0; k <= 3; k++ {
				words(k, len(syms), func(_ int, word []int) bool {
					if i++; !w.Mine(i) {
						return true
					}
					s := ""
					for _, x := range word {
						s += syms[x]
					}
					return t.run(w, &c21case{dir: strp("/pcp"), files: map[string]string{"/pcp/etc/pcp.conf": "PCP_TMP_DIR=/var\n"}, tmp: strp("/t"), names: []string{s}})
				})
			}
			for _, s := range []string{"../../x", "a/../b", "....", "..a", "a..", "/etc/passwd", rep("n", 255), rep("n", 256), rep("n", 1000), "mmv", "probe", "con", "a\nb", "*"} {
				if i++; !w.Mine(i) {
					continue
				}
				if !t.run(w, &c21case{dir: strp("/pcp"), tmp: strp("/t"), names: []string{s}}) {
					return
				}
			}
			// several clients in one process
			if w.Mine(i + 1) {
				t.run(w, &c21case{dir: strp("/pcp"), tmp: strp("/t"), names: []string{"a", "b", "..", "c", "", "d/e", "f"}})
				t.run(w, &c21case{dir: strp("/pcp"), tmp: strp("/t"), files: map[string]string{"/pcp/etc/pcp.conf": "PCP_TMP_DIR=/var\n"}, names: []string{"a", "b"}})
			}
		}})
		return l
	}
}

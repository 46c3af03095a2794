package main

// C27: the mmvdump command prints the dump of its file or fails.
//
// The command is built from the working tree (run.sh puts its path in
// VERIF_MMVDUMP) and run as a process of its own on every file of a family, in
// every way of naming the file, and with outputs that fail.

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/mc"
)

// cli runs the command in a directory.
func cli(h *H, dir string, out *limPipe, args ...string) (stdout string, status int) {
	exe := os.Getenv("VERIF_MMVDUMP")
	if exe == "" {
		h.Fail("harness", "the command was not built")
	}
	c := exec.Command(exe, args...)
	c.Dir = dir
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	if out != nil {
		c.Stdout = out.w
	}
	if err := c.Start(); err != nil {
		h.Fail("harness", "%v", err)
	}
	if out != nil {
		out.begin()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(30 * time.Second):
		c.Process.Kill()
		<-done
		h.Fail("hang", "mmvdump %q does not end", args)
	}
	h.checks++
	var x *exec.ExitError
	if errors.As(err, &x) {
		status = x.ExitCode()
		if status == 0 {
			status = -1
		}
	} else if err != nil {
		h.Fail("harness", "%v", err)
	}
	if strings.Contains(e.String(), "fatal error:") {
		h.Fail("crash", "mmvdump %q: %s", args, head(e.String(), 300))
	}
	return o.String(), status
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// limPipe is an output that is closed after n bytes (n < 0: /dev/full).
type limPipe struct {
	r, w *os.File
	n    int
}

func newPipe(h *H, n int) *limPipe {
	p := &limPipe{n: n}
	var err error
	if n < 0 {
		p.w, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	} else {
		p.r, p.w, err = os.Pipe()
	}
	if err != nil {
		h.Fail("harness", "%v", err)
	}
	if n == 0 {
		p.r.Close()
	}
	return p
}

func (p *limPipe) begin() {
	p.w.Close()
	if p.n > 0 {
		b := make([]byte, p.n)
		for k := 0; k < p.n; {
			m, err := p.r.Read(b[k:])
			if err != nil {
				break
			}
			k += m
		}
		p.r.Close()
	}
}

// cliText checks a printed text.
func cliText(h *H, name, out string, b []byte) {
	want, ok := rawText(b)
	if !ok {
		h.Fail("harness", "the file has references to nothing")
	}
	i := strings.IndexByte(out, '\n')
	if i < 0 {
		h.Fail("text", "mmvdump prints %q", out)
	}
	if f := strings.SplitN(out[:i], "=", 2); len(f) != 2 || strings.TrimSpace(f[0]) != "File" || strings.TrimPrefix(f[1], " ") != name {
		h.Fail("text", "mmvdump %q begins with %q", name, out[:i])
	}
	if df := textDiff(want, normText(out[i+1:])); df != "" {
		h.Fail("text", "mmvdump prints: %s", df)
	}
	h.W.distinct[mc.HashString(string(b)+name)] = struct{}{}
}

func init() {
	props["C27"] = func(tier string) (l []*Scenario) {
		put := func(h *H, name string, b []byte) string {
			h.clean()
			p := filepath.Join(h.Tmp, name)
			if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
				panic(err)
			}
			if err := os.WriteFile(p, b, 0644); err != nil {
				panic(err)
			}
			return p
		}
		good := func(h *H, b []byte) {
			p := put(h, "file", b)
			out, st := cli(h, h.Tmp, nil, p)
			if st != 0 {
				h.Fail("status", "mmvdump of a valid file: status %d", st)
			}
			cliText(h, p, out, b)
			if x, err := os.ReadFile(p); err != nil || !bytes.Equal(x, b) {
				h.Fail("file", "mmvdump changed its file (%v)", err)
			}
		}
		l = append(l, &Scenario{Name: "files of clients", Shards: 2, Enum: func(w *W) {
			for i, r := range regs() {
				r := r
				if w.Mine(i) && !w.Exec(r.Name, func(h *H) { h.clean(); good(h, clientFile(h, &r.R)) }) {
					return
				}
			}
		}})
		l = append(l, &Scenario{Name: "numbers of records", Shards: 4, Enum: func(w *W) {
			max := 2
			if tier == "thorough" {
				max = 4
			}
			i := 0
			for _, ver := range []int{1, 2} {
				for nd := 0; nd <= max; nd++ {
					for ni := 0; ni <= max; ni++ {
						for nm := 0; nm <= max; nm++ {
							for texts := 0; texts < 4; texts++ {
								if i++; !w.Mine(i) {
									continue
								}
								b := gridFile(ver, nd, ni, nm, texts, true).build()
								if !w.Exec(fmt.Sprintf("version %d, %d indoms with %d instances, %d metrics, texts %d", ver, nd, ni, nm, texts), func(h *H) { good(h, b) }) {
									return
								}
							}
						}
					}
				}
			}
			for _, n := range []int{17, 65, 257, 1025} {
				for _, ver := range []int{1, 2} {
					for kind := 0; kind < 6; kind++ {
						if i++; !w.Mine(i) {
							continue
						}
						b := manyFile(ver, n, kind).build()
						if !w.Exec(fmt.Sprintf("version %d, %d records of kind %d", ver, n, kind), func(h *H) { w.beat(); good(h, b) }) {
							return
						}
					}
				}
			}
		}})
		// files of several megabytes
		l = append(l, &Scenario{Name: "large files", Shards: 4, Enum: func(w *W) {
			sizes := []int{4000, 20000, 40000}
			if tier == "thorough" {
				sizes = append(sizes, 70000, 140000)
			}
			i := 0
			for _, n := range sizes {
				for ver := 1; ver <= 2; ver++ {
					for kind := 0; kind < 2; kind++ {
						if i++; !w.Mine(i) {
							continue
						}
						var b []byte
						if kind == 0 { // many strings
							b = manyFile(ver, n, 5).build()
						} else { // few records behind many bytes of no meaning
							f := stdFile(ver)
							b = f.build()
							b = append(b, make([]byte, n*300)...)
						}
						if !w.Exec(fmt.Sprintf("version %d, %d bytes, kind %d", ver, len(b), kind), func(h *H) { w.beat(); good(h, b) }) {
							return
						}
					}
				}
			}
		}})
		// every way of naming the file, and directories and missing files
		l = append(l, &Scenario{Name: "ways of naming the file", Shards: 2, Enum: func(w *W) {
			names := []string{"file", "FILE", "a b", "ä", "%d%s", "x=y", "file.mmv", "a,b", "dir/file", "dir/../file", "./file", "-", "a-b", "--x", "\"q\"", "a\\b", "new\tline", "~", "$HOME", "*", "@file", "f.gz", "100", "0x10", "true", rep("n", 200)}
			for i, n := range names {
				for kind := 0; kind < 5; kind++ {
					n := n
					if !w.Mine(i*5 + kind) {
						continue
					}
					b := stdFile(1 + i%2).build()
					if !w.Exec(fmt.Sprintf("name %q kind %d", n, kind), func(h *H) {
						p := put(h, n, b)
						a := []string{n}
						if kind == 1 {
							a = []string{p}
						} else if n[0] == '-' && n != "-" {
							a = []string{"--", n}
						}
						if strings.HasPrefix(n, "dir/..") {
							os.MkdirAll(filepath.Join(h.Tmp, "dir"), 0755)
						}
						switch kind {
						case 2: // a missing file, with others nearby
							os.Remove(p)
							os.WriteFile(filepath.Join(h.Tmp, "other"), b, 0644)
							os.WriteFile(p+".mmv", b, 0644)
						case 3: // a directory
							os.Remove(p)
							os.MkdirAll(p, 0755)
							os.WriteFile(filepath.Join(p, "x"), b, 0644)
						case 4: // an empty file
							os.WriteFile(p, nil, 0644)
						}
						out, st := cli(h, h.Tmp, nil, a...)
						if kind > 1 {
							if st == 0 {
								h.Fail("status", "mmvdump %q (kind %d): status 0, prints %q", a, kind, head(out, 200))
							}
							return
						}
						if st != 0 {
							h.Fail("status", "mmvdump %q: status %d", a, st)
						}
						cliText(h, a[len(a)-1], out, b)
					}) {
						return
					}
				}
			}
			if w.Mine(0) {
				w.Exec("no argument", func(h *H) {
					h.clean()
					if out, _ := cli(h, h.Tmp, nil); strings.Contains(out, "TOC[") {
						h.Fail("text", "mmvdump without a file prints %q", out)
					}
				})
			}
		}})
		// files of every mode that can be read, reached by links, of other times, in other directories
		l = append(l, &Scenario{Name: "kinds of files", Shards: 4, Enum: func(w *W) {
			i := 0
			one := func(desc string, f func(h *H, p string, b []byte) string) bool {
				if i++; !w.Mine(i) {
					return true
				}
				b := stdFile(1 + i%2).build()
				return w.Exec(desc, func(h *H) {
					p := f(h, put(h, "file.mmv", b), b)
					defer os.Chmod(h.Tmp, 0755)
					x, rerr := os.ReadFile(p)
					if rerr == nil && !bytes.Equal(x, b) {
						h.Fail("harness", "the file is another one")
					}
					out, st := cli(h, h.Tmp, nil, p)
					if (rerr == nil) != (st == 0) {
						h.Fail("status", "status %d for a file that can be read: %v (%v)", st, rerr == nil, rerr)
					}
					if st == 0 {
						cliText(h, p, out, b)
					}
					h.W.distinct[mc.HashString(desc)] = struct{}{}
				})
			}
			ch := func(err error) {
				if err != nil {
					panic(err)
				}
			}
			modes := 0777
			for m := 0; m <= modes; m++ {
				if tier != "thorough" && m&0070 != (m&0700)>>3 && m&0070 != 0 {
					continue
				}
				if !one(fmt.Sprintf("mode %04o", m), func(h *H, p string, b []byte) string { ch(os.Chmod(p, os.FileMode(m))); return p }) {
					return
				}
			}
			for _, m := range []os.FileMode{os.ModeSetuid | 0644, os.ModeSetgid | 0644, os.ModeSticky | 0444} {
				if !one(fmt.Sprintf("mode %v", m), func(h *H, p string, b []byte) string { ch(os.Chmod(p, m)); return p }) {
					return
				}
			}
			for _, t := range []int64{0, 1, 1 << 31, 1 << 32, 4e9, -1} {
				if !one(fmt.Sprintf("times %d", t), func(h *H, p string, b []byte) string {
					ch(os.Chtimes(p, time.Unix(t, 0), time.Unix(t, 0)))
					return p
				}) {
					return
				}
			}
			for _, m := range []os.FileMode{0555, 0500, 0711, 0777} {
				if !one(fmt.Sprintf("directory of mode %v", m), func(h *H, p string, b []byte) string { ch(os.Chmod(h.Tmp, m)); return p }) {
					return
				}
			}
			for depth := 1; depth <= 4; depth++ {
				for kind := 0; kind < 3; kind++ {
					if !one(fmt.Sprintf("link of kind %d, depth %d", kind, depth), func(h *H, p string, b []byte) string {
						q := p
						for d := 0; d < depth; d++ {
							n := filepath.Join(h.Tmp, fmt.Sprint("link", d))
							switch kind {
							case 0:
								ch(os.Symlink(q, n))
							case 1:
								ch(os.Symlink(filepath.Base(q), n))
							case 2:
								ch(os.Link(q, n))
							}
							q = n
						}
						return q
					}) {
						return
					}
				}
			}
			for kind := 0; kind < 3; kind++ {
				if !one(fmt.Sprintf("link to nothing, kind %d", kind), func(h *H, p string, b []byte) string {
					n := filepath.Join(h.Tmp, "link")
					ch(os.Symlink([]string{"nothing", n, "."}[kind], n))
					return n
				}) {
					return
				}
			}
			one("directory reached by a link", func(h *H, p string, b []byte) string {
				n := filepath.Join(h.Tmp, "link")
				ch(os.Symlink(h.Tmp, n))
				return filepath.Join(n, "link", "file.mmv")
			})
			one("long path", func(h *H, p string, b []byte) string {
				q := h.Tmp
				for d := 0; d < 14; d++ {
					q = filepath.Join(q, rep("d", 200))
				}
				ch(os.MkdirAll(q, 0755))
				q = filepath.Join(q, "f")
				ch(os.WriteFile(q, b, 0644))
				return q
			})
		}})
		// damaged files: the status says that they are refused
		l = append(l, &Scenario{Name: "damaged files", Shards: 8, Enum: func(w *W) {
			step := 31
			if tier == "thorough" {
				step = 3
			}
			i := 0
			for _, base := range w.bases() {
				n := 0
				one := func(desc string, b []byte) bool {
					if i++; !w.Mine(i) {
						return true
					}
					b = append([]byte(nil), b...)
					return w.Exec(base.n+", "+desc, func(h *H) {
						p := put(h, "file", b)
						h.W.distinct[mc.HashString(string(b))] = struct{}{}
						_, err := rawDecode(b)
						d, r := dump(b)
						out, st := cli(h, h.Tmp, nil, p)
						refused := err != nil || r.Err
						if !refused && d != nil {
							pr := d.print(&limWriter{n: -1})
							refused = pr.Err
						}
						if refused != (st != 0) {
							h.Fail("status", "status %d although the file is refused: %v (%v, %v)", st, refused, err, r.Msg)
						}
						if st != 0 {
							return
						}
						if want, ok := rawText(b); ok {
							if df := textDiff(want, normText(out[strings.IndexByte(out, '\n')+1:])); df != "" {
								h.Fail("text", "mmvdump prints: %s", df)
							}
						}
					})
				}
				for k := 0; k <= len(base.b); k++ {
					if k%8 != 0 && k > 60 && tier != "thorough" {
						continue
					}
					if !one(fmt.Sprintf("first %d bytes", k), base.b[:k]) {
						return
					}
				}
				stop := false
				mutants(base.b, 0, func(desc string, b []byte) bool {
					if n++; n%step != 0 {
						return true
					}
					stop = !one(desc, b)
					return !stop
				})
				if stop {
					return
				}
			}
		}})
		// outputs that fail
		l = append(l, &Scenario{Name: "failing outputs", Shards: 4, Enum: func(w *W) {
			i := 0
			for ver := 1; ver <= 2; ver++ {
				for fi, b := range [][]byte{tinyFile(ver).build(), stdFile(ver).build(), manyFile(ver, 1025, 0).build()} {
					for _, n := range []int{-1, 0, 1, 64, 512, 4096} {
						if i++; !w.Mine(i) || n > 0 && fi < 2 {
							continue // the whole text fits in a pipe
						}
						n, b := n, b
						if !w.Exec(fmt.Sprintf("version %d file %d, output closed after %d bytes", ver, fi, n), func(h *H) {
							p := put(h, "file", b)
							if t, ok := rawText(b); n > 0 && (!ok || len(t) < 1<<17) {
								h.Fail("harness", "the text is too short for this case")
							}
							if _, st := cli(h, h.Tmp, newPipe(h, n), p); st == 0 {
								h.Fail("status", "status 0 although the output failed")
							}
						}) {
							return
						}
					}
				}
			}
		}})
		return l
	}
}

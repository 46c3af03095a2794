package main

// C16: writer operations stay in bounds and write little-endian exactly there.

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/performancecopilot/speed/v4/bytewriter"

	"verif/mc"
)

// wop is one operation of a writer; must is its panicking form.
type wop struct {
	n    string
	f    func(w bytewriter.Writer, off int) (int, error)
	must func(w bytewriter.Writer, off int) int
	want []byte // nil: unsupported value
}

func leBytes(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	return b
}

type c16struct struct {
	A int32
	B uint16
}

func c16ops() (l []wop) {
	add := func(n string, want []byte, f func(w bytewriter.Writer, off int) (int, error), must func(w bytewriter.Writer, off int) int) {
		l = append(l, wop{n, f, must, want})
	}
	type W = bytewriter.Writer
	val := func(v interface{}, want []byte) {
		add(fmt.Sprintf("WriteVal(%T %.30v)", v, v), want, func(w W, o int) (int, error) { return w.WriteVal(v, o) }, func(w W, o int) int { return w.MustWriteVal(v, o) })
	}
	for _, v := range []int32{0, 1, -1, 0x01020304, math.MinInt32, math.MaxInt32} {
		v := v
		add(fmt.Sprintf("WriteInt32(%d)", v), leBytes(uint64(v), 4), func(w W, o int) (int, error) { return w.WriteInt32(v, o) }, func(w W, o int) int { return w.MustWriteInt32(v, o) })
		val(v, leBytes(uint64(v), 4))
	}
	for _, v := range []uint32{0, 0x01020304, math.MaxUint32, 1 << 31} {
		v := v
		add(fmt.Sprintf("WriteUint32(%d)", v), leBytes(uint64(v), 4), func(w W, o int) (int, error) { return w.WriteUint32(v, o) }, func(w W, o int) int { return w.MustWriteUint32(v, o) })
		val(v, leBytes(uint64(v), 4))
	}
	for _, v := range []int64{0, -1, 0x0102030405060708, math.MinInt64, math.MaxInt64} {
		v := v
		add(fmt.Sprintf("WriteInt64(%d)", v), leBytes(uint64(v), 8), func(w W, o int) (int, error) { return w.WriteInt64(v, o) }, func(w W, o int) int { return w.MustWriteInt64(v, o) })
		val(v, leBytes(uint64(v), 8))
	}
	for _, v := range []uint64{0, 0x0102030405060708, math.MaxUint64, 1 << 63} {
		v := v
		add(fmt.Sprintf("WriteUint64(%d)", v), leBytes(v, 8), func(w W, o int) (int, error) { return w.WriteUint64(v, o) }, func(w W, o int) int { return w.MustWriteUint64(v, o) })
		val(v, leBytes(v, 8))
	}
	for _, v := range []float32{0, 1.5, -2.25, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(-1)), float32(math.Copysign(0, -1))} {
		v := v
		b := leBytes(uint64(math.Float32bits(v)), 4)
		add(fmt.Sprintf("WriteFloat32(%v)", v), b, func(w W, o int) (int, error) { return w.WriteFloat32(v, o) }, func(w W, o int) int { return w.MustWriteFloat32(v, o) })
		val(v, b)
	}
	for _, v := range []float64{0, 1.5, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Copysign(0, -1), math.NaN()} {
		v := v
		b := leBytes(math.Float64bits(v), 8)
		add(fmt.Sprintf("WriteFloat64(%v)", v), b, func(w W, o int) (int, error) { return w.WriteFloat64(v, o) }, func(w W, o int) int { return w.MustWriteFloat64(v, o) })
		val(v, b)
	}
	for _, v := range []string{"", "a", "\x00", "MMV", "four", "fives", "eightlen", "h\xc3\xa9\xff", "exactly12byt", "thirteen byte", rep("long", 20)} {
		v := v
		add(fmt.Sprintf("WriteString(%.14q)", v), []byte(v), func(w W, o int) (int, error) { return w.WriteString(v, o) }, func(w W, o int) int { return w.MustWriteString(v, o) })
		val(v, []byte(v))
		add(fmt.Sprintf("Write(%.14q)", v), []byte(v), func(w W, o int) (int, error) { return w.Write([]byte(v), o) }, func(w W, o int) int { return w.MustWrite([]byte(v), o) })
	}
	add("Write(nil)", []byte{}, func(w W, o int) (int, error) { return w.Write(nil, o) }, func(w W, o int) int { return w.MustWrite(nil, o) })
	// other values WriteVal is given
	val(int8(-2), leBytes(0xfe, 1))
	val(uint8(200), leBytes(200, 1))
	val(int16(-2), leBytes(0xfffe, 2))
	val(uint16(0x0102), leBytes(0x0102, 2))
	val(true, []byte{1})
	val(false, []byte{0})
	val([]byte("abc"), []byte("abc"))
	val([2]uint16{0x0102, 0x0304}, []byte{2, 1, 4, 3})
	val([]int32{1, -1}, []byte{1, 0, 0, 0, 255, 255, 255, 255})
	val(c16struct{A: -2, B: 0x0102}, []byte{0xfe, 0xff, 0xff, 0xff, 2, 1})
	n := int32(0x01020304)
	val(&n, leBytes(0x01020304, 4))
	for _, v := range []interface{}{nil, 5, uint(5), map[string]int{"a": 1}, []string{"a"}, struct{ A string }{"x"}, func() {}, make(chan int), (*int32)(nil), []interface{}{1}, error(nil), uintptr(3), struct{ A *int32 }{}} {
		val(v, nil)
	}
	return l
}

func init() {
	props["C16"] = func(tier string) (l []*Scenario) {
		ops := c16ops()
		size, depth := 13, 2
		if tier == "thorough" {
			size, depth = 26, 3
		}
		offs := func(n int) (r []int) {
			for o := -18; o <= n+18; o++ {
				r = append(r, o)
			}
			for d := -2; d <= 20; d++ {
				r = append(r, math.MaxInt-20+d, math.MinInt+20-d, math.MaxInt32+d, math.MinInt32-d, -n-d-18)
			}
			return
		}
		check := func(h *H, w bytewriter.Writer, op wop, off int, must bool, look func() []byte) {
			if off > math.MaxInt-18 && off < 0 {
				panic("offset")
			}
			before := append([]byte(nil), look()...)
			var got int
			r := try(func() (interface{}, error) {
				var err error
				if must {
					got = op.must(w, off)
				} else {
					got, err = op.f(w, off)
				}
				return nil, err
			})
			name := op.n
			if must {
				name = "Must" + name
			}
			fits := op.want != nil && off >= 0 && off <= len(before) && len(op.want) <= len(before)-off
			want := Res{}
			if !fits {
				want = Res{Err: !must, Panic: must}
			}
			if r.Err != want.Err || r.Panic != want.Panic {
				h.Fail("result", "%s at %d of %d bytes gives %v %s, expected %v", name, off, len(before), r, r.Msg, want)
			}
			if fits {
				if got != off+len(op.want) {
					h.Fail("offset", "%s at %d of %d bytes returns %d", name, off, len(before), got)
				}
				copy(before[off:], op.want)
			}
			if now := look(); !bytes.Equal(now, before) {
				h.Fail("bytes", "%s at %d of %d bytes leaves %x, expected %x", name, off, len(before), now, before)
			}
			h.checks++
		}
		fill := func(b []byte) {
			for i := range b {
				b[i] = byte(0xa0 + i)
			}
		}
		l = append(l, &Scenario{Name: fmt.Sprintf("%d operations at every offset of buffers up to %d", len(ops), size), Shards: 8, Enum: func(w *W) {
			i := 0
			for n := 0; n <= size; n++ {
				for _, op := range ops {
					i++
					if !w.Mine(i) {
						continue
					}
					n, op := n, op
					if !w.Exec(fmt.Sprintf("%s in %d bytes", op.n, n), func(h *H) {
						for _, o := range offs(n) {
							for k := 0; k < 3; k++ {
								// around the buffer lie bytes that must not change
								all := make([]byte, n+64)
								fill(all)
								var bw *bytewriter.ByteWriter
								look := func() []byte { return bw.Bytes() }
								if k == 2 {
									bw = bytewriter.NewByteWriter(n)
									for _, b := range bw.Bytes() {
										if b != 0 {
											h.Fail("bytes", "a new writer is not zero")
										}
									}
								} else {
									bw = bytewriter.NewByteWriterSlice(all[32 : 32+n])
								}
								if bw.Len() != n || len(bw.Bytes()) != n {
									h.Fail("length", "a writer of %d bytes has length %d", n, bw.Len())
								}
								check(h, bw, op, o, k == 1, look)
								for j, b := range all {
									if (j < 32 || j >= 32+n) && b != byte(0xa0+j) {
										h.Fail("bytes", "%s at %d of %d bytes changes byte %d of the surrounding array", op.n, o, n, j-32)
									}
								}
							}
							w.trans += 3
						}
						w.State(fmt.Sprint(n, op.n))
					}) {
						return
					}
				}
			}
		}})
		l = append(l, &Scenario{Name: fmt.Sprintf("sequences of %d operations in memory and in a file", depth), Shards: 8, Enum: func(w *W) {
			type let struct {
				op  int
				off int
			}
			var ls []let
			step := 1
			if depth > 2 {
				step = 5
			}
			for i := 0; i < len(ops); i += 3 * step {
				for _, o := range []int{-1, 0, 3, 7, 11, 12} {
					ls = append(ls, let{i, o})
				}
			}
			words(depth, len(ls), func(i int, word []int) bool {
				if !w.Mine(i) {
					return true
				}
				d := ""
				for _, x := range word {
					d += fmt.Sprintf("%s@%d ", ops[ls[x].op].n, ls[x].off)
				}
				return w.Exec(d, func(h *H) {
					bw := bytewriter.NewByteWriter(12)
					loc := filepath.Join(h.W.Tmp, "file")
					mw, err := bytewriter.NewMemoryMappedWriter(loc, 12)
					if err != nil {
						h.Fail("setup", "%v", err)
					}
					for k, x := range word {
						check(h, bw, ops[ls[x].op], ls[x].off, (i+k)%2 == 0, bw.Bytes)
						check(h, mw, ops[ls[x].op], ls[x].off, (i+k)%2 == 1, func() []byte {
							b, err := os.ReadFile(loc)
							if err != nil {
								h.Fail("file", "%v", err)
							}
							return b
						})
					}
					if err := mw.Unmap(true); err != nil {
						h.Fail("unmap", "%v", err)
					}
					w.State(string(bw.Bytes()))
				})
			})
		}})
		l = append(l, &Scenario{Name: "memory mapped writers", Shards: 8, Cfg: mc.Config{}, Enum: func(w *W) {
			i := 0
			for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 12, 13, 40, 4095, 4096, 4097, 10000} {
				for _, op := range ops {
					i++
					if !w.Mine(i) {
						continue
					}
					n, op := n, op
					if !w.Exec(fmt.Sprintf("%s in a file of %d bytes", op.n, n), func(h *H) {
						loc := filepath.Join(h.W.Tmp, "dir", "sub", "file")
						mw, err := bytewriter.NewMemoryMappedWriter(loc, n)
						if err != nil {
							h.Fail("setup", "%v", err)
						}
						file := func() []byte {
							b, err := os.ReadFile(loc)
							if err != nil {
								h.Fail("file", "%v", err)
							}
							if !bytes.Equal(b, mw.Bytes()) {
								h.Fail("file", "the file has %d bytes that differ from the writer's at %d", len(b), firstDiff(b, mw.Bytes()))
							}
							return b
						}
						if b := file(); len(b) != n || mw.Len() != n || bytes.Count(b, []byte{0}) != n {
							h.Fail("file", "a new file of %d bytes has %d, the writer %d", n, len(b), mw.Len())
						}
						fill(mw.Bytes())
						for k, o := range []int{-1, 0, 1, n - 9, n - 8, n - 4, n - 3, n - 1, n, n + 1, math.MaxInt - 3, math.MinInt} {
							check(h, mw, op, o, k%2 == 0, file)
						}
						last := append([]byte(nil), mw.Bytes()...)
						rm := i%2 == 0
						if err := mw.Unmap(rm); err != nil {
							h.Fail("unmap", "%v", err)
						}
						b, err := os.ReadFile(loc)
						if rm && !os.IsNotExist(err) {
							h.Fail("unmap", "the file is still there")
						}
						if !rm && (err != nil || !bytes.Equal(b, last)) {
							h.Fail("unmap", "the file changed at byte %d (%v)", firstDiff(b, last), err)
						}
						if h.X.OpenFiles() != 0 || h.X.LiveRegions() != 0 {
							h.Fail("leak", "%d open files, %d mappings", h.X.OpenFiles(), h.X.LiveRegions())
						}
						w.State(fmt.Sprint(n, op.n))
					}) {
						return
					}
				}
			}
		}})
		p := 3
		if tier == "thorough" {
			p = 6
		}
		l = append(l, &Scenario{Name: "concurrent writes to neighbouring places", Shards: 4, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: p, FreeBlock: true}, Body: func(h *H) {
			some := []int{0, 1, 12, 21, 29, 38, 52, 68, 69, 70, 100}
			file := h.Choose(2) == 1
			var o [3]wop
			n := 0
			var at [3]int
			for i := range o {
				o[i] = ops[some[h.Choose(len(some))]]
				h.Log("%s", o[i].n)
				at[i] = n
				n += len(o[i].want)
			}
			n++
			var w bytewriter.Writer = bytewriter.NewByteWriter(n)
			var mw *bytewriter.MemoryMappedWriter
			if file {
				var err error
				h.X.Quiet(func() { mw, err = bytewriter.NewMemoryMappedWriter(filepath.Join(h.Tmp, "f"), n) })
				if err != nil {
					h.Fail("setup", "%v", err)
				}
				w = mw
			}
			var want []byte
			var fs []func()
			for i := range o {
				i := i
				want = append(want, o[i].want...)
				fs = append(fs, func() {
					off, err := o[i].f(w, at[i])
					if o[i].want == nil {
						if err == nil {
							h.Fail("result", "%s gives no error", o[i].n)
						}
						return
					}
					if err != nil || off != at[i]+len(o[i].want) {
						h.Fail("result", "%s gives %d, %v", o[i].n, off, err)
					}
				})
			}
			h.Par(fs...)
			want = append(want, 0)
			if !bytes.Equal(w.Bytes(), want) {
				h.Fail("bytes", "the buffer holds %x, expected %x", w.Bytes(), want)
			}
			h.checks++
		}})
		return append(l, c16sizes(tier))
	}
}

package main

// C17 (Dump survives every input), C18 (printing never crashes) and C19 (dump
// and print report exactly what is in the file): an independent raw decoder,
// a builder of valid files, a systematic mutation of them, and an arena whose
// data ends at an inaccessible page.

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"regexp"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/performancecopilot/speed/v4/mmvdump"

	"verif/mc"
)

// ---------------------------------------------------------------- arena

// arena gives memory that ends directly before an inaccessible page.
type arena struct {
	mem []byte
	n   int
}

func newArena(max int) *arena {
	n := (max + 4095) &^ 4095
	m, err := syscall.Mmap(-1, 0, n+8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		panic(err)
	}
	syscall.Mprotect(m[:4096], syscall.PROT_NONE)
	syscall.Mprotect(m[4096+n:], syscall.PROT_NONE)
	return &arena{m[4096 : 4096+n], n}
}

func (a *arena) place(b []byte) []byte {
	d := a.mem[a.n-len(b) : a.n : a.n]
	copy(d, b)
	return d
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// ---------------------------------------------------------- raw decoder

type rawItem struct {
	off  uint64
	text string // all fields
}

type rawToc struct {
	typ, n int32
	off    uint64
	items  []rawItem
}

type rawDump struct {
	head string
	tocs []rawToc
	odd  bool // unknown or repeated section types: not specified
}

func cutNul(b []byte) string { return fmt.Sprintf("%q", b) }

var tocNames = []string{"", "indoms", "instances", "metric", "values", "strings"}

func recSize(typ, version int32) uint64 {
	switch {
	case typ == 2 && version == 1:
		return 80
	case typ == 2:
		return 24
	case typ == 3 && version == 1:
		return 104
	case typ == 3:
		return 48
	case typ == 5:
		return 256
	}
	return 32
}

// rawDecode reads a file as it is written; an error means that dump has to
// refuse it.
func rawDecode(b []byte) (*rawDump, error) {
	if len(b) < 40 {
		return nil, errors.New("shorter than a header")
	}
	if string(b[:3]) != "MMV" {
		return nil, errors.New("no tag")
	}
	g1, g2 := le.Uint64(b[8:]), le.Uint64(b[16:])
	if g1 != g2 || g1 == 0 {
		return nil, errors.New("generation numbers")
	}
	ver := int32(le.Uint32(b[4:]))
	if ver != 1 && ver != 2 {
		return nil, errors.New("version")
	}
	n := int32(le.Uint32(b[24:]))
	if n < 0 || uint64(n) > uint64(len(b)-40)/16 {
		return nil, errors.New("contents table outside the data")
	}
	d := &rawDump{head: fmt.Sprintf("magic %q version %d g1 %d g2 %d toc %d flag %d process %d cluster %d", b[:4], ver, g1, g2, n,
		int32(le.Uint32(b[28:])), int32(le.Uint32(b[32:])), int32(le.Uint32(b[36:])))}
	seen := map[int32]bool{}
	for i := int32(0); i < n; i++ {
		p := 40 + 16*int(i)
		t := rawToc{typ: int32(le.Uint32(b[p:])), n: int32(le.Uint32(b[p+4:])), off: le.Uint64(b[p+8:])}
		if t.typ < 1 || t.typ > 5 || seen[t.typ] {
			d.odd = true
			d.tocs = append(d.tocs, t)
			continue
		}
		seen[t.typ] = true
		sz := recSize(t.typ, ver)
		if t.n < 0 {
			return nil, errors.New("negative count")
		}
		if t.off > uint64(len(b)) || uint64(t.n) > (uint64(len(b))-t.off)/sz {
			return nil, errors.New("entries outside the data")
		}
		for k := int32(0); k < t.n; k++ {
			o := t.off + uint64(k)*sz
			t.items = append(t.items, rawItem{o, rawFields(t.typ, ver, b[o:o+sz])})
		}
		d.tocs = append(d.tocs, t)
	}
	return d, nil
}

func rawFields(typ, ver int32, b []byte) string {
	switch typ {
	case 1:
		return fmt.Sprintf("indom serial %d count %d offset %d short %d long %d", le.Uint32(b), le.Uint32(b[4:]), le.Uint64(b[8:]), le.Uint64(b[16:]), le.Uint64(b[24:]))
	case 2:
		name := fmt.Sprint(le.Uint64(b[16:]))
		if ver == 1 {
			name = cutNul(b[16:80])
		}
		return fmt.Sprintf("instance indom %d pad %d id %d name %s", le.Uint64(b), le.Uint32(b[8:]), int32(le.Uint32(b[12:])), name)
	case 3:
		name, p := fmt.Sprint(le.Uint64(b)), 8
		if ver == 1 {
			name, p = cutNul(b[:64]), 64
		}
		return fmt.Sprintf("metric item %d type %d sem %d unit %#x indom %d pad %d short %d long %d name %s", le.Uint32(b[p:]), int32(le.Uint32(b[p+4:])),
			int32(le.Uint32(b[p+8:])), le.Uint32(b[p+12:]), int32(le.Uint32(b[p+16:])), le.Uint32(b[p+20:]), le.Uint64(b[p+24:]), le.Uint64(b[p+32:]), name)
	case 4:
		return fmt.Sprintf("value %#x extra %d metric %d instance %d", le.Uint64(b), int64(le.Uint64(b[8:])), le.Uint64(b[16:]), le.Uint64(b[24:]))
	}
	return cutNul(b)
}

// dumped is what the dump function returned.
type dumped struct {
	h       *mmvdump.Header
	tocs    []*mmvdump.Toc
	metrics map[uint64]mmvdump.Metric
	values  map[uint64]*mmvdump.Value
	insts   map[uint64]mmvdump.Instance
	indoms  map[uint64]*mmvdump.InstanceDomain
	strings map[uint64]*mmvdump.String
	err     error
}

func dump(b []byte) (d *dumped, r Res) {
	d = &dumped{}
	r = try(func() (interface{}, error) {
		d.h, d.tocs, d.metrics, d.values, d.insts, d.indoms, d.strings, d.err = mmvdump.Dump(b)
		return nil, d.err
	})
	return
}

func (d *dumped) print(w *limWriter) Res {
	return try(func() (interface{}, error) {
		return nil, mmvdump.Write(w, d.h, d.tocs, d.metrics, d.values, d.insts, d.indoms, d.strings)
	})
}

// raw renders the dump as the raw decoder does.
func (d *dumped) raw() *rawDump {
	h := d.h
	r := &rawDump{head: fmt.Sprintf("magic %q version %d g1 %d g2 %d toc %d flag %d process %d cluster %d", h.Magic[:], h.Version, h.G1, h.G2, h.Toc, h.Flag, h.Process, h.Cluster)}
	all := map[int32][]rawItem{}
	add := func(t int32, off uint64, f string, a ...interface{}) {
		all[t] = append(all[t], rawItem{off, fmt.Sprintf(f, a...)})
	}
	for o, i := range d.indoms {
		add(1, o, "indom serial %d count %d offset %d short %d long %d", i.Serial, i.Count, i.Offset, i.Shorttext, i.Longtext)
	}
	for o, i := range d.insts {
		name := ""
		switch i := i.(type) {
		case *mmvdump.Instance1:
			name = cutNul(i.External[:])
		case *mmvdump.Instance2:
			name = fmt.Sprint(i.External)
		default:
			name = fmt.Sprintf("of type %T", i)
		}
		add(2, o, "instance indom %d pad %d id %d name %s", i.Indom(), i.Padding(), i.Internal(), name)
	}
	for o, m := range d.metrics {
		name := ""
		switch m := m.(type) {
		case *mmvdump.Metric1:
			name = cutNul(m.Name[:])
		case *mmvdump.Metric2:
			name = fmt.Sprint(m.Name)
		default:
			name = fmt.Sprintf("of type %T", m)
		}
		add(3, o, "metric item %d type %d sem %d unit %#x indom %d pad %d short %d long %d name %s", m.Item(), int32(m.Typ()), int32(m.Sem()), uint32(m.Unit()),
			m.Indom(), m.Padding(), m.ShortText(), m.LongText(), name)
	}
	for o, v := range d.values {
		add(4, o, "value %#x extra %d metric %d instance %d", v.Val, v.Extra, v.Metric, v.Instance)
	}
	for o, s := range d.strings {
		add(5, o, "%s", cutNul(s.Payload[:]))
	}
	for _, t := range d.tocs {
		l := all[int32(t.Type)]
		delete(all, int32(t.Type))
		sort.Slice(l, func(i, j int) bool { return l[i].off < l[j].off })
		r.tocs = append(r.tocs, rawToc{int32(t.Type), t.Count, t.Offset, l})
	}
	for t, l := range all {
		r.tocs = append(r.tocs, rawToc{t, -1, 0, l})
	}
	return r
}

func (r *rawDump) String() string {
	var b strings.Builder
	b.WriteString(r.head)
	for _, t := range r.tocs {
		fmt.Fprintf(&b, "\n%s n=%d at %d", tocNameOf(t.typ), t.n, t.off)
		for _, i := range t.items {
			fmt.Fprintf(&b, "\n  %d: %s", i.off, i.text)
		}
	}
	return b.String()
}

func tocNameOf(t int32) string {
	if t >= 1 && t <= 5 {
		return tocNames[t]
	}
	return fmt.Sprint(t)
}

func textDiff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := range w {
		if i >= len(g) {
			return fmt.Sprintf("line %d %.300q is missing", i+1, w[i])
		}
		if w[i] != g[i] {
			return fmt.Sprintf("line %d is %.300q, want %.300q", i+1, g[i], w[i])
		}
	}
	if len(g) > len(w) {
		return fmt.Sprintf("additional line %d %.300q", len(w)+1, g[len(w)])
	}
	return ""
}

// ------------------------------------------------------------ printing

func unitPart(names []string, scale, dim int) string {
	if scale >= len(names) {
		return "<invalid>"
	}
	s := names[scale]
	if dim > 1 || dim < -1 {
		s += "^" + strconv.Itoa(dim)
	}
	return s
}

func sgn4(v uint32) int {
	n := int(v & 15)
	if n > 7 {
		n -= 16
	}
	return n
}

// unitText is the text mmvdump prints for a unit.
func unitText(u uint32) string {
	p := []struct {
		names      []string
		scale, dim int
	}{
		{[]string{"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"}, int(u >> 16 & 15), sgn4(u >> 28)},
		{[]string{"nsec", "usec", "msec", "sec", "min", "hr"}, int(u >> 12 & 15), sgn4(u >> 24)},
		{[]string{"count"}, int(u >> 8 & 15), sgn4(u >> 20)},
	}
	up, down := "", ""
	for _, q := range p {
		if q.dim > 0 {
			up += unitPart(q.names, q.scale, q.dim)
		}
		if q.dim < 0 {
			down += unitPart(q.names, q.scale, q.dim)
		}
	}
	if down != "" {
		return up + " / " + down
	}
	return up
}

var typeNames = map[int32]string{-1: "NoSupportType", 0: "Int32Type", 1: "Uint32Type", 2: "Int64Type", 3: "Uint64Type", 4: "FloatType", 5: "DoubleType", 6: "StringType", 255: "UnknownType"}

func valueText(v uint64, typ int32) (string, bool) {
	switch typ {
	case 0:
		return fmt.Sprint(int32(uint32(v))), true
	case 1:
		return fmt.Sprint(uint32(v)), true
	case 2:
		return fmt.Sprint(int64(v)), true
	case 3:
		return fmt.Sprint(v), true
	case 4:
		return fmt.Sprint(math.Float32frombits(uint32(v))), true
	case 5:
		return fmt.Sprint(math.Float64frombits(v)), true
	}
	return "", false
}

// rawText is the text that has to be printed (without null bytes; the name of
// the semantics replaced); ok is false when records refer to nothing.
func rawText(b []byte) (string, bool) {
	ver := int32(le.Uint32(b[4:]))
	var out strings.Builder
	pr := func(f string, a ...interface{}) { fmt.Fprintf(&out, f, a...) }
	pr("Version   = %d\nGenerated = %d\nToc Count = %d\nCluster   = %d\nProcess   = %d\nFlags     = 0x%x\n\n", ver, le.Uint64(b[8:]), int32(le.Uint32(b[24:])),
		int32(le.Uint32(b[36:])), int32(le.Uint32(b[32:])), int32(le.Uint32(b[28:])))
	d, err := rawDecode(b)
	if err != nil || d.odd {
		return "", false
	}
	at := map[int32]map[uint64]bool{}
	for _, t := range d.tocs {
		at[t.typ] = map[uint64]bool{}
		for _, i := range t.items {
			at[t.typ][i.off] = true
		}
	}
	ok := true
	txt := func(p []byte) string { return strings.ReplaceAll(string(p), "\x00", "") }
	str := func(o uint64) string {
		if !at[5][o] {
			ok = false
			return ""
		}
		return txt(b[o : o+256])
	}
	name := func(o uint64, inline uint64) string {
		if ver == 1 {
			return txt(b[o : o+inline])
		}
		return str(le.Uint64(b[o:]))
	}
	opt := func(what string, o uint64) {
		if o == 0 {
			pr("\t\t(no %s)\n", what)
		} else {
			pr("\t\t%s=%s\n", what, str(o))
		}
	}
	for ti, t := range d.tocs {
		pr("TOC[%d], offset: %d, %s offset: %d (%d entries)\n", ti, 40+16*ti, tocNames[t.typ], t.off, t.n)
		for _, it := range t.items {
			o := it.off
			switch t.typ {
			case 1:
				pr("\t[%d/%d] %d instances, starting at offset %d\n", le.Uint32(b[o:]), o, le.Uint32(b[o+4:]), le.Uint64(b[o+8:]))
				opt("shorttext", le.Uint64(b[o+16:]))
				opt("longtext", le.Uint64(b[o+24:]))
			case 2:
				io := le.Uint64(b[o:])
				if !at[1][io] {
					return "", false
				}
				pr("\t[%d/%d] instance = [%d/%s]\n", le.Uint32(b[io:]), o, int32(le.Uint32(b[o+12:])), name(o+16, 64))
			case 3:
				p := o + 64
				if ver == 2 {
					p = o + 8
				}
				typ := int32(le.Uint32(b[p+4:]))
				tn, known := typeNames[typ]
				if !known {
					tn = fmt.Sprintf("Type(%d)", typ)
				}
				pr("\t[%d/%d] %s\n", le.Uint32(b[p:]), o, name(o, 64))
				pr("\t\ttype=%s (0x%x), sem=(0x%x), pad=0x%x\n", tn, typ, int32(le.Uint32(b[p+8:])), le.Uint32(b[p+20:]))
				pr("\t\tunits=%s\n", unitText(le.Uint32(b[p+12:])))
				if ind := int32(le.Uint32(b[p+16:])); ind == -1 {
					pr("\t\t(no indom)\n")
				} else if ind == 0 {
					return "", false
				} else {
					pr("\t\tindom=%d\n", ind)
				}
				opt("shorttext", le.Uint64(b[p+24:]))
				opt("longtext", le.Uint64(b[p+32:]))
			case 4:
				val, extra, mo, io := le.Uint64(b[o:]), le.Uint64(b[o+8:]), le.Uint64(b[o+16:]), le.Uint64(b[o+24:])
				if !at[3][mo] {
					return "", false
				}
				p := mo + 64
				if ver == 2 {
					p = mo + 8
				}
				typ, ind := int32(le.Uint32(b[p+4:])), int32(le.Uint32(b[p+16:]))
				v := ""
				if typ == 6 {
					v = str(extra)
				} else {
					var known bool
					if v, known = valueText(val, typ); !known {
						return "", false
					}
				}
				pr("\t[%d/%d] %s", le.Uint32(b[p:]), o, name(mo, 64))
				if ind != -1 {
					if !at[2][io] {
						return "", false
					}
					pr("[%d or \"%s\"]", int32(le.Uint32(b[io+12:])), name(io+16, 64))
				}
				pr(" = %s\n", v)
			case 5:
				pr("\t[%d] %s\n", o, txt(b[o:o+256]))
			}
		}
		pr("\n")
	}
	return out.String(), ok
}

var semName = regexp.MustCompile(`sem=[^\n]*? ?(\(0x-?[0-9a-f]+\), pad=)`)

func normText(s string) string {
	return semName.ReplaceAllString(strings.ReplaceAll(s, "\x00", ""), "sem=$1")
}

// limWriter fails after n bytes (n < 0: never).
type limWriter struct {
	b     bytes.Buffer
	n     int
	calls int
	once  int // the number of the only call that fails, from 1
	part  bool
	bad   int // calls that failed
}

func (w *limWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.calls == w.once {
		w.bad++
		k := 0
		if w.part {
			k = len(p) / 2
		}
		w.b.Write(p[:k])
		return k, errors.New("writer fails once")
	}
	if w.n >= 0 && w.b.Len()+len(p) > w.n {
		k := w.n - w.b.Len()
		w.b.Write(p[:k])
		return k, errors.New("writer is full")
	}
	return w.b.Write(p)
}

// ------------------------------------------------------- building files

type bMetric struct {
	name        string
	item        uint32
	typ, sem    int32
	unit        uint32
	indom       int // index, -1 none
	short, long string
}

type bInst struct {
	indom int
	name  string
}

type bIndom struct {
	serial      uint32
	short, long string
}

type bValue struct {
	metric, inst int // inst -1: none
	bits         uint64
	str          string
}

type bFile struct {
	ver     int
	indoms  []bIndom
	insts   []bInst
	metrics []bMetric
	values  []bValue
	tocs    []int // section types in the order of the contents table
	order   []int // section types in the order of the data
	gap     int   // bytes between sections
	sec, at int   // section sec (if any) is at a multiple of 4096 plus at
	flag    int32
	noEmpty bool // leave empty sections out of the table
	strRev  bool // texts in reversed order
	strOne  bool // equal texts share a record
}

func (f *bFile) build() []byte {
	ver := int32(f.ver)
	var strs []string
	str := func(s string) int {
		for i, x := range strs {
			if f.strOne && x == s {
				return i
			}
		}
		strs = append(strs, s)
		return len(strs) - 1
	}
	type ref struct {
		at       int // byte position within the record
		typ, idx int
	}
	type rec struct {
		b    []byte
		refs []ref
	}
	recs := map[int][]rec{}
	opt := func(r *rec, at int, s string) {
		if s != "" {
			r.refs = append(r.refs, ref{at, 5, str(s)})
		}
	}
	for i, d := range f.indoms {
		r := rec{b: make([]byte, 32)}
		le.PutUint32(r.b, d.serial)
		n, first := 0, -1
		for k, in := range f.insts {
			if in.indom == i {
				if n == 0 {
					first = k
				}
				n++
			}
		}
		le.PutUint32(r.b[4:], uint32(n))
		if first >= 0 {
			r.refs = append(r.refs, ref{8, 2, first})
		}
		opt(&r, 16, d.short)
		opt(&r, 24, d.long)
		recs[1] = append(recs[1], r)
	}
	for _, in := range f.insts {
		r := rec{b: make([]byte, recSize(2, ver))}
		r.refs = append(r.refs, ref{0, 1, in.indom})
		le.PutUint32(r.b[12:], fnv1a(in.name, 0))
		if ver == 1 {
			copy(r.b[16:79], in.name)
		} else {
			r.refs = append(r.refs, ref{16, 5, str(in.name)})
		}
		recs[2] = append(recs[2], r)
	}
	for _, m := range f.metrics {
		r := rec{b: make([]byte, recSize(3, ver))}
		p := 64
		if ver == 1 {
			copy(r.b[:63], m.name)
		} else {
			p = 8
			r.refs = append(r.refs, ref{0, 5, str(m.name)})
		}
		le.PutUint32(r.b[p:], m.item)
		le.PutUint32(r.b[p+4:], uint32(m.typ))
		le.PutUint32(r.b[p+8:], uint32(m.sem))
		le.PutUint32(r.b[p+12:], m.unit)
		ind := uint32(math.MaxUint32)
		if m.indom >= 0 {
			ind = f.indoms[m.indom].serial
		}
		le.PutUint32(r.b[p+16:], ind)
		opt(&r, p+24, m.short)
		opt(&r, p+32, m.long)
		recs[3] = append(recs[3], r)
	}
	for _, v := range f.values {
		r := rec{b: make([]byte, 32)}
		if f.metrics[v.metric].typ == 6 {
			le.PutUint64(r.b, 255)
			r.refs = append(r.refs, ref{8, 5, str(v.str)})
		} else {
			le.PutUint64(r.b, v.bits)
		}
		r.refs = append(r.refs, ref{16, 3, v.metric})
		if v.inst >= 0 {
			r.refs = append(r.refs, ref{24, 2, v.inst})
		}
		recs[4] = append(recs[4], r)
	}
	for i := range strs {
		if f.strRev {
			i = len(strs) - 1 - i
		}
		r := rec{b: make([]byte, 256)}
		copy(r.b[:255], strs[i])
		recs[5] = append(recs[5], r)
	}
	tocs := f.tocs
	if f.noEmpty {
		tocs = nil
		for _, t := range f.tocs {
			if len(recs[t]) > 0 {
				tocs = append(tocs, t)
			}
		}
	}
	offs := map[int]uint64{}
	pos := uint64(40 + 16*len(tocs))
	for _, t := range f.order {
		pos += uint64(f.gap)
		if f.sec == t {
			pos += (uint64(f.at) - pos) & 4095
		}
		offs[t] = pos
		pos += uint64(len(recs[t])) * recSize(int32(t), ver)
	}
	b := make([]byte, pos)
	copy(b, "MMV\x00")
	le.PutUint32(b[4:], uint32(ver))
	le.PutUint64(b[8:], 1234567890123)
	le.PutUint64(b[16:], 1234567890123)
	le.PutUint32(b[24:], uint32(len(tocs)))
	le.PutUint32(b[28:], uint32(f.flag))
	le.PutUint32(b[32:], 4321)
	le.PutUint32(b[36:], 0xfff)
	for i, t := range tocs {
		le.PutUint32(b[40+16*i:], uint32(t))
		le.PutUint32(b[44+16*i:], uint32(len(recs[t])))
		le.PutUint64(b[48+16*i:], offs[t])
	}
	for t, l := range recs {
		sz := recSize(int32(t), ver)
		for i, r := range l {
			o := offs[t] + uint64(i)*sz
			copy(b[o:], r.b)
			for _, rf := range r.refs {
				if rf.typ == 5 && f.strRev {
					rf.idx = len(strs) - 1 - rf.idx
				}
				le.PutUint64(b[o+uint64(rf.at):], offs[rf.typ]+uint64(rf.idx)*recSize(int32(rf.typ), ver))
			}
		}
	}
	return b
}

var allSecs = []int{1, 2, 3, 4, 5}

// stdFile has every kind of record and reference.
func stdFile(ver int) *bFile {
	return &bFile{ver: ver, tocs: allSecs, order: allSecs, flag: 1,
		indoms: []bIndom{{0x2a5, "indom short", ""}, {77, "", "indom long"}},
		insts:  []bInst{{0, "one"}, {0, "two"}, {1, "red"}},
		metrics: []bMetric{{"plain.int", 5, 0, 3, 1 << 20, -1, "", ""}, {"by.instance", 9, 5, 1, 1<<24 | 3<<12, 0, "ms", "ml"},
			{"a.string", 12, 6, 4, 0, 1, "", "about a string"}},
		values: []bValue{{0, -1, 0xfffffffe, ""}, {1, 0, math.Float64bits(1.5), ""}, {1, 1, math.Float64bits(-2), ""}, {2, 2, 0, "the text"}}}
}

// tinyFile has one metric with one value.
func tinyFile(ver int) *bFile {
	return &bFile{ver: ver, tocs: allSecs, order: allSecs, noEmpty: true,
		metrics: []bMetric{{"m", 1, 0, 3, 0, -1, "", ""}}, values: []bValue{{0, -1, 7, ""}}}
}

func perms(l []int) (r [][]int) {
	if len(l) == 0 {
		return [][]int{{}}
	}
	for i := range l {
		rest := append(append([]int{}, l[:i]...), l[i+1:]...)
		for _, p := range perms(rest) {
			r = append(r, append([]int{l[i]}, p...))
		}
	}
	return
}

// clientFile is the file of a started client.
func clientFile(h *H, r *RSpec) []byte {
	c := h.newClient("cl", r)
	c.start()
	b, err := c.bytes()
	if err != nil {
		h.Fail("file", "%v", err)
	}
	c.stop()
	return b
}

// ------------------------------------------------------------ mutation

type base struct {
	n string
	b []byte
}

func (w *W) bases() (l []base) {
	l = append(l, base{"tiny file of version 1", tinyFile(1).build()}, base{"tiny file of version 2", tinyFile(2).build()},
		base{"file of version 1", stdFile(1).build()}, base{"file of version 2", stdFile(2).build()})
	e := tinyFile(1)
	e.metrics, e.values = nil, nil
	l = append(l, base{"empty file", e.build()})
	g := stdFile(2)
	g.gap, g.tocs, g.order = 8, []int{4, 5, 2, 3, 1}, []int{5, 3, 1, 4, 2}
	l = append(l, base{"file of version 2 with gaps", g.build()})
	return
}

func boundary(n int, others []uint64) []uint64 {
	l := []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 24, 32, 39, 40, 41, 56, 63, 64, 80, 104, 127, 128, 255, 256, 257, 65535, 65536,
		1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1 << 56, 1<<63 - 1, 1 << 63, math.MaxUint64, math.MaxUint64 - 1}
	for _, s := range []int{0, 16, 24, 32, 48, 80, 104, 256} {
		for d := -1; d <= 1; d++ {
			l = append(l, uint64(n-s+d), uint64(-(s + d)), (uint64(1)<<63)-uint64(s)+uint64(d))
			if s > 0 {
				l = append(l, uint64(n/s+d), math.MaxUint64/uint64(s)+uint64(d), (uint64(1)<<32)/uint64(s)+uint64(d), (uint64(1)<<31)/uint64(s)+uint64(d))
			}
		}
	}
	l = append(l, others...)
	seen := map[uint64]bool{}
	var r []uint64
	for _, v := range l {
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	return r
}

// mutants calls f for every mutation of the base; deep adds pairs.
func mutants(b0 []byte, deep int, f func(desc string, b []byte) bool) {
	buf := make([]byte, len(b0), len(b0)+512)
	reset := func() []byte { copy(buf, b0); return buf }
	ntoc := int(le.Uint32(b0[24:]))
	head := 40 + 16*ntoc
	var offs []uint64
	if d, err := rawDecode(b0); err == nil {
		for _, t := range d.tocs {
			for _, i := range t.items {
				offs = append(offs, i.off)
			}
			offs = append(offs, t.off+uint64(t.n)*recSize(t.typ, int32(le.Uint32(b0[4:]))))
		}
	}
	// lengths
	for n := 0; n <= len(b0)+300; n++ {
		b := reset()
		if n <= len(b0) {
			b = b[:n]
		} else {
			b = b[:n]
			for i := len(b0); i < n; i++ {
				b[i] = 0
			}
		}
		if !f(fmt.Sprintf("cut to %d bytes", n), b) {
			return
		}
	}
	// single bytes of header and contents table
	for p := 0; p < head; p++ {
		for v := 0; v < 256; v++ {
			b := reset()
			if b[p] = byte(v); !f(fmt.Sprintf("byte %d set to %d", p, v), b) {
				return
			}
		}
	}
	// fields
	vs := boundary(len(b0), offs)
	put := func(b []byte, p, sz int, v uint64) {
		if sz == 4 {
			le.PutUint32(b[p:], uint32(v))
		} else {
			le.PutUint64(b[p:], v)
		}
	}
	for p := 4; p+4 <= len(b0); p += 4 {
		for _, sz := range []int{4, 8} {
			if sz == 8 && (p%8 != 0 || p+8 > len(b0)) {
				continue
			}
			if p > head && allZeroAround(b0, p, sz) {
				continue
			}
			for _, v := range vs {
				if sz == 4 && v > math.MaxUint32 && v < 1<<63 {
					continue
				}
				b := reset()
				if put(b, p, sz, v); !f(fmt.Sprintf("field of %d bytes at %d set to %#x", sz, p, v), b) {
					return
				}
			}
		}
	}
	// count and offset of every section, the number of sections and one more field
	for t := 0; t < ntoc; t++ {
		for _, n := range vs {
			if n > math.MaxUint32 {
				continue
			}
			for _, o := range vs {
				b := reset()
				put(b, 44+16*t, 4, n)
				if put(b, 48+16*t, 8, o); !f(fmt.Sprintf("section %d: count %#x offset %#x", t, n, o), b) {
					return
				}
			}
		}
		for typ := 0; typ < 8; typ++ {
			for _, o := range vs {
				b := reset()
				put(b, 40+16*t, 4, uint64(typ))
				if put(b, 48+16*t, 8, o); !f(fmt.Sprintf("section %d: type %d offset %#x", t, typ, o), b) {
					return
				}
			}
		}
		for n := 0; n < len(b0); n++ {
			for typ := 1; typ <= 5; typ++ {
				b := reset()
				put(b, 40+16*t, 4, uint64(typ))
				if !f(fmt.Sprintf("section %d: type %d, cut to %d bytes", t, typ, n), b[:n]) {
					return
				}
			}
		}
	}
	for n := 0; n <= 2*(len(b0)/16); n++ {
		for _, cutAt := range []int{len(b0), head, 40 + 16*n, 40 + 16*n - 1} {
			if cutAt > len(b0) || cutAt < 0 {
				continue
			}
			b := reset()
			if put(b, 24, 4, uint64(n)); !f(fmt.Sprintf("%d sections, cut to %d bytes", n, cutAt), b[:cutAt]) {
				return
			}
		}
	}
	for v := 0; v < 4; v++ {
		for t := 0; t < ntoc; t++ {
			for _, n := range vs {
				b := reset()
				put(b, 4, 4, uint64(v))
				if put(b, 44+16*t, 4, n); !f(fmt.Sprintf("version %d, section %d with count %#x", v, t, uint32(n)), b) {
					return
				}
			}
		}
		for n := 0; n <= len(b0); n++ {
			b := reset()
			if put(b, 4, 4, uint64(v)); !f(fmt.Sprintf("version %d, cut to %d bytes", v, n), b[:n]) {
				return
			}
		}
	}
	if deep == 0 {
		return
	}
	// two sections at once
	few := []uint64{0, 1, 2, uint64(len(b0)), uint64(len(b0) - 32), uint64(len(b0) - 31), 1<<31 - 1, 1 << 31, math.MaxUint64, math.MaxUint64 - 31, uint64(head)}
	for t := 0; t < ntoc; t++ {
		for u := t + 1; u < ntoc; u++ {
			for _, n := range few {
				for _, o := range few {
					for _, n2 := range few {
						for _, o2 := range few {
							if n > math.MaxUint32 || n2 > math.MaxUint32 {
								continue
							}
							b := reset()
							put(b, 44+16*t, 4, n)
							put(b, 48+16*t, 8, o)
							put(b, 44+16*u, 4, n2)
							if put(b, 48+16*u, 8, o2); !f(fmt.Sprintf("section %d: count %#x offset %#x, section %d: count %#x offset %#x", t, n, o, u, n2, o2), b) {
								return
							}
						}
					}
				}
			}
		}
	}
	// two references at once
	for p := head &^ 7; p+8 <= len(b0) && deep > 1; p += 8 {
		if allZeroAround(b0, p, 8) {
			continue
		}
		for q := p + 8; q+8 <= len(b0); q += 8 {
			if allZeroAround(b0, q, 8) {
				continue
			}
			for _, v := range []uint64{0, 1, uint64(len(b0)), math.MaxUint64} {
				for _, o := range append([]uint64{math.MaxUint64, 1}, offs...) {
					b := reset()
					put(b, p, 8, v)
					if put(b, q, 8, o); !f(fmt.Sprintf("fields at %d and %d set to %#x and %#x", p, q, v, o), b) {
						return
					}
				}
			}
		}
	}
}

// allZeroAround: inside the padding of a text.
func allZeroAround(b []byte, p, sz int) bool {
	lo, hi := p-16, p+sz+8
	if lo < 0 {
		lo = 0
	}
	if hi > len(b) {
		hi = len(b)
	}
	for _, c := range b[lo:hi] {
		if c != 0 {
			return false
		}
	}
	return true
}

// shorts are byte strings that are not derived from a file.
func shorts(f func(desc string, b []byte) bool) {
	for n := 0; n <= 700; n++ {
		for _, c := range []byte{0, 1, 'M', 0x7f, 0x80, 0xff} {
			for _, pre := range []string{"", "MMV", "MMV\x00", "MMV\x00\x01\x00\x00\x00", "MMV\x00\x02\x00\x00\x00",
				"MMV\x00\x01\x00\x00\x00\x05\x00\x00\x00\x00\x00\x00\x00\x05\x00\x00\x00\x00\x00\x00\x00",
				"MMV\x00\x02\x00\x00\x00\x05\x00\x00\x00\x00\x00\x00\x00\x05\x00\x00\x00\x00\x00\x00\x00",
				"MMV\x00\x01\x00\x00\x00\x05\x00\x00\x00\x00\x00\x00\x00\x05\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00",
				"MMV\x00\x01\x00\x00\x00\x05\x00\x00\x00\x00\x00\x00\x00\x05\x00\x00\x00\x00\x00\x00\x00\x05\x00\x00\x00"} {
				b := bytes.Repeat([]byte{c}, n)
				copy(b, pre)
				if !f(fmt.Sprintf("%d bytes %#x starting %q", n, c, pre), b) {
					return
				}
			}
		}
	}
	for i := 0; i < 1<<16+257; i++ {
		b := []byte{byte(i), byte(i >> 8)}
		if i >= 1<<16 {
			b = []byte{byte(i)}
		}
		if i == 1<<16+256 {
			b = nil
		}
		if !f(fmt.Sprintf("% x", b), b) {
			return
		}
	}
}

// --------------------------------------------------------------- C17/18

// c17case dumps one input; it returns the dump if it was accepted.
func c17case(h *H, a *arena, b []byte) *dumped {
	raw, rerr := rawDecode(b)
	data := a.place(b)
	a0 := allocated()
	d, r := dump(data)
	if used, lim := allocated()-a0, uint64(4<<20+2048*len(b)); used > lim {
		h.Fail("effort", "Dump of %d bytes allocates %d bytes", len(b), used)
	}
	h.checks++
	if r.Panic {
		h.Fail("panic", "Dump panics: %s", r.Msg)
	}
	if !bytes.Equal(data, b) {
		h.Fail("modified", "Dump modifies its input")
	}
	if r.Err {
		h.W.State("refused: " + digits.ReplaceAllString(r.Msg, "N"))
		return nil
	}
	if rerr != nil {
		h.Fail("accepted", "Dump accepts the input, although: %v", rerr)
	}
	got := try(func() (interface{}, error) { return d.raw(), nil })
	if got.Panic {
		h.Fail("outside", "reading what Dump returned: %s", got.Msg)
	}
	h.W.State("accepted: " + got.Val.(*rawDump).String())
	if !raw.odd {
		if df := textDiff(raw.String(), got.Val.(*rawDump).String()); df != "" {
			h.Fail("content", "Dump: %s", df)
		}
	}
	return d
}

var digits = regexp.MustCompile(`[0-9]+`)

// c18case prints an accepted dump.
func c18case(h *H, d *dumped, raw []byte) {
	w := &limWriter{n: -1}
	r := d.print(w)
	h.checks++
	if r.Panic {
		h.Fail("panic", "Write panics: %s", r.Msg)
	}
	h.W.State("printing: " + digits.ReplaceAllString(r.Msg, "N") + w.b.String())
	if r.Err {
		return
	}
	n := 0
	for _, t := range d.tocs {
		if t.Count > 0 {
			n += int(t.Count)
		}
	}
	text := w.b.String()
	if got := strings.Count(text, "\t["); got < n {
		h.Fail("incomplete", "Write returns no error, but prints %d of %d entries", got, n)
	}
	// every entry has to be there with all its parts
	var indoms, insts, metrics, values int
	for _, t := range d.tocs {
		if t.Count > 0 {
			switch int32(t.Type) {
			case 1:
				indoms += int(t.Count)
			case 2:
				insts += int(t.Count)
			case 3:
				metrics += int(t.Count)
			case 4:
				values += int(t.Count)
			}
		}
	}
	for _, x := range []struct {
		what string
		n    int
		text []string
	}{
		{"value", values + insts + 6, []string{" = "}}, // six in the header,
		{"instance", insts, []string{"instance = ["}},
		{"domain size", indoms, []string{" instances, starting at offset "}},
		{"type", metrics, []string{"\t\ttype="}},
		{"unit", metrics, []string{"\t\tunits="}},
		{"indom", metrics, []string{"\t\tindom=", "\t\t(no indom)"}},
		{"shorttext", metrics + indoms, []string{"\t\tshorttext=", "\t\t(no shorttext)"}},
		{"longtext", metrics + indoms, []string{"\t\tlongtext=", "\t\t(no longtext)"}},
	} {
		got := 0
		for _, s := range x.text {
			got += strings.Count(text, s)
		}
		if got < x.n {
			h.Fail("incomplete", "Write returns no error, but prints %d of %d parts \"%s\"", got, x.n, x.what)
		}
	}
	if len(raw) >= 40 {
		if want, ok := rawText(raw); ok {
			if want, got := normText(want), normText(text); want != got {
				h.Fail("text", "Write returns no error, but prints something else: %s", textDiff(want, got))
			}
		}
	}
}

func c18full(h *H, d *dumped) {
	ref := &limWriter{n: -1}
	if r := d.print(ref); r.Panic {
		h.Fail("panic", "Write panics: %s", r.Msg)
	} else if r.Err {
		return
	}
	total := ref.b.Len()
	for n := 0; n < total; n++ {
		w := &limWriter{n: n}
		r := d.print(w)
		h.checks++
		if r.Panic {
			h.Fail("panic", "Write to a writer that fails after %d bytes panics: %s", n, r.Msg)
		}
		if !r.Err {
			h.Fail("writer", "Write to a writer that fails after %d of %d bytes reports no error", n, total)
		}
		if w.calls > 1 && w.b.Len() > n {
			h.Fail("writer", "writes %d bytes to a writer that fails after %d", w.b.Len(), n)
		}
		if !bytes.HasPrefix(ref.b.Bytes(), w.b.Bytes()) {
			h.Fail("writer", "what is written before the failure after %d bytes is not the beginning of the text", n)
		}
	}
	for k := 1; k <= ref.calls; k++ {
		for _, part := range []bool{false, true} {
			w := &limWriter{n: -1, once: k, part: part}
			r := d.print(w)
			h.checks++
			if r.Panic {
				h.Fail("panic", "Write to a writer whose call %d fails panics: %s", k, r.Msg)
			}
			if !r.Err && w.bad > 0 {
				h.Fail("writer", "Write to a writer whose call %d fails reports no error", k)
			}
		}
	}
}

func thrLimit(n int) int { return n/4 + 40 }

func init() {
	props["C17"] = func(tier string) (l []*Scenario) {
		deep, sh := 0, 6
		if tier == "thorough" {
			deep, sh = 2, 16
		}
		for bi, b := range (&W{}).bases() {
			bi := bi
			l = append(l, &Scenario{Name: "mutations of a " + b.n, Shards: sh, Cfg: mc.Config{MaxThr: thrLimit(len(b.b) + 300)}, Enum: func(w *W) {
				b := w.bases()[bi]
				a := newArena(len(b.b) + 512)
				i := 0
				mutants(b.b, deep, func(desc string, m []byte) bool {
					if i++; !w.Mine(i) {
						return true
					}
					return w.Exec(b.n+", "+desc, func(h *H) { c17case(h, a, m) })
				})
			}})
		}
		l = append(l, &Scenario{Name: "short and uniform inputs", Shards: 4, Cfg: mc.Config{MaxThr: thrLimit(700)}, Enum: func(w *W) {
			a := newArena(1024)
			i := 0
			shorts(func(desc string, m []byte) bool {
				if i++; !w.Mine(i) {
					return true
				}
				return w.Exec(desc, func(h *H) { c17case(h, a, m) })
			})
		}})
		l = append(l, &Scenario{Name: "files of clients", Cfg: mc.Config{MaxThr: 3000}, Shards: 4, Enum: func(w *W) {
			a := newArena(1 << 16)
			for i, r := range regs() {
				if !w.Mine(i) {
					continue
				}
				r := r
				var b []byte
				if !w.Exec(r.Name, func(h *H) { h.clean(); b = clientFile(h, &r.R) }) {
					return
				}
				for n := 0; n <= len(b); n++ {
					m := b[:n]
					if !w.Exec(fmt.Sprintf("%s, cut to %d of %d bytes", r.Name, n, len(b)), func(h *H) { c17case(h, a, m) }) {
						return
					}
				}
			}
		}})
		l = append(l, &Scenario{Name: "damaged large files", Orders: true, Cfg: mc.Config{MaxThr: 4000}, Shards: 8, Enum: func(w *W) {
			a := newArena(1 << 21)
			i := 0
			for _, n := range []int{65, 257} {
				for kind := 0; kind < 6; kind++ {
					for _, ver := range []int{1, 2} {
						b := manyFile(ver, n, kind).build()
						one := func(desc string, m []byte) bool {
							if i++; !w.Mine(i) {
								return true
							}
							w.beat()
							return w.Exec(fmt.Sprintf("version %d, %d records of kind %d, %s", ver, n, kind, desc), func(h *H) { c17case(h, a, m) })
						}
						tocs := int(int32(le.Uint32(b[24:])))
						for t := 0; t < tocs; t++ {
							at := 40 + 16*t
							cnt, off := le.Uint32(b[at+4:]), le.Uint64(b[at+8:])
							for _, c := range []uint32{0, 1, cnt - 1, cnt + 1, cnt * 2, cnt*2 + 2, cnt + 256, cnt + 1<<16, cnt + 1<<24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
								m := append([]byte(nil), b...)
								le.PutUint32(m[at+4:], c)
								if !one(fmt.Sprintf("count %d of entry %d becomes %d", cnt, t, int32(c)), m) {
									return
								}
							}
							for _, o := range []uint64{0, off - 1, off + 1, off + 8, off + 32, off + 256, uint64(len(b)), uint64(len(b)) - 1, uint64(len(b)) + 1, 1 << 32, off + 1<<32, 1<<63 - 1, 1 << 63, 1<<64 - 1, -off} {
								m := append([]byte(nil), b...)
								le.PutUint64(m[at+8:], o)
								if !one(fmt.Sprintf("offset %d of entry %d becomes %d", off, t, o), m) {
									return
								}
							}
							for _, d := range []int{-1, 0, 1} {
								if e := int(off) + d; e >= 0 && e <= len(b) {
									if !one(fmt.Sprintf("cut to %d of %d bytes", e, len(b)), b[:e]) {
										return
									}
								}
							}
						}
						for _, d := range []int{1, 4, 8, 24, 31, 32, 33, 104, 256, 257, 512} {
							if e := len(b) - d; e > 0 {
								if !one(fmt.Sprintf("cut to %d of %d bytes", e, len(b)), b[:e]) {
									return
								}
							}
						}
					}
				}
			}
		}})
		// interleavings of the reader goroutines on damaged and undamaged files
		for _, ver := range []int{1, 2} {
			ver := ver
			b0 := tinyFile(ver).build()
			var cases []base
			n := 0
			mutants(b0, 0, func(desc string, m []byte) bool {
				if strings.HasPrefix(desc, "section") || strings.HasPrefix(desc, "cut") || strings.HasPrefix(desc, "version") {
					if n++; n%97 == 0 {
						cases = append(cases, base{desc, append([]byte(nil), m...)})
					}
				}
				return true
			})
			p := 2
			if tier == "thorough" {
				p = 3
			}
			l = append(l, &Scenario{Name: fmt.Sprintf("interleavings, version %d", ver), Shards: 4, Leak: true, Cfg: mc.Config{Data: true, RelPt: true, MaxThr: 60}, B: mc.Bounds{P: p}, Body: func(h *H) {
				c := cases[h.Choose(len(cases))]
				h.Log("%s", c.n)
				c17case(h, newArenaOnce(), c.b)
			}})
			std := stdFile(ver)
			for _, dmg := range []string{"none", "values", "all", "strings", "instances and metrics"} {
				dmg := dmg
				b := std.build()
				for i := 0; i < 5; i++ {
					at := 44 + 16*i
					switch {
					case dmg == "all", dmg == "values" && i == 3, dmg == "strings" && i == 4, dmg == "instances and metrics" && (i == 1 || i == 2):
						le.PutUint32(b[at:], le.Uint32(b[at:])+1)
						le.PutUint64(b[at+4:], uint64(len(b))-40)
					}
				}
				l = append(l, &Scenario{Name: fmt.Sprintf("interleavings, version %d, damaged: %s", ver, dmg), Leak: true, Cfg: mc.Config{Data: true, RelPt: true, MaxThr: 80}, B: mc.Bounds{P: p}, Body: func(h *H) {
					c17case(h, newArenaOnce(), b)
				}})
			}
		}
		return l
	}

	props["C18"] = func(tier string) (l []*Scenario) {
		deep, sh := 1, 6
		if tier == "thorough" {
			deep, sh = 2, 16
		}
		for bi, b := range (&W{}).bases() {
			bi := bi
			l = append(l, &Scenario{Name: "mutations of a " + b.n, Shards: sh, Cfg: mc.Config{}, Enum: func(w *W) {
				b := w.bases()[bi]
				i := 0
				mutants(b.b, deep, func(desc string, m []byte) bool {
					if i++; !w.Mine(i) {
						return true
					}
					return w.Exec(b.n+", "+desc, func(h *H) {
						if d, r := dump(m); !r.Err && !r.Panic {
							c18case(h, d, m)
						}
					})
				})
			}})
			l = append(l, &Scenario{Name: "failing writer, " + b.n, Enum: func(w *W) {
				b := w.bases()[bi]
				w.Exec(b.n, func(h *H) {
					if d, r := dump(b.b); r.Err || r.Panic {
						h.Fail("dump", "Dump of a valid file: %v", r.Msg)
					} else {
						c18full(h, d)
					}
				})
			}})
		}
		l = append(l, &Scenario{Name: "failing writer, files of clients", Shards: 4, Enum: func(w *W) {
			for i, r := range regs() {
				if !w.Mine(i) {
					continue
				}
				r := r
				if !w.Exec(r.Name, func(h *H) {
					h.clean()
					b := clientFile(h, &r.R)
					if d, r := dump(b); !r.Err && !r.Panic {
						c18case(h, d, b)
						c18full(h, d)
					}
				}) {
					return
				}
			}
		}})
		l = append(l, &Scenario{Name: "files without a section", Enum: func(w *W) {
			for _, ver := range []int{1, 2} {
				for m := 0; m < 32; m++ {
					for _, p := range perms(allSecs) {
						f := stdFile(ver)
						f.tocs = nil
						for _, t := range p {
							if m>>uint(t-1)&1 == 1 {
								f.tocs = append(f.tocs, t)
							}
						}
						b := f.build()
						if !w.Exec(fmt.Sprintf("version %d, only sections %v", ver, f.tocs), func(h *H) {
							if d, r := dump(b); !r.Err && !r.Panic {
								c18case(h, d, b)
							} else {
								h.Fail("dump", "Dump: %v", r.Msg)
							}
						}) {
							return
						}
					}
				}
			}
		}})
		l = append(l, &Scenario{Name: "texts of every field value", Enum: func(w *W) {
			w.Exec("Type, Semantics, TocType, Unit and FixedVal", func(h *H) {
				call := func(what string, f func() string) string {
					r := try(func() (interface{}, error) { return f(), nil })
					h.checks++
					if r.Panic {
						h.Fail("panic", "%s: %s", what, r.Msg)
					}
					return r.Val.(string)
				}
				ints := []int32{math.MinInt32, math.MinInt32 + 1, -1 << 16, math.MaxInt32, math.MaxInt32 - 1, 1 << 16}
				for i := int32(-300); i <= 600; i++ {
					ints = append(ints, i)
				}
				for _, v := range ints {
					call(fmt.Sprintf("Type(%d)", v), func() string { return mmvdump.Type(v).String() })
					call(fmt.Sprintf("Semantics(%d)", v), func() string { return mmvdump.Semantics(v).String() })
					call(fmt.Sprintf("TocType(%d)", v), func() string { return mmvdump.TocType(v).String() })
					for _, u := range boundary(100, nil) {
						call(fmt.Sprintf("FixedVal(%d,%d)", u, v), func() string {
							x, err := mmvdump.FixedVal(u, mmvdump.Type(v))
							want, ok := valueText(u, v)
							if ok != (err == nil) || ok && fmt.Sprint(x) != want {
								h.Fail("value", "FixedVal(%#x, %d) = %v, %v; want %s", u, v, x, err, want)
							}
							return ""
						})
					}
				}
			})
		}})
		l = append(l, &Scenario{Name: "units", Shards: 8, Enum: func(w *W) {
			step := uint32(1)
			if tier != "thorough" {
				step = 5 // scales 0, 5, 10 and 15 of each kind and every pair below
			}
			for dims := uint32(0); dims < 1<<12; dims++ {
				if !w.Mine(int(dims)) {
					continue
				}
				dims := dims
				if !w.Exec(fmt.Sprintf("dimensions %#x", dims), func(h *H) {
					one := func(u uint32) {
						r := try(func() (interface{}, error) { return mmvdump.Unit(u).String(), nil })
						h.checks++
						if want := unitText(u); r.Panic || r.Val.(string) != want {
							h.Fail("unit", "unit %#x prints as %v, want %q", u, r, want)
						}
					}
					for s := uint32(0); s < 16; s += step {
						for t := uint32(0); t < 16; t += step {
							for c := uint32(0); c < 16; c += step {
								one(dims<<20 | s<<16 | t<<12 | c<<8)
							}
						}
						one(dims<<20 | s<<16 | (15-s)<<12 | s<<8 | 0xff)
					}
					for s := uint32(0); s < 16; s++ {
						one(dims<<20 | s<<16)
						one(dims<<20 | s<<12)
						one(dims<<20 | s<<8)
					}
				}) {
					return
				}
			}
		}})
		return l
	}

	props["C19"] = func(tier string) (l []*Scenario) {
		check := func(h *H, b []byte) {
			raw, err := rawDecode(b)
			if err != nil || raw.odd {
				h.Fail("harness", "not a valid file: %v", err)
			}
			d, r := dump(b)
			h.checks++
			if r.Err || r.Panic {
				h.Fail("dump", "Dump of a valid file: %v", r.Msg)
			}
			if df := textDiff(raw.String(), d.raw().String()); df != "" {
				h.Fail("content", "Dump: %s", df)
			}
			want, ok := rawText(b)
			if !ok {
				h.Fail("harness", "the file has references to nothing")
			}
			w := &limWriter{n: -1}
			if r := d.print(w); r.Err || r.Panic {
				h.Fail("print", "Write: %v", r.Msg)
			}
			if df := textDiff(want, normText(w.b.String())); df != "" {
				h.Fail("text", "printed text: %s", df)
			}
			h.X.Outcome = mc.HashString(want)
			h.W.distinct[mc.HashString(string(b))] = struct{}{}
		}
		// files of clients
		l = append(l, &Scenario{Name: "files of clients", Shards: 4, Enum: func(w *W) {
			for i, r := range regs() {
				if !w.Mine(i) {
					continue
				}
				r := r
				if !w.Exec(r.Name, func(h *H) { h.clean(); check(h, clientFile(h, &r.R)) }) {
					return
				}
			}
		}})
		// every value of every type
		l = append(l, &Scenario{Name: "values of every type", Shards: 4, Enum: func(w *W) {
			i := 0
			for _, ver := range []int{1, 2} {
				for typ := int32(0); typ <= 6; typ++ {
					vs := boundary(1000, []uint64{math.Float64bits(1.5), math.Float64bits(math.NaN()), math.Float64bits(math.Inf(1)), math.Float64bits(-0.0001), math.Float64bits(1e300),
						uint64(math.Float32bits(1.5)), uint64(math.Float32bits(float32(math.Inf(-1)))), uint64(math.Float32bits(1e-30)), math.Float64bits(1e21), math.Float64bits(123456789.125)})
					for s := uint(0); s < 64; s++ {
						vs = append(vs, 1<<s, 1<<s-1, ^uint64(0)<<s)
					}
					for _, v := range vs {
						for _, in := range []bool{false, true} {
							for sem := int32(0); sem <= 4; sem++ {
								if i++; !w.Mine(i) {
									continue
								}
								f := &bFile{ver: ver, tocs: allSecs, order: allSecs, noEmpty: true, metrics: []bMetric{{"m.x", 1023, typ, sem, uint32(v), -1, "", ""}}, values: []bValue{{0, -1, v, fmt.Sprint("text ", v)}}}
								if in {
									f.indoms = []bIndom{{1<<22 - 1, "", ""}}
									f.insts = []bInst{{0, "inst"}}
									f.metrics[0].indom, f.values[0].inst = 0, 0
								}
								b := f.build()
								if !w.Exec(fmt.Sprintf("version %d type %d value %#x instance %v", ver, typ, v, in), func(h *H) { check(h, b) }) {
									return
								}
							}
						}
					}
				}
			}
		}})
		l = append(l, c19header(check), c19refs(check), c19tail(check))
		// serial numbers of instance domains
		l = append(l, &Scenario{Name: "serial numbers of instance domains", Shards: 4, Enum: func(w *W) {
			serials := []uint32{1, 2, 255, 256, 1<<16 - 1, 1 << 16, 1<<21 - 1, 1 << 21, 1<<22 - 1, 1 << 22, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 3, 1<<32 - 2}
			words(2, len(serials), func(i int, word []int) bool {
				if !w.Mine(i) || word[0] == word[1] {
					return true
				}
				for _, ver := range []int{1, 2} {
					f := &bFile{ver: ver, tocs: allSecs, order: allSecs, noEmpty: true,
						indoms:  []bIndom{{serials[word[0]], "first", ""}, {serials[word[1]], "", "second"}},
						insts:   []bInst{{0, "one"}, {0, "two"}, {1, "red"}},
						metrics: []bMetric{{"m.x", 1, 0, 3, 0, 1, "", ""}, {"m.y", 2, 5, 1, 0, 0, "", ""}, {"m.z", 3, 1, 1, 0, -1, "", ""}},
						values:  []bValue{{0, 2, 7, ""}, {1, 0, math.Float64bits(1.5), ""}, {1, 1, 9, ""}, {2, -1, 8, ""}}}
					b := f.build()
					if !w.Exec(fmt.Sprintf("version %d serials %#x and %#x", ver, serials[word[0]], serials[word[1]]), func(h *H) { check(h, b) }) {
						return false
					}
				}
				return true
			})
		}})
		// every order of sections in the table and in the data
		l = append(l, &Scenario{Name: "orders of sections", Shards: 8, Enum: func(w *W) {
			i := 0
			for _, ver := range []int{1, 2} {
				for _, p := range perms(allSecs) {
					for qi, q := range perms(allSecs) {
						if tier != "thorough" && qi%5 != 0 {
							continue
						}
						for _, gap := range []int{0, 8, 3} {
							if i++; !w.Mine(i) {
								continue
							}
							f := stdFile(ver)
							f.tocs, f.order, f.gap = p, q, gap
							b := f.build()
							if !w.Exec(fmt.Sprintf("version %d table %v data %v gap %d", ver, p, q, gap), func(h *H) { check(h, b) }) {
								return
							}
						}
					}
				}
			}
		}})
		// every order of the records of each section
		l = append(l, &Scenario{Name: "orders of records", Shards: 8, Orders: true, Enum: func(w *W) {
			i := 0
			for _, ver := range []int{1, 2} {
				f0 := ordersFile(ver)
				for ip, p := range perms([]int{0, 1, 2, 3}) {
					for iq, q := range perms([]int{0, 1, 2}) {
						for ir, r := range perms([]int{0, 1, 2, 3, 4}) {
							if tier != "thorough" && ir != 0 && (ir+ip*7+iq*3)%11 != 0 {
								continue
							}
							for _, opt := range []int{0, 1, 2, 3, 4, 5, 6, 7} {
								if tier != "thorough" && opt != (ip+iq+ir)%8 {
									continue
								}
								if i++; !w.Mine(i) {
									continue
								}
								f := f0.reordered(p, q, r, opt&4 != 0)
								f.strRev, f.strOne = opt&1 != 0, opt&2 != 0
								b := f.build()
								if !w.Exec(fmt.Sprintf("version %d instances %v metrics %v values %v options %d", ver, p, q, r, opt), func(h *H) { check(h, b) }) {
									return
								}
							}
						}
					}
				}
			}
		}})
		// every number of records of each kind
		l = append(l, &Scenario{Name: "numbers of records", Shards: 8, Orders: true, Enum: func(w *W) {
			max := 3
			if tier == "thorough" {
				max = 4
			}
			i := 0
			for _, ver := range []int{1, 2} {
				for nd := 0; nd <= max; nd++ {
					for ni := 0; ni <= max; ni++ {
						for nm := 0; nm <= max; nm++ {
							for texts := 0; texts < 4; texts++ {
								for _, noEmpty := range []bool{false, true} {
									if i++; !w.Mine(i) {
										continue
									}
									b := gridFile(ver, nd, ni, nm, texts, noEmpty).build()
									if !w.Exec(fmt.Sprintf("version %d, %d indoms with %d instances, %d metrics, texts %d", ver, nd, ni, nm, texts), func(h *H) { check(h, b) }) {
										return
									}
								}
							}
						}
					}
				}
			}
		}})
		// many records of each kind
		l = append(l, &Scenario{Name: "many records", Shards: 8, Orders: true, Enum: func(w *W) {
			sizes := []int{15, 16, 17, 64, 65, 100, 128, 129, 255, 256, 257, 300, 513, 1025}
			if tier == "thorough" {
				sizes = append(sizes, 2049, 3000)
			}
			i := 0
			for _, n := range sizes {
				for _, ver := range []int{1, 2} {
					for kind := 0; kind < 6; kind++ {
						if i++; !w.Mine(i) {
							continue
						}
						b := manyFile(ver, n, kind).build()
						if !w.Exec(fmt.Sprintf("version %d, %d records of kind %d", ver, n, kind), func(h *H) { w.beat(); check(h, b) }) {
							return
						}
					}
				}
			}
		}})
		// every section at every position within a page
		l = append(l, &Scenario{Name: "places of the sections", Shards: 8, Orders: true, Enum: func(w *W) {
			i := 0
			for _, ver := range []int{1, 2} {
				for sec := 1; sec <= 5; sec++ {
					big, step, bstep := manyFile(ver, 600, 5), 8, 512
					if sec == 3 {
						big = manyFile(ver, 600, 2)
					} else if sec == 1 {
						big = manyFile(ver, 600, 0)
					}
					if tier == "thorough" {
						bstep = 64
					}
					for at := 0; at < 4096; at += step {
						for _, f := range []*bFile{stdFile(ver), big} {
							if f == big && at%bstep != 0 {
								continue
							}
							if i++; !w.Mine(i) {
								continue
							}
							f.sec, f.at = sec, at
							b := f.build()
							if !w.Exec(fmt.Sprintf("version %d, section %d at %d within a page, %d bytes", ver, sec, at, len(b)), func(h *H) { check(h, b) }) {
								return
							}
						}
					}
				}
			}
		}})
		// names of every length and texts of every length
		l = append(l, &Scenario{Name: "lengths of names and texts", Shards: 4, Orders: true, Enum: func(w *W) {
			for n := 0; n <= 255; n++ {
				if !w.Mine(n) {
					continue
				}
				for _, ver := range []int{1, 2} {
					f := stdFile(ver)
					f.metrics[0].name, f.metrics[1].short, f.insts[1].name, f.values[3].str, f.indoms[0].long = rep("n", n), rep("s", n), rep("i", n), rep("v", n), rep("l", n)
					b := f.build()
					if !w.Exec(fmt.Sprintf("version %d, texts of %d bytes", ver, n), func(h *H) { check(h, b) }) {
						return
					}
				}
			}
		}})
		p := 1
		if tier == "thorough" {
			p = 2
		}
		for _, ver := range []int{1, 2} {
			ver := ver
			for _, f := range []struct {
				n string
				f *bFile
				p int
			}{{"every kind of record", stdFile(ver), p}, {"two metrics", gridFile(ver, 0, 0, 2, 0, true), p + 1}, {"an indom", gridFile(ver, 1, 1, 1, 0, true), p}} {
				b := f.f.build()
				l = append(l, &Scenario{Name: fmt.Sprintf("interleavings, version %d, %s", ver, f.n), Leak: true, Shards: 2, Cfg: mc.Config{Data: true, RelPt: true, MapPerm: true}, B: mc.Bounds{P: f.p, M: 1}, Body: func(h *H) { check(h, b) }})
			}
			b := gridFile(ver, 0, 0, 1, 1, true).build()
			l = append(l, &Scenario{Name: fmt.Sprintf("two at once, version %d", ver), Leak: true, Cfg: mc.Config{Data: true, RelPt: true}, B: mc.Bounds{P: 1}, Body: func(h *H) {
				h.Par(func() { check(h, b) }, func() { check(h, b) })
			}})
		}
		return l
	}
}

// ordersFile has two instance domains with two instances, three metrics and
// five values; several texts are equal.
func ordersFile(ver int) *bFile {
	return &bFile{ver: ver, tocs: allSecs, order: allSecs,
		indoms:  []bIndom{{900, "text", "other"}, {7, "other", "text"}},
		insts:   []bInst{{0, "one"}, {0, "two"}, {1, "one"}, {1, "alpha"}},
		metrics: []bMetric{{"z.last", 5, 2, 3, 1 << 20, -1, "text", "text"}, {"by.first", 900, 5, 1, 0, 0, "", "other"}, {"by.second", 7, 6, 4, 0, 1, "z.last", ""}},
		values:  []bValue{{0, -1, 9, ""}, {1, 0, math.Float64bits(1.5), ""}, {1, 1, math.Float64bits(-2), ""}, {2, 2, 0, "text"}, {2, 3, 0, "alpha"}}}
}

// reordered puts the records in other orders; ind exchanges the first two
// instance domains.
func (f *bFile) reordered(insts, metrics, values []int, ind bool) *bFile {
	g := *f
	inv := func(p []int) []int {
		r := make([]int, len(p))
		for i, x := range p {
			r[x] = i
		}
		return r
	}
	ii, im := inv(insts), inv(metrics)
	id := func(d int) int {
		if ind && d >= 0 && d < 2 {
			return 1 - d
		}
		return d
	}
	g.indoms, g.insts, g.metrics, g.values = append([]bIndom{}, f.indoms...), nil, nil, nil
	if ind {
		g.indoms[0], g.indoms[1] = g.indoms[1], g.indoms[0]
	}
	for _, x := range insts {
		n := f.insts[x]
		n.indom = id(n.indom)
		g.insts = append(g.insts, n)
	}
	for _, x := range metrics {
		m := f.metrics[x]
		m.indom = id(m.indom)
		g.metrics = append(g.metrics, m)
	}
	for _, x := range values {
		v := f.values[x]
		v.metric = im[v.metric]
		if v.inst >= 0 {
			v.inst = ii[v.inst]
		}
		g.values = append(g.values, v)
	}
	return &g
}

// gridFile has nd instance domains with ni instances each and nm metrics
// over them.
func gridFile(ver, nd, ni, nm, texts int, noEmpty bool) *bFile {
	f := &bFile{ver: ver, tocs: allSecs, order: allSecs, noEmpty: noEmpty}
	t := func(bit int, s string) string {
		if texts>>uint(bit)&1 == 1 {
			return s
		}
		return ""
	}
	for d := 0; d < nd; d++ {
		f.indoms = append(f.indoms, bIndom{uint32(100 + d), t(0, fmt.Sprint("is", d)), t(1, fmt.Sprint("il", d))})
		for i := 0; i < ni; i++ {
			f.insts = append(f.insts, bInst{d, fmt.Sprintf("inst%d.%d", d, i)})
		}
	}
	for m := 0; m < nm; m++ {
		ind := -1
		if m%2 == 1 && nd > 0 {
			ind = m / 2 % nd
		}
		typ := []int32{6, 3, 0, 5, 2}[m%5]
		f.metrics = append(f.metrics, bMetric{fmt.Sprintf("metric.%d", m), uint32(m), typ, int32(m % 5), uint32(m) << 20, ind, t(1, fmt.Sprint("ms", m)), t(0, fmt.Sprint("ml", m))})
		if ind < 0 {
			f.values = append(f.values, bValue{m, -1, uint64(m) * 1e6, fmt.Sprint("v", m)})
		} else {
			for i := 0; i < ni; i++ {
				f.values = append(f.values, bValue{m, ind*ni + i, uint64(m*10 + i), fmt.Sprint("v", m, i)})
			}
		}
	}
	return f
}

// manyFile has n records of one kind and few others.
func manyFile(ver, n, kind int) *bFile {
	switch kind {
	case 0:
		return gridFile(ver, n, 1, 1, 0, false)
	case 1:
		return gridFile(ver, 1, n, 2, 3, false)
	case 2:
		return gridFile(ver, 0, 0, n, 0, true)
	case 3:
		return gridFile(ver, 2, 2, n, 3, true)
	case 4:
		return gridFile(ver, n, 0, 0, 3, true)
	}
	f := gridFile(ver, 1, 0, 0, 0, true)
	f.metrics = append(f.metrics, bMetric{"numbers", 7, 1, 3, 0, 0, "", ""}, bMetric{"texts", 8, 6, 3, 0, 0, "", ""})
	for i := 0; i < n; i++ {
		f.insts = append(f.insts, bInst{0, fmt.Sprint("i", i)})
		f.values = append(f.values, bValue{0, i, uint64(i), ""}, bValue{1, i, 0, fmt.Sprint("text ", i)})
	}
	return f
}

var onceArena *arena

func newArenaOnce() *arena {
	if onceArena == nil {
		onceArena = newArena(8192)
	}
	return onceArena
}

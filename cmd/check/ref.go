package main

// An independent decoder of the MMV format (versions 1 and 2), strict about
// everything property C01 speaks of, and the canonical description a file is
// compared by.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"strings"
)

var le = binary.LittleEndian

func fnv1a(s string, bits uint) uint32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	v := h.Sum32()
	if bits > 0 {
		v &= 1<<bits - 1
	}
	return v
}

type rIndom struct {
	off         uint64
	serial, n   uint32
	first       uint64
	short, long string
	insts       map[string]uint32
}

type rInst struct {
	off   uint64
	indom *rIndom
	name  string
	id    uint32
}

type rMetric struct {
	off             uint64
	name            string
	item            uint32
	typ, sem        int32
	unit            uint32
	indom           int32
	pad             uint32
	short, long     string
	nvals           int
	shorto, longo   uint64
	seenInst        map[uint64]bool
	seenSingleValue bool
}

type rFile struct {
	version  uint32
	g1, g2   uint64
	ntoc     int32
	flag     int32
	pid      int32
	cluster  uint32
	indoms   map[uint64]*rIndom
	insts    map[uint64]*rInst
	metrics  map[uint64]*rMetric
	lines    []string
	valueOff map[string]uint64 // metric "\x00" instance -> offset of the value record
	strOff   map[string]uint64 // same, offset of a string value's slot
}

const (
	tIndoms = 1 + iota
	tInsts
	tMetrics
	tValues
	tStrings
)

// complete reports whether a reader would accept the file: tag present and
// equal non-zero generation numbers.
func complete(b []byte) bool {
	if len(b) < 40 || string(b[:4]) != "MMV\x00" {
		return false
	}
	g1, g2 := le.Uint64(b[8:]), le.Uint64(b[16:])
	return g1 == g2 && g1 != 0
}

func cstr(b []byte, what string) (string, error) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return "", fmt.Errorf("%s is not null-terminated", what)
	}
	for _, c := range b[i:] {
		if c != 0 {
			return "", fmt.Errorf("%s %q is followed by left-over bytes %q", what, b[:i], bytes.TrimRight(b[i:], "\x00"))
		}
	}
	return string(b[:i]), nil
}

// parse decodes a complete MMV file and checks its structure.
func parse(b []byte) (*rFile, error) {
	if len(b) < 40 {
		return nil, fmt.Errorf("file has only %d bytes", len(b))
	}
	if string(b[:4]) != "MMV\x00" {
		return nil, fmt.Errorf("bad tag %q", b[:4])
	}
	f := &rFile{version: le.Uint32(b[4:]), g1: le.Uint64(b[8:]), g2: le.Uint64(b[16:]), ntoc: int32(le.Uint32(b[24:])),
		flag: int32(le.Uint32(b[28:])), pid: int32(le.Uint32(b[32:])), cluster: le.Uint32(b[36:]),
		indoms: map[uint64]*rIndom{}, insts: map[uint64]*rInst{}, metrics: map[uint64]*rMetric{},
		valueOff: map[string]uint64{}, strOff: map[string]uint64{}}
	if f.version != 1 && f.version != 2 {
		return nil, fmt.Errorf("version %d", f.version)
	}
	if f.g1 != f.g2 || f.g1 == 0 {
		return nil, fmt.Errorf("generation numbers %d and %d", f.g1, f.g2)
	}
	if f.ntoc < 0 || f.ntoc > 5 {
		return nil, fmt.Errorf("%d sections", f.ntoc)
	}
	v2 := f.version == 2
	size := [6]uint64{0, 32, 80, 104, 32, 256}
	if v2 {
		size[tInsts], size[tMetrics] = 24, 48
	}
	type sec struct {
		off uint64
		n   uint64
	}
	var secs [6]*sec
	type rng struct{ lo, hi uint64 }
	used := []rng{{0, 40 + 16*uint64(f.ntoc)}}
	for i := 0; i < int(f.ntoc); i++ {
		o := 40 + 16*i
		if o+16 > len(b) {
			return nil, fmt.Errorf("contents table exceeds the file")
		}
		t, n, off := int32(le.Uint32(b[o:])), int32(le.Uint32(b[o+4:])), le.Uint64(b[o+8:])
		if t < 1 || t > 5 {
			return nil, fmt.Errorf("section %d has type %d", i, t)
		}
		if secs[t] != nil {
			return nil, fmt.Errorf("two sections of type %d", t)
		}
		if n < 0 {
			return nil, fmt.Errorf("section of type %d with %d entries", t, n)
		}
		secs[t] = &sec{off, uint64(n)}
		if n > 0 {
			l := uint64(n) * size[t]
			if off > uint64(len(b)) || l > uint64(len(b))-off {
				return nil, fmt.Errorf("section of type %d [%d,%d) lies outside the file of %d bytes", t, off, off+l, len(b))
			}
			used = append(used, rng{off, off + l})
		}
	}
	sort.Slice(used, func(i, j int) bool { return used[i].lo < used[j].lo })
	pos := uint64(0)
	for _, u := range used {
		if u.lo < pos {
			return nil, fmt.Errorf("sections overlap at offset %d", u.lo)
		}
		if u.lo > pos {
			return nil, fmt.Errorf("bytes %d to %d belong to no section", pos, u.lo)
		}
		pos = u.hi
	}
	if pos != uint64(len(b)) {
		return nil, fmt.Errorf("bytes %d to %d belong to no section", pos, len(b))
	}
	for t := 1; t <= 5; t++ {
		if secs[t] == nil {
			secs[t] = &sec{}
		}
	}
	strUsed := map[uint64]string{}
	str := func(off uint64, by string) (string, error) {
		s := secs[tStrings]
		if off < s.off || off >= s.off+s.n*256 || (off-s.off)%256 != 0 {
			return "", fmt.Errorf("%s refers to a string at %d, where there is none", by, off)
		}
		if o, dup := strUsed[off]; dup {
			return "", fmt.Errorf("string at %d is used by %s and by %s", off, o, by)
		}
		strUsed[off] = by
		return cstr(b[off:off+256], by)
	}
	opt := func(off uint64, by string) (string, error) {
		if off == 0 {
			return "", nil
		}
		s, err := str(off, by)
		if err == nil && s == "" {
			err = fmt.Errorf("%s is an empty string record", by)
		}
		return s, err
	}
	var err error
	s := secs[tIndoms]
	for i := uint64(0); i < s.n; i++ {
		o := s.off + i*32
		d := &rIndom{off: o, serial: le.Uint32(b[o:]), n: le.Uint32(b[o+4:]), first: le.Uint64(b[o+8:]), insts: map[string]uint32{}}
		by := fmt.Sprintf("indom %d at %d", d.serial, o)
		if d.short, err = opt(le.Uint64(b[o+16:]), "short text of "+by); err != nil {
			return nil, err
		}
		if d.long, err = opt(le.Uint64(b[o+24:]), "long text of "+by); err != nil {
			return nil, err
		}
		f.indoms[o] = d
	}
	s = secs[tInsts]
	for i := uint64(0); i < s.n; i++ {
		o := s.off + i*size[tInsts]
		in := &rInst{off: o, id: le.Uint32(b[o+12:])}
		io := le.Uint64(b[o:])
		by := fmt.Sprintf("instance at %d", o)
		in.indom = f.indoms[io]
		if in.indom == nil {
			return nil, fmt.Errorf("%s refers to an indom at %d, where there is none", by, io)
		}
		if p := le.Uint32(b[o+8:]); p != 0 {
			return nil, fmt.Errorf("%s has padding %d", by, p)
		}
		if v2 {
			in.name, err = str(le.Uint64(b[o+16:]), "name of "+by)
		} else {
			in.name, err = cstr(b[o+16:o+80], "name of "+by)
		}
		if err != nil {
			return nil, err
		}
		if _, dup := in.indom.insts[in.name]; dup {
			return nil, fmt.Errorf("instance %q is there twice", in.name)
		}
		in.indom.insts[in.name] = in.id
		f.insts[o] = in
		if d := in.indom; o < d.first || o >= d.first+uint64(d.n)*size[tInsts] {
			return nil, fmt.Errorf("%s (%q) lies outside the range its indom %d names", by, in.name, d.serial)
		}
	}
	bySerial := map[uint32]*rIndom{}
	for _, d := range f.indoms {
		if uint64(len(d.insts)) != uint64(d.n) {
			return nil, fmt.Errorf("indom %d names %d instances, %d are there", d.serial, d.n, len(d.insts))
		}
		bySerial[d.serial] = d
	}
	s = secs[tMetrics]
	for i := uint64(0); i < s.n; i++ {
		o := s.off + i*size[tMetrics]
		m := &rMetric{off: o, seenInst: map[uint64]bool{}}
		by := fmt.Sprintf("metric at %d", o)
		p := o + 64
		if v2 {
			m.name, err = str(le.Uint64(b[o:]), "name of "+by)
			p = o + 8
		} else {
			m.name, err = cstr(b[o:o+64], "name of "+by)
		}
		if err != nil {
			return nil, err
		}
		m.item, m.typ, m.sem = le.Uint32(b[p:]), int32(le.Uint32(b[p+4:])), int32(le.Uint32(b[p+8:]))
		m.unit, m.indom, m.pad = le.Uint32(b[p+12:]), int32(le.Uint32(b[p+16:])), le.Uint32(b[p+20:])
		if m.pad != 0 {
			return nil, fmt.Errorf("metric %q has padding %d", m.name, m.pad)
		}
		m.shorto, m.longo = le.Uint64(b[p+24:]), le.Uint64(b[p+32:])
		if m.short, err = opt(m.shorto, "short text of "+by); err != nil {
			return nil, err
		}
		if m.long, err = opt(m.longo, "long text of "+by); err != nil {
			return nil, err
		}
		f.metrics[o] = m
	}
	L := func(form string, a ...interface{}) { f.lines = append(f.lines, fmt.Sprintf(form, a...)) }
	s = secs[tValues]
	for i := uint64(0); i < s.n; i++ {
		o := s.off + i*32
		val, extra, mo, io := le.Uint64(b[o:]), le.Uint64(b[o+8:]), le.Uint64(b[o+16:]), le.Uint64(b[o+24:])
		m := f.metrics[mo]
		by := fmt.Sprintf("value at %d", o)
		if m == nil {
			return nil, fmt.Errorf("%s refers to a metric at %d, where there is none", by, mo)
		}
		iname := ""
		if m.indom == -1 {
			if io != 0 {
				return nil, fmt.Errorf("%s of %q, which has no instances, refers to an instance at %d", by, m.name, io)
			}
			if m.seenSingleValue {
				return nil, fmt.Errorf("metric %q has two values", m.name)
			}
			m.seenSingleValue = true
		} else {
			in := f.insts[io]
			if in == nil {
				return nil, fmt.Errorf("%s of %q refers to an instance at %d, where there is none", by, m.name, io)
			}
			if in.indom.serial != uint32(m.indom) {
				return nil, fmt.Errorf("%s of %q refers to instance %q of another indom", by, m.name, in.name)
			}
			if m.seenInst[io] {
				return nil, fmt.Errorf("metric %q has two values for instance %q", m.name, in.name)
			}
			m.seenInst[io] = true
			iname = in.name
		}
		m.nvals++
		key := m.name + "\x00" + iname
		f.valueOff[key] = o
		if m.typ == 6 {
			if val != 255 {
				return nil, fmt.Errorf("string %s of %q has length field %d", by, m.name, val)
			}
			t, err := str(extra, fmt.Sprintf("value of %q[%s]", m.name, iname))
			if err != nil {
				return nil, err
			}
			f.strOff[key] = extra
			L("value %q[%q] = string %q", m.name, iname, t)
		} else {
			if extra != 0 {
				return nil, fmt.Errorf("%s of %q has extra field %d", by, m.name, extra)
			}
			L("value %q[%q] = bits %#x", m.name, iname, val)
		}
	}
	for _, m := range f.metrics {
		if m.indom != -1 {
			d := bySerial[uint32(m.indom)]
			if d == nil {
				return nil, fmt.Errorf("metric %q refers to indom %d, which is not in the file", m.name, uint32(m.indom))
			}
			if m.nvals != len(d.insts) {
				return nil, fmt.Errorf("metric %q has %d values for %d instances", m.name, m.nvals, len(d.insts))
			}
		} else if m.nvals != 1 {
			return nil, fmt.Errorf("metric %q has %d values", m.name, m.nvals)
		}
		L("metric %q item=%d type=%d sem=%d unit=%#x indom=%d short=%q long=%q", m.name, m.item, m.typ, m.sem, m.unit, m.indom, m.short, m.long)
	}
	for _, d := range f.indoms {
		L("indom %d short=%q long=%q instances=%s", d.serial, d.short, d.long, instList(d.insts))
	}
	if n := secs[tStrings].n; uint64(len(strUsed)) != n {
		return nil, fmt.Errorf("%d string records, %d of them referenced", n, len(strUsed))
	}
	L("version %d flag %d cluster %d", f.version, f.flag, f.cluster)
	sort.Strings(f.lines)
	return f, nil
}

func instList(m map[string]uint32) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q:%d", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// diff compares two canonical descriptions.
func diff(want, got []string) string {
	w := map[string]int{}
	for _, l := range want {
		w[l]++
	}
	var miss, extra []string
	for _, l := range got {
		if w[l] > 0 {
			w[l]--
		} else {
			extra = append(extra, l)
		}
	}
	for l, n := range w {
		for ; n > 0; n-- {
			miss = append(miss, l)
		}
	}
	if len(miss)+len(extra) == 0 {
		return ""
	}
	sort.Strings(miss)
	sort.Strings(extra)
	return "missing {" + strings.Join(miss, "; ") + "} unexpected {" + strings.Join(extra, "; ") + "}"
}

// bits is the 8-byte value field for a numeric value in its resolved type.
func bits(v interface{}) uint64 {
	switch v := v.(type) {
	case int32:
		return uint64(uint32(v))
	case uint32:
		return uint64(v)
	case int64:
		return uint64(v)
	case uint64:
		return v
	case float32:
		return uint64(math.Float32bits(v))
	case float64:
		return math.Float64bits(v)
	}
	panic(fmt.Sprintf("bits of %T", v))
}

// layout digests where everything is.
func layout(f *rFile) string {
	var l []string
	for k, o := range f.valueOff {
		l = append(l, fmt.Sprint(k, o, f.strOff[k]))
	}
	for _, i := range f.insts {
		l = append(l, fmt.Sprint(i.indom.off, i.name, i.off))
	}
	for _, m := range f.metrics {
		l = append(l, fmt.Sprint(m.name, m.off, m.shorto, m.longo))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

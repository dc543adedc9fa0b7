package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	flate "github.com/chronos-tachyon/flate"
)

func panics(fn func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	fn()
	return
}

func runEnum(c *Case) (f fails) {
	bad := []string{"", "x", "-2", "bogus", " default", "default ", "10.5", "0x5", "999", "256", "300", "65545", "4294967301", "deflat", "rawr", "huffman", "DefaultCompressionX", "!", "\x00", "+5"}
	// Format
	names := []string{"auto", "raw", "zlib", "gzip"}
	gon := []string{"DefaultFormat", "RawFormat", "ZlibFormat", "GZIPFormat"}
	for v := 0; v < 256; v++ {
		x := flate.Format(v)
		if x.IsValid() != (v < 4) {
			f.add("C13", "Format(%d).IsValid() is %v", v, x.IsValid())
		}
		if v < 4 {
			if x.String() != names[v] || x.GoString() != gon[v] {
				f.add("C13", "Format(%d) is %q %q", v, x.String(), x.GoString())
			}
			for _, s := range []string{x.String(), x.GoString(), strings.ToUpper(names[v])} {
				y := flate.Format(77)
				if err := y.Parse(s); err != nil || y != x {
					f.add("C13", "Format.Parse(%q) gives %d, %v", s, y, err)
				}
			}
		}
	}
	var ff flate.Format
	if err := ff.Parse("default"); err != nil || ff != flate.DefaultFormat {
		f.add("C13", "Format.Parse(default) gives %d, %v", ff, err)
	}
	// Strategy
	names = []string{"default", "huffman-only", "huffman-rle", "fixed"}
	for v := 0; v < 256; v++ {
		x := flate.Strategy(v)
		if x.IsValid() != (v < 4) {
			f.add("C13", "Strategy(%d).IsValid() is %v", v, x.IsValid())
		}
		if v < 4 {
			if x.String() != names[v] {
				f.add("C13", "Strategy(%d) is %q", v, x.String())
			}
			for _, s := range []string{x.String(), x.GoString()} {
				y := flate.Strategy(77)
				if err := y.Parse(s); err != nil || y != x {
					f.add("C13", "Strategy.Parse(%q) gives %d, %v", s, y, err)
				}
			}
		}
	}
	// ranges
	for v := 0; v < 256; v++ {
		for _, q := range []struct {
			n    string
			got  bool
			want bool
		}{
			{"Method", flate.Method(v).IsValid(), v == 0},
			{"FlushType", flate.FlushType(v).IsValid(), v <= 4},
			{"OSType", flate.OSType(v).IsValid(), v <= 14},
			{"DataType", flate.DataType(v).IsValid(), v <= 2},
			{"MemoryLevel", flate.MemoryLevel(v).IsValid(), v <= 9},
			{"WindowBits", flate.WindowBits(v).IsValid(), v == 0 || v >= 8 && v <= 15},
			{"CompressLevel", flate.CompressLevel(int8(v)).IsValid(), int8(v) >= -1 && int8(v) <= 9},
		} {
			if q.got != q.want {
				f.add("C13", "%s(%d).IsValid() is %v", q.n, v, q.got)
			}
		}
	}
	type namer interface {
		String() string
		GoString() string
	}
	uniq := func(what string, n int, at func(int) namer) {
		s, g := map[string]int{}, map[string]int{}
		for i := 0; i < n; i++ {
			x := at(i)
			if j, dup := s[x.String()]; dup {
				f.add("C13", "%s %d and %d are both %q", what, i, j, x.String())
			}
			if j, dup := g[x.GoString()]; dup {
				f.add("C13", "%s %d and %d are both %q", what, i, j, x.GoString())
			}
			s[x.String()], g[x.GoString()] = i, i
		}
		if !panics(func() { _ = at(n).String() }) {
			f.add("C13", "%s(%d).String() is %q", what, n, at(n).String())
		}
	}
	uniq("OSType", 15, func(i int) namer { return flate.OSType(i) })
	uniq("DataType", 3, func(i int) namer { return flate.DataType(i) })
	uniq("FlushType", 5, func(i int) namer { return flate.FlushType(i) })
	uniq("BlockType", 4, func(i int) namer { return flate.BlockType(i) })
	uniq("EventType", 7, func(i int) namer { return flate.EventType(i) })
	for i, s := range []string{"block", "partial", "sync", "full", "finish"} {
		if flate.FlushType(i).String() != s {
			f.add("C13", "FlushType(%d) is %q", i, flate.FlushType(i).String())
		}
	}
	// numeric ones
	for v := -1; v <= 9; v++ {
		x := flate.CompressLevel(v)
		want := fmt.Sprint(v)
		if v == -1 {
			want = "default"
		} else if v == 0 {
			want = "none"
		}
		y := flate.CompressLevel(77)
		if err := y.Parse(x.String()); x.String() != want || err != nil || y != x {
			f.add("C13", "CompressLevel(%d): %q parses to %d, %v", v, x.String(), y, err)
		}
	}
	for v := 0; v <= 9; v++ {
		x := flate.MemoryLevel(v)
		want := fmt.Sprint(v)
		if v == 0 {
			want = "default"
		}
		y := flate.MemoryLevel(77)
		if err := y.Parse(x.String()); x.String() != want || err != nil || y != x {
			f.add("C13", "MemoryLevel(%d): %q parses to %d, %v", v, x.String(), y, err)
		}
	}
	for _, v := range []int{0, 8, 9, 10, 11, 12, 13, 14, 15} {
		x := flate.WindowBits(v)
		want := fmt.Sprint(v)
		if v == 0 {
			want = "default"
		}
		y := flate.WindowBits(77)
		if err := y.Parse(x.String()); x.String() != want || err != nil || y != x {
			f.add("C13", "WindowBits(%d): %q parses to %d, %v", v, x.String(), y, err)
		}
	}
	for v := 10; v < 300; v++ {
		s := fmt.Sprint(v)
		y, m := flate.CompressLevel(5), flate.MemoryLevel(5)
		if err := y.Parse(s); err == nil || y != flate.DefaultCompression {
			f.add("C13", "CompressLevel.Parse(%q) gives %d, %v", s, y, err)
		}
		if err := m.Parse(s); err == nil || m != flate.DefaultMemory {
			f.add("C13", "MemoryLevel.Parse(%q) gives %d, %v", s, m, err)
		}
	}
	for v := 0; v < 300; v++ {
		if v >= 8 && v <= 15 {
			continue
		}
		s := fmt.Sprint(v)
		y := flate.WindowBits(9)
		if err := y.Parse(s); err == nil || y != flate.DefaultWindowBits {
			f.add("C13", "WindowBits.Parse(%q) gives %d, %v", s, y, err)
		}
	}
	for _, s := range bad {
		if strings.EqualFold(s, "default") || strings.EqualFold(s, "none") {
			continue
		}
		a, b, cl, ml, wb := flate.Format(2), flate.Strategy(2), flate.CompressLevel(2), flate.MemoryLevel(2), flate.WindowBits(9)
		if err := a.Parse(s); err == nil || a != flate.DefaultFormat {
			f.add("C13", "Format.Parse(%q) gives %d, %v", s, a, err)
		}
		if err := b.Parse(s); err == nil || b != flate.DefaultStrategy {
			f.add("C13", "Strategy.Parse(%q) gives %d, %v", s, b, err)
		}
		if err := cl.Parse(s); err == nil || cl != flate.DefaultCompression {
			f.add("C13", "CompressLevel.Parse(%q) gives %d, %v", s, cl, err)
		}
		if err := ml.Parse(s); err == nil || ml != flate.DefaultMemory {
			f.add("C13", "MemoryLevel.Parse(%q) gives %d, %v", s, ml, err)
		}
		if err := wb.Parse(s); err == nil || wb != flate.DefaultWindowBits {
			f.add("C13", "WindowBits.Parse(%q) gives %d, %v", s, wb, err)
		}
	}
	// Checksum32 JSON
	for _, v := range []uint32{0, 1, 0xffffffff, 0x80000000, 0xabcdef, uint32(c.Seed), uint32(c.Seed) >> 7, uint32(c.Seed) & 0xff, uint32(c.Seed) << 9} {
		x := flate.Checksum32(v)
		raw, err := json.Marshal(x)
		y := ^x
		if err == nil {
			err = json.Unmarshal(raw, &y)
		}
		if err != nil || y != x {
			f.add("C13", "Checksum32(%08x) becomes %s and %08x, %v", v, raw, uint32(y), err)
		}
	}
	return
}

// runOptions applies Ops' options in order to a new Reader and Writer.
func runOptions(c *Case) (f fails) {
	var o Opts
	var l []flate.Option
	var dicts [][]byte
	for _, op := range c.Ops {
		q := *op.Opts
		if q.DictSet && q.Dict != nil {
			q.Dict = append([]byte(nil), q.Dict...)
			dicts = append(dicts, q.Dict)
		}
		l = append(l, q.list(nil)...)
		o = o.merge(*op.Opts)
	}
	for _, d := range dicts { // the caller goes on to use its memory
		for i := range d {
			d[i] ^= 0x55
		}
	}
	def := func(v, d, e int) int {
		if v == d {
			return e
		}
		return v
	}
	chk := func(what string, got, want int) {
		if got != want {
			f.add("C13", "%s is %d, expected %d", what, got, want)
		}
	}
	fr := flate.NewReader(bytes.NewReader(nil), l...)
	if c.Mode == 1 {
		fr = flate.NewReader(bytes.NewReader(nil))
		fr.Reset(bytes.NewReader(nil), l...)
	}
	chk("Reader.Format", int(fr.Format()), val(o.Format, 0))
	chk("Reader.MemoryLevel", int(fr.MemoryLevel()), def(val(o.MLevel, 0), 0, 9))
	chk("Reader.WindowBits", int(fr.WindowBits()), def(val(o.WBits, 0), 0, 15))
	if !bytes.Equal(fr.Dict(), o.dict()) {
		f.add("C13", "Reader.Dict differs from the one given")
	}
	if d := fr.Dict(); len(d) > 0 {
		d[0] ^= 1
		if !bytes.Equal(fr.Dict(), o.dict()) {
			f.add("C13", "Reader.Dict is not a copy")
		}
	}
	fw := flate.NewWriter(io.Discard, l...)
	if c.Mode == 1 {
		fw = flate.NewWriter(io.Discard)
		fw.Reset(io.Discard, l...)
	}
	chk("Writer.Format", int(fw.Format()), def(val(o.Format, 0), 0, 2))
	chk("Writer.Strategy", int(fw.Strategy()), val(o.Strategy, 0))
	chk("Writer.CompressLevel", int(fw.CompressLevel()), def(val(o.CLevel, -1), -1, 6))
	chk("Writer.MemoryLevel", int(fw.MemoryLevel()), def(val(o.MLevel, 0), 0, 9))
	chk("Writer.WindowBits", int(fw.WindowBits()), def(val(o.WBits, 0), 0, 15))
	chk("Writer.Method", int(fw.Method()), 0)
	if !bytes.Equal(fw.Dict(), o.dict()) {
		f.add("C13", "Writer.Dict differs from the one given")
	}
	if d := fw.Dict(); len(d) > 0 {
		d[0] ^= 1
		if !bytes.Equal(fw.Dict(), o.dict()) {
			f.add("C13", "Writer.Dict is not a copy")
		}
	}
	// tracers: the last list given, copied
	a, b := &recorder{}, &recorder{}
	trs := []flate.Tracer{a}
	opt := flate.WithTracers(trs...)
	trs[0] = b
	fw2 := flate.NewWriter(io.Discard, flate.WithTracers(b), opt)
	if t := fw2.Tracers(); len(t) != 1 || t[0] != flate.Tracer(a) {
		f.add("C13", "Writer.Tracers is not the list given last")
	}
	fr2 := flate.NewReader(bytes.NewReader(nil), flate.WithTracers(b), opt)
	if t := fr2.Tracers(); len(t) != 1 || t[0] != flate.Tracer(a) {
		f.add("C13", "Reader.Tracers is not the list given last")
	}
	for _, fn := range []func(){
		func() { flate.WithFormat(4) }, func() { flate.WithStrategy(4) }, func() { flate.WithCompressLevel(10) }, func() { flate.WithCompressLevel(-2) },
		func() { flate.WithMemoryLevel(10) }, func() { flate.WithWindowBits(7) }, func() { flate.WithWindowBits(16) }, func() { flate.WithMethod(1) },
	} {
		if !panics(fn) {
			f.add("C13", "an option with an invalid value was accepted")
		}
	}
	return
}

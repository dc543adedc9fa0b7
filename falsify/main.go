package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

func rOpts(r *rand.Rand, enc bool) (o Opts) {
	if r.Intn(6) != 0 {
		if enc {
			o.Format = ip(1 + r.Intn(3))
		} else {
			o.Format = ip(r.Intn(4))
		}
	}
	if r.Intn(4) != 0 {
		o.MLevel = ip([]int{1, 1, 2, 3, 5, 8, 9, 0}[r.Intn(8)])
	}
	if r.Intn(3) == 0 {
		o.WBits = ip([]int{8, 9, 10, 12, 14, 15, 0}[r.Intn(7)])
	}
	if enc {
		if r.Intn(2) == 0 {
			o.Strategy = ip(r.Intn(4))
		}
		if r.Intn(2) == 0 {
			o.CLevel = ip(r.Intn(11) - 1)
		}
	}
	if r.Intn(5) == 0 {
		o.DictSet = true
		o.Dict = genDict(r)
	}
	return
}

func rChunks(r *rand.Rand) (c []int) {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return []int{1}
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		n := r.Intn(20)
		if r.Intn(4) == 0 {
			n = r.Intn(5000)
		}
		c = append(c, n)
	}
	// at least one non-zero
	return append(c, 1+r.Intn(7))
}

func rReads(r *rand.Rand) (c []int) {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return []int{1 + r.Intn(3)}
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		n := r.Intn(300)
		if r.Intn(4) == 0 {
			n = r.Intn(50000)
		}
		c = append(c, n)
	}
	return append(c, 1+r.Intn(600))
}

func rInput(r *rand.Rand, o *Opts, big bool) []byte {
	format := val(o.Format, 0)
	wb := val(o.WBits, 15)
	if wb == 0 {
		wb = 15
	}
	var in []byte
	for k := 1 + r.Intn(3)*r.Intn(2); k > 0; k-- {
		f := format
		if f == 0 {
			f = 1 + r.Intn(3)
			if o.DictSet && f == 0 {
				f = 2
			}
		}
		in = append(in, genStream(r, f, wb, o.dict(), big)...)
	}
	return in
}

func mutate(r *rand.Rand, in []byte) []byte {
	in = append([]byte(nil), in...)
	for k := 1 + r.Intn(3)*r.Intn(2); k > 0 && len(in) > 0; k-- {
		n := len(in)
		switch r.Intn(9) {
		case 0, 1:
			in[r.Intn(n)] ^= 1 << uint(r.Intn(8))
		case 2: // near the start
			m := n
			if m > 40 {
				m = 40
			}
			in[r.Intn(m)] ^= 1 << uint(r.Intn(8))
		case 3: // trailer
			m := n
			if m > 9 {
				m = 9
			}
			in[n-1-r.Intn(m)] ^= 1 << uint(r.Intn(8))
		case 4:
			in[r.Intn(n)] = byte(r.Intn(256))
		case 5:
			in = append(in, randBytes(r, 1+r.Intn(30))...)
		case 6:
			i := r.Intn(n)
			in = append(in[:i], in[i+1:]...)
		case 7:
			i := r.Intn(n)
			in = append(in[:i:i], append([]byte{byte(r.Intn(256))}, in[i:]...)...)
		case 8:
			in = in[:r.Intn(n)]
		}
	}
	return in
}

func rHdr(r *rand.Rand, valid bool) *Hdr {
	h := &Hdr{OS: r.Intn(15), DataType: r.Intn(3)}
	name := func(bad string) []byte {
		n := r.Intn(30)
		switch r.Intn(6) {
		case 0:
			n = 0
		case 1:
			n = 250 + r.Intn(6)
			if !valid {
				n = 250 + r.Intn(12)
			}
		}
		p := make([]byte, n)
		for i := range p {
			for {
				p[i] = byte(1 + r.Intn(255))
				if p[i] != '/' && p[i] != '\\' {
					break
				}
			}
		}
		if !valid && r.Intn(5) == 0 && n > 0 {
			i := r.Intn(n)
			if r.Intn(2) == 0 {
				i = []int{0, n - 1}[r.Intn(2)]
			}
			p[i] = bad[r.Intn(len(bad))]
		}
		return p
	}
	if r.Intn(3) != 0 {
		h.Name = name("\x00/\\")
	}
	if r.Intn(3) != 0 {
		h.Comment = name("\x00/\\")
		if valid || r.Intn(2) == 0 {
			for i := range h.Comment {
				if h.Comment[i] == 0 {
					h.Comment[i] = 1
				}
			}
		}
	}
	if r.Intn(3) != 0 {
		h.MTimeSet = true
		h.MTime = int64(r.Uint32())
		if r.Intn(4) == 0 {
			h.MTime = []int64{1, 2, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 2}[r.Intn(6)]
		}
		if r.Intn(3) == 0 {
			h.MTimeNano = r.Int63n(1e9)
		}
		if !valid && r.Intn(4) == 0 {
			h.MTime = []int64{1 << 32, 1<<32 + 1, -1, -2, 1 << 33, -1 << 31, -62135596799, 1 << 40}[r.Intn(8)]
		}
	}
	if !valid && r.Intn(6) == 0 {
		h.OS = 14 + r.Intn(4)
	}
	for k := r.Intn(4); k > 0; k-- {
		n := r.Intn(30)
		if r.Intn(20) == 0 {
			n = []int{255, 256, 257, 30000}[r.Intn(4)]
		}
		h.Recs = append(h.Recs, Rec{[2]byte{byte(r.Intn(256)), byte(r.Intn(256))}, randBytes(r, n)})
	}
	if r.Intn(12) == 0 || !valid && r.Intn(4) == 0 {
		// around the limit
		n := 65535 - 4
		for _, x := range h.Recs {
			n -= 4 + len(x.Data)
		}
		if !valid {
			n += r.Intn(5) - 2
		}
		if n >= 0 {
			h.Recs = append(h.Recs, Rec{[2]byte{'Z', 'Z'}, randBytes(r, n)})
		}
	}
	if valid {
		n := 0
		for _, x := range h.Recs {
			n += 4 + len(x.Data)
		}
		if n > 65535 {
			h.Recs = nil
		}
	}
	return h
}

func cut(r *rand.Rand, data []byte, ops []Op, flush int) []Op {
	for len(data) > 0 {
		n := len(data)
		switch r.Intn(4) {
		case 0:
			n = 1 + r.Intn(n)
		case 1:
			if n > 10 {
				n = 1 + r.Intn(10)
			}
		case 2:
			n = 1 + r.Intn(1+n/2)
		}
		if len(ops) > 40 {
			n = len(data)
		}
		ops = append(ops, Op{Op: "write", Data: data[:n]})
		data = data[n:]
		if r.Intn(10) < flush {
			ops = append(ops, Op{Op: "flush", N: r.Intn(5)})
		}
	}
	return ops
}

func genEncode(r *rand.Rand, c *Case, big bool) {
	c.Kind = "encode"
	c.Opts = rOpts(r, true)
	c.FailAt = -1
	c.ErrAt = -1
	c.Mode = r.Intn(4) << 3
	fl := []int{0, 2, 5, 9}[r.Intn(4)]
	switch c.Prop {
	case "C12", "C11":
		fl = 3 + r.Intn(7)
	case "C09":
		c.Opts.Format = ip(3)
	case "C10":
		c.Opts.Format = ip(2)
		if r.Intn(3) == 0 {
			c.Opts.DictSet, c.Opts.Dict = true, genDict(r)
		}
		c.Opts.WBits = ip(8 + r.Intn(8))
		c.Opts.CLevel = ip(r.Intn(11) - 1)
	}
	if c.Prop == "C09" || r.Intn(6) == 0 {
		c.Ops = append(c.Ops, Op{Op: "header", Hdr: rHdr(r, true)})
	}
	if big && (c.Prop == "C03" || c.Prop == "C19" || c.Prop == "C12") && r.Intn(3) == 0 {
		c.Opts.MLevel = ip(9)
		if r.Intn(2) == 0 {
			c.Opts.Strategy = ip(1)
			c.Opts.CLevel = ip(6)
			d := lensData(r)
			if r.Intn(2) == 0 {
				d = treeData(r, 16, []float64{0.5, 0.9, 1}[r.Intn(3)])
			} else if r.Intn(3) == 0 {
				d = fibData(r, 20+r.Intn(6))
			}
			c.Ops = append(c.Ops, Op{Op: "write", Data: d}, Op{Op: "close"})
			return
		}
	}
	if r.Intn(8) == 0 {
		c.Ops = append(c.Ops, Op{Op: "flush", N: r.Intn(5)})
	}
	if r.Intn(12) != 0 {
		c.Ops = cut(r, genData(r, big), c.Ops, fl)
	}
	if r.Intn(5) == 0 {
		c.Ops = append(c.Ops, Op{Op: "flush", N: r.Intn(5)})
	}
	if r.Intn(10) == 0 {
		c.Ops = append(c.Ops, Op{Op: "flush", N: 4})
		c.Ops = cut(r, genData(r, false), c.Ops, fl)
	}
	if r.Intn(10) == 0 {
		c.Ops = append(c.Ops, Op{Op: "write"})
	}
	c.Ops = append(c.Ops, Op{Op: "close"})
	for k := r.Intn(3); k > 0; k-- {
		c.Ops = append(c.Ops, []Op{{Op: "write", Data: []byte("late")}, {Op: "flush", N: r.Intn(5)}, {Op: "close"}, {Op: "write"}}[r.Intn(4)])
	}
	if c.Prop == "C17" && r.Intn(5) != 0 {
		m := r.Intn(4)
		switch m {
		case 0, 1:
			c.FailAt = r.Intn(1 + r.Intn(3000))
			if r.Intn(3) == 0 {
				c.FailAt = r.Intn(40)
			}
			c.Mode = c.Mode&^7 | m
		case 2:
			c.Mode = (1|c.Mode>>3&3)<<3 | 2
			c.FailAt = r.Intn(4)
		case 3:
			c.Mode = (2|c.Mode>>3&3)<<3 | 3
			c.FailAt = r.Intn(4)
		}
		// what comes after the failure matters
		ops := c.Ops[:len(c.Ops)-1]
		for k := r.Intn(5); k > 0; k-- {
			ops = append(ops, []Op{{Op: "write", Data: []byte("late")}, {Op: "flush", N: r.Intn(5)}}[r.Intn(2)])
		}
		c.Ops = append(append([]Op{}, ops...), Op{Op: "close"}, Op{Op: "close"}, Op{Op: "write", Data: []byte("x")})
	} else if r.Intn(8) == 0 && c.Mode>>3&2 != 0 {
		c.Mode = c.Mode&^7 | 4
	}
}

func genDecode(r *rand.Rand, c *Case, big bool) {
	c.Kind = "decode"
	c.Opts = rOpts(r, false)
	c.ErrAt, c.FailAt = -1, -1
	switch c.Prop {
	case "C09":
		c.Opts.Format = ip(3 * r.Intn(2))
	case "C10":
		c.Opts.Format = ip(2 * r.Intn(2))
	}
	c.Chunks, c.Reads = rChunks(r), rReads(r)
	c.EOFNow = r.Intn(3) == 0
	gopts := c.Opts
	if (c.Prop == "C08" || c.Prop == "C10") && r.Intn(4) == 0 {
		// made for other options
		if r.Intn(2) == 0 {
			gopts.WBits = nil
		} else if gopts.DictSet {
			gopts.DictSet, gopts.Dict = r.Intn(2) == 0, genDict(r)
		} else {
			gopts.DictSet, gopts.Dict = true, genDict(r)
		}
	}
	c.Input = rInput(r, &gopts, big)
	mut := 0
	switch c.Prop {
	case "C05":
		mut = 8
	case "C07":
		mut = 8
	case "C08":
		mut = 7
	case "C01", "C20":
		mut = 2
	}
	if r.Intn(10) < mut {
		switch r.Intn(4) {
		case 0:
			c.Input = c.Input[:r.Intn(len(c.Input)+1)]
		case 1:
			c.ErrAt = r.Intn(len(c.Input) + 1)
			if r.Intn(5) == 0 {
				c.Mode = 2
			}
		case 2, 3:
			c.Input = mutate(r, c.Input)
		}
		if c.Prop == "C05" && r.Intn(6) == 0 {
			c.Input = randBytes(r, r.Intn(200))
			if r.Intn(2) == 0 && len(c.Input) > 12 {
				copy(c.Input, []byte{0x1f, 0x8b, 8, byte(r.Intn(32))})
			}
		}
		if c.Prop == "C08" && r.Intn(3) == 0 {
			// a trailer which is right in all but one respect
			if n := len(c.Input); n > 8 {
				c.Input[n-1-r.Intn(8)] ^= 1 << uint(r.Intn(8))
			}
		}
	}
	if r.Intn(40) == 0 {
		c.Input = nil
	}
}

func generate(prop string, seed, idx int64) *Case {
	r := rand.New(rand.NewSource(seed*1000003 + idx))
	c := &Case{Prop: prop, Index: idx, Seed: r.Int63(), FailAt: -1, ErrAt: -1}
	big := r.Intn(10) == 0
	switch prop {
	case "C01", "C02", "C05", "C07", "C08":
		genDecode(r, c, big)
	case "C03", "C11", "C12", "C17", "C19":
		genEncode(r, c, big)
	case "C04":
		switch r.Intn(8) {
		case 0:
			genDecode(r, c, big)
			return c
		case 1:
			genEncode(r, c, big)
			return c
		}
		c.Kind = "checksum"
		n := r.Intn(300)
		switch r.Intn(4) {
		case 0:
			n = int(idx % 200)
		case 1:
			n = r.Intn(30000)
		case 2:
			n = []int{5551, 5552, 5553, 5554, 5555, 5556, 11104, 11105, 65536, 65521}[r.Intn(10)]
		}
		c.Input = make([]byte, n)
		switch r.Intn(3) {
		case 0:
			for i := range c.Input {
				c.Input[i] = 255
			}
		case 1:
		default:
			r.Read(c.Input)
		}
		for k := r.Intn(6); k > 0; k-- {
			c.Chunks = append(c.Chunks, r.Intn(1+r.Intn(1+n)))
		}
		if r.Intn(3) == 0 {
			c.Chunks = append(c.Chunks, r.Intn(20), r.Intn(20))
		}
	case "C09", "C10":
		switch r.Intn(2) {
		case 0:
			genDecode(r, c, big)
		default:
			if prop == "C09" && r.Intn(3) == 0 {
				c.Kind = "sethdr"
				c.Input = genData(r, false)
				c.Ops = []Op{{Op: "header", Hdr: rHdr(r, true)}}
				break
			}
			genEncode(r, c, big)
		}
	case "C13":
		c.Kind = []string{"enum", "options", "options", "options"}[r.Intn(4)]
		if r.Intn(6) == 0 {
			genReset(r, c)
			break
		}
		c.Input = randBytes(r, r.Intn(5))
		c.Mode = r.Intn(2)
		for k := r.Intn(5); k > 0; k-- {
			o := rOpts(r, true)
			if o.Format != nil && r.Intn(4) == 0 {
				o.Format = ip(0)
			}
			if r.Intn(5) == 0 {
				o.DictSet, o.Dict = true, nil
			}
			c.Ops = append(c.Ops, Op{Op: "opt", Opts: &o})
		}
	case "C14":
		if r.Intn(2) == 0 {
			genDecode(r, c, big)
		} else {
			genEncode(r, c, big)
		}
	case "C15":
		genReset(r, c)
	case "C16":
		c.Kind = "extra"
		if r.Intn(2) == 0 {
			c.Input = randBytes(r, r.Intn(20))
			for k := r.Intn(5); k > 0; k-- {
				n := r.Intn(12)
				if r.Intn(8) == 0 {
					n = []int{255, 256, 65535, 300}[r.Intn(4)]
				}
				q := append([]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(n), byte(n >> 8)}, randBytes(r, n)...)
				c.Input = append(q, c.Input...)
			}
			if r.Intn(3) == 0 {
				c.Input = c.Input[:r.Intn(len(c.Input)+1)]
			}
		} else {
			c.Mode = 1
			h := &Hdr{}
			for k := r.Intn(6); k > 0; k-- {
				n := r.Intn(12)
				if r.Intn(8) == 0 {
					n = []int{255, 256, 65535, 65534, 300, 32768}[r.Intn(6)]
				}
				h.Recs = append(h.Recs, Rec{[2]byte{byte(r.Intn(256)), byte(r.Intn(256))}, randBytes(r, n)})
			}
			c.Ops = []Op{{Op: "header", Hdr: h}}
		}
	case "C18":
		c.Kind = "sethdr"
		c.Input = genData(r, false)
		for k := 1 + r.Intn(3); k > 0; k-- {
			c.Ops = append(c.Ops, Op{Op: "header", Hdr: rHdr(r, r.Intn(3) == 0)})
		}
	case "C20":
		if r.Intn(3) == 0 {
			genDecode(r, c, big)
			c.Mode = 1
			break
		}
		c.Kind = "schedule"
		c.Opts = rOpts(r, false)
		c.Opts.MLevel = ip([]int{1, 1, 2, 4, 9}[r.Intn(5)])
		c.Input = rInput(r, &c.Opts, r.Intn(3) == 0)
		c.Chunks = rChunks(r)
		c.Reads = rReads(r)
		if len(c.Reads) == 0 {
			c.Reads = []int{64, 1000}
		}
		for i := range c.Reads {
			if c.Reads[i] == 0 {
				c.Reads[i] = 5
			}
		}
		c.Mode = 1 + r.Intn(5)
		if r.Intn(3) == 0 {
			c.Mode |= 8
			c.FailAt = r.Intn(300)
		}
		if r.Intn(4) == 0 {
			c.Mode |= 16
			c.FailAt = r.Intn(300)
		}
	default:
		panic("unknown property " + prop)
	}
	return c
}

func genReset(r *rand.Rand, c *Case) {
	if r.Intn(2) == 0 {
		c.Kind = "resetr"
		c.Opts = rOpts(r, false)
		o := c.Opts
		in := rInput(r, &o, r.Intn(4) == 0)
		if r.Intn(3) == 0 {
			in = mutate(r, in)
		}
		c.Chunks, c.Reads = rChunks(r), rReads(r)
		hist := func() (l []Op) {
			for k := r.Intn(3); k > 0; k-- {
				l = append(l, []Op{{Op: "read", N: r.Intn(2000)}, {Op: "read", N: r.Intn(20)}, {Op: "close"}, {Op: "yield", N: r.Intn(200)}, {Op: "read", N: 1 << 22}}[r.Intn(5)])
			}
			return
		}
		e := 0
		if r.Intn(4) == 0 {
			e = 1 + r.Intn(len(in)+1)
		}
		c.Ops = append([]Op{{Op: "open", Data: in, N: e}}, hist()...)
		for k := r.Intn(2); k > 0; k-- {
			q := rOpts(r, false)
			o = o.merge(q)
			c.Ops = append(c.Ops, Op{Op: "reset", Data: rInput(r, &o, false), Opts: &q})
			c.Ops = append(c.Ops, hist()...)
		}
		var q Opts
		if r.Intn(2) == 0 {
			q = rOpts(r, false)
			if r.Intn(5) == 0 {
				q.DictSet, q.Dict = true, nil
			}
		}
		o = o.merge(q)
		c.Ops = append(c.Ops, Op{Op: "final", Opts: &q})
		c.Input = rInput(r, &o, r.Intn(4) == 0)
		if r.Intn(4) == 0 {
			c.Input = mutate(r, c.Input)
		}
		return
	}
	c.Kind = "resetw"
	c.Opts = rOpts(r, true)
	switch r.Intn(3) {
	case 0:
		c.FailAt = r.Intn(600)
	case 1:
		c.FailAt = r.Intn(30)
	}
	hist := func() (l []Op) {
		if r.Intn(5) == 0 {
			l = append(l, Op{Op: "header", Hdr: rHdr(r, true)})
		}
		if r.Intn(8) == 0 {
			return
		}
		l = cut(r, genData(r, r.Intn(8) == 0), l, 4)
		if r.Intn(4) == 0 {
			l = append(l, Op{Op: "flush", N: 4})
		} else {
			l = append(l, Op{Op: "close"})
		}
		return
	}
	c.Ops = hist()
	if r.Intn(4) == 0 {
		q := rOpts(r, true)
		c.Ops = append(c.Ops, Op{Op: "reset", Opts: &q})
		c.Ops = append(c.Ops, hist()...)
	}
	var q Opts
	if r.Intn(2) == 0 {
		q = rOpts(r, true)
		if r.Intn(5) == 0 {
			q.DictSet, q.Dict = true, nil
		}
	}
	c.Ops = append(c.Ops, Op{Op: "reset", Opts: &q})
	c.Ops = append(c.Ops, cut(r, genData(r, r.Intn(8) == 0), nil, 2)...)
	c.Ops = append(c.Ops, Op{Op: "close"})
	if c.FailAt >= 0 {
		// after a failure the Writer need not be closed
		return
	}
}

// ---- worker ----

type report struct {
	Cases    int64
	Distinct int64
	NonTriv  int64
	Kinds    map[string]int64
	Samples  []string
	Fails    []failRep
}

type failRep struct {
	Prop, Msg, Replay string
	Case              *Case `json:"-"`
}

func sample(c *Case) string {
	s := fmt.Sprintf("#%d %s input=%d bytes", c.Index, c.Kind, len(c.Input))
	if o, err := json.Marshal(c.Opts); err == nil && len(o) < 300 {
		s += " opts=" + string(o)
	}
	if len(c.Ops) > 0 {
		s += " ops="
		for i, op := range c.Ops {
			if i == 8 {
				s += "..."
				break
			}
			s += fmt.Sprintf("%s(%d,%d) ", op.Op, len(op.Data), op.N)
		}
	}
	if c.ErrAt >= 0 {
		s += fmt.Sprintf(" errAt=%d", c.ErrAt)
	}
	if c.FailAt >= 0 {
		s += fmt.Sprintf(" failAt=%d mode=%d", c.FailAt, c.Mode)
	}
	return s
}

func worker(prop string, seed int64, secs float64, w, n int, statef string, maxCases int64) {
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	st, err := os.Create(statef)
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	started := time.Now()
	caseStart := time.Now()
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			mu.Lock()
			d := time.Since(caseStart)
			mu.Unlock()
			if d > 20*time.Second {
				fmt.Fprintln(os.Stderr, "HANG")
				os.Exit(4)
			}
		}
	}()
	rep := report{Kinds: map[string]int64{}}
	seen := map[uint64]bool{}
	var b [8]byte
	for i := int64(w); (maxCases == 0 || rep.Cases < maxCases) && time.Since(started).Seconds() < secs; i += int64(n) {
		binary.LittleEndian.PutUint64(b[:], uint64(i))
		st.WriteAt(b[:], 0)
		c := generate(prop, seed, i)
		mu.Lock()
		caseStart = time.Now()
		mu.Unlock()
		fs := runCase(c)
		rep.Cases++
		rep.Kinds[c.Kind]++
		h := fnv.New64a()
		json.NewEncoder(h).Encode([]interface{}{c.Kind, c.Opts, c.Chunks, c.Reads, c.ErrAt, c.FailAt, c.Mode})
		h.Write(c.Input)
		for _, op := range c.Ops {
			fmt.Fprint(h, op.Op, op.N)
			h.Write(op.Data)
			if op.Hdr != nil {
				json.NewEncoder(h).Encode(op.Hdr)
			}
			if op.Opts != nil {
				json.NewEncoder(h).Encode(op.Opts)
			}
		}
		if k := h.Sum64(); !seen[k] {
			seen[k] = true
			rep.Distinct++
			if len(c.Input) > 0 || len(c.Ops) > 0 {
				rep.NonTriv++
			}
		}
		if len(rep.Samples) < 3 {
			rep.Samples = append(rep.Samples, sample(c))
		}
		for _, f := range fs {
			if f.Prop == prop {
				rep.Fails = append(rep.Fails, failRep{Prop: f.Prop, Msg: f.Msg, Replay: fmt.Sprint(i)})
			}
		}
		if len(rep.Fails) > 0 {
			break
		}
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

func main() {
	mode := flag.String("mode", "run", "")
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	secs := flag.Float64("secs", 5, "")
	workers := flag.Int("workers", 8, "")
	wi := flag.Int("w", 0, "")
	state := flag.String("state", "", "")
	out := flag.String("out", "", "directory for replay files")
	idx := flag.Int64("index", 0, "")
	file := flag.String("file", "", "")
	max := flag.Int64("max", 0, "")
	flag.Parse()
	switch *mode {
	case "worker":
		worker(*prop, *seed, *secs, *wi, *workers, *state, *max)
	case "gen":
		json.NewEncoder(os.Stdout).Encode(generate(*prop, *seed, *idx))
	case "replay":
		raw, err := os.ReadFile(*file)
		if err != nil {
			panic(err)
		}
		var x struct{ Case *Case }
		if err := json.Unmarshal(raw, &x); err != nil || x.Case == nil {
			fmt.Println("no case in", *file, err)
			os.Exit(2)
		}
		go func() {
			time.Sleep(20 * time.Second)
			fmt.Println("HANG")
			os.Exit(1)
		}()
		bad := false
		for _, f := range runCase(x.Case) {
			fmt.Println(f.Prop, f.Msg)
			bad = bad || *prop == "" || f.Prop == *prop
		}
		if bad {
			os.Exit(1)
		}
	case "run":
		run(*prop, *seed, *secs, *workers, *out, *max)
	}
}

func run(prop string, seed int64, secs float64, n int, out string, max int64) {
	tot := report{Kinds: map[string]int64{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	tmp, err := os.MkdirTemp("", "zzv")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sf := filepath.Join(tmp, fmt.Sprint(i))
			cmd := exec.Command(os.Args[0], "-mode", "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(secs), "-workers", fmt.Sprint(n), "-w", fmt.Sprint(i), "-state", sf, "-max", fmt.Sprint(max))
			var eb strings.Builder
			cmd.Stderr = &eb
			raw, err := cmd.Output()
			var rep report
			mu.Lock()
			defer mu.Unlock()
			if err != nil || json.Unmarshal(raw, &rep) != nil {
				b, _ := os.ReadFile(sf)
				if len(b) == 8 {
					k := int64(binary.LittleEndian.Uint64(b))
					msg := eb.String()
					if len(msg) > 3000 {
						msg = msg[:3000]
					}
					if strings.Contains(msg, "DATA RACE") {
						msg = "data race: " + msg
					}
					tot.Fails = append(tot.Fails, failRep{Prop: prop, Msg: "the process died: " + fmt.Sprint(err) + ": " + msg, Replay: fmt.Sprint(k)})
				} else {
					fmt.Fprintln(os.Stderr, "worker failed to start:", err, eb.String())
					os.Exit(3)
				}
				return
			}
			tot.Cases += rep.Cases
			tot.Distinct += rep.Distinct
			tot.NonTriv += rep.NonTriv
			for k, v := range rep.Kinds {
				tot.Kinds[k] += v
			}
			if len(tot.Samples) < 5 && len(rep.Samples) > 0 {
				tot.Samples = append(tot.Samples, rep.Samples[0])
			}
			tot.Fails = append(tot.Fails, rep.Fails...)
		}(i)
	}
	wg.Wait()
	sort.SliceStable(tot.Fails, func(i, j int) bool { return len(tot.Fails[i].Replay) < len(tot.Fails[j].Replay) })
	if len(tot.Fails) > 5 {
		tot.Fails = tot.Fails[:5]
	}
	for i := range tot.Fails {
		f := &tot.Fails[i]
		var k int64
		fmt.Sscan(f.Replay, &k)
		c := generate(prop, seed, k)
		f.Replay = filepath.Join(out, fmt.Sprintf("%s-case%d.json", prop, k))
		raw, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "message": f.Msg, "how_to_replay": "bash /verif/replay.sh THIS_FILE", "Case": c}, "", " ")
		os.MkdirAll(out, 0o777)
		os.WriteFile(f.Replay, raw, 0o666)
	}
	json.NewEncoder(os.Stdout).Encode(tot)
}

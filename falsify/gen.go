package main

import (
	"bytes"
	stdflate "compress/flate"
	"encoding/binary"
	"hash/adler32"
	"hash/crc32"
	"math/rand"
)

// ---- data shapes ----

func randBytes(r *rand.Rand, n int) []byte {
	p := make([]byte, n)
	r.Read(p)
	return p
}

// treeData returns data whose byte frequencies are 2^(m-depth) for the leaves
// of a random binary tree, so that its Huffman code has that very shape.
func treeData(r *rand.Rand, maxDepth int, skew float64) []byte {
	depths := []int{1, 1}
	for len(depths) < 250 {
		i := r.Intn(len(depths))
		if r.Float64() < skew {
			for j, d := range depths {
				if d > depths[i] {
					i = j
				}
			}
		}
		if depths[i] >= maxDepth {
			if r.Intn(3) == 0 {
				break
			}
			i = r.Intn(len(depths))
			if depths[i] >= maxDepth {
				break
			}
		}
		depths[i]++
		depths = append(depths, depths[i])
		if len(depths) > 3 && r.Intn(200) == 0 {
			break
		}
	}
	perm := r.Perm(256)
	if r.Intn(2) == 0 {
		for i := range perm {
			perm[i] = i
		}
	}
	m := 0
	for _, d := range depths {
		if d > m {
			m = d
		}
	}
	var out []byte
	for i, d := range depths {
		out = append(out, bytes.Repeat([]byte{byte(perm[i])}, 1<<uint(m-d))...)
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

// lensData aims at skewed frequencies of the code sizes themselves.
func lensData(r *rand.Rand) []byte {
	// Number of leaves at each depth, geometrically distributed.
	need := []int{}
	free := 1
	for d := 1; d <= 15 && free > 0; d++ {
		free *= 2
		use := 0
		switch {
		case d == 15:
			use = free
		case d < 15 && free > 1:
			use = r.Intn(free)
			if r.Intn(2) == 0 && use > 3 {
				use = 1 + r.Intn(3)
			}
			if use >= free {
				use = free - 1
			}
		}
		for i := 0; i < use; i++ {
			need = append(need, d)
		}
		free -= use
		if len(need)+free > 200 {
			for i := 0; i < free && len(need) < 255; i++ {
				need = append(need, d)
			}
			break
		}
	}
	if len(need) > 255 {
		need = need[:255]
	}
	r.Shuffle(len(need), func(i, j int) { need[i], need[j] = need[j], need[i] })
	m := 0
	for _, d := range need {
		if d > m {
			m = d
		}
	}
	var out []byte
	for i, d := range need {
		k := 1 << uint(m-d)
		out = append(out, bytes.Repeat([]byte{byte(i)}, k)...)
	}
	return out
}

func fibData(r *rand.Rand, n int) []byte {
	var out []byte
	a, b := 1, 1
	perm := r.Perm(256)
	for i := 0; i < n; i++ {
		out = append(out, bytes.Repeat([]byte{byte(perm[i])}, a)...)
		a, b = b, a+b
	}
	return out
}

func genData(r *rand.Rand, big bool) []byte {
	max := 3000
	if big {
		max = 140000
	}
	n := r.Intn(max)
	if r.Intn(4) == 0 {
		n = r.Intn(40)
	}
	if big && r.Intn(3) == 0 {
		c := []int{65535, 65536, 65537, 32768, 131072, 61440, 61441, 131071, 131070, 16384, 4096}
		n = c[r.Intn(len(c))] + r.Intn(3) - 1
	}
	switch r.Intn(9) {
	case 0:
		return randBytes(r, n)
	case 1: // small alphabet
		k := 1 + r.Intn(8)
		p := make([]byte, n)
		for i := range p {
			p[i] = byte('a' + r.Intn(k))
		}
		return p
	case 2: // runs
		var p []byte
		for len(p) < n {
			p = append(p, bytes.Repeat([]byte{byte(r.Intn(256))}, 1+r.Intn(1+r.Intn(600)))...)
		}
		return p
	case 3: // periodic with noise; the period around the interesting distances
		per := 1 + r.Intn(300)
		if big {
			c := []int{255, 256, 257, 511, 512, 513, 1023, 1024, 4096, 8191, 16384, 16385, 24576, 24577, 32767, 32768, 32769}
			per = c[r.Intn(len(c))]
		}
		base := randBytes(r, per)
		p := make([]byte, n)
		for i := range p {
			p[i] = base[i%per]
			if r.Intn(200) == 0 {
				p[i] = byte(r.Intn(256))
			}
		}
		return p
	case 4:
		d := 7
		if big {
			d = 10 + r.Intn(7)
		}
		return treeData(r, d, []float64{0, 0.5, 0.9, 1}[r.Intn(4)])
	case 5:
		k := 12
		if big {
			k = 24
		}
		return fibData(r, 2+r.Intn(k))
	case 6: // words
		var words [][]byte
		for i := 0; i < 1+r.Intn(60); i++ {
			w := make([]byte, 1+r.Intn(12))
			for j := range w {
				w[j] = byte(32 + r.Intn(95))
			}
			words = append(words, w)
		}
		var p []byte
		for len(p) < n {
			p = append(p, words[r.Intn(len(words))]...)
			p = append(p, " \n\t"[r.Intn(3)])
		}
		return p
	case 7: // mixture
		var p []byte
		for i := 0; i < 1+r.Intn(4); i++ {
			q := genData(r, false)
			p = append(p, q...)
			if big && r.Intn(2) == 0 {
				p = append(p, randBytes(r, r.Intn(40000))...)
			}
		}
		return p
	default:
		if big {
			return lensData(r)
		}
		// back references of all lengths
		p := randBytes(r, 1+r.Intn(300))
		for len(p) < n {
			l := 1 + r.Intn(300)
			o := r.Intn(len(p))
			for i := 0; i < l; i++ {
				p = append(p, p[o+i])
			}
			p = append(p, randBytes(r, r.Intn(4))...)
		}
		return p
	}
}

// ---- valid streams ----

type bitw struct {
	p []byte
	n int // bits
}

func (b *bitw) bits(v, n int) {
	for i := 0; i < n; i++ {
		if b.n&7 == 0 {
			b.p = append(b.p, 0)
		}
		b.p[b.n>>3] |= byte(v>>uint(i)&1) << uint(b.n&7)
		b.n++
	}
}
func (b *bitw) align()         { b.n = (b.n + 7) &^ 7 }
func (b *bitw) bytes(p []byte) { b.align(); b.p = append(b.p, p...); b.n += 8 * len(p) }

type cenc struct {
	size []byte
	code []int
}

func mkenc(size []byte) *cenc {
	e := &cenc{size: size, code: make([]int, len(size))}
	var cnt, next [17]int
	for _, s := range size {
		if s != 0 {
			cnt[s]++
		}
	}
	code := 0
	for l := 1; l <= 15; l++ {
		code = (code + cnt[l-1]) << 1
		next[l] = code
	}
	for i, s := range size {
		if s != 0 {
			e.code[i] = next[s]
			next[s]++
		}
	}
	return e
}

func (e *cenc) put(b *bitw, s int) {
	for i := int(e.size[s]) - 1; i >= 0; i-- {
		b.bits(e.code[s]>>uint(i)&1, 1)
	}
}

// randSizes makes a random complete code with limit for the used symbols.
func randSizes(r *rand.Rand, n int, used map[int]bool, limit int, minSyms int) []byte {
	for len(used) < minSyms {
		used[r.Intn(n)] = true
	}
	size := make([]byte, n)
	var syms []int
	for i := 0; i < n; i++ {
		if used[i] {
			syms = append(syms, i)
		}
	}
	if len(syms) == 0 {
		return size
	}
	if len(syms) == 1 {
		size[syms[0]] = 1
		return size
	}
	depth := []int{1, 1}
	skew := r.Intn(3)
	for len(depth) < len(syms) {
		i := r.Intn(len(depth))
		if skew != 0 {
			for j, d := range depth {
				if (skew == 1 && d > depth[i] && d < limit) || (skew == 2 && d < depth[i]) {
					i = j
				}
			}
		}
		if depth[i] >= limit {
			for j, d := range depth {
				if d < limit && (depth[i] >= limit || r.Intn(3) == 0) {
					i = j
				}
			}
		}
		depth[i]++
		depth = append(depth, depth[i])
	}
	r.Shuffle(len(depth), func(i, j int) { depth[i], depth[j] = depth[j], depth[i] })
	for i, s := range syms {
		size[s] = byte(depth[i])
	}
	return size
}

type sym struct{ s, extra, nextra int }

func lenSym(r *rand.Rand, n int) sym {
	for i := 28; i >= 0; i-- {
		if n >= olenBase[i] && n-olenBase[i] < 1<<uint(olenExtra[i]) {
			// 258 as code 284 with extra 31 is also legal
			if n == 258 && r.Intn(4) == 0 {
				return sym{284, 31, 5}
			}
			return sym{257 + i, n - olenBase[i], olenExtra[i]}
		}
	}
	panic("len")
}

func distSym(d int) sym {
	for i := 29; i >= 0; i-- {
		if d >= odistBase[i] {
			return sym{i, d - odistBase[i], odistExtra[i]}
		}
	}
	panic("dist")
}

// genTokens makes n tokens with a history of h bytes; it returns the length they add.
func genTokens(r *rand.Rand, n, h, maxDist int) (toks []tok, added int) {
	alpha := 1 + r.Intn(256)
	pmatch := []float64{0, 0.1, 0.5, 0.95}[r.Intn(4)]
	dmode := r.Intn(4)
	for i := 0; i < n; i++ {
		lim := h + added
		if lim > maxDist {
			lim = maxDist
		}
		if lim > 0 && r.Float64() < pmatch {
			l := 3 + r.Intn(256)
			switch r.Intn(4) {
			case 0:
				l = 3 + r.Intn(10)
			case 1:
				l = olenBase[r.Intn(29)]
			case 2:
				l = 258 - r.Intn(3)
			}
			d := 1 + r.Intn(lim)
			switch dmode {
			case 0:
				d = lim - r.Intn(1+lim/16)
			case 1:
				d = odistBase[r.Intn(30)]
				if d > 1 {
					d -= r.Intn(2)
				}
			case 2:
				if lim > 8 {
					d = 1 + r.Intn(8)
				}
			}
			if d > lim || r.Intn(30) == 0 {
				d = lim
			}
			if d < 1 {
				d = 1
			}
			toks = append(toks, tok{Len: l, Dist: d})
			added += l
		} else {
			toks = append(toks, tok{Lit: byte(r.Intn(alpha))})
			added++
		}
	}
	return
}

func putToks(r *rand.Rand, b *bitw, ll, dd *cenc, toks []tok, ls, ds []sym) {
	j := 0
	for _, t := range toks {
		if t.Len == 0 {
			ll.put(b, int(t.Lit))
			continue
		}
		ll.put(b, ls[j].s)
		b.bits(ls[j].extra, ls[j].nextra)
		dd.put(b, ds[j].s)
		b.bits(ds[j].extra, ds[j].nextra)
		j++
	}
	ll.put(b, 256)
}

type gstream struct {
	fmt     int
	out     []byte // as decoded by the oracle
	p       []byte
	maxDist int
}

func genBlocks(r *rand.Rand, b *bitw, dictLen, maxDist int, big bool) {
	n := 1 + r.Intn(4)
	h := dictLen
	for i := 0; i < n; i++ {
		fin := 0
		if i == n-1 {
			fin = 1
		}
		typ := r.Intn(4)
		if typ == 3 {
			typ = 2
		}
		b.bits(fin|typ<<1, 3)
		nt := r.Intn(60)
		if r.Intn(6) == 0 {
			nt = 0
		}
		if big {
			nt = r.Intn(1500)
		}
		switch typ {
		case 0:
			if b.n&7 != 0 && r.Intn(2) == 0 {
				b.bits(r.Intn(1<<uint(8-b.n&7)), 8-b.n&7) // padding may be anything
			}
			b.align()
			l := r.Intn(300)
			if r.Intn(5) == 0 {
				l = 0
			}
			if big && r.Intn(4) == 0 {
				l = []int{65535, 65534, 40000, 32768, 32767}[r.Intn(5)]
			}
			q := randBytes(r, l)
			b.bytes([]byte{byte(l), byte(l >> 8), byte(^l), byte(^l >> 8)})
			b.bytes(q)
			h += l
		case 1:
			toks, add := genTokens(r, nt, h, maxDist)
			h += add
			var ls, ds []sym
			for _, t := range toks {
				if t.Len != 0 {
					ls = append(ls, lenSym(r, t.Len))
					ds = append(ds, distSym(t.Dist))
				}
			}
			putToks(r, b, mkenc(ofixLL), mkenc(ofixD), toks, ls, ds)
		case 2:
			toks, add := genTokens(r, nt, h, maxDist)
			h += add
			var ls, ds []sym
			ull, ud := map[int]bool{256: true}, map[int]bool{}
			for _, t := range toks {
				if t.Len != 0 {
					ls = append(ls, lenSym(r, t.Len))
					ds = append(ds, distSym(t.Dist))
					ull[ls[len(ls)-1].s] = true
					ud[ds[len(ds)-1].s] = true
				} else {
					ull[int(t.Lit)] = true
				}
			}
			for k := r.Intn(40); k > 0; k-- { // unused symbols
				ull[r.Intn(286)] = true
			}
			if len(ud) > 1 {
				for k := r.Intn(6); k > 0; k-- {
					ud[r.Intn(30)] = true
				}
			}
			sll := randSizes(r, 286, ull, 15, 2)
			sd := randSizes(r, 30, ud, 15, 0)
			genTrees(r, b, sll, sd)
			putToks(r, b, mkenc(sll), mkenc(sd), toks, ls, ds)
		}
	}
}

func genTrees(r *rand.Rand, b *bitw, sll, sd []byte) {
	nll, nd := 286, 30
	for nll > 257 && sll[nll-1] == 0 {
		nll--
	}
	for nd > 1 && sd[nd-1] == 0 {
		nd--
	}
	if r.Intn(3) == 0 {
		nll += r.Intn(286 - nll + 1)
		nd += r.Intn(30 - nd + 1)
	}
	l := append(append([]byte{}, sll[:nll]...), sd[:nd]...)
	var xs []sym
	ux := map[int]bool{}
	style := r.Intn(4)
	for i := 0; i < len(l); {
		run := 1
		for i+run < len(l) && l[i+run] == l[i] {
			run++
		}
		var c []sym
		if l[i] == 0 && run >= 3 {
			k := run
			if k > 10 {
				k = 10
			}
			c = append(c, sym{17, 3 + r.Intn(k-2), 3})
			if run >= 11 {
				k := run
				if k > 138 {
					k = 138
				}
				c = append(c, sym{18, 11 + r.Intn(k-10), 7}, sym{18, k, 7})
			}
		}
		if i > 0 && l[i] == l[i-1] && run >= 3 {
			k := run
			if k > 6 {
				k = 6
			}
			c = append(c, sym{16, 3 + r.Intn(k-2), 2}, sym{16, k, 2})
		}
		s := sym{int(l[i]), 1, 0}
		if len(c) > 0 && r.Intn(6) >= style {
			s = c[r.Intn(len(c))]
		}
		i += s.extra
		switch s.s {
		case 16, 17:
			s.extra -= 3
		case 18:
			s.extra -= 11
		default:
			s.extra = 0
		}
		xs = append(xs, s)
		ux[s.s] = true
	}
	if r.Intn(3) == 0 {
		ux[r.Intn(19)] = true
	}
	sx := randSizes(r, 19, ux, 7, 2)
	nx := 19
	for nx > 4 && sx[oorder[nx-1]] == 0 {
		nx--
	}
	if r.Intn(3) == 0 {
		nx += r.Intn(20 - nx)
	}
	b.bits(nll-257, 5)
	b.bits(nd-1, 5)
	b.bits(nx-4, 4)
	for i := 0; i < nx; i++ {
		b.bits(int(sx[oorder[i]]), 3)
	}
	e := mkenc(sx)
	for _, s := range xs {
		e.put(b, s.s)
		b.bits(s.extra, s.nextra)
	}
}

func randName(r *rand.Rand) []byte {
	n := r.Intn(20)
	if r.Intn(8) == 0 {
		n = r.Intn(400)
	}
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(1 + r.Intn(255))
	}
	return p
}

// genStream makes one valid stream of the given format (1..3).
func genStream(r *rand.Rand, format, wbits int, dict []byte, big bool) []byte {
	var b bitw
	maxDist := 1 << uint(wbits)
	switch format {
	case 2:
		w := 8 + r.Intn(wbits-7)
		maxDist = 1 << uint(w)
		h0 := (w-8)<<4 | 8
		h1 := r.Intn(4) << 6
		if dict != nil {
			h1 |= 0x20
		}
		m := (h0<<8 | h1) % 31
		if m != 0 {
			h1 += 31 - m
		}
		b.bytes([]byte{byte(h0), byte(h1)})
		if dict != nil {
			var t [4]byte
			binary.BigEndian.PutUint32(t[:], adler32.Checksum(dict))
			b.bytes(t[:])
		}
	case 3:
		fl := byte(r.Intn(32))
		h := make([]byte, 10)
		h[0], h[1], h[2], h[3] = 0x1f, 0x8b, 8, fl
		if r.Intn(3) != 0 {
			binary.LittleEndian.PutUint32(h[4:], r.Uint32())
		}
		h[8] = []byte{0, 2, 4, byte(r.Intn(256))}[r.Intn(4)]
		h[9] = byte(r.Intn(16))
		if r.Intn(4) == 0 {
			h[9] = byte(r.Intn(256))
		}
		if fl&4 != 0 {
			var x []byte
			if r.Intn(3) == 0 {
				x = randBytes(r, r.Intn(30))
			} else {
				for k := r.Intn(4); k > 0; k-- {
					n := r.Intn(20)
					if r.Intn(10) == 0 {
						n = r.Intn(700)
					}
					x = append(x, byte(r.Intn(256)), byte(r.Intn(256)), byte(n), byte(n>>8))
					x = append(x, randBytes(r, n)...)
				}
			}
			h = append(h, byte(len(x)), byte(len(x)>>8))
			h = append(h, x...)
		}
		if fl&8 != 0 {
			h = append(append(h, randName(r)...), 0)
		}
		if fl&16 != 0 {
			h = append(append(h, randName(r)...), 0)
		}
		if fl&2 != 0 {
			c := crc32.ChecksumIEEE(h)
			h = append(h, byte(c), byte(c>>8))
		}
		b.bytes(h)
	}
	hdr := len(b.p)
	var raw bitw
	if r.Intn(8) == 0 && dict == nil && maxDist == 32768 {
		var bb bytes.Buffer
		w, _ := stdflate.NewWriter(&bb, r.Intn(11)-1)
		_, _ = w.Write(genData(r, big))
		w.Close()
		raw.p = bb.Bytes()
	} else {
		genBlocks(r, &raw, len(dict), maxDist, big)
	}
	b.p = append(b.p, raw.p...)
	res := oracle(raw.p, 1, 15, dict, false)
	if len(res.Streams) == 0 {
		panic("generator made an invalid stream: " + res.Why)
	}
	out := res.Streams[0].Out
	_ = hdr
	switch format {
	case 2:
		var t [4]byte
		binary.BigEndian.PutUint32(t[:], adler32.Checksum(out))
		b.p = append(b.p, t[:]...)
	case 3:
		var t [8]byte
		binary.LittleEndian.PutUint32(t[:], crc32.ChecksumIEEE(out))
		binary.LittleEndian.PutUint32(t[4:], uint32(len(out)))
		b.p = append(b.p, t[:]...)
	}
	return b.p
}

func genDict(r *rand.Rand) []byte {
	n := 1 + r.Intn(60)
	switch r.Intn(6) {
	case 0:
		n = 1 + r.Intn(700)
	case 1:
		n = []int{256, 257, 255, 32768, 32767, 40000}[r.Intn(6)]
	}
	p := make([]byte, n)
	switch r.Intn(4) {
	case 0: // zeroes
	case 1:
		r.Read(p)
		for i := n / 2; i < n; i++ {
			p[i] = 0
		}
	default:
		for i := range p {
			p[i] = byte('a' + r.Intn(6))
		}
	}
	return p
}

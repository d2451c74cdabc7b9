package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"syscall"
	"unsafe"

	"github.com/fadhilkurnia/shamir/galois"
)

// kernelScript asks for calls of the vector kernels.
type kernelScript struct {
	Cpu    string
	Scalar bool
	Lens   []int // lengths
	Consts int   // constants per length; 256 means all
	Aligns []int // offsets from a 64-byte boundary; -1: the vector ends at an unmapped page
	Big    []int // lengths tried with a few constants
	Rounds int
	Seed   int64
	Limit  int
}

// relation collects, for a binary function, which results were seen for which
// operands, over all positions, lengths, alignments and calls.
type relation struct {
	seen  [256][256][]int
	elems int
	calls int
}

func (r *relation) add(a, b, v byte) {
	s := r.seen[a][b]
	for _, x := range s {
		if x == int(v) {
			return
		}
	}
	if len(s) < 4 {
		r.seen[a][b] = append(s, int(v))
	}
}

// where is an example of something that went wrong.
type where struct {
	Len, AlignIn, AlignOut, C, At int
}

func (w where) list() []int { return []int{w.Len, w.AlignIn, w.AlignOut, w.C, w.At} }

type kernelRun struct {
	s       kernelScript
	r       *mrand.Rand
	rel     map[string]*relation
	outside map[string][][]int // writes outside the returned vector
	badLen  map[string][][]int
	fault   map[string][][]int
	calls   map[string]int
}

// page is memory followed by a page that cannot be accessed.
type page struct{ mem []byte }

func newPage(n int) page {
	ps := syscall.Getpagesize()
	n = (n + ps - 1) / ps * ps
	m, err := syscall.Mmap(-1, 0, n+ps, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		fatal("mmap: %v", err)
	}
	if err := syscall.Mprotect(m[n:], syscall.PROT_NONE); err != nil {
		fatal("mprotect: %v", err)
	}
	return page{m[:n:n]}
}

// at returns n bytes of the page at the given alignment, or at its end.
func (p page) at(n, align int) (int, []byte) {
	if align < 0 {
		return len(p.mem) - n, p.mem[len(p.mem)-n:]
	}
	off := 64 + align // mmap'ed memory is page aligned
	return off, p.mem[off : off+n]
}

// offsetIn says where in the page a slice lies, or -1.
func (p page) offsetIn(b []byte) int {
	if cap(b) == 0 {
		return -1
	}
	b = b[:1]
	base := uintptr(unsafe.Pointer(&p.mem[0]))
	x := uintptr(unsafe.Pointer(&b[0]))
	if x < base || x >= base+uintptr(len(p.mem)) {
		return -1
	}
	return int(x - base)
}

func guarded(fn func()) (failed string) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if p := recover(); p != nil {
			failed = fmt.Sprint(p)
		}
	}()
	fn()
	return ""
}

func (k *kernelRun) note(m map[string][][]int, fn string, w where) {
	if len(m[fn]) < 5 {
		m[fn] = append(m[fn], w.list())
	}
}

// changed compares a page with its copy outside [from, from+n).
func changed(p page, snap []byte, from, n int) int {
	for i := range p.mem {
		if p.mem[i] != snap[i] && (i < from || i >= from+n) {
			return i
		}
	}
	return -1
}

func (k *kernelRun) rels(fn string) *relation {
	r := k.rel[fn]
	if r == nil {
		r = &relation{}
		k.rel[fn] = r
	}
	return r
}

func (k *kernelRun) one(fn string, p, q page, n, a1, a2, c int, call func(in, out []byte) []byte) {
	rel := k.rels(fn)
	oin, in := p.at(n, a1)
	oout, out := q.at(n, a2)
	_ = oin
	k.r.Read(in)
	k.r.Read(out)
	sp := append([]byte(nil), p.mem...)
	sq := append([]byte(nil), q.mem...)
	win := sp[oin : oin+n]
	wout := sq[oout : oout+n]
	w := where{n, a1, a2, c, -1}
	// the memory behind an operand is somebody else's, with or without capacity reaching into it
	if k.r.Intn(2) == 0 {
		in, out = in[:n:n], out[:n:n]
	}
	if c < 0 && k.r.Intn(8) == 0 {
		// a vector added to itself
		in, win = out, wout
	}
	var res []byte
	if f := guarded(func() { res = call(in, out) }); f != "" {
		k.note(k.fault, fn, w)
		copy(p.mem, sp)
		copy(q.mem, sq)
		return
	}
	rel.calls++
	rel.elems += n
	if len(res) != n {
		w.At = len(res)
		k.note(k.badLen, fn, w)
		return
	}
	if x := changed(p, sp, p.offsetIn(res), n); p.offsetIn(res) < 0 {
		if x = changed(p, sp, 0, 0); x >= 0 {
			w.At = x - oin
			k.note(k.outside, fn, w)
		}
	} else if x >= 0 {
		w.At = x - oin
		k.note(k.outside, fn, w)
	}
	if x := changed(q, sq, q.offsetIn(res), n); q.offsetIn(res) < 0 {
		if x = changed(q, sq, 0, 0); x >= 0 {
			w.At = x - oout
			k.note(k.outside, fn, w)
		}
	} else if x >= 0 {
		w.At = x - oout
		k.note(k.outside, fn, w)
	}
	for i, v := range res {
		if c >= 0 {
			rel.add(byte(c), win[i], v)
		} else {
			rel.add(win[i], wout[i], v)
		}
	}
	copy(p.mem, sp)
	copy(q.mem, sq)
}

// neighbours looks for writes next to freshly allocated results: every other one of
// a batch of results is dropped and its place taken by a new result.
func (k *kernelRun) neighbours(n int) {
	const batch = 128
	rel := k.rels("MulConstVector")
	in := make([][]byte, batch)
	res := make([][]byte, batch)
	cs := make([]byte, batch)
	fill := func(i int) {
		in[i] = make([]byte, n)
		k.r.Read(in[i])
		cs[i] = byte(k.r.Intn(256))
		a := append([]byte(nil), in[i]...)
		res[i] = galois.MulConstVector(cs[i], a)
	}
	for i := range res {
		fill(i)
	}
	for i := 0; i < batch; i += 2 {
		res[i] = nil
	}
	runtime.GC()
	for i := 0; i < batch; i += 2 {
		fill(i)
	}
	for i := range res {
		for j, v := range res[i] {
			if j < len(in[i]) {
				rel.add(cs[i], in[i][j], v)
			}
		}
		rel.elems += len(res[i])
		rel.calls++
	}
}

func (k *kernelRun) vectors(n int, consts []int, p, q page) {
	for _, a := range k.s.Aligns {
		for _, c := range consts {
			c := c
			k.one("MulConstVector", p, q, n, a, a, c, func(in, out []byte) []byte { return galois.MulConstVector(byte(c), in) })
		}
		for _, c := range consts[:(len(consts)+7)/8] {
			c := c
			k.one("MulConstVectorGeneric", p, q, n, a, a, c, func(in, out []byte) []byte { return galois.MulConstVectorGeneric(byte(c), in) })
		}
		for _, b := range k.s.Aligns {
			for i := 0; i < k.s.Rounds; i++ {
				k.one("AddVector", p, q, n, a, b, -1, galois.AddVector)
				k.one("AddVectorGeneric", p, q, n, a, b, -1, galois.AddVectorGeneric)
				k.one("AddVectorBatchGeneric", p, q, n, a, b, -1, galois.AddVectorBatchGeneric)
			}
		}
	}
}

func runGalois(script []byte) {
	var s kernelScript
	if err := json.Unmarshal(script, &s); err != nil {
		fatal("script: %v", err)
	}
	k := &kernelRun{s: s, r: mrand.New(mrand.NewSource(s.Seed)), rel: map[string]*relation{},
		outside: map[string][][]int{}, badLen: map[string][][]int{}, fault: map[string][][]int{}, calls: map[string]int{}}
	if s.Scalar {
		runScalar()
	}
	all := make([]int, 256)
	for i := range all {
		all[i] = i
	}
	p, q := newPage(4096), newPage(4096)
	for li, n := range s.Lens {
		if n+256 > 4096 {
			fatal("length %d needs Big", n)
		}
		consts := all
		if s.Consts < 256 {
			consts = nil
			for i := 0; i < s.Consts; i++ {
				consts = append(consts, (li*s.Consts+i)%256)
			}
		}
		k.vectors(n, consts, p, q)
		if n >= 16 && li%7 == 0 {
			k.neighbours(n)
		}
	}
	for i, n := range s.Big {
		p, q := newPage(n+512), newPage(n+512)
		k.vectors(n, []int{0, 1, 2, 3 + i%253, 255}, p, q)
	}
	names := []string{}
	for fn := range k.rel {
		names = append(names, fn)
	}
	sort.Strings(names)
	for _, fn := range names {
		r := k.rel[fn]
		for a := range r.seen {
			row := make([][]int, 256)
			for b := range row {
				row[b] = r.seen[a][b]
				if row[b] == nil {
					row[b] = []int{}
				}
			}
			emit(Ev{"ev": "vec", "cpu": s.Cpu, "fn": fn, "a": a, "row": row})
		}
		emit(Ev{"ev": "mem", "cpu": s.Cpu, "fn": fn, "calls": r.calls, "elems": r.elems,
			"outside": orEmpty(k.outside[fn]), "badlen": orEmpty(k.badLen[fn]), "faults": orEmpty(k.fault[fn])})
	}
}

func orEmpty(x [][]int) [][]int {
	if x == nil {
		return [][]int{}
	}
	return x
}

func runScalar() {
	row := func(fn string, a int, f func(b int) byte, from int) {
		r := make([]int, 256)
		for b := from; b < 256; b++ {
			b := b
			if x := guarded(func() { r[b] = int(f(b)) }); x != "" {
				r[b] = -1
			}
		}
		emit(Ev{"ev": "scalar", "fn": fn, "a": a, "from": from, "row": r})
	}
	for a := 0; a < 256; a++ {
		a := a
		row("add", a, func(b int) byte { return galois.GalAdd(byte(a), byte(b)) }, 0)
		row("sub", a, func(b int) byte { return galois.GalSub(byte(a), byte(b)) }, 0)
		row("mul", a, func(b int) byte { return galois.GalMultiply(byte(a), byte(b)) }, 0)
		row("mullog", a, func(b int) byte { return galois.GalMultiplyLogExp(byte(a), byte(b)) }, 0)
		row("div", a, func(b int) byte { return galois.GalDivide(byte(a), byte(b)) }, 1)
	}
	ns := []int{}
	for n := 0; n <= 600; n++ {
		ns = append(ns, n)
	}
	for _, n := range append(ns, 765, 1000, 1020, 4095, 65535, 65536, 100000, 1<<20) {
		n := n
		row("exp", n, func(b int) byte { return galois.GalExp(byte(b), n) }, 0)
	}
}

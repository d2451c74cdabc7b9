package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/utils"
)

// Conc is a history in which several goroutines make calls at the same time.  Pre and
// Post run alone, before and after them.
type Conc struct {
	Sc      int
	Pre     []Op
	Threads [][]Op
	Post    []Op
	Sched   []int // whose turn it is at the points where buffers are handed out and back
	Hooks   bool  // watch the buffer pools
	Wait    int   // seconds
}

// spin makes many calls and records digests only: of the secrets, of what they are
// combined to, and of the shares.
func (h *hist) spin(op Op) {
	e := Ev{"ev": "spin", "api": op.Api, "scheme": scheme(op.Api), "n": op.N, "k": op.K, "len": op.Sec.Len,
		"g": op.G, "w": op.W, "count": op.Count, "seed": int(op.Seed), "keyed": h.keys[op.G] != nil}
	r := mrand.New(mrand.NewSource(op.Seed))
	outs, want, got, shds := []string{}, []string{}, []string{}, []string{}
	key := ""
	if k := h.keys[op.G]; k != nil {
		key = dig(k)
	}
	e["key"] = key
	h.do(op, e, func() error {
		for i := 0; i < op.Count; i++ {
			secret := make([]byte, op.Sec.Len)
			r.Read(secret)
			perm := r.Perm(op.N)
			out, msg := inline(func() error {
				shares, err := h.split(op, secret)
				if err != nil {
					return err
				}
				shds = append(shds, digs(shares))
				if len(shares) != op.N {
					return fmt.Errorf("%d shares", len(shares))
				}
				// all shares together (one wrong byte in one of them shows; of many, a few
				// more than enough), the last ones, and some
				lists := [][]int{}
				all, last := []int{}, []int{}
				for j := 0; j < op.N; j++ {
					if op.N <= 20 || j < op.K+2 || j >= op.N-3 {
						all = append(all, j)
					}
					if j >= op.N-op.K {
						last = append(last, j)
					}
				}
				lists = append(lists, all, last, perm[:op.K])
				c := Op{Api: "shamir", N: op.N, K: op.K}
				if scheme(op.Api) == "ssms" {
					c.Api = "ssms"
				}
				for _, l := range lists {
					arg := make([][]byte, len(l))
					for x, j := range l {
						arg[x] = shares[j]
					}
					res, err := h.combine(c, arg)
					if err != nil {
						return err
					}
					want = append(want, dig(secret))
					got = append(got, dig(res))
				}
				return nil
			})
			if out != "ok" {
				out += ": " + msg
			}
			outs = append(outs, out)
		}
		return nil
	}, func() {
		set := map[string]bool{}
		for _, o := range outs {
			set[o] = true
		}
		u := []string{}
		for o := range set {
			u = append(u, o)
		}
		sort.Strings(u)
		e["outs"], e["want"], e["got"], e["shds"] = u, want, got, shds
	})
}

// common is a list of shares and a secret that several goroutines pass to the module.
type common struct {
	list   [][]byte
	before [][]byte
	secret []byte
	was    []byte
}

func (x *common) untouched() bool {
	for i := len(x.list); i < cap(x.list); i++ {
		if x.list[:cap(x.list)][i] != nil {
			return false
		}
	}
	return same(x.before, x.list) && bytes.Equal(x.was, x.secret) && intact(x.secret)
}

// stepList makes a list that is shared, or says whether it is as it was.
func (h *hist) stepList(op Op) {
	if x, ok := h.lists[op.Obj]; ok {
		h.emit(Ev{"ev": "list", "sc": h.sc, "op": h.op, "obj": op.Obj, "same": x.untouched()})
		return
	}
	l, _, _, _ := h.refs(op.List)
	x := &common{list: make([][]byte, len(l), len(l)+3), before: copies(l)}
	copy(x.list, l)
	if d, ok := h.deals[op.Obj]; ok {
		x.was, x.secret = append([]byte(nil), d.secret...), withSpare(d.secret)
	}
	h.lists[op.Obj] = x
}

// crowd makes calls with a list or a secret that other goroutines use at the same time.
func (h *hist) crowd(op Op) {
	x := h.lists[op.Obj]
	d := h.deals[op.D]
	e := Ev{"ev": "crowd", "api": op.Api, "how": op.How, "n": op.N, "k": op.K}
	if x == nil || d == nil {
		return // the split before did not succeed, and is judged by itself
	}
	outs := map[string]bool{}
	want, got := []string{}, []string{}
	h.do(op, e, func() error {
		for i := 0; i < op.Count; i++ {
			out, msg := inline(func() error {
				var res []byte
				var err error
				switch op.How {
				case "combine":
					res, err = h.combine(op, x.list)
				case "split":
					var shares [][]byte
					if shares, err = h.split(op, x.secret); err == nil {
						c := op
						c.Api = scheme(op.Api)
						res, err = h.combine(c, shares)
					}
				case "regen":
					var more [][]byte
					if more, err = shamir.Regenerate(x.list, op.M); err == nil {
						if len(more) != op.M {
							return fmt.Errorf("%d new shares", len(more))
						}
						res, err = shamir.Combine(append(append([][]byte(nil), more...), x.before...))
					}
				case "fail":
					if err = h.refused(op, x, d, i); err != nil {
						return err
					}
					res = []byte("not refused")
				}
				if err != nil {
					return err
				}
				want, got = append(want, dig(x.was)), append(got, dig(res))
				return nil
			})
			if out != "ok" && !(out == "err" && op.How == "fail") {
				out += ": " + msg
			}
			outs[out] = true
		}
		return nil
	}, func() {
		u := []string{}
		for o := range outs {
			u = append(u, o)
		}
		sort.Strings(u)
		e["outs"], e["want"], e["got"] = u, want, got
	})
}

// refused makes one of the calls that have to be refused.
func (h *hist) refused(op Op, x *common, d *deal, i int) error {
	bad := op
	var err error
	half := len(x.list) / 2
	switch i % 8 {
	case 0:
		bad.K = op.N + 1
		_, err = h.split(bad, x.secret)
	case 1:
		_, err = h.split(bad, nil)
	case 2:
		bad.N = 256
		_, err = h.split(bad, x.secret)
	default:
		bad.Api = d.scheme
		first := append([]byte(nil), d.shares[0]...)
		list := append([][]byte{first}, x.list...)
		switch i % 8 {
		case 3:
			list = [][]byte{first[:len(first)-1], d.shares[1]}
		case 4: // twice the same share
			list = append(list, first)
		case 5:
			list = [][]byte{first}
		case 6:
			list = append(append([][]byte(nil), list[:half+1]...), append(first, 1))
		case 7:
			list = append(list, []byte{})
		}
		if d.scheme == "shamir" && i%2 == 0 {
			_, err = shamir.Regenerate(list, 1)
		} else {
			_, err = h.combine(bad, list)
		}
	}
	return err
}

// ---------------------------------------------------------------- buffer pools

// watch follows the buffers of all pools.  Between hand-back and hand-out a buffer holds
// poison; its contents are restored when it is handed out again.
type watch struct {
	mu    sync.Mutex
	ids   map[*bytes.Buffer]int
	saved map[*bytes.Buffer][]byte
	log   [][]int // kind (0: handed out, 1: handed back), buffer, 1 if it was written to meanwhile
}

const poison = 0xdb

func memory(bb *bytes.Buffer) []byte {
	b := bb.Bytes()
	return b[:cap(b)]
}

func (w *watch) id(bb *bytes.Buffer) int {
	i, ok := w.ids[bb]
	if !ok {
		i = len(w.ids) + 1
		w.ids[bb] = i
	}
	return i
}

func (w *watch) got(bb *bytes.Buffer) {
	if bb == nil {
		w.mu.Lock()
		w.log = append(w.log, []int{0, 0, 0})
		w.mu.Unlock()
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	i := w.id(bb)
	touched := 0
	if s, ok := w.saved[bb]; ok {
		m := memory(bb)
		for _, v := range m {
			if v != poison {
				touched = 1
			}
		}
		copy(m, s)
		delete(w.saved, bb)
	}
	if len(w.log) < 20000 || touched == 1 {
		w.log = append(w.log, []int{0, i, touched})
	}
}

func (w *watch) put(bb *bytes.Buffer) {
	if bb == nil {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	i := w.id(bb)
	if _, twice := w.saved[bb]; !twice {
		m := memory(bb)
		w.saved[bb] = append([]byte(nil), m...)
		for j := range m {
			m[j] = poison
		}
	}
	if len(w.log) < 20000 {
		w.log = append(w.log, []int{1, i, 0})
	}
}

// ----------------------------------------------------------------------- gates

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

// gates lets the goroutines pass the points where pools are used in a given order.  A
// turn that nobody takes for some time is skipped.
type gates struct {
	mu      sync.Mutex
	cond    *sync.Cond
	threads map[int64]int
	sched   []int
	pos     int
	last    time.Time
	closed  bool
	taken   int
}

func newGates(sched []int) *gates {
	g := &gates{threads: map[int64]int{}, sched: sched, last: time.Now()}
	g.cond = sync.NewCond(&g.mu)
	go func() {
		for {
			time.Sleep(4 * time.Millisecond)
			g.mu.Lock()
			if g.closed {
				g.mu.Unlock()
				return
			}
			if time.Since(g.last) > 12*time.Millisecond && g.pos < len(g.sched) {
				g.pos++
				g.last = time.Now()
			}
			g.cond.Broadcast()
			g.mu.Unlock()
		}
	}()
	return g
}

func (g *gates) pass() {
	g.mu.Lock()
	defer g.mu.Unlock()
	t, ok := g.threads[goid()]
	if !ok {
		return
	}
	for !g.closed && g.pos < len(g.sched) && g.sched[g.pos] != t {
		g.cond.Wait()
	}
	if g.pos < len(g.sched) && g.sched[g.pos] == t {
		g.taken++
		g.pos++
		g.last = time.Now()
		g.cond.Broadcast()
	}
}

func (g *gates) close() {
	g.mu.Lock()
	g.closed = true
	g.cond.Broadcast()
	g.mu.Unlock()
}

// ------------------------------------------------------------------------ runs

func runConc(script []byte) {
	dec := json.NewDecoder(bytes.NewReader(script))
	for dec.More() {
		var s Conc
		if err := dec.Decode(&s); err != nil {
			fatal("script: %v", err)
		}
		runConcOne(s)
		flush()
	}
}

func runConcOne(s Conc) {
	h := newHist(s.Sc)
	emit(Ev{"ev": "begin", "sc": s.Sc})
	emit(Ev{"ev": "start", "sc": s.Sc, "op": -1})
	flush()
	for i, op := range s.Pre {
		h.op = i
		h.step(op)
	}
	var w *watch
	var g *gates
	if s.Hooks {
		w = &watch{ids: map[*bytes.Buffer]int{}, saved: map[*bytes.Buffer][]byte{}}
		if s.Sched != nil {
			g = newGates(s.Sched)
		}
		utils.VerifEnter = func(*utils.BytesBufferPool) {
			if g != nil {
				g.pass()
			}
		}
		utils.VerifGot = func(_ *utils.BytesBufferPool, bb *bytes.Buffer) { w.got(bb) }
		utils.VerifPut = func(_ *utils.BytesBufferPool, bb *bytes.Buffer) {
			if g != nil {
				g.pass()
			}
			w.put(bb)
		}
	}
	hs := make([]*hist, len(s.Threads))
	bufs := make([][]Ev, len(s.Threads))
	var ready, done sync.WaitGroup
	gate := make(chan bool)
	for t := range s.Threads {
		ht := newHist(s.Sc)
		for k, v := range h.deals {
			d := *v
			ht.deals[k] = &d
		}
		for k, v := range h.gens {
			ht.gens[k] = v
		}
		for k, v := range h.work {
			ht.work[k] = v
		}
		for k, v := range h.keys {
			ht.keys[k] = v
		}
		for k, v := range h.lists {
			ht.lists[k] = v
		}
		ht.direct, ht.buf = true, &bufs[t]
		hs[t] = ht
		ready.Add(1)
		done.Add(1)
		go func(t int) {
			defer done.Done()
			if g != nil {
				g.mu.Lock()
				g.threads[goid()] = t + 1
				g.mu.Unlock()
			}
			ready.Done()
			<-gate
			for i, op := range s.Threads[t] {
				ht.op = i + 1000*(t+1)
				ht.step(op)
			}
		}(t)
	}
	ready.Wait()
	close(gate)
	fin := make(chan bool)
	go func() { done.Wait(); close(fin) }()
	wait := s.Wait
	if wait == 0 {
		wait = 120
	}
	select {
	case <-fin:
	case <-time.After(time.Duration(wait) * time.Second):
		emit(Ev{"ev": "stuck", "sc": s.Sc, "op": -1, "msg": "calls still running after " + strconv.Itoa(wait) + "s"})
		flush()
		outF.Close()
		exit(exitHang)
	}
	if g != nil {
		g.close()
	}
	utils.VerifEnter, utils.VerifGot, utils.VerifPut = nil, nil, nil

	shared := map[string][]Ev{}
	for t := range s.Threads {
		for _, e := range bufs[t] {
			if e["ev"] == "sread" {
				n := e["g"].(string)
				shared[n] = append(shared[n], e)
				continue
			}
			emit(e)
		}
		for k, v := range hs[t].deals {
			h.deals[k] = v
		}
	}
	names := []string{}
	for n := range shared {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		emitShared(h, n, shared[n])
	}
	if w != nil {
		if w.log == nil {
			w.log = [][]int{}
		}
		turns := 0
		if g != nil {
			turns = g.taken
		}
		emit(Ev{"ev": "pool", "sc": s.Sc, "op": -1, "log": w.log, "buffers": len(w.ids), "turns": turns})
	}
	for i, op := range s.Post {
		h.op = 100000 + i
		h.step(op)
	}
	emit(Ev{"ev": "done", "sc": s.Sc})
}

// emitShared says where in the keystream each of the concurrent reads was found.
func emitShared(h *hist, g string, reads []Ev) {
	total := 0
	for _, e := range reads {
		total += len(e["data"].([]byte))
	}
	key := h.keys[g]
	list := []Ev{}
	var stream []byte
	if key != nil {
		blk, err := aes.NewCipher(key[:16])
		if err != nil {
			fatal("%v", err)
		}
		stream = make([]byte, 2*total+4096)
		cipher.NewCTR(blk, key[16:32]).XORKeyStream(stream, stream)
	}
	bad := 0
	for _, e := range reads {
		b := e["data"].([]byte)
		if e["out"] != "ok" || e["n"] != len(b) {
			bad++
		}
		pos := -1
		if stream != nil && len(b) >= 12 {
			pos = bytes.Index(stream, b)
		}
		list = append(list, Ev{"pos": pos, "data": ints(b)})
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i]["pos"].(int) < list[j]["pos"].(int) })
	emit(Ev{"ev": "shared", "sc": h.sc, "op": -1, "g": g, "total": total, "short": bad, "reads": list})
}

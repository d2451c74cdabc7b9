package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fadhilkurnia/shamir/utils"
)

// PoolScript is a history of one pool.  Ops are << thread, kind, slot >>: kind 0 takes a
// buffer, kind 1 puts back the slot-th (from 1) of those the thread holds.  With Par the
// threads are goroutines.  With Stress every goroutine makes Count random calls.
type PoolScript struct {
	Sc     int
	Size   int
	Ops    [][]int
	Par    bool
	Stress int
	Count  int
	Hold   int
	Seed   int64
	Rush   bool // Stress goroutines all take at once, then all put back at once, Count times
}

type poolLog struct {
	seq  int64
	kind int
	bb   *bytes.Buffer
	flag int
}

type holder struct {
	id   int
	bufs []*bytes.Buffer
	log  []poolLog
}

var poolSeq int64

func stamp(bb *bytes.Buffer, id int) {
	bb.Reset()
	fmt.Fprintf(bb, "held by %d", id)
}

func stamped(bb *bytes.Buffer, id int) bool {
	return bb.String() == fmt.Sprintf("held by %d", id)
}

func (h *holder) get(p *utils.BytesBufferPool) {
	bb := p.Get()
	h.log = append(h.log, poolLog{atomic.AddInt64(&poolSeq, 1), 0, bb, 0})
	if bb != nil {
		h.bufs = append(h.bufs, bb)
		stamp(bb, h.id)
	}
}

func (h *holder) put(p *utils.BytesBufferPool, slot int) {
	if len(h.bufs) == 0 {
		return
	}
	i := (slot - 1) % len(h.bufs)
	bb := h.bufs[i]
	h.bufs = append(h.bufs[:i:i], h.bufs[i+1:]...)
	flag := 0
	if !stamped(bb, h.id) {
		flag = 1
	}
	h.log = append(h.log, poolLog{atomic.AddInt64(&poolSeq, 1), 1, bb, flag})
	p.Put(bb)
}

func runPool(script []byte) {
	dec := json.NewDecoder(bytes.NewReader(script))
	for dec.More() {
		var s PoolScript
		if err := dec.Decode(&s); err != nil {
			fatal("script: %v", err)
		}
		emit(Ev{"ev": "start", "sc": s.Sc, "op": -1})
		flush()
		if s.Rush {
			poolRush(s)
		} else if s.Stress > 0 {
			poolStress(s)
		} else {
			poolRun(s)
		}
		emit(Ev{"ev": "done", "sc": s.Sc})
		flush()
	}
}

// poolCalls runs the calls of one goroutine.
func poolCalls(mu *sync.Mutex, out, msg *string, fn func()) {
	o, m := inline(func() error { fn(); return nil })
	if o != "ok" {
		mu.Lock()
		*out, *msg = o, m
		mu.Unlock()
	}
}

func poolRun(s PoolScript) {
	hs := map[int]*holder{}
	var mu sync.Mutex
	out, msg := "ok", ""
	o, m := call(20*time.Second, func() error {
		p := utils.NewBytesBufferPool(s.Size)
		per := map[int][][]int{}
		for _, op := range s.Ops {
			if hs[op[0]] == nil {
				hs[op[0]] = &holder{id: op[0]}
			}
			per[op[0]] = append(per[op[0]], op)
		}
		do := func(ops [][]int) {
			for _, op := range ops {
				h := hs[op[0]]
				if op[1] == 0 {
					h.get(p)
				} else {
					h.put(p, op[2])
				}
			}
		}
		if !s.Par {
			do(s.Ops)
			return nil
		}
		var wg sync.WaitGroup
		for _, ops := range per {
			wg.Add(1)
			go func(ops [][]int) {
				defer wg.Done()
				poolCalls(&mu, &out, &msg, func() { do(ops) })
			}(ops)
		}
		wg.Wait()
		return nil
	})
	if o != "ok" {
		out, msg = o, m
	}
	all := []poolLog{}
	if o != "hang" {
		for _, h := range hs {
			all = append(all, h.log...)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].seq < all[j].seq })
	ids := map[*bytes.Buffer]int{}
	log := [][]int{}
	for _, x := range all {
		id := 0
		if x.bb != nil {
			if ids[x.bb] == 0 {
				ids[x.bb] = len(ids) + 1
			}
			id = ids[x.bb]
		}
		log = append(log, []int{x.kind, id, x.flag})
	}
	emit(Ev{"ev": "poolrun", "sc": s.Sc, "op": -1, "size": s.Size, "par": s.Par, "out": out, "msg": msg, "log": log})
	if o == "hang" {
		flush()
		outF.Close()
		exit(exitHang)
	}
}

func poolStress(s PoolScript) {
	var nils, doubles, altered, calls int64
	drained := 0
	owner := sync.Map{} // buffer -> *int32: held?
	flagOf := func(bb *bytes.Buffer) *int32 {
		if v, ok := owner.Load(bb); ok {
			return v.(*int32)
		}
		v, _ := owner.LoadOrStore(bb, new(int32))
		return v.(*int32)
	}
	var mu sync.Mutex
	out, msg := "ok", ""
	o, m := call(60*time.Second, func() error {
		p := utils.NewBytesBufferPool(s.Size)
		var wg sync.WaitGroup
		for t := 1; t <= s.Stress; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				poolCalls(&mu, &out, &msg, func() {
					r := mrand.New(mrand.NewSource(s.Seed + int64(t)))
					held := []*bytes.Buffer{}
					put := func() {
						i := r.Intn(len(held))
						bb := held[i]
						held[i] = held[len(held)-1]
						held = held[:len(held)-1]
						if !stamped(bb, t) {
							atomic.AddInt64(&altered, 1)
						}
						atomic.StoreInt32(flagOf(bb), 0)
						p.Put(bb)
					}
					for i := 0; i < s.Count; i++ {
						atomic.AddInt64(&calls, 1)
						if len(held) == 0 || (len(held) < s.Hold && r.Intn(2) == 0) {
							bb := p.Get()
							if bb == nil {
								atomic.AddInt64(&nils, 1)
								continue
							}
							if !atomic.CompareAndSwapInt32(flagOf(bb), 0, 1) {
								atomic.AddInt64(&doubles, 1)
								continue
							}
							stamp(bb, t)
							held = append(held, bb)
							if r.Intn(8) == 0 {
								runtime.Gosched()
							}
						} else {
							put()
						}
					}
					for len(held) > 0 {
						put()
					}
				})
			}(t)
		}
		wg.Wait()
		// all is put back: what comes out again was retained
		seen := map[*bytes.Buffer]bool{}
		n := 0
		owner.Range(func(_, _ interface{}) bool { n++; return true })
		for i := 0; i <= n; i++ {
			bb := p.Get()
			if bb == nil {
				nils++
				continue
			}
			if seen[bb] {
				doubles++
				continue
			}
			seen[bb] = true
			if _, known := owner.Load(bb); known {
				drained++
			}
		}
		return nil
	})
	if o != "ok" {
		out, msg = o, m
	}
	emit(Ev{"ev": "poolstress", "sc": s.Sc, "op": -1, "size": s.Size, "threads": s.Stress, "calls": int(atomic.LoadInt64(&calls)),
		"nils": int(atomic.LoadInt64(&nils)), "doubles": int(atomic.LoadInt64(&doubles)), "altered": int(atomic.LoadInt64(&altered)),
		"drained": drained, "out": out, "msg": msg})
	if o == "hang" {
		flush()
		outF.Close()
		exit(exitHang)
	}
}

// poolRush lets all goroutines go for the same few buffers, and the same few places, at
// the same moment; nobody else is there to help out a call that waits.
func poolRush(s PoolScript) {
	var nils, doubles, altered, calls, arrived int64
	drained := 0
	var mu sync.Mutex
	out, msg := "ok", ""
	o, m := call(60*time.Second, func() error {
		p := utils.NewBytesBufferPool(s.Size)
		got := make([]*bytes.Buffer, s.Stress)
		known := map[*bytes.Buffer]bool{}
		meet := func(phase int) { // all arrive before any goes on
			n := atomic.AddInt64(&arrived, 1)
			for want := int64(s.Stress * phase); n < want; n = atomic.LoadInt64(&arrived) {
				runtime.Gosched()
			}
		}
		var wg sync.WaitGroup
		for t := 0; t < s.Stress; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				poolCalls(&mu, &out, &msg, func() {
					for i := 0; i < s.Count; i++ {
						meet(4*i + 1)
						bb := p.Get()
						atomic.AddInt64(&calls, 1)
						got[t] = bb
						if bb != nil {
							stamp(bb, t)
						}
						meet(4*i + 2)
						if t == 0 {
							now, again := map[*bytes.Buffer]bool{}, 0
							for _, b := range got {
								switch {
								case b == nil:
									nils++
								case now[b]:
									doubles++
								case known[b]:
									again++
								}
								now[b] = true
							}
							if again > drained {
								drained = again
							}
							known = now
						}
						if bb != nil && !stamped(bb, t) {
							atomic.AddInt64(&altered, 1)
						}
						meet(4*i + 3)
						if bb != nil {
							p.Put(bb)
						}
						meet(4*i + 4)
					}
				})
			}(t)
		}
		wg.Wait()
		return nil
	})
	if o != "ok" {
		out, msg = o, m
	}
	emit(Ev{"ev": "poolstress", "sc": s.Sc, "op": -1, "size": s.Size, "threads": s.Stress, "calls": int(atomic.LoadInt64(&calls)),
		"nils": int(nils), "doubles": int(doubles), "altered": int(atomic.LoadInt64(&altered)),
		"drained": drained, "out": out, "msg": msg})
	if o == "hang" {
		flush()
		outF.Close()
		exit(exitHang)
	}
}

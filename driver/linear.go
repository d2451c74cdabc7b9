package main

import (
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"sort"
	"sync"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/worker"
)

// bitRank is a basis of the bit vectors it was given, by their first set bit.
type bitRank struct {
	bits  int
	basis [][]uint64
	rank  int
}

func newBitRank(bits int) *bitRank {
	return &bitRank{bits: bits, basis: make([][]uint64, bits)}
}

func (r *bitRank) add(v []byte) { // v has r.bits bits, in bytes
	x := make([]uint64, (r.bits+63)/64)
	for i := 0; i < r.bits; i++ {
		if v[i/8]>>(uint(i)%8)&1 == 1 {
			x[i/64] |= 1 << (uint(i) % 64)
		}
	}
	for i := 0; i < r.bits; i++ {
		if x[i/64]>>(uint(i)%64)&1 == 0 {
			continue
		}
		b := r.basis[i]
		if b == nil {
			r.basis[i] = x
			r.rank++
			return
		}
		for w := i / 64; w < len(x); w++ {
			x[w] ^= b[w]
		}
	}
}

// statRank takes the random material of two splits in a row, their secrets and their tags
// as one vector of bits, and counts how many of its bits are free of the others: the rank,
// over GF(2), of many such vectors, each with a constant 1.  Every relation that holds
// whenever the library splits and is a sum of bits - so every linear relation of bytes
// over GF(256), too - makes the rank smaller than the number of bits.
func statRank(j statJob) {
	h := newHist(0)
	h.gens["a"] = csprng.NewCSPRNG()
	w := worker.NewWorker()
	h.work["w"] = &w
	op := Op{Api: j.Api, N: j.N, K: j.K, G: "a", W: "w"}
	sr := mrand.New(mrand.NewSource(j.Seed))
	ssms := scheme(j.Api) == "ssms"
	// positions: a short run, and the same run at distances that blocks could have
	pos := []int{}
	if !ssms {
		run := 6
		if j.K > 4 {
			run = 3
		}
		seen := map[int]bool{}
		for _, d := range []int{0, 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072} {
			base := 0
			if j.Len > 64 {
				base = int(j.Seed % 50)
			}
			for i := 0; i < run; i++ {
				if p := base + d + i; p < j.Len && !seen[p] && len(pos)*(j.K-1) < 110 {
					seen[p] = true
					pos = append(pos, p)
				}
			}
		}
		for p := 0; p < j.Len && len(pos)*(j.K-1) < 70; p++ {
			if !seen[p] {
				seen[p] = true
				pos = append(pos, p)
			}
		}
		sort.Ints(pos)
	}
	secret := make([]byte, j.Len)
	var all, tagsOnly *bitRank
	samples, skipped, free := 0, 0, 0
	one := func() (free, tags []byte, ok bool, err error) {
		sr.Read(secret)
		shares, err := h.split(op, append([]byte(nil), secret...))
		if err != nil {
			return nil, nil, false, err
		}
		d := &deal{secret: secret, shares: shares, n: j.N, k: j.K, scheme: scheme(j.Api)}
		if !ssms && len(pos) < j.Len {
			// only these positions
			for _, s := range shares {
				if len(s) != j.Len+1 {
					return nil, nil, false, nil
				}
			}
			d = &deal{n: j.N, k: j.K, scheme: d.scheme}
			for _, p := range pos {
				d.secret = append(d.secret, secret[p])
			}
			for _, s := range shares {
				t := []byte{}
				for _, p := range pos {
					t = append(t, s[p])
				}
				d.shares = append(d.shares, append(t, s[j.Len]))
			}
		}
		rows, key, ok := material(d)
		if !ok {
			return nil, nil, false, nil
		}
		for i, r := range rows {
			if ssms && (i+1)*(j.K-1) > 110 {
				break
			}
			free = append(free, r...)
		}
		free = append(free, key...)
		m := len(d.secret)
		if m > 32 {
			m = 32
		}
		free = append(free, d.secret[:m]...)
		for i, s := range d.shares {
			if i == 8 {
				break
			}
			if ssms {
				tags = append(tags, s[20])
			} else {
				tags = append(tags, s[len(s)-1])
			}
		}
		return free, tags, true, nil
	}
	out, msg := call(patience(), func() error {
		for {
			f1, t1, ok1, err := one()
			if err != nil {
				return err
			}
			f2, t2, ok2, err := one()
			if err != nil {
				return err
			}
			if !ok1 || !ok2 {
				if skipped++; skipped > 100 {
					return nil
				}
				continue
			}
			tags := append([]byte{1}, append(t1, t2...)...) // one constant bit, seven that are zero
			v := append(append([]byte{}, tags...), append(f1, f2...)...)
			if all == nil {
				all, tagsOnly = newBitRank(8*len(v)), newBitRank(8*len(tags))
				free = 8 * (len(f1) + len(f2))
			}
			all.add(v)
			tagsOnly.add(tags)
			if samples++; samples >= 8*len(v)+96 || (all.rank == tagsOnly.rank+free && samples > 200+8*len(tags)) {
				return nil
			}
		}
	})
	rank, tr := 0, 0
	if all != nil {
		rank, tr = all.rank, tagsOnly.rank
	}
	emit(Ev{"ev": "rank", "api": j.Api, "scheme": scheme(j.Api), "n": j.N, "k": j.K, "len": j.Len, "out": out, "msg": msg,
		"samples": samples, "bits": free, "rank": rank, "tagrank": tr})
}

// statOverlap reads far from a few generators and looks for places where the stream of
// one runs into its own past or into that of another.
func statOverlap(j statJob) {
	type block struct{ a, b uint64 }
	var blocks []block
	heads := []block{}
	repeated, foreign := 0, 0
	out, msg := call(patience(), func() error {
		gens := []reader{}
		for i := 0; i < j.Gens; i++ {
			if j.Pkg == "csprng" {
				gens = append(gens, csprng.NewCSPRNG())
			} else {
				gens = append(gens, randomizer.NewRandomizer())
			}
		}
		blocks = make([]block, 0, j.Gens*j.Len/16)
		buf := make([]byte, 1<<20)
		for _, g := range gens {
			for done := 0; done < j.Len; done += len(buf) {
				if _, err := g.Read(buf); err != nil {
					return err
				}
				for i := 0; i < len(buf); i += 16 {
					blocks = append(blocks, block{binary.BigEndian.Uint64(buf[i:]), binary.BigEndian.Uint64(buf[i+8:])})
				}
				if done == 0 {
					for o := 1; o < 256; o++ {
						if o%16 != 0 {
							heads = append(heads, block{binary.BigEndian.Uint64(buf[o:]), binary.BigEndian.Uint64(buf[o+8:])})
						}
					}
				}
			}
		}
		less := func(x, y block) bool { return x.a < y.a || (x.a == y.a && x.b < y.b) }
		sort.Slice(blocks, func(x, y int) bool { return less(blocks[x], blocks[y]) })
		for i := 1; i < len(blocks); i++ {
			if blocks[i] == blocks[i-1] {
				repeated++
			}
		}
		for _, b := range heads {
			i := sort.Search(len(blocks), func(i int) bool { return !less(blocks[i], b) })
			if i < len(blocks) && blocks[i] == b {
				foreign++
			}
		}
		return nil
	})
	emit(Ev{"ev": "overlap", "pkg": j.Pkg, "gens": j.Gens, "blocks": len(blocks), "out": out, "msg": msg, "repeated": repeated, "foreign": foreign})
}

// statItems draws permutations, unique bytes, blocks and splits from one generator in
// several goroutines; each is long enough never to come twice.
func statItems(j statJob) {
	g := csprng.NewCSPRNG()
	rz := randomizer.NewRandomizer()
	h := newHist(0)
	h.gens["a"] = g
	w := worker.NewWorker()
	h.work["w"] = &w
	sec := make([]byte, 24)
	lists := make([][]string, j.Par)
	out, msg := call(patience(), func() error {
		var wg sync.WaitGroup
		var mu sync.Mutex
		var bad error
		for p := 0; p < j.Par; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				r := mrand.New(mrand.NewSource(j.Seed + int64(p)))
				for i := 0; i < j.Count; i++ {
					kind := j.Pkg
					if kind == "" {
						kind = []string{"perm", "rperm", "few", "many", "read", "old", "rand", "wshamir"}[r.Intn(8)]
					}
					var s string
					o, m := inline(func() error {
						switch kind {
						case "perm":
							s = string(g.Perm(255))
						case "rperm":
							s = string(rz.Perm(255))
						case "few":
							s = string(g.GetUniqueBytes(19))
						case "many":
							s = string(g.GetUniqueBytes(200))
						case "read":
							b := make([]byte, 16)
							g.Read(b)
							s = string(b)
						default:
							shares, err := h.split(Op{Api: kind, N: 24, K: 2, G: "a", W: "w"}, sec)
							if err != nil {
								return err
							}
							s = string(tagsOf(shares))
							lists[p] = append(lists[p], string(shares[0][:len(shares[0])-1]))
						}
						return nil
					})
					if o != "ok" {
						mu.Lock()
						bad = fmt.Errorf("%s: %s %s", kind, o, m)
						mu.Unlock()
						return
					}
					lists[p] = append(lists[p], s)
				}
			}(p)
		}
		wg.Wait()
		return bad
	})
	seen := map[string]bool{}
	total, again := 0, 0
	if out == "ok" {
		for _, l := range lists {
			for _, s := range l {
				total++
				if seen[s] {
					again++
				}
				seen[s] = true
			}
		}
	}
	emit(Ev{"ev": "items", "pkg": j.Pkg, "par": j.Par, "out": out, "msg": msg, "total": total, "repeated": again})
}

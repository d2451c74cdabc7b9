package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	mrand "math/rand"
	"os"
	"sort"
	"sync"
	"time"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/worker"
)

// statJob asks for histograms over many splits, or for the arrangements that Perm
// produces, or for repeated windows in a generator's output.
type statJob struct {
	What   string // "split", "psplit", "perm", "reads", "many", "rank", "overlap", "items"
	Api    string
	N, K   int
	Len    int
	Count  int
	Fixed  bool // the same secret in every split
	Seed   int64
	Pkg    string
	Reseed bool // reseed math/rand with the same value before every split
	Gens   int
	Par    int  // goroutines
	Shared bool // all goroutines read the same generator
}

type hists struct {
	names []string
	h     map[string]*[256]int
}

func (x *hists) get(name string) *[256]int {
	p, ok := x.h[name]
	if !ok {
		p = new([256]int)
		x.h[name] = p
		x.names = append(x.names, name)
	}
	return p
}

// pairs counts how many of the 65536 combinations of two bytes occurred.
type pairs struct {
	names []string
	m     map[string]*pairCount
}
type pairCount struct {
	total int
	seen  [65536]bool
	xor   [256]int
}

func (x *pairs) get(name string) *pairCount {
	p, ok := x.m[name]
	if !ok {
		p = new(pairCount)
		x.m[name] = p
		x.names = append(x.names, name)
	}
	return p
}
func (p *pairCount) add(a, b byte) {
	p.total++
	p.seen[int(a)<<8|int(b)] = true
	p.xor[a^b]++
}

// windows collects 12-byte windows of random material.
type window struct {
	hi uint64
	lo uint32
}
type windows struct {
	v []window
}

func (w *windows) add(b []byte) {
	for i := 0; i+12 <= len(b); i++ {
		w.v = append(w.v, window{binary.BigEndian.Uint64(b[i:]), binary.BigEndian.Uint32(b[i+8:])})
	}
}
func (w *windows) repeated() int {
	sort.Slice(w.v, func(i, j int) bool {
		return w.v[i].hi < w.v[j].hi || (w.v[i].hi == w.v[j].hi && w.v[i].lo < w.v[j].lo)
	})
	n := 0
	for i := 1; i < len(w.v); i++ {
		if w.v[i] == w.v[i-1] {
			n++
		}
	}
	return n
}

// material returns the random material of a split: rows[j] are the coefficients
// hiding byte j; key is that of an SSMS split.
func material(d *deal) (rows [][]byte, key []byte, ok bool) {
	shares := d.shares
	want := len(d.secret) + 1
	if d.scheme == "ssms" {
		want = (len(d.secret)+d.k-1)/d.k + 22
	}
	if len(shares) != d.n {
		return nil, nil, false
	}
	for _, s := range shares {
		if len(s) != want {
			return nil, nil, false
		}
	}
	if d.scheme == "ssms" {
		m := make([][]byte, d.k)
		for i := range m {
			m[i] = shares[i][:21]
		}
		shares = m
	}
	seen := map[byte]bool{0: true}
	for _, s := range shares[:d.k] {
		t := s[len(s)-1]
		if seen[t] {
			return nil, nil, false
		}
		seen[t] = true
	}
	rows = coefficients(shares, d.k)
	if d.scheme == "ssms" {
		key = make([]byte, 16)
		b := coefMatrix(tagsOf(shares[:d.k]))
		for j := range key {
			for m := 0; m < d.k; m++ {
				key[j] ^= gfMul(b[0][m], shares[m][j])
			}
		}
	}
	return rows, key, true
}

// keystream is what the payload of SSMS shares adds to the secret.
func keystream(secret []byte, shares [][]byte, k int) []byte {
	plen := (len(secret) + k - 1) / k
	res := make([]byte, len(secret))
	for _, s := range shares {
		row := int(s[len(s)-1])
		for i := 0; row < k && i < plen && row*plen+i < len(secret); i++ {
			res[row*plen+i] = s[21+i] ^ secret[row*plen+i]
		}
	}
	return res
}

func tagsOf(shares [][]byte) []byte {
	r := make([]byte, len(shares))
	for i, s := range shares {
		r[i] = s[len(s)-1]
	}
	return r
}

func distinct(h *[256]int) int {
	n := 0
	for _, v := range h {
		if v > 0 {
			n++
		}
	}
	return n
}

func runStats(script []byte) {
	dec := json.NewDecoder(bytes.NewReader(script))
	all := &windows{}
	for dec.More() {
		var j statJob
		if err := dec.Decode(&j); err != nil {
			fatal("script: %v", err)
		}
		switch j.What {
		case "split":
			statSplit(j, all)
		case "psplit":
			statParSplit(j, all)
		case "perm":
			statPerm(j)
		case "many":
			statMany(j)
		case "reads":
			statReads(j, all)
		case "rank":
			statRank(j)
		case "overlap":
			statOverlap(j)
		case "items":
			statItems(j)
		default:
			fatal("stat %q", j.What)
		}
		flush()
	}
	total := len(all.v)
	if total > 0 {
		emit(Ev{"ev": "windows", "total": total, "repeated": all.repeated()})
	}
}

func statSplit(j statJob, all *windows) {
	h := newHist(0)
	h.gens["a"] = csprng.NewCSPRNG()
	w := worker.NewWorker()
	h.work["w"] = &w
	op := Op{Api: j.Api, N: j.N, K: j.K, G: "a", W: "w"}
	sr := mrand.New(mrand.NewSource(j.Seed))
	secret := make([]byte, j.Len)
	sr.Read(secret)
	hs := &hists{h: map[string]*[256]int{}}
	ps := &pairs{m: map[string]*pairCount{}}
	var byPos [][]*[256]int // histogram per position and coefficient
	var keyPos []*[256]int
	done := 0
	var prev [][]byte
	var prevKey []byte
	e := Ev{"ev": "stat", "api": j.Api, "scheme": scheme(j.Api), "n": j.N, "k": j.K, "len": j.Len, "fixed": j.Fixed, "reseed": j.Reseed}
	out, msg := call(patience(), func() error {
		for t := 0; t < j.Count; t++ {
			if !j.Fixed {
				sr.Read(secret)
			}
			if j.Reseed {
				mrand.Seed(j.Seed)
			}
			shares, err := h.split(op, append([]byte(nil), secret...))
			if err != nil {
				return err
			}
			d := &deal{secret: secret, shares: shares, n: j.N, k: j.K, scheme: scheme(j.Api)}
			rows, key, ok := material(d)
			if !ok {
				continue // C02, C05 say what is wrong with it
			}
			done++
			masked := secret
			tags := tagsOf(shares)
			if d.scheme == "ssms" {
				masked = append(append([]byte{}, key...), byte(j.Len), byte(j.Len>>8), byte(j.Len>>16), byte(j.Len>>24))
				for i := range tags {
					tags[i] = shares[i][20]
				}
			}
			if byPos == nil {
				byPos = make([][]*[256]int, len(rows))
				for p := range byPos {
					byPos[p] = make([]*[256]int, j.K-1)
					for c := range byPos[p] {
						byPos[p][c] = new([256]int)
					}
				}
			}
			flat := make([]byte, 0, len(rows)*(j.K-1))
			col := make([]byte, len(rows))
			for p, row := range rows {
				flat = append(flat, row...)
				for c, v := range row {
					byPos[p][c][v]++
				}
				// the first and last coefficient against everything they could depend on
				ends := []int{0}
				if j.K > 2 {
					ends = append(ends, j.K-2)
				}
				for _, c := range ends {
					name := "first"
					if c > 0 {
						name = "last"
					}
					v := row[c]
					hs.get(name)[v]++
					if !(d.scheme == "ssms" && p >= 16) {
						ps.get(name+", secret byte").add(v, masked[p])
					}
					ps.get(name+", tag of share 1").add(v, tags[0])
					ps.get(name+", tag of last share").add(v, tags[j.N-1])
					for _, lag := range []int{1, 2, 3, 4, 8, 16, 32, 64} {
						if p >= lag {
							ps.get(name+", "+lagName(lag)).add(v, rows[p-lag][c])
						}
					}
					if prev != nil {
						ps.get(name+", same in split before").add(v, prev[p][c])
						if p > 0 {
							ps.get(name+", position 1 in split before").add(v, prev[0][c])
						}
					}
					if c > 0 {
						ps.get("first, last").add(row[0], v)
						ps.get("last, one below").add(row[c-1], v)
						if p > 0 {
							ps.get("last of position before, first").add(rows[p-1][c], row[0])
						}
					}
				}
				for c := 1; c < j.K-2; c++ {
					hs.get("inner")[row[c]]++
					ps.get("inner, one below").add(row[c], row[c-1])
				}
			}
			all.add(flat)
			if j.K > 2 {
				for c := 0; c < j.K-1; c++ {
					for p := range rows {
						col[p] = rows[p][c]
					}
					all.add(col)
				}
			}
			if key != nil {
				if keyPos == nil {
					keyPos = make([]*[256]int, 16)
					for i := range keyPos {
						keyPos[i] = new([256]int)
					}
				}
				for i, v := range key {
					keyPos[i][v]++
					hs.get("key")[v]++
					ps.get("key, tag of share 1").add(v, tags[0])
					if i < j.N {
						ps.get("key, tag of same share").add(v, tags[i])
					}
					if i > 0 {
						ps.get("key, byte before").add(v, key[i-1])
					}
					if prevKey != nil {
						ps.get("key, key before").add(v, prevKey[i])
					}
				}
				all.add(key)
				prevKey = key
			}
			prev = rows
		}
		return nil
	})
	e["out"], e["msg"], e["splits"] = out, msg, done
	e["hists"] = hs.list()
	pl := []interface{}{}
	for _, n := range ps.names {
		p := ps.m[n]
		d := 0
		for _, s := range p.seen {
			if s {
				d++
			}
		}
		pl = append(pl, Ev{"name": n, "total": p.total, "distinct": d, "xor": p.xor[:]})
	}
	e["pairs"] = pl
	// per position: histograms if they are not too many, the number of values always
	vals := [][]int{}
	posh := []interface{}{}
	for p := range byPos {
		v := []int{}
		for c := range byPos[p] {
			v = append(v, distinct(byPos[p][c]))
			if len(byPos)*len(byPos[p]) <= 130 {
				posh = append(posh, Ev{"pos": p, "coef": c + 1, "h": byPos[p][c][:]})
			}
		}
		vals = append(vals, v)
	}
	kv := []int{}
	for _, k := range keyPos {
		kv = append(kv, distinct(k))
	}
	e["values"], e["posh"], e["keyvalues"] = vals, posh, kv
	emit(e)
}

func lagName(lag int) string {
	return map[int]string{1: "1 position before", 2: "2 positions before", 3: "3 positions before",
		4: "4 positions before", 8: "8 positions before", 16: "16 positions before",
		32: "32 positions before", 64: "64 positions before"}[lag]
}

func (x *hists) list() []interface{} {
	l := []interface{}{}
	for _, n := range x.names {
		l = append(l, Ev{"name": n, "h": x.h[n][:]})
	}
	return l
}

// statPerm records which arrangements of n elements occurred (small n), which element
// was ever seen at which position, and results that look wrong.
func statPerm(j statJob) {
	var g reader
	arr := map[string][]int{}
	seen := make([][]bool, j.N)
	for i := range seen {
		seen[i] = make([]bool, 256)
	}
	odd := [][]int{}
	uniq := j.Pkg == "uniq"
	out, msg := call(patience(), func() error {
		for t := 0; t < j.Count; t++ {
			if t%1024 == 0 {
				if j.Pkg == "randomizer" {
					g = randomizer.NewRandomizer()
				} else {
					g = csprng.NewCSPRNG()
				}
			}
			var p []byte
			if uniq {
				p = g.(*csprng.CSPRNG).GetUniqueBytes(byte(j.N))
			} else {
				p = g.Perm(byte(j.N))
			}
			var there [256]bool
			bad := len(p) != j.N
			for i, v := range p {
				bad = bad || there[v] || (!uniq && int(v) >= j.N)
				there[v] = true
				if i < j.N {
					seen[i][v] = true
				}
			}
			if bad && len(odd) < 5 {
				odd = append(odd, ints(p))
			}
			if !uniq && j.N <= 5 {
				arr[string(p)] = ints(p)
			}
		}
		return nil
	})
	arrs := [][]int{}
	keys := []string{}
	for k := range arr {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		arrs = append(arrs, arr[k])
	}
	pos := [][]int{}
	for i := range seen {
		r := []int{}
		for v, s := range seen[i] {
			if s {
				r = append(r, v)
			}
		}
		pos = append(pos, r)
	}
	emit(Ev{"ev": "reach", "pkg": j.Pkg, "n": j.N, "count": j.Count, "out": out, "msg": msg, "odd": odd,
		"arrangements": arrs, "seen": pos})
}

// statReads draws from many generators, made one after another or by several goroutines
// at once, and looks for repeated windows.
func statReads(j statJob, all *windows) {
	if j.Par < 1 {
		j.Par = 1
	}
	ws := make([]*windows, j.Par)
	errs := make([]error, j.Par)
	var common reader
	if j.Shared {
		if j.Pkg == "csprng" {
			common = csprng.NewCSPRNG()
		} else {
			common = randomizer.NewRandomizer()
		}
	}
	one := func(w *windows) error {
		for i := 0; i < j.Gens; i++ {
			if j.Reseed {
				mrand.Seed(j.Seed)
			}
			var g reader
			switch {
			case j.Shared:
				g = common
			case j.Pkg == "csprng":
				g = csprng.NewCSPRNG()
			case j.Pkg == "worker":
				// what a worker's generator gives shows in the key of a split
				wk := worker.NewWorker()
				secret := []byte{1, 2, 3}
				shares, err := wk.Split(worker.AlgSSMS, secret, 2, 2)
				if err != nil {
					return err
				}
				_, key, ok := material(&deal{secret: secret, shares: shares, n: 2, k: 2, scheme: "ssms"})
				if ok {
					w.add(key)
				}
				continue
			default:
				g = randomizer.NewRandomizer()
			}
			for t := 0; t < j.Count; t++ {
				b := make([]byte, j.Len)
				if _, err := g.Read(b); err != nil {
					return err
				}
				w.add(b)
			}
		}
		return nil
	}
	out, msg := call(patience(), func() error {
		var wg sync.WaitGroup
		for p := range ws {
			ws[p] = &windows{}
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				errs[p] = one(ws[p])
			}(p)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	})
	w := &windows{}
	for _, x := range ws {
		w.v = append(w.v, x.v...)
	}
	all.v = append(all.v, w.v...)
	emit(Ev{"ev": "reads", "pkg": j.Pkg, "gens": j.Gens, "count": j.Count, "len": j.Len, "par": j.Par,
		"reseed": j.Reseed, "shared": j.Shared, "out": out, "msg": msg, "total": len(w.v), "repeated": w.repeated()})
}

// statParSplit makes splits in several goroutines, with one generator or worker for all
// of them, and looks for random material that occurs twice.
func statParSplit(j statJob, all *windows) {
	h := newHist(0)
	h.gens["a"] = csprng.NewCSPRNG()
	wk := worker.NewWorker()
	h.work["w"] = &wk
	op := Op{Api: j.Api, N: j.N, K: j.K, G: "a", W: "w"}
	secret := make([]byte, j.Len)
	mrand.New(mrand.NewSource(j.Seed)).Read(secret)
	ws := make([]*windows, j.Par)
	errs := make([]error, j.Par)
	out, msg := call(patience(), func() error {
		var wg sync.WaitGroup
		for p := range ws {
			ws[p] = &windows{}
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				for i := 0; i < j.Count; i++ {
					if j.Reseed {
						mrand.Seed(j.Seed)
					}
					shares, err := h.split(op, append([]byte(nil), secret...))
					if err != nil {
						errs[p] = err
						return
					}
					rows, key, ok := material(&deal{secret: secret, shares: shares, n: j.N, k: j.K, scheme: scheme(j.Api)})
					if !ok {
						continue
					}
					flat := []byte{}
					for _, r := range rows {
						flat = append(flat, r...)
					}
					ws[p].add(flat)
					ws[p].add(key)
					if key != nil && j.Len > 64 {
						ws[p].add(keystream(secret, shares, j.K))
					}
					if j.Len > 4096 && j.K > 2 {
						col := make([]byte, len(rows))
						for c := 0; c < j.K-1; c++ {
							for q := range rows {
								col[q] = rows[q][c]
							}
							ws[p].add(col)
						}
					}
				}
			}(p)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	})
	w := &windows{}
	for _, x := range ws {
		w.v = append(w.v, x.v...)
	}
	all.v = append(all.v, w.v...)
	emit(Ev{"ev": "psplit", "api": j.Api, "count": j.Count, "len": j.Len, "par": j.Par, "n": j.N, "k": j.K,
		"out": out, "msg": msg, "total": len(w.v), "repeated": w.repeated()})
}

// patience is how long a job may take; jobs of quick runs take seconds.
func patience() time.Duration {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 700 * time.Second
	}
	return 120 * time.Second
}

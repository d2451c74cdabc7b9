package main

import (
	"bytes"
	"fmt"
	mrand "math/rand"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
)

// statMany makes very many small splits, combines and regenerations and counts what is
// out of the ordinary, for what goes wrong in few states of the generators only.
func statMany(j statJob) {
	h := newHist(0)
	w := worker.NewWorker()
	h.work["w"] = &w
	sr := mrand.New(mrand.NewSource(j.Seed))
	kinds := []string{"refused", "count", "length", "ids", "tags", "poly", "lost", "regen", "newtags", "newpoly", "newlost"}
	odd := map[string]int{}
	example := map[string]string{}
	ssms := scheme(j.Api) == "ssms"
	done, regens := 0, 0
	out, msg := call(patience(), func() error {
		for t := 0; t < j.Count; t++ {
			if t%64 == 0 {
				h.gens["a"] = csprng.NewCSPRNG()
			}
			n := 2 + sr.Intn(j.N-1)
			k := 2
			if x := n; x > 2 {
				if x > 24 {
					x = 24
				}
				k = 2 + sr.Intn(x-1)
			}
			secret := make([]byte, 1+sr.Intn(j.Len))
			sr.Read(secret)
			note := func(kind, what string) {
				if odd[kind]++; odd[kind] == 1 {
					example[kind] = fmt.Sprintf("n=%d k=%d len=%d: %s", n, k, len(secret), what)
				}
			}
			var shares [][]byte
			o, m := inline(func() (err error) {
				shares, err = h.split(Op{Api: j.Api, N: n, K: k, G: "a", W: "w"}, append([]byte(nil), secret...))
				return
			})
			done++
			if o != "ok" {
				note("refused", o+" "+m)
				continue
			}
			if len(shares) != n {
				note("count", fmt.Sprint(len(shares)))
				continue
			}
			want := len(secret) + 1
			if ssms {
				want = (len(secret)+k-1)/k + 22
			}
			ok := true
			inner := make([][]byte, n)
			for i, s := range shares {
				inner[i] = s
				if len(s) != want {
					note("length", fmt.Sprint(len(s)))
					ok = false
				} else if ssms {
					inner[i] = s[:21]
					if int(s[len(s)-1]) != i {
						note("ids", fmt.Sprint(s[len(s)-1]))
					}
				}
			}
			if !ok {
				continue
			}
			if tags := tagsOf(inner); !sound(tags) {
				note("tags", fmt.Sprint(tags))
			} else {
				at0 := secret[:1]
				if ssms {
					at0 = nil
				}
				if !onPoly(inner, inner[:k], at0) {
					note("poly", fmt.Sprint(inner))
				}
			}
			idx := sr.Perm(n)[:k+sr.Intn(n-k+1)]
			list := make([][]byte, len(idx))
			for i, x := range idx {
				list[i] = append([]byte(nil), shares[x]...)
			}
			var res []byte
			capi := map[string]string{"wshamir": "wshamir", "wssms": "wssms"}[j.Api]
			if capi == "" {
				capi = scheme(j.Api)
			}
			o, m = inline(func() (err error) {
				res, err = h.combine(Op{Api: capi, N: n, K: k, W: "w"}, list)
				return
			})
			if o != "ok" || !bytes.Equal(res, secret) {
				note("lost", fmt.Sprint(idx, o, " ", m))
			}
			if ssms || t%4 != 0 {
				continue
			}
			regens++
			room := 255 - len(list)
			cnt := 1 + sr.Intn(8)
			if sr.Intn(4) == 0 {
				cnt = room - sr.Intn(4)
			}
			if cnt > room {
				cnt = room
			}
			if cnt < 0 {
				cnt = 0
			}
			var more [][]byte
			o, m = inline(func() (err error) {
				more, err = shamir.Regenerate(list, cnt)
				return
			})
			if o != "ok" || len(more) != cnt {
				note("regen", fmt.Sprint(idx, cnt, len(more), o, " ", m))
				continue
			}
			both := append(append([][]byte{}, list...), more...)
			for _, s := range more {
				if len(s) != want {
					note("newpoly", "length")
					ok = false
				}
			}
			if !ok {
				continue
			}
			if tags := tagsOf(both); !sound(tags) {
				note("newtags", fmt.Sprint(tags))
			} else if !onPoly(both, list[:k], secret[:1]) {
				note("newpoly", fmt.Sprint(idx, cnt))
			}
			sr.Shuffle(len(both), func(a, b int) { both[a], both[b] = both[b], both[a] })
			res = nil
			o, m = inline(func() (err error) { res, err = shamir.Combine(both[:k]); return })
			if o != "ok" || !bytes.Equal(res, secret) {
				note("newlost", fmt.Sprint(idx, cnt, o, " ", m))
			}
		}
		return nil
	})
	e := Ev{"ev": "many", "api": j.Api, "scheme": scheme(j.Api), "upto": j.N, "splits": done, "regens": regens, "out": out, "msg": msg}
	for _, k := range kinds {
		e[k] = odd[k]
	}
	ex := []string{}
	for _, k := range kinds {
		if x := example[k]; x != "" {
			if len(x) > 200 {
				x = x[:200]
			}
			ex = append(ex, k+" "+x)
		}
	}
	e["examples"] = ex
	emit(e)
}

func sound(tags []byte) bool {
	seen := [256]bool{0: true}
	for _, t := range tags {
		if seen[t] {
			return false
		}
		seen[t] = true
	}
	return true
}

// onPoly says whether the first bytes of shares are on one polynomial through those of
// base, and (if at0 is given) whether it has that value at zero.
func onPoly(shares, base [][]byte, at0 []byte) bool {
	b := coefMatrix(tagsOf(base))
	c := make([]byte, len(base))
	for i := range c {
		for m := range base {
			c[i] ^= gfMul(b[i][m], base[m][0])
		}
	}
	if len(at0) > 0 && c[0] != at0[0] {
		return false
	}
	for _, s := range shares {
		var v byte
		for i := len(c) - 1; i >= 0; i-- {
			v = gfMul(v, s[len(s)-1]) ^ c[i]
		}
		if v != s[0] {
			return false
		}
	}
	return true
}

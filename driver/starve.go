package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"errors"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/worker"
)

// starveJob makes a split, or a generator, while the operating system's randomness ends
// after some bytes.  Ending the process is a way to refuse; every job has its own.
type starveJob struct {
	Api   string
	N, K  int
	Len   int
	After int
	Again bool // after splits that had enough
}

type failing struct {
	left   int
	failed bool
	real   interface{ Read([]byte) (int, error) }
}

func (f *failing) Read(b []byte) (int, error) {
	if f.left <= 0 && len(b) > 0 {
		f.failed = true
		return 0, errors.New("no more randomness")
	}
	if len(b) > f.left {
		b = b[:f.left]
	}
	n, err := f.real.Read(b)
	f.left -= n
	return n, err
}

func runStarve(script []byte) {
	var j starveJob
	if err := json.NewDecoder(bytes.NewReader(script)).Decode(&j); err != nil {
		fatal("script: %v", err)
	}
	h := newHist(0)
	secret := bytes.Repeat([]byte{0x5a}, j.Len)
	one := func() error {
		switch j.Api {
		case "csprng":
			csprng.NewCSPRNG()
			return nil
		case "randomizer":
			randomizer.NewRandomizer()
			return nil
		}
		op := Op{Api: j.Api, N: j.N, K: j.K, G: "a", W: "w"}
		switch j.Api {
		case "old", "rand", "ssmsrand":
			h.gens["a"] = csprng.NewCSPRNG()
		case "wshamir", "wssms":
			w := worker.NewWorker()
			h.work["w"] = &w
		}
		shares, err := h.split(op, secret)
		if err == nil && len(shares) == 0 {
			return errors.New("no shares")
		}
		return err
	}
	if j.Again {
		for i := 0; i < 3; i++ {
			if out, msg := inline(one); out != "ok" {
				emit(Ev{"ev": "starve", "api": j.Api, "after": j.After, "failed": false, "out": out, "msg": msg})
				return
			}
		}
	}
	f := &failing{left: j.After, real: crand.Reader}
	crand.Reader = f
	emit(Ev{"ev": "start"})
	flush()
	out, msg := call(patience(), one)
	emit(Ev{"ev": "starve", "api": j.Api, "after": j.After, "failed": f.failed, "out": out, "msg": msg})
}

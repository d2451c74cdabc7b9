package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	mrand "math/rand"
	"runtime"
	"sort"
	"time"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
)

// Sec describes a secret.
type Sec struct {
	Kind string // "rnd" (from Seed), "fill" (with V), "ramp", "lit", "nil", "empty"
	Len  int
	Seed int64
	V    int
	Lit  []int
	Pad  int // "tail", "head": that many bytes V at the end or the beginning of a random one
}

func (s Sec) bytes() []byte {
	switch s.Kind {
	case "nil":
		return nil
	case "lit":
		return unints(s.Lit)
	}
	b := make([]byte, s.Len)
	switch s.Kind {
	case "rnd", "tail", "head":
		// own generator: the program-wide source is part of what is observed
		mrand.New(mrand.NewSource(s.Seed)).Read(b)
		for i := 0; i < s.Pad && i < len(b); i++ {
			if s.Kind == "tail" {
				b[len(b)-1-i] = byte(s.V)
			} else if s.Kind == "head" {
				b[i] = byte(s.V)
			}
		}
	case "fill":
		for i := range b {
			b[i] = byte(s.V)
		}
	case "ramp":
		for i := range b {
			b[i] = byte(i + s.V)
		}
	}
	return b
}

func unints(v []int) []byte {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}

// spare bytes of the caller's memory follow the slices that are passed to the module;
// intact tells whether they still hold what the caller put there.
const spare = 24

func withSpare(b []byte) []byte {
	if b == nil {
		return nil
	}
	c := make([]byte, len(b), len(b)+spare)
	copy(c, b)
	t := c[len(b) : len(b)+spare]
	for i := range t {
		t[i] = 0xc3
	}
	return c
}

func intact(b []byte) bool {
	if cap(b) != len(b)+spare {
		return true // not ours
	}
	for _, v := range b[len(b) : len(b)+spare] {
		if v != 0xc3 {
			return false
		}
	}
	return true
}

// Ref names a share given to combine or regenerate.
type Ref struct {
	D    string // deal, "" for a literal
	I    int    // index in the deal (regenerated shares follow the first ones)
	Lit  []int
	Nil  bool
	Mut  string // "" or "cut", "ext", "id", "tag", "len", "flip": applied to a copy
	V    int
	Copy bool // a genuine copy instead of the slice itself
}

// Op is one step of a scenario.
type Op struct {
	Op     string
	Api    string
	Alg    string
	G, W   string
	D      string
	N, K   int
	M      int
	Sec    Sec
	Key    []int
	Kind   string
	List   []Ref
	Len    int
	Dirty  int
	Cols   []int
	NCols  int // that many columns, chosen by Seed
	Full   bool
	Obj    string
	How    string
	Seed   int64
	Limit  int // seconds
	Locate bool
	Count  int
	Shared bool // a read of a generator that several goroutines use
	NoObjs bool
	Set    *Stored
}

// Stored is a share set that was not made by this build: by an earlier version, or from
// the specification.
type Stored struct {
	Scheme string
	Secret []byte
	Shares [][]byte
}

// Scenario is a history of calls.
type Scenario struct {
	Sc  int
	Ops []Op
}

type deal struct {
	secret []byte
	shares [][]byte
	n, k   int
	scheme string
	cols   []int // nil: all columns
}

type reader interface {
	Read([]byte) (int, error)
	Perm(byte) []byte
}

type hist struct {
	sc     int
	op     int
	deals  map[string]*deal
	gens   map[string]reader
	work   map[string]*worker.Worker
	live   map[string][]byte
	held   map[string][][]byte // lists of shares as they were returned
	names  []string
	nres   int
	spared [][]byte // argument copies with spare memory behind them
	keys   map[string][]byte
	lists  map[string]*common
	direct bool // calls run in the caller's goroutine; a watchdog covers all of them
	buf    *[]Ev
}

// emit writes an event, or keeps it until the goroutines are done.
func (h *hist) emit(e Ev) {
	if h.buf != nil {
		*h.buf = append(*h.buf, e)
		return
	}
	emit(e)
}

func newHist(sc int) *hist {
	return &hist{sc: sc, deals: map[string]*deal{}, gens: map[string]reader{},
		work: map[string]*worker.Worker{}, live: map[string][]byte{}, keys: map[string][]byte{}, lists: map[string]*common{}, held: map[string][][]byte{}}
}

func dig(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

// big values of the specification's 32-bit integers stand for Go's extreme ints
func conv(v int) int {
	switch v {
	case math.MaxInt32:
		return math.MaxInt64
	case math.MinInt32:
		return math.MinInt64
	}
	return v
}

func (h *hist) register(id string, b []byte) []interface{} {
	if _, ok := h.live[id]; !ok {
		h.names = append(h.names, id)
	}
	h.live[id] = b
	return []interface{}{id, dig(b)}
}

// keep registers a returned list of shares as a thing of its own (which shares it holds,
// in which order).  Every other list is dropped: callers may keep the shares only.
func (h *hist) keep(id string, list [][]byte) []interface{} {
	if _, ok := h.held[id]; !ok {
		h.names = append(h.names, id)
	}
	h.held[id] = list
	return []interface{}{id, listDig(list)}
}

func listDig(list [][]byte) string {
	d := sha256.New()
	for _, s := range list {
		var p *byte
		if cap(s) > 0 {
			p = &s[:1][0]
		}
		fmt.Fprintf(d, "%p %d;", p, len(s))
	}
	return hex.EncodeToString(d.Sum(nil)[:8])
}

func runHist(script []byte) {
	dec := json.NewDecoder(bytes.NewReader(script))
	for dec.More() {
		var s Scenario
		if err := dec.Decode(&s); err != nil {
			fatal("script: %v", err)
		}
		runScenario(s)
	}
}

func runScenario(s Scenario) {
	h := newHist(s.Sc)
	emit(Ev{"ev": "begin", "sc": s.Sc})
	for i, op := range s.Ops {
		h.op = i
		emit(Ev{"ev": "start", "sc": s.Sc, "op": i})
		flush()
		h.step(op)
		flush()
	}
	emit(Ev{"ev": "done", "sc": s.Sc})
}

func (h *hist) limit(op Op) time.Duration {
	if op.Limit > 0 {
		return time.Duration(op.Limit) * time.Second
	}
	if op.Sec.Len > 100000 {
		return 60 * time.Second
	}
	return 30 * time.Second
}

// do runs one call into the module.  A hang is reported and ends the process.
func (h *hist) do(op Op, e Ev, fn func() error, after func()) {
	var out, msg string
	if h.direct {
		out, msg = inline(fn)
	} else {
		out, msg = call(h.limit(op), fn)
	}
	e["sc"], e["op"], e["out"] = h.sc, h.op, out
	if len(msg) > 120 {
		msg = msg[:120]
	}
	e["msg"] = msg
	after()
	h.emit(e)
	if out == "hang" {
		flush()
		outF.Close()
		exit(exitHang)
	}
}

func scheme(api string) string {
	switch api {
	case "ssms", "ssmsrand", "wssms":
		return "ssms"
	}
	return "shamir"
}

func (h *hist) csprng(name string) *csprng.CSPRNG {
	g, ok := h.gens[name].(*csprng.CSPRNG)
	if !ok {
		fatal("no generator %q", name)
	}
	return g
}

func (h *hist) worker(name string) *worker.Worker {
	w, ok := h.work[name]
	if !ok {
		fatal("no worker %q", name)
	}
	return w
}

func (h *hist) split(op Op, secret []byte) ([][]byte, error) {
	n, k := conv(op.N), conv(op.K)
	switch op.Api {
	case "split":
		return shamir.Split(secret, n, k)
	case "splitp":
		return shamir.SplitP(secret, n, k)
	case "generic":
		return shamir.SplitGeneric(secret, n, k)
	case "old":
		return shamir.SplitWithRandomizerOld(secret, n, k, h.csprng(op.G))
	case "rand":
		return shamir.SplitWithRandomizer(secret, n, k, h.csprng(op.G))
	case "ssms":
		return krawczyk.Split(secret, n, k)
	case "ssmsrand":
		return krawczyk.SplitWithRandomizer(secret, n, k, h.csprng(op.G))
	case "wshamir":
		return h.worker(op.W).Split(worker.AlgShamir, secret, n, k)
	case "wssms":
		return h.worker(op.W).Split(worker.AlgSSMS, secret, n, k)
	case "wother":
		return h.worker(op.W).Split(op.Alg, secret, n, k)
	}
	fatal("unknown split %q", op.Api)
	return nil, nil
}

func (h *hist) combine(op Op, list [][]byte) ([]byte, error) {
	n, k := conv(op.N), conv(op.K)
	switch op.Api {
	case "shamir":
		return shamir.Combine(list)
	case "ssms":
		return krawczyk.Combine(list, n, k)
	case "wshamir":
		return h.worker(op.W).Combine(worker.AlgShamir, list, n, k)
	case "wssms":
		return h.worker(op.W).Combine(worker.AlgSSMS, list, n, k)
	case "wother":
		return h.worker(op.W).Combine(op.Alg, list, n, k)
	}
	fatal("unknown combine %q", op.Api)
	return nil, nil
}

// columns returns the columns of a secret of the given length that are recorded:
// the first and last ones, those next to powers of two and multiples of 1024, and
// some chosen by the seed.
func columns(op Op, n int) []int {
	if op.NCols < 0 {
		return []int{} // nothing but the tags
	}
	if op.Full || op.NCols == 0 || n <= op.NCols {
		return nil
	}
	set := map[int]bool{0: true, n - 1: true}
	for p := 16; p < n+1; p *= 2 {
		set[p-1] = true
		if p < n {
			set[p] = true
		}
	}
	r := mrand.New(mrand.NewSource(op.Seed))
	for len(set) < op.NCols {
		c := r.Intn(n)
		if r.Intn(3) == 0 {
			c = c / 1024 * 1024
			if c > 0 && r.Intn(2) == 0 {
				c--
			}
		}
		set[c] = true
		set[r.Intn(n)] = true
	}
	cols := make([]int, 0, len(set))
	for c := range set {
		cols = append(cols, c)
	}
	sort.Ints(cols)
	return cols
}

func pick(b []byte, cols []int) []byte {
	r := make([]byte, 0, len(cols))
	for _, c := range cols {
		if c < len(b) {
			r = append(r, b[c])
		}
	}
	return r
}

// proj projects a share onto the recorded columns; the tag (and, for SSMS, the
// metadata share and part id) stay.
func proj(scheme string, s []byte, cols []int) []byte {
	if cols == nil {
		return s
	}
	if scheme == "shamir" {
		if len(s) == 0 {
			return s
		}
		return append(pick(s[:len(s)-1], cols), s[len(s)-1])
	}
	if len(s) < 22 {
		return s
	}
	r := append([]byte{}, s[:21]...)
	r = append(r, pick(s[21:len(s)-1], cols)...)
	return append(r, s[len(s)-1])
}

func (h *hist) refs(list []Ref) (arg [][]byte, refs []interface{}, shape []interface{}, genuine bool) {
	genuine = true
	h.spared = nil
	first := map[string]bool{}
	for _, r := range list {
		var b []byte
		name, idx := "", 0
		genuineCopy := false
		switch {
		case r.Nil:
		case r.D == "":
			b = unints(r.Lit)
			genuine = false
		default:
			d, ok := h.deals[r.D]
			if !ok || r.I >= len(d.shares) {
				// the split or regenerate before it did not give this share
				b = []byte{}
				genuine = false
				break
			}
			b = d.shares[r.I]
			name, idx = r.D, r.I
			if r.Copy || r.Mut != "" || first[fmt.Sprint(r.D, r.I)] {
				b = append([]byte(nil), b...)
				genuineCopy = r.Mut == ""
			}
			first[fmt.Sprint(r.D, r.I)] = true
			if r.Mut != "" {
				name, idx = "", 0
				genuine = false
			}
		}
		switch r.Mut {
		case "cut":
			if len(b) >= r.V {
				b = b[:len(b)-r.V]
			}
		case "ext":
			b = append(b, make([]byte, r.V)...)
		case "id", "tag":
			if len(b) > 0 {
				b[len(b)-1] = byte(r.V)
			}
		case "tagof": // the tag of share V of the same deal
			if d, ok := h.deals[r.D]; ok && r.V < len(d.shares) && len(b) > 0 && len(d.shares[r.V]) > 0 {
				b[len(b)-1] = d.shares[r.V][len(d.shares[r.V])-1]
			}
		case "mtag":
			if len(b) > 20 {
				b[20] = byte(r.V)
			}
		case "len":
			for len(b) < r.V {
				b = append(b, 0)
			}
			b = b[:r.V]
		case "flip":
			if r.V < len(b) {
				b[r.V] ^= 1
			}
		}
		if genuineCopy {
			b = withSpare(b)
			h.spared = append(h.spared, b)
		}
		arg = append(arg, b)
		refs = append(refs, []interface{}{name, idx})
		tag, id := -1, -1
		if len(b) > 0 {
			tag = int(b[len(b)-1])
			id = tag
		}
		mt := -1
		if len(b) > 20 {
			mt = int(b[20])
		}
		shape = append(shape, Ev{"nil": b == nil, "len": len(b), "tag": tag, "id": id, "mtag": mt})
	}
	if refs == nil {
		refs, shape = []interface{}{}, []interface{}{}
	}
	return
}

func copies(list [][]byte) [][]byte {
	r := make([][]byte, len(list))
	for i, b := range list {
		if b != nil {
			r[i] = append([]byte{}, b...)
		}
	}
	return r
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) || (a[i] == nil) != (b[i] == nil) {
			return false
		}
	}
	return true
}

func lens(list [][]byte) []int {
	r := make([]int, len(list))
	for i, b := range list {
		r[i] = len(b)
	}
	return r
}

// literal reports whether the whole list is small enough to be recorded.
func literal(list [][]byte) bool {
	t := 0
	for _, b := range list {
		t += len(b)
	}
	return t <= 2000
}

func (h *hist) step(op Op) {
	switch op.Op {
	case "gen":
		switch op.Kind {
		case "fresh":
			h.do(op, Ev{"ev": "gen", "g": op.G, "kind": op.Kind, "key": []int{}}, func() error {
				h.gens[op.G] = csprng.NewCSPRNG()
				return nil
			}, func() {})
		case "rz":
			h.do(op, Ev{"ev": "gen", "g": op.G, "kind": op.Kind, "key": []int{}}, func() error {
				h.gens[op.G] = randomizer.NewRandomizer()
				return nil
			}, func() {})
		case "key":
			key := unints(op.Key)
			h.keys[op.G] = unints(op.Key)
			h.do(op, Ev{"ev": "gen", "g": op.G, "kind": op.Kind, "key": op.Key}, func() error {
				h.gens[op.G] = csprng.NewCSPRNGWithKeyIV(key)
				return nil
			}, func() {})
			if op.Dirty != 0 { // the caller reuses its key buffer
				for i := range key {
					key[i] ^= byte(op.Dirty)
				}
			}
		default:
			fatal("gen kind %q", op.Kind)
		}
	case "worker":
		h.do(op, Ev{"ev": "worker", "w": op.W}, func() error {
			w := worker.NewWorker()
			h.work[op.W] = &w
			return nil
		}, func() {})
	case "seed":
		mrand.Seed(op.Seed)
		h.emit(Ev{"ev": "seed", "sc": h.sc, "op": h.op, "v": int(op.Seed)})
	case "read":
		g := h.gens[op.G]
		buf := make([]byte, op.Len)
		for i := range buf {
			buf[i] = byte(op.Dirty)
		}
		n := -1
		e := Ev{"ev": "read", "g": op.G, "len": op.Len}
		h.do(op, e, func() (err error) {
			n, err = g.Read(buf)
			return
		}, func() {
			e["n"], e["dig"] = n, dig(buf)
			e["hint"] = h.locate(op, buf)
			if op.Shared {
				e["ev"], e["data"] = "sread", buf
			}
			e["wins"] = readWindows(buf, op.Seed)
		})
	case "spin":
		h.spin(op)
	case "list":
		h.stepList(op)
	case "crowd":
		h.crowd(op)
	case "skip": // read and drop Len blocks of 16 bytes
		g := h.gens[op.G]
		buf := make([]byte, 16<<20)
		e := Ev{"ev": "skip", "g": op.G, "blocks": op.Len}
		h.do(op, e, func() error {
			for left := op.Len * 16; left > 0; {
				b := buf
				if left < len(b) {
					b = b[:left]
				}
				if n, err := g.Read(b); err != nil || n != len(b) {
					return fmt.Errorf("%d %v", n, err)
				}
				left -= len(b)
			}
			return nil
		}, func() {})
	case "wcopy": // workers are passed by value
		w := *h.worker(op.W)
		h.work[op.D] = &w
	case "perm", "uniq":
		g := h.gens[op.G]
		var b []byte
		e := Ev{"ev": op.Op, "g": op.G, "n": op.N}
		h.do(op, e, func() error {
			if op.Op == "perm" {
				b = g.Perm(byte(op.N))
			} else {
				b = g.(*csprng.CSPRNG).GetUniqueBytes(byte(op.N))
			}
			return nil
		}, func() { e["data"] = ints(b) })
	case "split":
		h.stepSplit(op)
	case "combine":
		h.stepCombine(op)
	case "regen":
		h.stepRegen(op)
	case "load":
		d := &deal{secret: op.Set.Secret, shares: append([][]byte(nil), op.Set.Shares...), n: op.N, k: op.K, scheme: op.Set.Scheme}
		if d.scheme == "shamir" {
			d.cols = columns(op, len(d.secret))
		} else {
			d.cols = columns(op, (len(d.secret)+op.K-1)/op.K)
		}
		h.deals[op.D] = d
		e := Ev{"ev": "load", "sc": h.sc, "op": h.op, "scheme": d.scheme, "d": op.D, "n": op.N, "k": op.K,
			"len": len(d.secret), "sdig": dig(d.secret), "lens": lens(d.shares)}
		h.project(e, d)
		h.emit(e)
	case "write":
		if list, ok := h.held[op.Obj]; ok {
			switch op.How {
			case "append":
				for c, i := list, 0; i < 8; i++ {
					c = append(c, []byte{0xa5, 0xa5, 0xa5})
				}
			case "reverse":
				for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
					list[i], list[j] = list[j], list[i]
				}
			default:
				for i := range list {
					list[i] = nil
				}
			}
			h.emit(Ev{"ev": "write", "sc": h.sc, "op": h.op, "obj": op.Obj, "how": op.How, "dig": listDig(list)})
			return
		}
		b, ok := h.live[op.Obj]
		if !ok {
			return
		}
		switch op.How {
		case "append":
			// byte by byte, so that any spare capacity is written to
			c := b
			for i := 0; i < 80; i++ {
				c = append(c, 0xa5)
			}
		case "fill":
			for i := range b {
				b[i] = 0xa5
			}
		case "flip":
			for i := range b {
				b[i] ^= 0xff
			}
		case "first":
			if len(b) > 0 {
				b[0] ^= 0x55
			}
		case "last":
			if len(b) > 0 {
				b[len(b)-1] ^= 0x55
			}
		default:
			fatal("write %q", op.How)
		}
		h.emit(Ev{"ev": "write", "sc": h.sc, "op": h.op, "obj": op.Obj, "how": op.How, "dig": dig(b)})
	case "gc":
		// finalizers run, pools are emptied, and memory nobody refers to is used again
		runtime.GC()
		time.Sleep(time.Millisecond)
		if op.M > 0 {
			runtime.GC()
		}
	case "audit":
		objs := []interface{}{}
		for _, n := range h.names {
			if list, ok := h.held[n]; ok {
				objs = append(objs, []interface{}{n, listDig(list)})
				continue
			}
			objs = append(objs, []interface{}{n, dig(h.live[n])})
		}
		h.emit(Ev{"ev": "audit", "sc": h.sc, "op": h.op, "objs": objs})
	default:
		fatal("unknown op %q", op.Op)
	}
}

// locate says where in the keystream of its generator a read is found, as block and
// offset; the specification checks it.  Not looked for: -1.
func (h *hist) locate(op Op, b []byte) []int {
	key := h.keys[op.G]
	if !op.Locate || key == nil || len(b) < 16 {
		return []int{-1, -1}
	}
	blk, err := aes.NewCipher(key[:16])
	if err != nil {
		fatal("%v", err)
	}
	s := make([]byte, 1<<20+len(b))
	cipher.NewCTR(blk, key[16:32]).XORKeyStream(s, s)
	i := bytes.Index(s, b)
	if i < 0 {
		return []int{-2, -2}
	}
	return []int{i / 16, i % 16}
}

// readWindows returns all of a short read, and some windows of a long one.
func readWindows(b []byte, seed int64) []interface{} {
	if len(b) <= 400 {
		return []interface{}{Ev{"off": 0, "bytes": ints(b)}}
	}
	at := map[int]bool{0: true, len(b) - 24: true}
	for p := 256; p+24 < len(b); p *= 2 {
		at[p-8] = true
	}
	r := mrand.New(mrand.NewSource(seed))
	for len(at) < 24 {
		at[r.Intn(len(b)-24)] = true
	}
	offs := make([]int, 0, len(at))
	for o := range at {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	w := []interface{}{}
	for _, o := range offs {
		w = append(w, Ev{"off": o, "bytes": ints(b[o : o+24])})
	}
	return w
}

// digs is a digest of a list of byte strings.
func digs(list [][]byte) string {
	h := sha256.New()
	for _, b := range list {
		fmt.Fprintf(h, "%d:", len(b))
		h.Write(b)
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

func (h *hist) stepSplit(op Op) {
	secret := withSpare(op.Sec.bytes())
	before := append([]byte(nil), secret...)
	var shares [][]byte
	e := Ev{"ev": "split", "api": op.Api, "scheme": scheme(op.Api), "alg": op.Alg, "d": op.D,
		"n": op.N, "k": op.K, "len": len(secret), "src": op.G + op.W}
	h.do(op, e, func() (err error) {
		shares, err = h.split(op, secret)
		return
	}, func() {
		e["args"] = bytes.Equal(before, secret) && intact(secret)
		e["nores"] = len(shares) == 0
		e["sdig"] = dig(before)
		e["shdig"] = digs(shares)
		e["lens"] = lens(shares)
		objs := []interface{}{}
		if e["out"] == "ok" && op.D != "" {
			d := &deal{secret: before, shares: append([][]byte(nil), shares...), n: op.N, k: op.K, scheme: scheme(op.Api)}
			if d.scheme == "shamir" {
				d.cols = columns(op, len(secret))
			} else if op.K > 0 {
				d.cols = columns(op, (len(secret)+op.K-1)/op.K)
			}
			h.deals[op.D] = d
			if !op.NoObjs {
				objs = append(objs, h.register(op.D+"/sec", secret))
				for i, s := range shares {
					objs = append(objs, h.register(fmt.Sprintf("%s/%d", op.D, i), s))
				}
				if (h.sc+h.op)%2 == 0 {
					objs = append(objs, h.keep(op.D+"/list", shares))
				}
			}
			h.project(e, d)
		} else {
			e["full"], e["shares"], e["secret"], e["ofb"] = true, [][]int{}, []int{}, []int{}
		}
		e["objs"] = objs
	})
}

// project puts into the event what is recorded of a deal.
func (h *hist) project(e Ev, d *deal) {
	e["full"] = d.cols == nil
	p := make([][]byte, len(d.shares))
	for i, s := range d.shares {
		p[i] = proj(d.scheme, s, d.cols)
	}
	e["shares"] = intss(p)
	switch {
	case d.cols == nil:
		e["secret"] = ints(d.secret)
	case d.scheme == "shamir":
		e["secret"] = ints(pick(d.secret, d.cols))
	default:
		e["secret"] = []int{}
	}
	e["ofb"] = ofbWindows(d)
}

// ofbWindows gives pieces of the plaintext and ciphertext of an SSMS deal that is too
// long to be recorded as a whole: next to powers of two, at the end, and elsewhere.
func ofbWindows(d *deal) []interface{} {
	res := []interface{}{}
	n := len(d.secret)
	if d.scheme != "ssms" || len(d.cols) == 0 || n > 140000 || n < 64 {
		return res
	}
	plen := (n + d.k - 1) / d.k
	rows := map[int][]byte{}
	for _, s := range d.shares {
		if len(s) != plen+22 {
			return res
		}
		rows[int(s[len(s)-1])] = s[21 : 21+plen]
	}
	at := []int{0, n - 32}
	for p := 1 << 10; p+16 <= n; p *= 2 {
		at = append(at, p-16)
	}
	r := mrand.New(mrand.NewSource(int64(n)))
	for i := 0; i < 8; i++ {
		at = append(at, r.Intn(n-31))
	}
	for _, o := range at {
		c := make([]byte, 32)
		for i := range c {
			row, ok := rows[(o+i)/plen]
			if !ok {
				return []interface{}{}
			}
			c[i] = row[(o+i)%plen]
		}
		res = append(res, Ev{"off": o, "plain": ints(d.secret[o : o+32]), "cipher": ints(c)})
	}
	return res
}

func (h *hist) stepCombine(op Op) {
	arg, refs, shape, _ := h.refs(op.List)
	if op.How == "nil" {
		arg = nil
	} else if arg == nil {
		arg = [][]byte{}
	}
	before := copies(arg)
	var res []byte
	e := Ev{"ev": "combine", "api": op.Api, "scheme": scheme(op.Api), "alg": op.Alg, "n": op.N, "k": op.K,
		"refs": refs, "shape": shape, "src": op.W}
	h.do(op, e, func() (err error) {
		res, err = h.combine(op, arg)
		return
	}, func() {
		e["args"] = same(before, arg) && h.sparesIntact()
		e["nores"] = len(res) == 0
		e["rlen"], e["rdig"] = len(res), dig(res)
		e["in"], e["res"] = [][]int{}, []int{}
		e["full"] = literal(before) && op.Full
		if e["full"] == true {
			e["in"], e["res"] = intss(before), ints(res)
		}
		objs := []interface{}{}
		if e["out"] == "ok" && !op.NoObjs {
			h.nres++
			objs = append(objs, h.register(fmt.Sprintf("res%d", h.nres), res))
		}
		e["objs"] = objs
	})
}

func (h *hist) stepRegen(op Op) {
	arg, refs, shape, _ := h.refs(op.List)
	if op.How == "nil" {
		arg = nil
	} else if arg == nil {
		arg = [][]byte{}
	}
	before := copies(arg)
	var res [][]byte
	e := Ev{"ev": "regen", "refs": refs, "shape": shape, "m": op.M, "d": op.D}
	h.do(op, e, func() (err error) {
		res, err = shamir.Regenerate(arg, conv(op.M))
		return
	}, func() {
		e["args"] = same(before, arg) && h.sparesIntact()
		e["nores"] = len(res) == 0
		e["lens"] = lens(res)
		objs := []interface{}{}
		e["shares"] = [][]int{}
		e["base"] = 0
		if e["out"] == "ok" {
			d := h.deals[op.D]
			var cols []int
			if d != nil {
				e["base"] = len(d.shares)
				cols = d.cols
			}
			p := make([][]byte, len(res))
			for i, s := range res {
				p[i] = proj("shamir", s, cols)
				if d != nil && !op.NoObjs {
					objs = append(objs, h.register(fmt.Sprintf("%s/%d", op.D, len(d.shares)+i), s))
				}
			}
			if d != nil {
				if !op.NoObjs && (h.sc+h.op)%2 == 0 {
					objs = append(objs, h.keep(fmt.Sprintf("%s/list%d", op.D, len(d.shares)), res))
				}
				d.shares = append(d.shares, res...)
			}
			e["shares"] = intss(p)
		}
		e["objs"] = objs
	})
}

func (h *hist) sparesIntact() bool {
	for _, b := range h.spared {
		if !intact(b) {
			return false
		}
	}
	return true
}

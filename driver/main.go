// Command verifdriver replays scenarios against the public API of the module and
// records what happened as one JSON event per line.  It judges nothing: verdicts
// are taken by TLC, from the specification, on the recorded events.
//
//	verifdriver MODE SCRIPT OUT
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/fadhilkurnia/shamir/aaacpu"
)

// Ev is one event; json.Marshal sorts its keys.
type Ev map[string]interface{}

var (
	outMu sync.Mutex
	outW  *bufio.Writer
	outF  *os.File
)

// emit writes an event.
func emit(e Ev) {
	b, err := json.Marshal(e)
	if err != nil {
		fatal("marshal: %v", err)
	}
	outMu.Lock()
	defer outMu.Unlock()
	outW.Write(b)
	outW.WriteByte('\n')
}

// flush makes everything emitted so far survive a crash of the process.
func flush() {
	outMu.Lock()
	defer outMu.Unlock()
	outW.Flush()
}

// fatal is for errors of the driver itself.
func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "DRIVER-ERROR "+format+"\n", a...)
	os.Exit(70)
}

// exitHang is the exit code after a call was reported as hanging.
const exitHang = 71

// call runs fn, which calls into the module, and reports how it ended: "ok" (fn
// returned nil), "err", "panic", or "hang" (not back after the limit).
func call(limit time.Duration, fn func() error) (out string, msg string) {
	type res struct{ out, msg string }
	done := make(chan res, 1)
	go func() {
		r := res{out: "panic"}
		defer func() {
			if p := recover(); p != nil {
				r = res{"panic", fmt.Sprint(p)}
			}
			done <- r
		}()
		if err := fn(); err != nil {
			r = res{"err", err.Error()}
		} else {
			r = res{"ok", ""}
		}
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case r := <-done:
		return r.out, r.msg
	case <-t.C:
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		fmt.Fprintf(os.Stderr, "HANG\n%s\n", buf[:n])
		return "hang", "no answer within " + limit.String()
	}
}

// inline is call without a limit.
func inline(fn func() error) (out, msg string) {
	defer func() {
		if p := recover(); p != nil {
			out, msg = "panic", fmt.Sprint(p)
		}
	}()
	if err := fn(); err != nil {
		return "err", err.Error()
	}
	return "ok", ""
}

// ints turns bytes into a JSON array of numbers.
func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, v := range b {
		r[i] = int(v)
	}
	return r
}

func intss(bs [][]byte) [][]int {
	r := make([][]int, len(bs))
	for i, b := range bs {
		r[i] = ints(b)
	}
	return r
}

func main() {
	log.SetFlags(0)
	if len(os.Args) != 4 {
		fatal("usage: verifdriver MODE SCRIPT OUT")
	}
	script, err := ioutil.ReadFile(os.Args[2])
	if err != nil {
		fatal("%v", err)
	}
	outF, err = os.Create(os.Args[3])
	if err != nil {
		fatal("%v", err)
	}
	outW = bufio.NewWriterSize(outF, 1<<16)
	if want := os.Getenv("VERIF_CPU_OFF"); want != "" && strings.Join(aaacpu.Off, ",") != want {
		fatal("could not hide %s, only %v", want, aaacpu.Off)
	}
	switch os.Args[1] {
	case "hist":
		runHist(script)
	case "galois":
		runGalois(script)
	case "stats":
		runStats(script)
	case "conc":
		runConc(script)
	case "pool":
		runPool(script)
	case "starve":
		runStarve(script)
	default:
		fatal("unknown mode %s", os.Args[1])
	}
	emit(Ev{"ev": "end"})
	flush()
	outF.Close()
}

func exit(code int) { os.Exit(code) }

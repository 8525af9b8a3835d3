// Package zzv is the harness vocabulary. The symbolic engine intercepts every
// function here; the bodies below are what runs when a counterexample or a
// witness is replayed against the real build.
package zzv

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"time"
)

type input struct {
	Name string      `json:"name"`
	Kind string      `json:"kind"`
	V    interface{} `json:"v"`
}

var vals = map[string]string{}
var names = map[string]int{}
var reached = map[string]bool{}

type assumeFailed struct{}

func load(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var d struct {
		Inputs []input `json:"inputs"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	for _, i := range d.Inputs {
		switch x := i.V.(type) {
		case string:
			vals[i.Name] = x
		case float64:
			vals[i.Name] = fmt.Sprintf("%d", int64(x))
		}
	}
}

// Replay runs the named harness on the inputs stored in $VERIF_CEX.
func Replay(hs map[string]func()) {
	load(os.Getenv("VERIF_CEX"))
	h := hs[os.Getenv("VERIF_HARNESS")]
	if h == nil {
		fmt.Println("VERIF-NOHARNESS")
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				fmt.Println("VERIF-ASSUME-FAILED")
				os.Exit(0)
			}
			fmt.Printf("VERIF-PANIC: %v\n", r)
			buf := make([]byte, 1<<14)
			fmt.Println(string(buf[:runtime.Stack(buf, false)]))
			os.Exit(3)
		}
	}()
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	h()
	runtime.ReadMemStats(&m1)
	if !bigHeap && m1.TotalAlloc-m0.TotalAlloc > 48<<20 {
		fmt.Printf("VERIF-PANIC: more than %d MiB allocated\n", (m1.TotalAlloc-m0.TotalAlloc)>>20)
		os.Exit(3)
	}
	var ks []string
	for k := range reached {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b, _ := json.Marshal(ks)
	fmt.Printf("VERIF-OK: %s\n", b)
}

func nm(n string) string {
	k := names[n]
	names[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func num(n string) uint64 {
	b, ok := new(big.Int).SetString(vals[nm(n)], 10)
	if !ok {
		return 0
	}
	return b.Uint64()
}

func U8(n string) uint8   { return uint8(num(n)) }
func U16(n string) uint16 { return uint16(num(n)) }
func U32(n string) uint32 { return uint32(num(n)) }
func U64(n string) uint64 { return num(n) }
func I8(n string) int8    { return int8(num(n)) }
func I16(n string) int16  { return int16(num(n)) }
func I32(n string) int32  { return int32(num(n)) }
func I64(n string) int64  { return int64(num(n)) }
func Int(n string) int    { return int(num(n)) }
func Bool(n string) bool  { return num(n) != 0 }

// IntRange is a symbolic int in [lo,hi]; Choose forks over the values.
func IntRange(n string, lo, hi int) int {
	x := Int(n)
	Assume(lo <= x && x <= hi)
	return x
}
func Choose(n string, lo, hi int) int {
	k := nm(n)
	if _, ok := vals[k]; !ok {
		return lo
	}
	b, _ := new(big.Int).SetString(vals[k], 10)
	return int(b.Int64())
}
func Bytes(n string, l int) []byte {
	b, _ := hex.DecodeString(vals[nm(n)])
	r := make([]byte, l)
	copy(r, b)
	return r
}
func Str(n string, l int) string { return string(Bytes(n, l)) }

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}
func Assert(c bool, msg string) {
	if !c {
		fmt.Printf("VERIF-ASSERT: %s\n", msg)
		os.Exit(3)
	}
}
func Reach(l string)    { reached[l] = true }
func Bound(k, v string) {}
func Symbolic() bool    { return false }
func Thorough() bool    { return os.Getenv("VERIF_TIER") == "thorough" }
func MaxSteps(n int)    {}

// HashAxioms(false) drops collision freedom: digests of syntactically different
// inputs are then unrelated (an over-approximation, enough for completeness).
func HashAxioms(b bool) {}
func MapOrder(b bool)   {}
func LenCap(n int)      {}
func Preempt(n int)     {}

var jitter, _ = strconv.Atoi(os.Getenv("VERIF_JITTER"))

// Jitter varies the timing of the environment in repeated native runs.
func Jitter() {
	if jitter > 0 {
		time.Sleep(time.Duration(rand.Intn(1+jitter*jitter)) * time.Millisecond)
	}
}

// Delays(n) explores schedules with up to n deviations from round robin.
func Delays(n int) {}
func Yield()       { time.Sleep(time.Millisecond) }
func Settle()      { time.Sleep(30 * time.Millisecond) }

var bigHeap bool

// BigHeap tells the replay that real libraries allocate much memory here.
func BigHeap()                       { bigHeap = true }
func Log(s string, a ...interface{}) {}

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool   { return !a || b }
func BytesEq(a, b []byte) bool { return string(a) == string(b) }

// Package symrt is the interface between harnesses and the symbolic engine.
//
// Under the engine every function here is intercepted.  Compiled natively the
// same functions read the concrete values of one counterexample, so that a
// harness doubles as its own replay.
package symrt

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"time"
)

// Replay is the content of a replay file.
type Replay struct {
	Harness string           `json:"harness"`
	Params  map[string]int64 `json:"params"`
	Kind    string           `json:"kind"`
	Msg     string           `json:"msg"`
	Inputs  []Input          `json:"inputs"`
}

// Input is one concrete input.
type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

// Violated is the panic value of a failed assertion.
type Violated struct{ Msg string }

// Assumed is the panic value of an assumption that does not hold.
type Assumed struct{}

// Ended is the panic value of End.
type Ended struct{}

var (
	vals   map[string]string
	params map[string]int64
	names  = map[string]int{}
	// Programmed holds sha256 results fixed by the counterexample.
	Programmed = map[string][]byte{}
	// OnProgram, if set, is told about every programmed digest.
	OnProgram func(key, digest []byte)
)

// Load reads a replay file.
func Load(path string) (*Replay, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	Set(&r)
	return &r, nil
}

// Set installs the values of a replay.
func Set(r *Replay) {
	vals = map[string]string{}
	for _, in := range r.Inputs {
		vals[in.Name] = in.Val
	}
	params = r.Params
	names = map[string]int{}
}

func name(n string) string {
	k := names[n]
	names[n]++
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func num(n string) int64 {
	v, ok := vals[name(n)]
	if !ok {
		return 0
	}
	i, err := strconv.ParseInt(v, 10, 64)
	if err != nil {
		panic(err)
	}
	return i
}

func Symbolic() bool         { return false }
func Int64(n string) int64   { return num(n) }
func Uint64(n string) uint64 { return uint64(num(n)) }
func Uint(n string) uint     { return uint(num(n)) }
func Int(n string) int       { return int(num(n)) }
func Int32(n string) int32   { return int32(num(n)) }
func Bool(n string) bool     { return num(n) != 0 }

// Bytes gives k arbitrary bytes.
func Bytes(n string, k int) []byte {
	rv := make([]byte, k)
	b, err := hex.DecodeString(vals[name(n)])
	if err != nil {
		panic(err)
	}
	copy(rv, b)
	return rv
}

// Hash gives 32 arbitrary bytes, treated as one value.
func Hash(n string) []byte { return Bytes(n, 32) }

// Choose explores each of 0..k-1 separately.
func Choose(n string, k int) int {
	v := int(num(n))
	if v >= k {
		v = k - 1
	}
	return v
}

// Concretize explores each feasible value separately.
func Concretize(v int64) int64 { return v }

func Assume(b bool) {
	if !b {
		panic(Assumed{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		panic(Violated{msg})
	}
}

func Fail(msg string) { panic(Violated{msg}) }

// End ends the path.
func End()         { panic(Ended{}) }
func Reach(string) {}

// Skip ends the path without a verdict.
func Skip(msg string) {
	fmt.Println("not modelled:", msg)
	os.Exit(11)
}

// MayExit says that the process may end by itself from here on.
func MayExit() { fmt.Println("may exit") }

// Settle lets the other goroutines run until all are blocked.
func Settle() { time.Sleep(200 * time.Millisecond) }

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }
func Not(a bool) bool        { return !a }

func IteInt64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// Param is a bound given by the check.
func Param(n string, d int64) int64 {
	if v, ok := params[n]; ok {
		return v
	}
	return d
}

// Explore makes the scheduler try all interleavings with up to n preemptions.
func Explore(n int) { startPoints() }
func NoExplore()    {}
func Yield()        {}

// WindowKey gives a key whose sha256 starts with the low pbits of prefix
// followed by wbits arbitrary bits; the rest of the digest is fixed.
func WindowKey(n string, prefix uint64, pbits, wbits int) []byte {
	n = name(n)
	v, err := strconv.ParseUint(vals[n], 10, 64)
	if err != nil {
		v = 0
	}
	want := prefix<<uint(wbits) | v
	for i := 0; ; i++ {
		k := []byte(fmt.Sprintf("winkey:%s:%d", n, i))
		d := sha256.Sum256(k)
		if binary.BigEndian.Uint64(d[:8])>>uint(64-pbits-wbits) == want {
			return k
		}
	}
}

// ProgramSHA declares that sha256(key) is digest.
func ProgramSHA(key, digest []byte) {
	Programmed[string(key)] = append([]byte(nil), digest...)
	if OnProgram != nil {
		OnProgram(key, digest)
	}
}

// Package sym is the harness interface of the symbolic engine. The engine
// intercepts every function; this native implementation replays one
// assignment (a JSON file named by SYM_MODEL) against the real code.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"math/bits"
	"os"
	"runtime"
)

type Model struct {
	Harness string            `json:"harness"`
	Vars    map[string]uint64 `json:"vars"`
	Params  map[string]int    `json:"params"`
}

var M Model
var count = map[string]int{}

func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	M = Model{}
	count = map[string]int{}
	return json.Unmarshal(b, &M)
}

func next(name string) uint64 {
	k := count[name]
	count[name] = k + 1
	return M.Vars[fmt.Sprintf("%s#%d", name, k)]
}

// Inputs.
func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }
func I64(name string) int64  { return int64(next(name)) }
func I32(name string) int32  { return int32(next(name)) }
func Bool(name string) bool  { return next(name) != 0 }
func F32(name string) float32 {
	return math.Float32frombits(uint32(next(name)))
}

// Range is any integer in [lo, hi]; Choose additionally explores each value separately.
func Range(name string, lo, hi int) int {
	v := next(name)
	if n := uint64(hi - lo); v > n {
		Assume(false)
	}
	_ = bits.Len64
	return lo + int(v)
}
func Choose(name string, lo, hi int) int { return Range(name, lo, hi) }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// Conc explores each feasible value of v separately.
func Conc(v int) int { return v }

func Assume(c bool) {
	if !c {
		fmt.Println("SYM-ASSUME")
		os.Exit(3)
	}
}
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("SYM-ASSERT " + msg)
		os.Exit(1)
	}
}
func Reach(label string)         { fmt.Println("SYM-REACH " + label) }
func Out(label string, v uint64) { fmt.Printf("SYM-OUT %s=%d\n", label, v) }
func OutBytes(label string, b []byte) {
	for _, v := range b {
		Out(label, uint64(v))
	}
}
func Param(name string, def int) int {
	if v, ok := M.Params[name]; ok {
		return v
	}
	return def
}
func Opt(name string, v int) {}
func Procs(n int)            { runtime.GOMAXPROCS(n) }
func Native() bool           { return true }
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func Eq(a, b []byte) bool    { return string(a) == string(b) }
func StrEq(a, b string) bool { return a == b }

// File is the content of a file of the repository (testdata).
func File(name string) []byte {
	b, err := os.ReadFile(os.Getenv("SYM_REPO") + "/" + name)
	if err != nil {
		panic(err)
	}
	return b
}

// Main runs the harness named in the model file.
func Main(table map[string]func()) {
	if err := Load(os.Args[1]); err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	f := table[M.Harness]
	if f == nil {
		fmt.Println("no harness", M.Harness)
		os.Exit(4)
	}
	f()
	fmt.Println("SYM-END")
}

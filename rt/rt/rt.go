// Package rt is the harness API. Under the symbolic engine the functions marked
// (intrinsic) are replaced by the engine; natively they replay a recorded tape
// of input values, so that a counterexample runs against the real code.
package rt

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"strings"
)

type tapeEnt struct {
	Name string `json:"name"`
	V    uint64 `json:"v"`
}

var (
	tape     []tapeEnt
	pos      int
	thorough bool
	limit    int64
	alloc0   uint64
)

func draw(name string) uint64 {
	full := strconv.Itoa(pos) + ":" + name
	if pos >= len(tape) {
		pos++
		return 0
	}
	e := tape[pos]
	if e.Name != full {
		fmt.Printf("TAPE-DIVERGED at %s, recorded %s\n", full, e.Name)
		os.Exit(4)
	}
	pos++
	return e.V
}

// Int returns any integer in [lo, hi] (intrinsic).
func Int(name string, lo, hi int) int { return int(int64(draw(name)) + int64(lo)) }

// Choose returns any integer in [0, n), split into separate paths (intrinsic).
func Choose(name string, n int) int { return int(draw(name)) }

// Bool returns any boolean (intrinsic).
func Bool(name string) bool { return draw(name) != 0 }

// Byte returns any byte (intrinsic).
func Byte(name string) byte { return byte(draw(name)) }

// U64 returns any 64-bit value (intrinsic).
func U64(name string) uint64 { return draw(name) }

// I64 returns any 64-bit value (intrinsic).
func I64(name string) int64 { return int64(draw(name)) }

// Float returns any float64, given by its bits (intrinsic).
func Float(name string) float64 { return math.Float64frombits(draw(name)) }

// Thorough tells whether the deeper tier runs (intrinsic).
func Thorough() bool { return thorough }

// Symbolic tells whether the code runs under the engine (intrinsic).
func Symbolic() bool { return false }

// Assume restricts the inputs (intrinsic).
func Assume(c bool) {
	if !c {
		fmt.Println("ASSUME-FAIL")
		os.Exit(3)
	}
}

// Assert states the property (intrinsic).
func Assert(c bool, label string) {
	if !c {
		fmt.Println("ASSERT-FAIL " + label)
		os.Exit(1)
	}
}

// Reach records that a point of the harness was reached (intrinsic).
func Reach(label string) {}

// AllocLimit bounds the bytes allocated by the target from here on (intrinsic).
func AllocLimit(n int64) {
	limit = n
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	alloc0 = m.TotalAlloc
}

// AllocCheck asserts the allocation bound (intrinsic: the engine checks at each allocation).
func AllocCheck() {
	if limit > 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if int64(m.TotalAlloc-alloc0) > limit {
			fmt.Println("ASSERT-FAIL allocation bound")
			os.Exit(1)
		}
	}
}

// Unsupported ends the path without a verdict: a shim does not model what is asked of it (intrinsic).
func Unsupported(what string) {
	fmt.Println("UNSUPPORTED " + what)
	os.Exit(3)
}

// Split explores each value of n on its own path (intrinsic).
func Split(n int) int { return n }

// SplitBool explores both values of b on their own paths (intrinsic).
func SplitBool(b bool) bool { return b }

// IteInt selects without splitting the path (intrinsic).
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// And is conjunction without splitting the path (intrinsic).
func And(a, b bool) bool { return a && b }

// Or is disjunction without splitting the path (intrinsic).
func Or(a, b bool) bool { return a || b }

// Observe records values; the engine's and the native run's must agree (intrinsic).
func Observe(label string, vals ...any) {
	var p []string
	for _, v := range vals {
		p = append(p, render(v))
	}
	fmt.Println("OBS " + label + "=" + strings.Join(p, ","))
}

func render(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case string:
		return strconv.Quote(x)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case []string:
		var p []string
		for _, e := range x {
			p = append(p, render(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case []int:
		var p []string
		for _, e := range x {
			p = append(p, render(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case []any:
		var p []string
		for _, e := range x {
			p = append(p, render(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprint(v)
}

// Main replays one tape natively.
func Main(hs map[string]func()) {
	if len(os.Args) < 2 {
		fmt.Println("usage: vmain tape.json")
		os.Exit(2)
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var in struct {
		Harness  string    `json:"harness"`
		Tape     []tapeEnt `json:"tape"`
		Thorough bool      `json:"thorough"`
	}
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	h := hs[in.Harness]
	if h == nil {
		fmt.Println("unknown harness", in.Harness)
		os.Exit(2)
	}
	tape, thorough = in.Tape, in.Thorough
	h()
	fmt.Println("DONE")
}

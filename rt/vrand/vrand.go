// Package vrand is math/rand with outcomes the harness controls: the next Free
// draws are arbitrary (symbolic), later ones follow a fixed pattern.
package vrand

import (
	"math/rand"
	"strconv"

	"github.com/IfanTsai/metis/verif/rt"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
)

var (
	// Free is the number of draws that are still arbitrary.
	Free int
	// Draws counts all draws.
	Draws int
	// Small bounds arbitrary draws of wide results to [0, Small) when positive.
	Small int
	// Plan lists the outcomes of the next draws (taken modulo the range).
	Plan []int64
	seq  int64
	// LevelPlan, when set, decides skiplist levels: Int31 answers 0 ("one more
	// level") the planned number of times, then 0xFFFF.
	LevelPlan func() int
	pending   int
	planned   bool
)

func free() bool {
	Draws++
	if Free > 0 {
		Free--
		return true
	}
	return false
}

// Seq is the deterministic source used when no draw is free.
func next() int64 {
	if len(Plan) > 0 {
		v := Plan[0]
		Plan = Plan[1:]
		return v
	}
	seq++
	return seq - 1
}

func Seed(int64) {}

func Int63() int64 {
	if free() {
		hi := int(^uint(0) >> 1)
		if Small > 0 {
			hi = Small - 1
		}
		return int64(rt.Int("rand"+strconv.Itoa(Draws), 0, hi))
	}
	return next()
}

func Int() int       { return int(Int63()) }
func Uint64() uint64 { return uint64(Int63()) }
func Uint32() uint32 { return uint32(Int31()) }

// Int31 is only used for level choices; see LevelPlan.
func Int31() int32 {
	if LevelPlan != nil {
		if !planned {
			pending = LevelPlan()
			planned = true
		}
		if pending > 0 {
			pending--
			return 0
		}
		planned = false
		return 0xFFFF
	}
	return 0xFFFF
}

func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	if free() {
		return int64(rt.Int("rand"+strconv.Itoa(Draws), 0, int(n-1)))
	}
	return next() % n
}

func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(Int63n(int64(n)))
}

func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(Int63n(int64(n)))
}

// Float64 and Float32 are only used for level choices.
func Float64() float64 { return float64(Int31()&0xFFFF) / 0x10000 }
func Float32() float32 { return float32(Float64()) }

func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}

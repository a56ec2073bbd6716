package main

import (
	"math/rand"
	"testing"
)

// Comparisons of random linear terms must evaluate as the operators say.
func TestComparisonsOfLinearTerms(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for n := 0; n < 200000; n++ {
		tt := newTT()
		w := []uint8{8, 16, 32, 64}[rnd.Intn(4)]
		var vars []*Term
		vals := map[string]uint64{}
		for i := 0; i < 3; i++ {
			lo := uint64(rnd.Intn(40))
			hi := lo + uint64(rnd.Intn(300))
			if rnd.Intn(8) == 0 {
				lo, hi = 0, mask(w)
			}
			lo, hi = lo&mask(w), hi&mask(w)
			if lo > hi {
				lo, hi = hi, lo
			}
			v := tt.Var(string(rune('a'+i)), w, lo, hi)
			x := lo
			if hi-lo == ^uint64(0) {
				x = rnd.Uint64()
			} else {
				x += rnd.Uint64() % (hi - lo + 1)
			}
			vals[v.name] = x
			vars = append(vars, v)
		}
		lin := func() (*Term, uint64) {
			k := uint64(rnd.Intn(2000)) - uint64(rnd.Intn(2000))
			if rnd.Intn(3) == 0 {
				k += 1700000000000
			}
			acc, val := K(w, k), k
			for _, v := range vars {
				c := uint64(rnd.Intn(5)) - 2
				if rnd.Intn(9) == 0 {
					c *= 1000000
				}
				acc = tt.Add(acc, tt.Mul(v, K(w, c)))
				val += c * vals[v.name]
			}
			return acc, val & mask(w)
		}
		a, x := lin()
		b, y := lin()
		e := newEvaluator()
		sx, sy := int64(sext64(x, w)), int64(sext64(y, w))
		for i, c := range []struct {
			t    *Term
			want bool
		}{{tt.ULt(a, b), x < y}, {tt.ULe(a, b), x <= y}, {tt.SLt(a, b), sx < sy}, {tt.SLe(a, b), sx <= sy}, {tt.Eq(a, b), x == y}} {
			if got := e.eval(c.t, vals) == 1; got != c.want {
				t.Fatalf("case %d op %d width %d: %v, want %v (%d, %d)", n, i, w, got, c.want, x, y)
			}
		}
	}
}

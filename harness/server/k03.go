package server

import (
	"strconv"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vrand"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vDue fills both databases: nkeys keys in database 0 with deadlines of one
// arbitrary digit, one more without a deadline, two keys in database 1.
func vDue(s *Server, c *vsyscall.File, m *vModel, nkeys int) {
	for i := 0; i < nkeys; i++ {
		k := "k" + strconv.Itoa(i)
		if i%2 == 0 {
			vStep(s, c, m, "setex", k, vNum("deadline", 1, false), "v")
		} else {
			vStep(s, c, m, "rpush", k, "x", "y")
			vStep(s, c, m, "expire", k, vNum("deadline", 1, false))
		}
	}
	vStep(s, c, m, "set", "keep", "v")
	vDo(s, c, "select", "1")
	for _, a := range [][]string{{"setex", "k0", vNum("deadline", 1, false), "w"}, {"set", "k1", "w"}} {
		vMatch(a[0], vDo(s, c, a...), m.exec(1, a))
	}
	vDo(s, c, "select", "0")
}

// vReclaimed checks the raw dataset after a cron run: what is alive is untouched,
// what is gone is gone with its deadline.
func vReclaimed(s *Server, before *vModel) {
	got := vDump(s)
	deadlines := 0
	for i := range before.dbs {
		for _, w := range before.dbs[i] {
			g := got.find(i, w.key)
			if w.hasExp && w.exp < rt.NowMs() {
				if g != nil {
					rt.Assert(g.hasExp, "an expired key keeps its deadline until it is reclaimed")
				}
			} else {
				rt.Assert(g != nil && vSameVal(g.val, w.val), "a key that has not expired is not removed or altered")
				rt.Assert(g.hasExp == w.hasExp && g.exp == w.exp, "its deadline is not changed")
			}
			if g != nil && g.hasExp {
				deadlines++
			}
		}
		rt.Assert(len(got.dbs[i]) <= len(before.dbs[i]), "no key appears")
	}
	rt.Assert(vExpires(s) == deadlines, "no deadline remains without its key")
}

// 3 keys with deadlines of one arbitrary digit in database 0, one there without, 2 in database 1 (one with a deadline); the cron runs after any 0..11 s, once or twice, its first 3 (thorough: 5) draws arbitrary
func VH_K03_safe() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	vDue(s, c, m, 3)
	vPass(m, 11)
	vrand.Free, vrand.Small = 3, 8
	if rt.Thorough() {
		vrand.Free = 5
	}
	vCron(s, 0)
	vReclaimed(s, m)
	vrand.Free = 0
	if rt.Choose("again", 2) == 1 {
		vCron(s, 1)
		vReclaimed(s, m)
	}
	rt.Reach("end")
}

// 1..20 keys with deadlines in the dictionary of deadlines of the first or the second database (also half-way through its growth), an arbitrary half of them expired, random draws from a fixed fair source: three cron runs reclaim every expired key and nothing else
func VH_K03_reclaims() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	n := []int{1, 2, 4, 5, 8, 9, 17, 20}[rt.Choose("keys", 8)]
	odd := rt.Int("odd", 0, 1)
	db := rt.Choose("database", 2)
	vDo(s, c, "select", strconv.Itoa(db))
	for i := 0; i < n; i++ {
		d := "9"
		if i < 2 {
			d = string([]byte{byte(rt.IteInt(i == odd, '1', '9'))})
		} else if i%2 == 0 {
			d = "1"
		}
		a := []string{"setex", "k" + strconv.Itoa(i), d, "v"}
		vMatch(a[0], vDo(s, c, a...), m.exec(db, a))
	}
	rt.Tick(5, 1)
	x := uint64(88172645463325252)
	for i := 0; i < 4000; i++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		vrand.Plan = append(vrand.Plan, int64(x>>33))
	}
	for i := 0; i < 3; i++ {
		vCron(s, 1)
		vReclaimed(s, m)
	}
	vSame("every expired key is reclaimed", vDump(s), m.liveAll(), 0)
	rt.Reach("end")
}

// only expired keys, 0..3 of them, and none at all: the cron terminates and the dictionaries are empty afterwards or keep expired keys only (4 arbitrary draws)
func VH_K03_all() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	n := rt.Choose("keys", 4)
	for i := 0; i < n; i++ {
		vStep(s, c, m, "setex", "k"+strconv.Itoa(i), vNum("deadline", 1, false), "v")
	}
	rt.Tick(10, 1)
	vrand.Free, vrand.Small = 4, 8
	vCron(s, 1)
	vReclaimed(s, m)
	vStep(s, c, m, "keys", "*")
	rt.Assert(vExpires(s) == 0, "KEYS has reclaimed the rest")
	rt.Reach("end")
}

package server

import (
	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vfnv"
	"github.com/IfanTsai/metis/verif/vrand"
)

// vTable is a table of the dataset that has just begun to grow, and a command that looks an entry up in it.
type vTable struct {
	fill   func(do func(...string))
	lookup []string
}

func vTables(first, looked int) []vTable {
	x := func(i int) string { return string([]byte{'A' + byte(first+i)}) }
	l := x(looked)
	each := func(do func(...string), f func(x string) []string) {
		for i := 0; i < 9; i++ {
			do(f(x(i))...)
		}
	}
	return []vTable{
		{func(do func(...string)) { each(do, func(x string) []string { return []string{"set", x, x} }) }, []string{"get", l}},
		{func(do func(...string)) { each(do, func(x string) []string { return []string{"hset", "H", x, x} }) }, []string{"hget", "H", l}},
		{func(do func(...string)) { each(do, func(x string) []string { return []string{"sadd", "S", x} }) }, []string{"sismember", "S", l}},
		{func(do func(...string)) { each(do, func(x string) []string { return []string{"zadd", "Z", "1", x} }) }, []string{"zscore", "Z", l}},
		{func(do func(...string)) { each(do, func(x string) []string { return []string{"setex", x, "500", x} }) }, []string{"ttl", l}},
	}
}

// vReads are the commands that walk over tables, successful and not.
var vReads = [][]string{
	{"keys", "*"}, {"keys", "["}, {"keys", "a"}, {"hkeys", "H"}, {"hkeys", "missing"}, {"hkeys", "S"}, {"smembers", "S"},
	{"smembers", "H"}, {"sunion", "S", "S"}, {"sunion", "S", "missing", "T"}, {"sunion", "S", "H"}, {"sinter", "S", "T"},
	{"sinter", "S", "missing"}, {"sinter", "S", "T", "H"}, {"sdiff", "S", "T"}, {"sdiff", "T", "S"}, {"sdiff", "S", "H"},
	{"randomget"}, {"spop", "S"}, {"zrange", "Z", "0", "2"}, {"zcount", "Z", "0", "2"}, {"zrem", "Z", "missing"}, {"hdel", "H", "missing"},
	{"srem", "S", "missing"}, {"bgrewriteaof"}, {"cron"},
}

// vCost fills a table, executes commands, goes on with lookups and returns what each of the last ones costs.
func vCost(cfg *config.Config, t vTable, cmds [][]string) [2]int {
	s := vRestart(cfg)
	c := vDial(s)
	do := func(a ...string) { rt.Assert(vDo(s, c, a...) != "", "every command is answered") }
	do("select", "1")
	for i := 0; i < 3; i++ {
		do("sadd", "T", vLetter(i))
	}
	t.fill(do)
	for _, a := range cmds {
		switch a[0] {
		case "cron":
			vCron(s, 1)
		case "bgrewriteaof":
			do(a...)
			rt.RunTasks()
			vCron(s, 1)
		default:
			do(a...)
		}
	}
	for i := 0; i < 16; i++ {
		do(t.lookup...)
	}
	var r [2]int
	for i := range r {
		n := vfnv.Calls
		do(t.lookup...)
		r[i] = vfnv.Calls - n
	}
	return r
}

// a database, hash, set, sorted set or table of deadlines of 9 entries with consecutive names from one of 8 (all layouts of a table of 8), which has just begun to grow; then 1 (thorough 2) of 26 commands and background cycles that walk over tables, failing ones included; then 16 lookups of the first entry (thorough: any) or of an absent one: the next ones compute as few hashes as without the commands
func VH_D04_reads() {
	vInit()
	cfg := vCfgAof()
	cfg.AofFsync = config.TypeAppendFsyncNever
	looked := rt.Int("looked", 0, 1) * 9
	if rt.Thorough() {
		looked = rt.Int("looked", 0, 9)
	}
	t := vTables(rt.Int("first", 0, 7), looked)[rt.Choose("table", 5)]
	n := 1
	if rt.Thorough() {
		n = 2
	}
	var cmds [][]string
	for i := 0; i < n; i++ {
		cmds = append(cmds, vReads[rt.Choose("command", len(vReads))])
	}
	vrand.Free = 0
	ref := vCost(cfg, t, nil)
	cfg.AofFilename = "/data/other.aof"
	got := vCost(cfg, t, cmds)
	rt.Assert(got[0] <= ref[0] && got[1] <= ref[1], "a lookup costs no more than without the commands before")
	rt.Observe("cost", got[0], ref[0])
	rt.Reach("end")
}

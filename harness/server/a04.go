package server

import (
	"strings"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vos"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vCut starts a server on the first n bytes of a log and asserts that it has the result of the records complete in them; then on goes a further history in both databases and a restart, after a second cut if again.
func vCut(log []byte, n int, again bool) {
	cfg := vCfgAof()
	m := vNewModel(2)
	done := vReplay(m, log[:n])
	vos.SetContent(vAof, log[:n])
	s := vBoot(cfg)
	vSame("after the crash", vDump(s).dropEmpty(), m.clone().dropEmpty(), 0)
	before := vLogSize()
	rt.Assert(before <= n, "after the crash: the log does not grow by itself")
	rt.Assert(before >= done, "after the crash: the complete records stay in the log")
	c := vDial(s)
	from := rt.Choose("database", 2)
	if from == 1 {
		vDo(s, c, "select", "1")
	}
	vOn(s, c, m, from, "rpush", "after", "x")
	if from == 1 {
		vDo(s, c, "select", "0")
	} else {
		vDo(s, c, "select", "1")
	}
	vOn(s, c, m, 1-from, "set", "after2", "y")
	if again {
		log = vLog()
		k := rt.Choose("second cut", 30)
		m = vNewModel(2)
		vReplay(m, log[:len(log)-k])
		vos.SetContent(vAof, log[:len(log)-k])
	}
	s = vRestart(cfg)
	vSame("after another restart", vDump(s).dropEmpty(), m.clone().dropEmpty(), 0)
	rt.Reach("end")
}

func vHistory(q [][]string) []byte {
	s := vBoot(vCfgAof())
	c := vDial(s)
	for _, a := range q {
		vDo(s, c, a...)
	}
	log := vLog()
	rt.DropTasks()
	vsyscall.Reset()
	return log
}

// a log of eight records of all types in two databases with arbitrary bytes in keys and values, cut at every byte; then commands in both databases and a restart
func VH_A04_everywhere() {
	v := vBytes("v", 2)
	log := vHistory([][]string{{"set", "k", v}, {"rpush", "l", v, ""}, {"select", "1"}, {"hset", "h", "f", v}, {"setex", "t", "100", "x"}, {"select", "0"}, {"sadd", v, "a"}, {"zadd", "z", "1.5", v}, {"lpop", "l"}})
	vCut(log, rt.Choose("cut", len(log)+1), false)
}

// a log whose values look like records (with arbitrary bytes between), cut at every byte
func VH_A04_lookalike() {
	b := vBytes("b", 1)
	log := vHistory([][]string{{"set", "k", "\r\n*1\r\n$4\r\nping\r\n" + b}, {"rpush", "*2\r\n", b + "$3\r\n", "\r\n"}, {"set", "", ""}})
	vCut(log, rt.Choose("cut", len(log)+1), false)
}

// a log cut at each of the last 30 bytes twice, a crash after each restart
func VH_A04_twice() {
	v := vBytes("v", 1)
	log := vHistory([][]string{{"set", "k", v}, {"select", "1"}, {"rpush", "l", v, "x"}})
	vCut(log, len(log)-rt.Choose("cut", 30), true)
}

// logs longer than the loader's buffer (4096, 65536): values of 5000, 70000 and 140000 bytes cut within 12 bytes of each multiple of the buffer sizes and of the ends of the records
func VH_A04_large() {
	v := vBytes("v", 1)
	n := []int{5000, 70000, 140000}[rt.Choose("size", 3)]
	log := vHistory([][]string{{"set", "k", strings.Repeat("x", n) + v}, {"rpush", "l", v, "x"}})
	at := []int{4096, 65536, 131072, n + 27 + 23, len(log) - 12}[rt.Choose("where", 5)]
	cut := at - 12 + rt.Choose("cut", 25)
	rt.Assume(cut <= len(log))
	vCut(log, cut, false)
}

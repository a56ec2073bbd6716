package server

import (
	"strconv"
	"strings"

	rt "github.com/IfanTsai/metis/verif/rt"
)

// vBig is a text of n bytes with arbitrary ones at its begin, in the middle and at its end.
func vBig(name string, n int) string {
	if n < 3 {
		return vBytes(name, n)
	}
	return vBytes(name+"a", 1) + strings.Repeat("\r\n$*", n)[:n/2-1] + vBytes(name+"m", 1) + strings.Repeat("0x", n)[:n-n/2-2] + vBytes(name+"z", 1)
}

func vLower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] < 'a' {
			b[i] += 32
		}
	}
	return string(b)
}

// vKeeps runs commands with arguments under test and asserts that a server started on the log, and one started after one more command, have them all byte for byte.
func vKeeps(cmds ...[]string) {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	for _, a := range cmds {
		r := vDo(s, c, a...)
		name := vLower(a[0])
		vMatch(name, r, m.exec(0, append([]string{name}, a[1:]...)))
	}
	s = vRestart(cfg)
	vSame("after a restart", vDump(s), m, 999)
	c = vDial(s)
	vStep(s, c, m, "set", "one", "more")
	s = vRestart(cfg)
	vSame("after another restart", vDump(s), m, 999)
}

// arguments of every logged command with 0..2 (thorough: 3) arbitrary bytes each for key and value
func VH_A02_content() {
	n := 2
	if rt.Thorough() {
		n = 3
	}
	k, v := vBytes("k", rt.Choose("key length", n+1)), vBytes("v", rt.Choose("value length", n+1))
	a := [][]string{
		{"set", k, v}, {"setex", k, "100", v}, {"rpush", k, v, "", v}, {"lpush", k, v, "x"},
		{"hset", k, v, "x"}, {"hset", k, "x", v, v + "y", ""}, {"sadd", k, v}, {"zadd", k, "1", v},
	}[rt.Choose("command", 8)]
	vKeeps(a, []string{"set", k + "2", "after"})
	rt.Reach("end")
}

// commands without a written value: removals and deadlines of a key and an element of 0..2 arbitrary bytes
func VH_A02_removal() {
	k, v := vBytes("k", rt.Choose("key length", 2)), vBytes("v", rt.Choose("value length", 3))
	p := [][][]string{
		{{"hset", k, v, "1", "stays", "2"}, {"hdel", k, v}},
		{{"sadd", k, v, "stays"}, {"srem", k, v}},
		{{"zadd", k, "1", v, "2", "stays"}, {"zrem", k, v}},
		{{"rpush", k, v, "stays"}, {"expire", k, "90"}},
		{{"sadd", k, v}, {"spop", k}, {"sadd", k, "stays"}},
		{{"rpush", k, v, "stays", v}, {"lpop", k}},
	}[rt.Choose("command", 6)]
	vKeeps(p...)
	rt.Reach("end")
}

// a key of 0..2 arbitrary bytes with any value (1 arbitrary byte) whose deadline passed and that is reclaimed by the cron or by the next command, then a value of another type or none under it
func VH_A02_expired() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	k, v := vBytes("k", rt.Choose("key length", 3)), vBytes("v", 1)
	first := [][]string{{"set", k, v}, {"hset", k, v, "1"}, {"rpush", k, v}}[rt.Choose("first", 3)]
	vStep(s, c, m, first...)
	vStep(s, c, m, "expire", k, "5")
	rt.Tick(9, 0)
	vClear(m)
	if rt.Choose("cron", 2) == 1 {
		vReclaim(s)
	}
	then := [][]string{{"get", k}, {"rpush", k, v}, {"zadd", k, "1", v}, {"sadd", k, v}, {"expire", k, "50"}}[rt.Choose("then", 5)]
	vStep(s, c, m, then...)
	s = vRestart(cfg)
	vSame("after a restart", vDump(s).liveAll(), m, 999)
	vStep(s, vDial(s), m, "set", "one", "more")
	s = vRestart(cfg)
	vSame("after another restart", vDump(s).liveAll(), m, 999)
	rt.Reach("end")
}

// command names in any mixture of cases (three letters arbitrary)
func VH_A02_name() {
	b := func(l byte) string {
		if rt.Bool("upper") {
			return string([]byte{l - 32})
		}
		return string([]byte{l})
	}
	switch rt.Choose("command", 3) {
	case 0:
		vKeeps([]string{b('s') + b('e') + b('t'), "k", "v"})
	case 1:
		vKeeps([]string{"set", "k", "v"}, []string{b('e') + "x" + b('p') + "ir" + b('e'), "k", "90"})
	case 2:
		vKeeps([]string{b('s') + "et" + b('e') + b('x'), "k", "90", "v"})
	}
	rt.Reach("end")
}

// arguments as long as the buffers of the reader (4096 and 65536), around them and up to 1200000: a key, a value, two of them and list elements with arbitrary bytes at both ends and in the middle
func VH_A02_size() {
	n := []int{4094, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 131072, 200003, 1200000}[rt.Choose("size", 11)]
	v := vBig("v", n)
	switch rt.Choose("where", 4) {
	case 0:
		vKeeps([]string{"set", "k", v}, []string{"set", "l", "x"})
	case 1:
		vKeeps([]string{"set", v, "k"}, []string{"set", "l", "x"})
	case 2:
		vKeeps([]string{"rpush", "k", "a", v, "", v, "b"})
	case 3:
		vKeeps([]string{"hset", "k", v, v, "f", "g"})
	}
	rt.Reach("end")
}

// a record that begins 0..40 bytes before a multiple of the reader's buffer (4096 or 65536): its count, lengths, arguments and line ends straddle it; arbitrary bytes in its arguments
func VH_A02_straddle() {
	at := []int{65536, 4096, 131072}[rt.Choose("buffer", 3)]
	d := rt.Choose("before", 41)
	room := at - d - len("*2\r\n$6\r\nselect\r\n$1\r\n0\r\n")
	head := len(vEnc("set", "p", "")) - 1
	n := room - head
	for len(vEnc("set", "p", strings.Repeat("p", n))) > room {
		n--
	}
	vKeeps([]string{"set", "p", strings.Repeat("p", n)}, []string{"set", vBytes("k", 1) + "k", vBytes("v", 2)}, []string{"rpush", "l", "", vBytes("w", 1), strconv.Itoa(d)})
	rt.Reach("end")
}

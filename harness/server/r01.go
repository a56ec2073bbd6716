package server

import (
	"strconv"
	"strings"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vExpected is the concatenation of the exact replies of the first n requests on a fresh server.
func vExpected(reqs [][]string, n int) string {
	m := vNewModel(2)
	out := ""
	for _, q := range reqs[:n] {
		e := m.exec(0, q)
		if e.kind != 'x' {
			panic("not an exact reply")
		}
		out += e.s
	}
	return out
}

// vStream sends the requests as one byte stream cut at the given offsets and
// asserts after each piece that exactly the requests complete so far are answered.
func vStream(reqs [][]string, cuts ...int) {
	s := vBoot(vCfg())
	c := vDial(s)
	var stream []byte
	var ends []int
	for _, q := range reqs {
		stream = append(stream, vEnc(q...)...)
		ends = append(ends, len(stream))
	}
	from := 0
	for _, to := range append(cuts, len(stream)) {
		if to > from {
			vPost(c, stream[from:to:to])
			vResume(s)
			from = to
		}
		n := 0
		for n < len(ends) && ends[n] <= from {
			n++
		}
		rt.Assert(string(c.Out) == vExpected(reqs, n), "exactly the complete requests are executed, in order, with their arguments")
	}
	rt.Assert(!c.Closed, "the connection stays open")
	rt.Reach("end")
}

func vStreamLen(reqs [][]string) int {
	n := 0
	for _, q := range reqs {
		n += len(vEnc(q...))
	}
	return n
}

// SET and GET of a key of 0..1 and a value of 0..3 arbitrary bytes, cut at every two offsets
func VH_R01_split() {
	k, v := vBytes("k", rt.Choose("klen", 2)), vBytes("v", rt.Choose("vlen", 4))
	reqs := [][]string{{"set", k, v}, {"get", k}}
	n := vStreamLen(reqs)
	a := rt.Choose("cut", n+1)
	vStream(reqs, a, a+rt.Choose("cut2", n+1-a))
}

// three pipelined requests with arguments of 0..2 arbitrary bytes (values, list elements) that may be CR, LF, '$', '*', in one read, one byte per read, or cut once anywhere
func VH_R01_pipeline() {
	v, w := vBytes("v", rt.Choose("vlen", 3)), vBytes("w", rt.Choose("wlen", 3))
	reqs := [][]string{{"rpush", "l", v, w, "x"}, {"lrange", "l", "0", "-1"}, {"set", "k", w}, {"get", "k"}}
	n := vStreamLen(reqs)
	switch rt.Choose("how", 2) {
	case 0:
		vStream(reqs, rt.Choose("cut", n+1))
	case 1:
		var cuts []int
		for i := 1; i < n; i++ {
			cuts = append(cuts, i)
		}
		vStream(reqs, cuts...)
	}
}

// a value of 4060..4130, 8150..8210 or 12300 bytes (the buffer grows in steps of 4096), first and last byte arbitrary, read in one piece or in pieces of 1000, 4096 or 4097 bytes, followed by two pipelined requests
func VH_R01_large() {
	var n int
	switch rt.Choose("size", 3) {
	case 0:
		n = 4050 + 3*rt.Choose("n", 20)
	case 1:
		n = 8140 + 3*rt.Choose("n", 20)
	case 2:
		n = 12300
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	b[0], b[n/2], b[n-2], b[n-1] = rt.Byte("first"), '\n', '\r', rt.Byte("last")
	reqs := [][]string{{"set", "k", string(b)}, {"get", "k"}, {"ping"}, {"set", "k", "2"}, {"get", "k"}}
	var cuts []int
	piece := []int{1 << 20, 1000, 4096, 4097}[rt.Choose("piece", 4)]
	for i := piece; i < vStreamLen(reqs); i += piece {
		cuts = append(cuts, i)
	}
	vStream(reqs, cuts...)
}

// 20..400 requests in one read of up to 12 KB (more than the read buffer), the last one with an arbitrary byte, after a first piece of 0..40 bytes
func VH_R01_many() {
	n := []int{20, 133, 134, 135, 400}[rt.Choose("n", 5)]
	var reqs [][]string
	for i := 0; i < n; i++ {
		reqs = append(reqs, []string{"rpush", "l", "y"})
	}
	v := vBytes("v", 1)
	reqs = append(reqs, []string{"lpush", "l", v}, []string{"lindex", "l", "0"})
	vStream(reqs, rt.Choose("cut", 40))
}

// two connections whose requests (a value of 1 arbitrary byte) are cut once each, the pieces arriving alternately: both get their own replies
func VH_R01_two() {
	s := vBoot(vCfg())
	c := []*vsyscall.File{vDial(s), vDial(s)}
	v := []string{vBytes("v", 1), vBytes("w", 1)}
	var data [2][]byte
	for i := range c {
		k := "k" + vLetter(i)
		data[i] = append(vEnc("set", k, v[i]), vEnc("get", k)...)
		cut := rt.Choose("cut", len(data[i])-1) + 1
		vPost(c[i], data[i][:cut:cut])
		data[i] = data[i][cut:]
	}
	vResume(s)
	for i := range c {
		vPost(c[i], data[i])
	}
	vResume(s)
	for i := range c {
		rt.Assert(string(c[i].Out) == vOK+vBulk(v[i]), "each connection gets the replies to its requests")
	}
	rt.Reach("end")
}

// a request of 1030 (thorough: 40000) arguments, or with an argument of 70000 or 1200000 bytes, one byte arbitrary, in one piece or cut once, followed by a pipelined one
func VH_R01_long() {
	v := vBytes("v", 1)
	var reqs [][]string
	if rt.Choose("kind", 2) == 0 {
		n := 1030
		if rt.Thorough() {
			n = []int{1030, 40000}[rt.Choose("n", 2)]
		}
		a := []string{"rpush", "l"}
		for i := 0; i < n; i++ {
			a = append(a, "e")
		}
		reqs = [][]string{append(a, v), {"llen", "l"}, {"lindex", "l", strconv.Itoa(n)}}
	} else {
		n := []int{70000, 1200000}[rt.Choose("size", 2)]
		reqs = [][]string{{"set", "k", strings.Repeat("xyz\r\n", n/5) + v}, {"get", "k"}, {"ping"}}
	}
	switch rt.Choose("cut", 3) {
	case 0:
		vStream(reqs)
	case 1:
		vStream(reqs, 5000)
	case 2:
		vStream(reqs, vStreamLen(reqs[:1])-2)
	}
}

package server

import (
	"syscall"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vFeed sends pieces on one connection of a server and asserts after each that
// the server lives: another connection is answered and the sender is either
// still connected or closed properly, and what it got is a sequence of replies.
func vFeed(pieces ...[]byte) (*Server, *vsyscall.File) {
	s := vBoot(vCfg())
	other := vDial(s)
	c := vDial(s)
	for _, p := range pieces {
		if len(p) == 0 || c.Closed {
			continue
		}
		vPost(c, p)
		rt.AllocLimit(1 << 20)
		vResume(s)
		if len(p) < 1000 {
			rt.AllocCheck() // natively that is all allocations since
		}
		rt.Assert(vDo(s, other, "ping") == "+PONG\r\n", "other connections are served")
	}
	rt.Assert(len(vsyscall.Bad) == 0, "no closed descriptor is used")
	rt.Assert(c.Closes <= 1, "a connection is closed once")
	rt.Assert(rt.Or(c.Closed, len(c.In) == 0), "all input of an open connection is read")
	return s, c
}

// vCutOnce is data in one piece or in two.
func vCutOnce(data []byte) [][]byte {
	n := rt.Choose("cut", len(data)+1)
	return [][]byte{data[:n:n], data[n:]}
}

// 1..4 (thorough: 5) arbitrary bytes, cut anywhere
func VH_R02_bytes() {
	n := 1 + rt.Choose("len", 4)
	if rt.Thorough() {
		n = 1 + rt.Choose("len", 5)
	}
	vFeed(vCutOnce([]byte(vBytes("b", n)))...)
	rt.Reach("end")
}

// '*', '$' or "*1\r\n$" followed by 0..3 (thorough: 4) arbitrary bytes, CRLF and the bytes "abc\r\n"
func VH_R02_line() {
	head := []string{"*", "$", "*1\r\n$", "*2\r\n$1\r\nx\r\n$"}[rt.Choose("head", 4)]
	n := rt.Choose("len", 4)
	if rt.Thorough() {
		n = rt.Choose("len", 5)
	}
	data := []byte(head + vBytes("b", n) + "\r\n")
	vFeed(data, []byte("abc\r\n"), []byte("\r\n"))
	rt.Reach("end")
}

// announced lengths: a sign and 1..20 digits (the leading ones from a pool around the limits 2^20, 2^29, 2^31, 2^32, 2^63 and 2^64, the last two arbitrary), for the number of arguments, for an argument and for a top-level bulk string; then 6 arbitrary bytes and CRLF
func VH_R02_announced() {
	head := []string{"*", "$", "*1\r\n$", "*3\r\n$3\r\nset\r\n$"}[rt.Choose("head", 4)]
	sign := []string{"", "-", "+"}[rt.Choose("sign", 3)]
	pool := []string{"", "0", "10485", "5368709", "21474836", "42949672", "92233720368547758", "184467440737095516", "999999999999999999"}
	num := pool[rt.Choose("num", len(pool))] + vNum("n", 2, false)
	data := []byte(head + sign + num + "\r\n")
	vFeed(data, []byte(vBytes("b", 1)+"12\r\n"))
	rt.Reach("end")
}

// after a valid header of 2 arguments: the second argument's line with an arbitrary first byte and digit, the argument of 0..2 bytes and the two bytes after it arbitrary
func VH_R02_inside() {
	n := rt.Choose("len", 3)
	data := []byte("*2\r\n$3\r\nget\r\n")
	data = append(data, rt.Byte("dollar"), '0'+byte(n), '\r', '\n')
	data = append(data, vBytes("b", n+2)...)
	vFeed(append(vCutOnce(data), vEnc("ping"))...)
	rt.Reach("end")
}

// one byte (thorough: two neighbouring bytes) arbitrary at any place of a pipelined pair of valid requests
func VH_R02_corrupt() {
	data := append(vEnc("set", "k", "v"), vEnc("get", "k")...)
	i := rt.Choose("at", len(data)-1)
	data[i] = rt.Byte("x")
	if rt.Thorough() {
		data[i+1] = rt.Byte("y")
	}
	vFeed(data, vEnc("ping"))
	rt.Reach("end")
}

// lines without CRLF: '*', '$', "*1\r\n" plus "$" or other text, then 1..70000 bytes in pieces of 4000 or 30000, without and with a final CRLF
func VH_R02_endless() {
	head := []string{"*", "$", "*1\r\n$", "*1\r\n", "PING ", "\r"}[rt.Choose("head", 6)]
	b := make([]byte, []int{1000, 65530, 65540, 70000}[rt.Choose("size", 4)])
	for i := range b {
		b[i] = '1'
	}
	b[0] = rt.Byte("first")
	b = append([]byte(head), b...)
	if rt.Choose("end", 2) == 1 {
		b = append(b, '\r', '\n')
	}
	step := []int{4000, 30000}[rt.Choose("step", 2)]
	var pieces [][]byte
	for len(b) > step {
		pieces = append(pieces, b[:step:step])
		b = b[step:]
	}
	vFeed(append(pieces, b)...)
	rt.Reach("end")
}

// a connection that ends (end of stream, ECONNRESET, EPIPE, EIO, ETIMEDOUT) or is interrupted (EINTR, EAGAIN) at any byte of a request
func VH_R02_end() {
	s := vBoot(vCfg())
	other, c := vDial(s), vDial(s)
	data := append(vEnc("set", "k", vBytes("v", 1)), vEnc("get", "k")...)
	n := rt.Choose("cut", len(data)+1)
	if n > 0 {
		vPost(c, data[:n:n])
	}
	errs := []syscall.Errno{0, syscall.ECONNRESET, syscall.EPIPE, syscall.EIO, syscall.ETIMEDOUT, syscall.EINTR, syscall.EAGAIN}
	e := errs[rt.Choose("end", len(errs))]
	c.In = append(c.In, vsyscall.Chunk{Err: e})
	vResume(s)
	if e == syscall.EINTR || e == syscall.EAGAIN {
		rt.Assert(!c.Closed, "an interrupted read does not end the connection")
		if n < len(data) {
			vPost(c, data[n:])
			vResume(s)
		}
		rt.Assert(len(c.Out) > 0 && c.Out[0] == '+', "the request is completed after an interrupted read")
	} else {
		rt.Assert(c.Closed && c.Closes == 1, "a connection that ended is closed")
		rt.Assert(len(vClients(s)) == 1, "the server forgets it")
	}
	rt.Assert(vDo(s, other, "ping") == "+PONG\r\n", "other connections are served")
	rt.Assert(len(vsyscall.Bad) == 0, "no closed descriptor is used")
	rt.Reach("end")
}

package socket

import (
	"syscall"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vQuad reads a dotted quad: four decimal numbers of 0..255 without leading zeros.
func vQuad(s string) (a [4]byte, ok bool) {
	part, n, digits := 0, 0, 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			if digits == 0 || part > 3 {
				return a, false
			}
			a[part] = byte(n)
			part++
			n, digits = 0, 0
			continue
		}
		if s[i] < '0' || s[i] > '9' || digits > 0 && n == 0 {
			return a, false
		}
		n = n*10 + int(s[i]-'0')
		digits++
		if n > 255 {
			return a, false
		}
	}
	return a, part == 4
}

// vBindOrConnect uses the text and port and compares what reaches the kernel with a.
func vBindOrConnect(text string, ok bool, a [4]byte) {
	port := rt.Int("port", 0, 65535)
	vsyscall.Reset()
	fd, err := Socket(syscall.AF_INET, syscall.SOCK_STREAM)
	rt.Assert(err == nil, "a socket is created")
	f := vsyscall.Table[int(fd)]
	if rt.Choose("call", 2) == 0 {
		err = fd.Bind(text, uint16(port))
		rt.Assert((err == nil) == ok, "binding succeeds exactly for an IPv4 address")
		if ok {
			rt.Assert(rt.And(f.Bound, f.Port == port), "the given port is bound")
			rt.Assert(f.Addr == a, "the given address is bound")
		} else {
			rt.Assert(!f.Bound, "nothing is bound for a text that is not an address")
		}
	} else {
		vsyscall.Connects = nil
		err = fd.Connect(text, uint16(port))
		rt.Assert((err == nil) == ok, "connecting succeeds exactly for an IPv4 address")
		if ok {
			rt.Assert(len(vsyscall.Connects) == 1 && vsyscall.Connects[0].Port == port, "the given port is connected to")
			rt.Assert(vsyscall.Connects[0].Addr == a, "the given address is connected to")
		} else {
			rt.Assert(len(vsyscall.Connects) == 0, "nothing is connected to for a text that is not an address")
		}
	}
	rt.Reach("end")
}

func vDigits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(rt.Int("digit", 0, 9))
	}
	return string(b)
}

// every text of four numbers of 1..3 digits each (leading zeros and numbers beyond 255 among them), every port
func VH_N01_quads() {
	s := ""
	for i := 0; i < 4; i++ {
		if i > 0 {
			s += "."
		}
		n := 1 + rt.Choose("digits", 3)
		if i == 1 || i == 2 {
			if !rt.Thorough() {
				n = 1 + 2*rt.Choose("digits", 2)
			}
		}
		s += vDigits(n)
	}
	a, ok := vQuad(s)
	vBindOrConnect(s, ok, a)
}

// quads with one or two arbitrary bytes at any positions, texts of up to 4 arbitrary bytes other than ':' and '%'
func VH_N01_texts() {
	b := []byte("127.0.0.1")
	if rt.Choose("kind", 2) == 0 {
		i := rt.Choose("at", len(b))
		b[i] = rt.Byte("b")
		b[(i+1+rt.Choose("gap", 4))%len(b)] = rt.Byte("b")
	} else {
		b = b[:rt.Choose("len", 5)]
		for i := range b {
			b[i] = rt.Byte("b")
		}
	}
	for _, c := range b {
		rt.Assume(rt.And(c != ':', c != '%'))
	}
	a, ok := vQuad(string(b))
	vBindOrConnect(string(b), ok, a)
}

// IPv4-mapped IPv6 addresses of every value (dotted and hexadecimal), other IPv6 addresses, host names
func VH_N01_mapped() {
	hex := func() (string, byte) {
		v := rt.Int("nibble", 0, 15)
		return string([]byte{"0123456789abcdef"[v]}), byte(v)
	}
	switch rt.Choose("kind", 4) {
	case 0:
		s := vDigits(3) + ".0." + vDigits(2) + ".9"
		a, ok := vQuad(s)
		vBindOrConnect("::ffff:"+s, ok, a)
	case 1:
		s := "::ffff:"
		var v [4]byte
		for i := range v {
			h, n := hex()
			if i == 2 {
				s += ":"
			}
			s += "3" + h
			v[i] = 0x30 | n
		}
		vBindOrConnect(s, true, v)
	case 2:
		h, n := hex()
		vBindOrConnect("::ff"+h+"f:127.0.0.1", n == 15, [4]byte{127, 0, 0, 1})
	case 3:
		vBindOrConnect([]string{"::", "::1", "fe80::1", "localhost", "example.org", "0.0.0.0/0", " 127.0.0.1", "127.0.0.1 ", "*", "", "0x7f.0.0.1", "127.1", "2130706433", "1.2.3.4.5", "fe80::1%lo", "::ffff:127.0.0.1%lo"}[rt.Choose("text", 16)], false, [4]byte{})
	}
}

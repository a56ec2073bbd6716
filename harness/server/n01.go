package server

import (
	"strconv"
	"syscall"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

func vOpen() int {
	n := 0
	for fd := 3; fd < 64; fd++ {
		if vsyscall.Table[fd] != nil {
			n++
		}
	}
	return n
}

// the listening socket for any address 100..199.0..99.0..99.0..99 and any port; any of the calls socket, setsockopt, bind, listen failing with any errno, or none, or an unusable address
func VH_N01_listen() {
	vInit()
	vsyscall.Reset()
	call := []string{"", "socket", "setsockopt", "bind", "listen"}[rt.Choose("failing call", 5)]
	vsyscall.Fail = func(c string) syscall.Errno {
		if c == call {
			return vErrno2()
		}
		return 0
	}
	var a [4]byte
	ip := ""
	for i := range a {
		n := rt.Int("octet", 10, 99)
		if i == 0 {
			n += 100
		} else {
			ip += "."
		}
		a[i] = byte(n)
		ip += strconv.Itoa(n)
	}
	bad := rt.Choose("unusable address", 3)
	if bad > 0 {
		ip = []string{"", "localhost", "::1"}[bad]
	}
	port := rt.Int("port", 0, 65535)
	fd, err := CreateTCPServer(ip, uint16(port))
	if call != "" || bad > 0 {
		rt.Assert(err != nil, "a failing step is reported")
		rt.Assert(vOpen() == 0, "the socket is closed when a step fails")
	} else {
		rt.Assert(err == nil, "a listening socket is created")
		f := vsyscall.Table[int(fd)]
		rt.Assert(f != nil && f.Kind == "listen", "the socket listens")
		rt.Assert(f.Bound && rt.And(f.Addr == a, f.Port == port), "the socket listens at the given address and port")
	}
	rt.Assert(len(vsyscall.Bad) == 0, "no descriptor that is not open is used")
	rt.Reach("end")
}

func vErrno2() syscall.Errno { return syscall.Errno(rt.Int("errno", 1, 133)) }

// a server with any configured address and port listens there when it runs
func VH_N01_server() {
	cfg := vCfg()
	var a [4]byte
	cfg.Host = ""
	for i := range a {
		n := rt.Int("octet", 0, 255)
		if i > 0 {
			cfg.Host += "."
		}
		a[i] = byte(n)
		cfg.Host += strconv.Itoa(n)
	}
	cfg.Port = uint16(rt.Int("port", 1, 65535))
	vBoot(cfg)
	n := 0
	for fd := 3; fd < 64; fd++ {
		if f := vsyscall.Table[fd]; f != nil && f.Kind == "listen" {
			n++
			rt.Assert(rt.And(f.Addr == a, f.Port == int(cfg.Port)), "the server listens at the configured address and port")
		}
	}
	rt.Assert(n == 1, "the server listens on one socket")
	rt.Reach("end")
}

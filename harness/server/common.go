package server

import (
	"strconv"
	"syscall"

	"github.com/IfanTsai/metis/config"
	"github.com/IfanTsai/metis/log"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
	"go.uber.org/zap"
)

const (
	vAof  = "/data/metis.aof"
	vPort = 6379
)

func vInit() {
	nop := func(string, ...zap.Field) {}
	log.Debug, log.Info, log.Warn, log.Error = nop, nop, nop, nop
	log.Fatal = func(m string, _ ...zap.Field) { panic("log.Fatal: " + m) }
	log.Panic = func(m string, _ ...zap.Field) { panic("log.Panic: " + m) }
}

func vCfg() *config.Config {
	return &config.Config{Host: "127.0.0.1", Port: vPort, DatabaseNum: 2}
}

func vCfgAof() *config.Config {
	c := vCfg()
	c.AofEnable = true
	c.AofFilename = vAof
	c.AofFsync = config.TypeAppendFsyncAlways
	return c
}

// vIdle runs f until the event loop waits with nothing left to report.
func vIdle(f func()) {
	defer func() {
		rt.Unwinding = false
		if r := recover(); r != nil {
			if _, ok := r.(vsyscall.Idle); !ok {
				panic(r)
			}
		}
	}()
	f()
}

// vBoot starts a server and lets it become idle.
func vBoot(cfg *config.Config) *Server {
	vInit()
	s := NewServer(cfg)
	vIdle(func() { _ = s.Run() })
	return s
}

// vResume lets the server go on until it is idle again.
func vResume(s *Server) {
	vIdle(func() { _ = vLoop(s).Main() })
}

// vCron lets the server's timers fire once, ms milliseconds later.
func vCron(s *Server, ms int64) {
	rt.Tick(0, ms)
	vsyscall.Wakes++
	vResume(s)
}

// vRestart ends the process and starts a new one on the same files.
func vRestart(cfg *config.Config) *Server {
	rt.DropTasks()
	vsyscall.Reset()
	return vBoot(cfg)
}

// vDial opens a connection; the server accepts it as soon as it runs.
func vDial(s *Server) *vsyscall.File {
	c := &vsyscall.File{Kind: "conn"}
	for fd := 3; fd < 64; fd++ {
		if f := vsyscall.Table[fd]; f != nil && f.Kind == "listen" {
			f.Backlog = append(f.Backlog, c)
			vResume(s)
			return c
		}
	}
	panic("no listening socket")
}

// vEnc encodes a request.
func vEnc(args ...string) []byte {
	b := "*" + strconv.Itoa(len(args)) + "\r\n"
	for _, a := range args {
		b += "$" + strconv.Itoa(len(a)) + "\r\n" + a + "\r\n"
	}
	return []byte(b)
}

// vPost queues input.
func vPost(c *vsyscall.File, data []byte) {
	c.In = append(c.In, vsyscall.Chunk{Data: data})
}

// vDo sends one request and returns the bytes sent back.
func vDo(s *Server, c *vsyscall.File, args ...string) string {
	c.Out = nil
	vPost(c, vEnc(args...))
	vResume(s)
	return string(c.Out)
}

// vBytes is an arbitrary string of n bytes.
func vBytes(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = rt.Byte(name)
	}
	return string(b)
}

func vBulk(s string) string { return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n" }

func vArr(ss ...string) string {
	r := "*" + strconv.Itoa(len(ss)) + "\r\n"
	for _, s := range ss {
		r += vBulk(s)
	}
	return r
}

func vInt(n int) string { return ":" + strconv.Itoa(n) + "\r\n" }

const (
	vOK   = "+OK\r\n"
	vNull = "$-1\r\n"
)

func vIsErr(r string) bool { return len(r) > 4 && r[:5] == "-ERR " }

// vStep sends a command and checks its reply and its effect against the model.
func vStep(s *Server, c *vsyscall.File, m *vModel, a ...string) {
	r := vDo(s, c, a...)
	vMatch(a[0], r, m.exec(0, a))
}

// vName is an arbitrary one-letter name of lo..hi.
func vName(what string, lo, hi byte) string {
	return string([]byte{lo + byte(rt.Int(what, 0, int(hi-lo)))})
}

func vLetter(i int) string { return string([]byte{byte('a' + i)}) }

// vOneOf is any one of the given letters (symbolic).
func vOneOf(what, letters string) string {
	i := rt.Int(what, 0, len(letters)-1)
	b := int(letters[0])
	for j := 1; j < len(letters); j++ {
		b = rt.IteInt(i == j, int(letters[j]), b)
	}
	return string([]byte{byte(b)})
}

// vOdd is any string of 0..n bytes.
func vOdd(what string, n int) string { return vBytes(what, rt.Choose(what+"-len", n+1)) }

// vAround is the letters of the first, the last and the next two elements of n.
func vAround(n int) string {
	switch n {
	case 0:
		return "ab"
	case 1:
		return "abc"
	}
	return "a" + vLetter(n-1) + vLetter(n) + vLetter(n+1)
}

// vNum is any number of up to n decimal digits, negative ones included when neg is set.
func vNum(what string, n int, neg bool) string {
	s := ""
	if neg && rt.Choose(what+"-sign", 2) == 1 {
		s = "-"
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(rt.Int(what, 0, 9))
	}
	return s + string(b)
}

func vSeq(n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = "e" + strconv.Itoa(i)
	}
	return r
}

// vHangUp ends a connection by EOF, a reset or a request that is no request; the server closes it.
func vHangUp(s *Server, c *vsyscall.File) {
	switch rt.Choose("end", 3) {
	case 0:
		c.In = append(c.In, vsyscall.Chunk{})
	case 1:
		c.In = append(c.In, vsyscall.Chunk{Err: syscall.ECONNRESET})
	case 2:
		vPost(c, []byte("*1\r\n+\r\n"))
	}
	vResume(s)
}

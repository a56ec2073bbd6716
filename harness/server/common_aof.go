package server

import (
	"strconv"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vos"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

var vSyncs = []config.TypeAppnedFsync{config.TypeAppendFsyncAlways, config.TypeAppendFsyncEverySecond, config.TypeAppendFsyncNever}

// vOn runs a command of a connection whose selected database is db and checks reply and model.
func vOn(s *Server, c *vsyscall.File, m *vModel, db int, a ...string) {
	vMatch(a[0], vDo(s, c, a...), m.exec(db, a))
}

// vClear keeps instants out of reach at which the log's resolution of one second decides whether a key is alive.
func vClear(m *vModel) {
	for _, db := range m.dbs {
		for _, k := range db {
			if k.hasExp {
				d := k.exp - rt.NowMs()
				rt.Assume(rt.Or(d > 1000, d < -1000))
			}
		}
	}
}

// vLoads asserts that a server started on the log now has exactly the live dataset of the model.
func vLoads(what string, cfg *config.Config, m *vModel) *Server {
	vClear(m)
	s := vRestart(cfg)
	vSame(what, vDump(s).liveAll().dropEmpty(), m.clone().liveAll().dropEmpty(), 999)
	return s
}

// vWritesOf is a request of the i-th of the writing commands on a key of its type or a new one.
var vWriters = []string{"set", "setex", "expire", "expireat", "hset", "hdel", "lpush", "rpush", "lpop", "rpop", "sadd", "srem", "spop", "zadd", "zrem", "zremrangebyrank", "zremrangebyscore"}

// vTakeRecord reads the first complete command of a log, nil when there is none.
func vTakeRecord(b []byte) ([]string, int) {
	p := 0
	num := func(lead byte) (int, bool) {
		if p >= len(b) || b[p] != lead {
			return 0, false
		}
		q := p + 1
		for q < len(b) && b[q] != '\r' {
			q++
		}
		if q+1 >= len(b) {
			return 0, false
		}
		n, err := strconv.Atoi(string(b[p+1 : q]))
		if err != nil {
			return 0, false
		}
		p = q + 2
		return n, true
	}
	n, ok := num('*')
	if !ok {
		return nil, 0
	}
	var a []string
	for i := 0; i < n; i++ {
		l, ok := num('$')
		if !ok || p+l+2 > len(b) {
			return nil, 0
		}
		a = append(a, string(b[p:p+l]))
		p += l + 2
	}
	return a, p
}

// vReplay applies the complete commands of a log to a model, knowing DEL, and returns their length.
func vReplay(m *vModel, b []byte) int {
	db, done := 0, 0
	for {
		a, n := vTakeRecord(b[done:])
		if n == 0 {
			return done
		}
		done += n
		switch a[0] {
		case "select":
			db, _ = strconv.Atoi(a[1])
		case "del":
			for i, k := range m.dbs[db] {
				if k.key == a[1] {
					m.dbs[db] = append(m.dbs[db][:i:i], m.dbs[db][i+1:]...)
					break
				}
			}
		default:
			m.exec(db, a)
		}
	}
}

func vLog() []byte { return append([]byte(nil), vos.Content(vAof)...) }

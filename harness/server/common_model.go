package server

import (
	"math"
	"strconv"
	"strings"

	"github.com/IfanTsai/metis/datastruct"
	rt "github.com/IfanTsai/metis/verif/rt"
)

// ---- the reference model: what every command means ----

// vVal is a value: t is 's' string, 'h' hash, 'l' list, 'S' set, 'z' sorted set.
type vVal struct {
	t   byte
	str string
	f   []string  // fields, elements or members
	v   []string  // hash values
	sc  []float64 // scores
}

func (v *vVal) clone() *vVal {
	return &vVal{v.t, v.str, append([]string(nil), v.f...), append([]string(nil), v.v...), append([]float64(nil), v.sc...)}
}

func (v *vVal) find(f string) int {
	for i, x := range v.f {
		if x == f {
			return i
		}
	}
	return -1
}

func (v *vVal) cut(i int) {
	v.f = append(v.f[:i:i], v.f[i+1:]...)
	if v.v != nil {
		v.v = append(v.v[:i:i], v.v[i+1:]...)
	}
	if v.sc != nil {
		v.sc = append(v.sc[:i:i], v.sc[i+1:]...)
	}
}

// zput inserts in (score, member) order.
func (v *vVal) zput(sc float64, m string) {
	i := 0
	for i < len(v.f) && (v.sc[i] < sc || v.sc[i] == sc && v.f[i] < m) {
		i++
	}
	v.f = append(v.f, "")
	copy(v.f[i+1:], v.f[i:])
	v.f[i] = m
	v.sc = append(v.sc, 0)
	copy(v.sc[i+1:], v.sc[i:])
	v.sc[i] = sc
}

// vKey is a key with its value and deadline.
type vKey struct {
	key    string
	val    *vVal
	exp    int64
	hasExp bool
}

type vModel struct {
	dbs [][]*vKey
}

func vNewModel(ndb int) *vModel { return &vModel{dbs: make([][]*vKey, ndb)} }

func (m *vModel) clone() *vModel {
	r := vNewModel(len(m.dbs))
	for i, db := range m.dbs {
		for _, k := range db {
			r.dbs[i] = append(r.dbs[i], &vKey{k.key, k.val.clone(), k.exp, k.hasExp})
		}
	}
	return r
}

// live drops expired keys; a key exactly at its deadline must not occur.
func (m *vModel) live(db int) {
	for i := 0; i < len(m.dbs[db]); i++ {
		k := m.dbs[db][i]
		if k.hasExp && k.exp < rt.NowMs() {
			m.dbs[db] = append(m.dbs[db][:i:i], m.dbs[db][i+1:]...)
			i--
		}
	}
}

func (m *vModel) find(db int, key string) *vKey {
	for _, k := range m.dbs[db] {
		if k.key == key {
			return k
		}
	}
	return nil
}

func (m *vModel) make(db int, key string, t byte) *vVal {
	v := &vVal{t: t}
	switch t {
	case 'h':
		v.v = []string{}
	case 'z':
		v.sc = []float64{}
	}
	m.dbs[db] = append(m.dbs[db], &vKey{key: key, val: v})
	return v
}

// ---- expected replies ----

// vExp is what a reply may be.
type vExp struct {
	kind  byte // 'x' exactly s, 'e' an error, 'u' array of elems in any order, 'o' bulk of one of elems, 'E' an error or exactly s, 'n' null or an empty array, 'a' anything well-formed
	s     string
	elems []string
	scs   []string    // for 'o': nothing
	then  func(i int) // for 'o': effect of choosing elems[i]
}

func vX(s string) vExp        { return vExp{kind: 'x', s: s} }
func vXint(n int) vExp        { return vExp{kind: 'x', s: vInt(n)} }
func vErr() vExp              { return vExp{kind: 'e'} }
func vAny() vExp              { return vExp{kind: 'a'} }
func vU(e []string) vExp      { return vExp{kind: 'u', elems: e} }
func vScore(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

// vArity is the arity of each command: n exactly, -n at least.
var vArity = []struct {
	name  string
	arity int
}{
	{"ping", 1}, {"select", 2}, {"auth", 2}, {"bgrewriteaof", 1},
	{"expire", 3}, {"expireat", 3}, {"ttl", 2}, {"keys", 2},
	{"set", -3}, {"setex", 4}, {"get", 2}, {"randomget", 1},
	{"hset", -4}, {"hget", 3}, {"hdel", -3}, {"hexists", 3}, {"hkeys", 2}, {"hlen", 2},
	{"lpush", -3}, {"rpush", -3}, {"lpop", 2}, {"rpop", 2}, {"llen", 2}, {"lindex", 3}, {"lrange", -4},
	{"sadd", -3}, {"srem", -3}, {"spop", 2}, {"scard", 2}, {"sismember", 3}, {"smembers", 2},
	{"sdiff", -3}, {"sinter", -3}, {"sunion", -3},
	{"zadd", -4}, {"zrange", -4}, {"zrangebyscore", -4}, {"zrem", -3}, {"zremrangebyrank", -4},
	{"zremrangebyscore", -4}, {"zcard", 2}, {"zcount", 4}, {"zscore", 3},
}

// vWrites tells whether a command may change data.
func vWrites(name string) bool {
	switch name {
	case "expire", "expireat", "set", "setex", "hset", "hdel", "lpush", "rpush", "lpop", "rpop", "sadd", "srem", "spop", "zadd", "zrem", "zremrangebyrank", "zremrangebyscore":
		return true
	}
	return false
}

func vTypeOf(name string) byte {
	switch name {
	case "get":
		return 's'
	case "lpush", "rpush", "lpop", "rpop", "llen", "lindex", "lrange":
		return 'l'
	case "spop", "sadd", "srem", "scard", "sismember", "smembers", "sdiff", "sinter", "sunion":
		return 'S'
	}
	switch name[0] {
	case 'h':
		return 'h'
	case 'z':
		return 'z'
	}
	return 0
}

func vDeadline(now, n int64) (int64, bool) {
	if n > (math.MaxInt64-now)/1000 || n < math.MinInt64/1000 {
		return 0, false
	}
	return now + n*1000, true
}

// exec performs a command (name in lower case, arity right) on database db and
// returns the replies allowed. SELECT, AUTH and BGREWRITEAOF are not modelled.
func (m *vModel) exec(db int, a []string) vExp {
	m.live(db)
	now := rt.NowMs()
	name := a[0]
	var k *vKey
	if len(a) > 1 {
		k = m.find(db, a[1])
	}
	// the value of the key, when it has the type of the command
	var v *vVal
	wrong := false
	if k != nil {
		if k.val.t == vTypeOf(name) {
			v = k.val
		} else {
			wrong = true
		}
	}
	get := func() *vVal {
		if v == nil {
			v = m.make(db, a[1], vTypeOf(name))
		}
		return v
	}
	switch name {
	case "ping":
		return vX("+PONG\r\n")
	case "expire", "expireat":
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return vErr()
		}
		base := now
		if name == "expireat" {
			base = 0
		}
		d, ok := vDeadline(base, n)
		if !ok {
			return vErr()
		}
		if k == nil {
			return vXint(0)
		}
		k.exp, k.hasExp = d, true
		return vX(vOK)
	case "ttl":
		switch {
		case k == nil:
			return vXint(-2)
		case !k.hasExp:
			return vXint(-1)
		}
		return vXint(int((k.exp - now) / 1000))
	case "keys":
		if a[1] != "*" {
			return vAny()
		}
		var e []string
		for _, x := range m.dbs[db] {
			e = append(e, x.key)
		}
		return vU(e)
	case "set":
		if k == nil {
			m.make(db, a[1], 's').str = a[2]
		} else {
			k.val, k.hasExp = &vVal{t: 's', str: a[2]}, false
		}
		return vX(vOK)
	case "setex":
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return vErr()
		}
		d, ok := vDeadline(now, n)
		if !ok {
			return vErr()
		}
		if k == nil {
			m.make(db, a[1], 's')
			k = m.find(db, a[1])
		}
		k.val = &vVal{t: 's', str: a[3]}
		k.exp, k.hasExp = d, true
		return vX(vOK)
	case "get":
		switch {
		case wrong:
			return vErr()
		case v == nil:
			return vX(vNull)
		}
		return vX(vBulk(v.str))
	case "randomget":
		var e []string
		for _, x := range m.dbs[db] {
			e = append(e, x.key)
		}
		if len(e) == 0 {
			return vX(vNull)
		}
		return vExp{kind: 'o', elems: e}
	case "hset":
		if len(a)%2 != 0 {
			return vErr()
		}
		if wrong {
			return vErr()
		}
		h, n := get(), 0
		for i := 2; i < len(a); i += 2 {
			if j := h.find(a[i]); j >= 0 {
				h.v[j] = a[i+1]
			} else {
				h.f, h.v = append(h.f, a[i]), append(h.v, a[i+1])
				n++
			}
		}
		return vXint(n)
	case "zadd":
		if len(a)%2 != 0 {
			return vErr()
		}
		for i := 2; i < len(a); i += 2 {
			f, err := strconv.ParseFloat(a[i], 64)
			if err != nil || f != f {
				return vErr()
			}
		}
		if wrong {
			return vErr()
		}
		z, n := get(), 0
		for i := 2; i < len(a); i += 2 {
			f, _ := strconv.ParseFloat(a[i], 64)
			if j := z.find(a[i+1]); j >= 0 {
				z.cut(j)
			} else {
				n++
			}
			z.zput(f, a[i+1])
		}
		return vXint(n)
	case "lpush", "rpush":
		if wrong {
			return vErr()
		}
		l := get()
		for _, x := range a[2:] {
			l.f = append(l.f, x)
			if name == "lpush" {
				copy(l.f[1:], l.f)
				l.f[0] = x
			}
		}
		return vXint(len(l.f))
	case "sadd":
		if wrong {
			return vErr()
		}
		s, n := get(), 0
		for _, x := range a[2:] {
			if s.find(x) < 0 {
				s.f = append(s.f, x)
				n++
			}
		}
		return vXint(n)
	case "sdiff", "sinter", "sunion":
		return m.algebra(db, a)
	case "lindex", "lrange":
		// invalid numbers are errors on an existing list only
		if wrong {
			return vErr()
		}
		if v == nil {
			if name == "lindex" {
				return vX(vNull)
			}
			return vExp{kind: 'n'}
		}
		i, err := strconv.Atoi(a[2])
		if err != nil {
			return vErr()
		}
		n := len(v.f)
		if name == "lindex" {
			if i < 0 {
				return vAny()
			}
			if i >= n {
				return vX(vNull)
			}
			return vX(vBulk(v.f[rt.Split(i)]))
		}
		j, err := strconv.Atoi(a[3])
		if err != nil {
			return vErr()
		}
		return m.lrange(v, i, j)
	case "zcount", "zrangebyscore", "zremrangebyscore":
		lo, err1 := strconv.ParseFloat(a[2], 64)
		hi, err2 := strconv.ParseFloat(a[3], 64)
		if err1 != nil || err2 != nil || wrong {
			return vErr()
		}
		if lo != lo || hi != hi {
			return vAny()
		}
		if v == nil {
			if name == "zrangebyscore" {
				return vExp{kind: 'n'}
			}
			return vXint(0)
		}
		var in []int
		for i := range v.f {
			if v.sc[i] >= lo && v.sc[i] <= hi {
				in = append(in, i)
			}
		}
		switch name {
		case "zcount":
			return vXint(len(in))
		case "zrangebyscore":
			return v.zreply(in, a)
		}
		for i := len(in) - 1; i >= 0; i-- {
			v.cut(in[i])
		}
		return vXint(len(in))
	case "zrange", "zremrangebyrank":
		lo, err1 := strconv.ParseInt(a[2], 10, 64)
		hi, err2 := strconv.ParseInt(a[3], 10, 64)
		if err1 != nil || err2 != nil || wrong {
			return vErr()
		}
		if v == nil {
			if name == "zrange" {
				return vExp{kind: 'n'}
			}
			return vXint(0)
		}
		var in []int
		for i := range v.f {
			if int64(i) >= lo && int64(i) <= hi {
				in = append(in, i)
			}
		}
		if name == "zrange" {
			if lo < 0 || hi < 0 {
				return vAny()
			}
			return v.zreply(in, a)
		}
		for i := len(in) - 1; i >= 0; i-- {
			v.cut(in[i])
		}
		return vXint(len(in))
	}
	// commands on a value that must exist
	if wrong {
		return vErr()
	}
	if v == nil {
		switch name {
		case "hget", "lpop", "rpop", "spop", "zscore":
			return vX(vNull)
		case "hkeys", "smembers":
			return vX(vArr())
		}
		return vXint(0)
	}
	switch name {
	case "hget":
		if j := v.find(a[2]); j >= 0 {
			return vX(vBulk(v.v[j]))
		}
		return vX(vNull)
	case "hdel", "srem", "zrem":
		n := 0
		for _, x := range a[2:] {
			if j := v.find(x); j >= 0 {
				v.cut(j)
				n++
			}
		}
		return vXint(n)
	case "hexists", "sismember":
		if v.find(a[2]) >= 0 {
			return vXint(1)
		}
		return vXint(0)
	case "hkeys", "smembers":
		return vU(append([]string(nil), v.f...))
	case "hlen", "llen", "scard", "zcard":
		return vXint(len(v.f))
	case "lpop", "rpop":
		n := len(v.f)
		if n == 0 {
			return vX(vNull)
		}
		j := 0
		if name == "rpop" {
			j = n - 1
		}
		x := v.f[j]
		v.cut(j)
		return vX(vBulk(x))
	case "spop":
		if len(v.f) == 0 {
			return vX(vNull)
		}
		return vExp{kind: 'o', elems: append([]string(nil), v.f...), then: func(i int) { v.cut(i) }}
	case "zscore":
		if j := v.find(a[2]); j >= 0 {
			return vX("+" + vScore(v.sc[j]) + "\r\n")
		}
		return vX(vNull)
	}
	panic("no model for " + name)
}

func (m *vModel) lrange(v *vVal, i, j int) vExp {
	n := len(v.f)
	if i < -n || j < -n {
		return vAny()
	}
	i = rt.IteInt(i < 0, i+n, i)
	j = rt.IteInt(j < 0, j+n, j)
	if i > j || i >= n {
		return vExp{kind: 'n'}
	}
	if j >= n {
		j = n - 1
	}
	i, j = rt.Split(i), rt.Split(j)
	return vX(vArr(v.f[i : j+1]...))
}

func (v *vVal) zreply(in []int, a []string) vExp {
	with := false
	if len(a) > 4 {
		if !strings.EqualFold(a[4], "withscores") {
			return vErr()
		}
		with = true
	}
	var r []string
	for _, i := range in {
		r = append(r, v.f[i])
		if with {
			r = append(r, vScore(v.sc[i]))
		}
	}
	return vX(vArr(r...))
}

func (m *vModel) algebra(db int, a []string) vExp {
	var acc []string
	absent := false
	for n, key := range a[1:] {
		var f []string
		if k := m.find(db, key); k != nil {
			if k.val.t != 'S' {
				if absent {
					// an earlier absent key may have settled the answer
					return vExp{kind: 'E', s: vArr()}
				}
				return vErr()
			}
			f = k.val.f
		} else if n == 0 || a[0] == "sinter" {
			absent = a[0] != "sunion"
		}
		in := func(l []string, x string) bool {
			for _, y := range l {
				if x == y {
					return true
				}
			}
			return false
		}
		var r []string
		switch {
		case n == 0:
			r = append(r, f...)
		case a[0] == "sunion":
			r = append(r, acc...)
			for _, x := range f {
				if !in(acc, x) {
					r = append(r, x)
				}
			}
		default:
			for _, x := range acc {
				if in(f, x) == (a[0] == "sinter") {
					r = append(r, x)
				}
			}
		}
		acc = r
	}
	return vU(acc)
}

// ---- reply checks ----

// vElems parses an array of bulk strings that makes up the whole reply.
func vElems(r string) ([]string, bool) {
	if len(r) < 4 || r[0] != '*' {
		return nil, false
	}
	p := 1
	num := func() (int, bool) {
		n, d := 0, 0
		for p < len(r) && r[p] >= '0' && r[p] <= '9' {
			n = n*10 + int(r[p]-'0')
			p++
			d++
		}
		if d == 0 || p+2 > len(r) || r[p] != '\r' || r[p+1] != '\n' {
			return 0, false
		}
		p += 2
		return n, true
	}
	n, ok := num()
	if !ok {
		return nil, false
	}
	out := []string{}
	for i := 0; i < n; i++ {
		if p >= len(r) || r[p] != '$' {
			return nil, false
		}
		p++
		l, ok := num()
		if !ok || p+l+2 > len(r) || r[p+l] != '\r' || r[p+l+1] != '\n' {
			return nil, false
		}
		out = append(out, r[p:p+l])
		p += l + 2
	}
	return out, p == len(r)
}

// vCount counts the occurrences of x, free of path splits.
func vCount(l []string, x string) int {
	n := 0
	for _, y := range l {
		if len(x) == len(y) {
			n += rt.IteInt(x == y, 1, 0)
		}
	}
	return n
}

// vSameBag tells whether two lists hold the same strings equally often.
func vSameBag(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for _, x := range a {
		ok = rt.And(ok, vCount(a, x) == vCount(b, x))
	}
	return ok
}

// vMatch asserts that a reply is allowed and performs its effect on the model.
func vMatch(what, r string, e vExp) {
	switch e.kind {
	case 'x':
		rt.Assert(r == e.s, what+": the reply is the one of the model")
	case 'e':
		rt.Assert(vErrReply(r), what+": an error is replied")
	case 'E':
		rt.Assert(rt.Or(r == e.s, vErrReply(r)), what+": an error or an empty result is replied")
	case 'n':
		rt.Assert(r == vNull || r == vArr(), what+": nothing is replied")
	case 'u':
		l, ok := vElems(r)
		rt.Assert(ok, what+": the reply is an array")
		rt.Assert(vSameBag(l, e.elems), what+": the array holds exactly the elements of the model")
	case 'o':
		for i, x := range e.elems {
			if r == vBulk(x) {
				if e.then != nil {
					e.then(i)
				}
				return
			}
		}
		rt.Assert(false, what+": the reply is one of the present elements")
	case 'a':
		rt.Assert(vWellFormed(r), what+": exactly one well-formed reply")
	}
}

// vErrReply: exactly one error line.
func vErrReply(r string) bool { return len(r) > 0 && r[0] == '-' && vLine(r) }

// vLine: one line, ended by CRLF, without CR or LF inside.
func vLine(r string) bool {
	n := len(r)
	if n < 3 || r[n-2] != '\r' || r[n-1] != '\n' {
		return false
	}
	ok := true
	for i := 0; i < n-2; i++ {
		ok = rt.And(ok, rt.And(r[i] != '\r', r[i] != '\n'))
	}
	return ok
}

// vWellFormed: exactly one complete reply.
func vWellFormed(r string) bool {
	if len(r) == 0 {
		return false
	}
	switch r[0] {
	case '+', '-':
		return vLine(r)
	case ':':
		if !vLine(r) {
			return false
		}
		_, err := strconv.ParseInt(r[1:len(r)-2], 10, 64)
		return err == nil
	case '$':
		if r == vNull {
			return true
		}
		l, ok := vElems("*1\r\n" + r)
		return ok && len(l) == 1
	case '*':
		_, ok := vElems(r)
		return ok
	}
	return false
}

// ---- the dataset of the server ----

func vFromServer(v any) *vVal {
	switch x := v.(type) {
	case string:
		return &vVal{t: 's', str: x}
	case *datastruct.Dict:
		r := &vVal{t: 'h', v: []string{}}
		it := datastruct.NewDictIterator(x)
		for e := it.Next(); e != nil; e = it.Next() {
			r.f, r.v = append(r.f, e.Key.(string)), append(r.v, e.Value.(string))
		}
		it.Release()
		return r
	case *datastruct.Quicklist:
		r := &vVal{t: 'l'}
		for _, e := range x.Range(0, x.Len()-1) {
			r.f = append(r.f, e.(string))
		}
		return r
	case *datastruct.Set:
		r := &vVal{t: 'S'}
		for _, e := range x.Range() {
			r.f = append(r.f, e.(string))
		}
		return r
	case *datastruct.Zset:
		r := &vVal{t: 'z', sc: []float64{}}
		for _, e := range x.RangeByRank(0, x.Size()-1, false) {
			r.f, r.sc = append(r.f, e.Member), append(r.sc, e.Score)
		}
		return r
	}
	panic("unknown kind of value")
}

// vDump is the dataset of the server, expired keys that are still there included.
func vDump(s *Server) *vModel {
	m := vNewModel(len(vDbs(s)))
	for i, db := range vDbs(s) {
		it := datastruct.NewDictIterator(db.Dict)
		for e := it.Next(); e != nil; e = it.Next() {
			k := &vKey{key: e.Key.(string), val: vFromServer(e.Value)}
			m.dbs[i] = append(m.dbs[i], k)
		}
		it.Release()
		for _, k := range m.dbs[i] {
			if x := db.Expire.Get(k.key); x != nil {
				k.exp, k.hasExp = x.(int64), true
			}
		}
	}
	return m
}

// vExpires is the number of deadlines the server holds.
func vExpires(s *Server) int {
	n := 0
	for _, db := range vDbs(s) {
		n += int(db.Expire.Size())
	}
	return n
}

// dropEmpty removes collections without elements.
func (m *vModel) dropEmpty() *vModel {
	for i := range m.dbs {
		var l []*vKey
		for _, k := range m.dbs[i] {
			if k.val.t == 's' || len(k.val.f) > 0 {
				l = append(l, k)
			}
		}
		m.dbs[i] = l
	}
	return m
}

func (m *vModel) liveAll() *vModel {
	for i := range m.dbs {
		m.live(i)
	}
	return m
}

func vSameVal(a, b *vVal) bool {
	if a.t != b.t || len(a.f) != len(b.f) {
		return false
	}
	ok := a.str == b.str
	switch a.t {
	case 'l', 'z':
		for i := range a.f {
			ok = rt.And(ok, a.f[i] == b.f[i])
		}
	default:
		ok = rt.And(ok, vSameBag(a.f, b.f))
	}
	for i := range a.sc {
		ok = rt.And(ok, a.sc[i] == b.sc[i])
	}
	for i := range a.v {
		got := false
		for j := range b.v {
			if len(a.f[i]) == len(b.f[j]) && len(a.v[i]) == len(b.v[j]) {
				got = rt.Or(got, rt.And(a.f[i] == b.f[j], a.v[i] == b.v[j]))
			}
		}
		ok = rt.And(ok, got)
	}
	return ok
}

// vSame asserts that two datasets agree, deadlines up to tol milliseconds.
func vSame(what string, got, want *vModel, tol int64) {
	for i := range want.dbs {
		for _, w := range want.dbs[i] {
			g := got.find(i, w.key)
			rt.Assert(g != nil, what+": no key is missing")
			rt.Assert(vSameVal(g.val, w.val), what+": every value is unchanged")
			rt.Assert(g.hasExp == w.hasExp, what+": a key has a deadline exactly when it should")
			if w.hasExp && g.hasExp {
				d := g.exp - w.exp
				rt.Assert(rt.And(d <= tol, d >= -tol), what+": deadlines are right")
			}
		}
		rt.Assert(len(got.dbs[i]) == len(want.dbs[i]), what+": no further key exists")
	}
}

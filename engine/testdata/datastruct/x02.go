package datastruct

import (
	"bufio"
	"bytes"
	"cmp"
	"container/heap"
	"encoding/binary"
	"hash/crc32"
	"io"
	"maps"
	"math/bits"
	"slices"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	rt "github.com/IfanTsai/metis/verif/rt"
)

type ih []int

func (h ih) Len() int           { return len(h) }
func (h ih) Less(i, j int) bool { return h[i] < h[j] }
func (h ih) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ih) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ih) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type shape interface{ area() int }
type sq struct{ a int }

func (s sq) area() int { return s.a * s.a }

type emb struct {
	sq
	name string
}

func VH_X02_slices() {
	a := []int{rt.Int("a", 0, 3), rt.Int("b", 0, 3), 2}
	b := slices.Clone(a)
	slices.Sort(b)
	rt.Assert(rt.And(b[0] <= b[1], b[1] <= b[2]), "sorted")
	slices.SortFunc(a, func(x, y int) int { return cmp.Compare(y, x) })
	rt.Observe("s", slices.Contains(a, 3), slices.Index(a, 2), slices.Max(a), slices.Equal(a, b))
	slices.Reverse(a)
	a = slices.Insert(a, 1, 9)
	a = slices.Delete(a, 0, 1)
	rt.Observe("a", a[0])
	i, ok := slices.BinarySearch([]int{1, 3, 5}, 3)
	rt.Observe("bs", i, ok)
	m := map[string]int{"x": 1}
	n := maps.Clone(m)
	n["y"] = 2
	rt.Observe("m", len(m), len(n), maps.Equal(m, n))
}

func VH_X02_heap() {
	h := &ih{5, 2}
	heap.Init(h)
	heap.Push(h, rt.Int("x", 0, 9))
	x := heap.Pop(h).(int)
	rt.Assert(x <= 2, "min")
	var s shape = sq{rt.Int("q", 0, 3)}
	f := s.area
	e := emb{sq{3}, "e"}
	g := emb.area
	rt.Observe("m", f(), e.area(), g(e))
	type key struct {
		a int
		b string
	}
	mk := map[key]int{{1, "a"}: 5}
	rt.Observe("k", mk[key{1, "a"}], key{1, "a"} == key{1, "b"})
	var arr [2][3]int
	arr[1][2] = 4
	c := arr
	c[1][2]++
	rt.Observe("arr", arr[1][2], c[1][2])
outer:
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			switch {
			case j == 1:
				continue outer
			case i == 2:
				break outer
			default:
				fallthrough
			case i > 5:
				rt.Observe("ij", i, j)
			}
		}
	}
}

func VH_X02_bytes() {
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b, uint32(rt.Int("x", 0, 1000)))
	rt.Observe("b", binary.BigEndian.Uint32(b), binary.LittleEndian.Uint16(b[2:]))
	rt.Observe("c", crc32.ChecksumIEEE([]byte("hello")), bits.Len(8), bits.OnesCount(7), bits.TrailingZeros(8))
	rt.Observe("u", unicode.IsUpper('A'), utf8.RuneLen('é'), utf8.ValidString("é"), len([]rune("éa")))
	r := strings.NewReplacer("a", "b", "c", "d")
	rt.Observe("r", r.Replace("abc"))
	br := bufio.NewReader(bytes.NewReader([]byte("ab\ncd")))
	l, p, err := br.ReadLine()
	rt.Observe("l", string(l), p, err == nil)
	pk, _ := br.Peek(1)
	rt.Observe("p", string(pk))
	x, _ := br.ReadByte()
	_ = br.UnreadByte()
	rt.Observe("x", x, br.Buffered())
	d, _ := br.Discard(1)
	rt.Observe("d", d)
	var w1, w2 bytes.Buffer
	_, _ = io.WriteString(io.MultiWriter(&w1, &w2), "hi")
	lr := io.LimitReader(&w1, 1)
	bb, _ := io.ReadAll(lr)
	rt.Observe("bb", string(bb), w2.Len())
	_, _ = w2.ReadFrom(strings.NewReader("zz"))
	w2.Truncate(3)
	rt.Observe("w2", w2.String())
	tk, _ := w2.ReadByte()
	nx := w2.Next(1)
	rt.Observe("tk", tk, string(nx))
	sp := bytes.Split([]byte("a b"), []byte(" "))
	rt.Observe("sp", len(sp), string(bytes.Join(sp, []byte("-"))))
	rt.Observe("ff", string(bytes.ToUpper([]byte("ab"))), bytes.Contains([]byte("abc"), []byte("bc")), strings.TrimFunc(" a ", unicode.IsSpace))
	dd := time.Duration(1500) * time.Millisecond
	rt.Observe("dd", dd.Seconds(), dd.String(), int64(dd/time.Second), dd.Milliseconds())
	t := time.Unix(100, 0)
	u := t.Add(dd)
	rt.Observe("t", u.Sub(t) == dd, u.After(t), t.Equal(t), u.Unix(), u.UnixMilli(), t.IsZero(), time.UnixMilli(1500).UnixNano())
}

func VH_X02_ctl() {
	var fs []func() int
	for i := 0; i < 3; i++ {
		i := i
		fs = append(fs, func() int { i++; return i })
	}
	rt.Observe("f", fs[0](), fs[0](), fs[2]())
	s := []int{1, 2, 3, 4}
	copy(s[1:], s)
	rt.Observe("c", s[0], s[1], s[2], s[3])
	t := append(s[:1], 9)
	rt.Observe("t", s[1], len(t), cap(t))
	q := s[1:2:3]
	q = append(q, 7)
	q = append(q, 8)
	rt.Observe("q", s[2], s[3], q[2])
	func() {
		defer func() {
			r := recover()
			rt.Observe("r", r.(string))
			defer func() { rt.Observe("r2", recover() != nil) }()
			panic("again")
		}()
		panic("first")
	}()
	ch := make(chan int, 3)
	for i := 0; i < 3; i++ {
		ch <- i
	}
	rt.Observe("ch", len(ch), cap(ch), <-ch)
	x, ok := <-ch
	rt.Observe("x", x, ok)
	select {
	case v := <-ch:
		rt.Observe("v", v)
	default:
		rt.Observe("v", -1)
	}
	select {
	case v := <-ch:
		rt.Observe("v", v)
	default:
		rt.Observe("v", -1)
	}
	for i, c := range "aé" {
		rt.Observe("rune", i, int(c))
	}
	var e error
	_, isn := e.(interface{ Timeout() bool })
	rt.Observe("isn", isn)
	u8 := uint8(rt.Int("u", 250, 255))
	u8 += 10
	rt.Observe("u8", u8, int8(u8), ^u8, u8&^3, u8<<1, u8>>1, -7/2, -7%3)
	rt.Observe("cl", s[0])
	ptr := &s[1]
	*ptr = 5
	pp := &struct{ a, b int }{1, 2}
	pb := &pp.b
	*pb = 7
	rt.Observe("pp", s[1], pp.b)
	as := [2]int(s[:2])
	as[0] = 3
	rt.Observe("as", s[0])
}

// Every text of up to 4 arbitrary bytes as runes, and back.
func VH_X02_runes() {
	b := make([]byte, rt.Choose("len", 5))
	for i := range b {
		b[i] = rt.Byte("b")
	}
	s := string(b)
	sum, n := 0, 0
	for i, r := range s {
		sum += (i + 1) * int(r)
		n++
	}
	rt.Observe("sum", sum, n)
	m := strings.Map(func(r rune) rune {
		if r == '\r' || r == '\n' {
			return ' '
		}
		return r
	}, s)
	rt.Observe("m", m)
	rt.Reach("end")
}

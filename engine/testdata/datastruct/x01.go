package datastruct

import (
	"bufio"
	"bytes"
	"container/list"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	sync "github.com/IfanTsai/metis/verif/vsync"
	atomic0 "sync/atomic"
	atomic "github.com/IfanTsai/metis/verif/vatomic"

	rt "github.com/IfanTsai/metis/verif/rt"
)

type myErr struct{ n int }

func (e *myErr) Error() string { return "my" + strconv.Itoa(e.n) }

func VH_X01_fmt() {
	x := rt.Int("x", 0, 20)
	var sb strings.Builder
	fmt.Fprintf(&sb, "*%d\r\n$%d\r\n%s", x, 3, "abc")
	rt.Observe("a", sb.String())
	var bb bytes.Buffer
	fmt.Fprint(&bb, "a", 1, "b")
	fmt.Fprintln(&bb, "q")
	bb.WriteString(strconv.Itoa(x))
	bb.WriteByte('x')
	rt.Observe("b", bb.String())
	e := fmt.Errorf("wrap %w %d", &myErr{3}, 4)
	var m *myErr
	rt.Assert(errors.As(e, &m) && m.n == 3, "errors.As")
	rt.Assert(errors.Is(e, error(m)), "errors.Is")
	rt.Assert(errors.Unwrap(e) == error(m), "unwrap")
	rt.Observe("c", e.Error())
	rt.Observe("d", fmt.Sprint("a", 1, 2, "b"), fmt.Sprintf("%v %q %x %5d|%-5s|%05d", "v", "q", 255, 3, "s", 7))
}

func VH_X01_append() {
	x := rt.Int("x", -200, 200)
	b := strconv.AppendInt(nil, int64(x), 10)
	b = append(b, "\r\n"...)
	rt.Observe("a", string(b), strconv.Quote("a\r\n"))
	u, err := strconv.ParseUint(string(b[:len(b)-2]), 10, 64)
	rt.Assert((err == nil) == (x >= 0), "ParseUint")
	rt.Observe("u", u)
	f := strconv.FormatUint(uint64(x+1000), 10)
	rt.Observe("f", f)
	ff := strconv.AppendFloat(nil, 1.5, 'f', -1, 64)
	rt.Observe("ff", string(ff))
}

func VH_X01_io() {
	n := rt.Choose("n", 4)
	s := strings.Repeat("ab\r\n", n)
	r := bufio.NewReader(strings.NewReader(s))
	l := 0
	for {
		line, err := r.ReadString('\n')
		if err == io.EOF {
			break
		}
		l += len(strings.TrimSuffix(line, "\r\n"))
	}
	rt.Assert(l == 2*n, "ReadString")
	sc := bufio.NewScanner(bytes.NewReader([]byte(s)))
	c := 0
	for sc.Scan() {
		c++
	}
	rt.Assert(c == n, "Scanner")
	b, err := io.ReadAll(strings.NewReader(s))
	rt.Assert(err == nil && len(b) == 4*n, "ReadAll")
	var w bytes.Buffer
	k, _ := io.Copy(&w, bytes.NewReader(b))
	rt.Assert(int(k) == len(b), "Copy")
	bw := bufio.NewWriter(&w)
	_, _ = bw.WriteString("xyz")
	_ = bw.Flush()
	buf := make([]byte, 3)
	_, err = io.ReadFull(&w, buf)
	rt.Observe("e", err == nil, string(buf), w.String())
	line, err := bufio.NewReaderSize(strings.NewReader(s), 16).ReadBytes('\n')
	rt.Observe("l", string(line), err != nil)
}

func VH_X01_sort() {
	a := []int{rt.Int("a", 0, 5), rt.Int("b", 0, 5), rt.Int("c", 0, 5)}
	b := append([]int(nil), a...)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	rt.Assert(rt.And(a[0] <= a[1], a[1] <= a[2]), "sorted")
	sort.Ints(b)
	rt.Assert(b[0] == a[0], "sorted2")
	ss := []string{"c", "a", "b"}
	sort.Strings(ss)
	rt.Observe("ss", strings.Join(ss, ","))
	rt.Observe("i", sort.Search(10, func(i int) bool { return i >= 7 }), sort.SearchInts([]int{1, 3, 5}, 3))
	sort.SliceStable(ss, func(i, j int) bool { return ss[i] > ss[j] })
	rt.Observe("ss2", strings.Join(ss, ","))
}

func VH_X01_sync() {
	var mu sync.Mutex
	var rw sync.RWMutex
	var once sync.Once
	n := 0
	mu.Lock()
	n++
	mu.Unlock()
	rw.RLock()
	rw.RUnlock()
	rw.Lock()
	rw.Unlock()
	once.Do(func() { n++ })
	once.Do(func() { n++ })
	var a atomic0.Int64
	var ab atomic0.Bool
	var av atomic.Value
	av.Store("x")
	a.Add(3)
	rt.Assert(a.CompareAndSwap(3, 4) && a.Load() == 4, "atomic")
	ab.Store(true)
	var i32 int32
	atomic0.AddInt32(&i32, 2)
	rt.Observe("n", n, ab.Load(), i32, av.Load().(string))
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	bb := p.Get().(*bytes.Buffer)
	bb.WriteString("q")
	p.Put(bb)
	var m sync.Map
	m.Store("a", 1)
	v, ok := m.Load("a")
	rt.Observe("m", ok, v.(int))
	ch := make(chan int, 2)
	ch <- 1
	select {
	case ch <- 2:
	default:
	}
	close(ch)
	t := 0
	for x := range ch {
		t += x
	}
	rt.Observe("t", t)
}

func VH_X01_strings() {
	b := []byte{rt.Byte("a"), rt.Byte("b")}
	s := string(b)
	rt.Observe("1", strings.EqualFold(s, "ab"), strings.HasPrefix(s, "a"), strings.Contains(s, "b"), strings.IndexByte(s, 'b'))
	f := strings.Fields("a b  c")
	rt.Observe("2", len(f), strings.ToUpper("abc"), strings.TrimSpace(" a "), strings.TrimRight("abb", "b"), strings.LastIndex("abab", "ab"), strings.Count("aaa", "a"))
	sp := strings.SplitN("a b c", " ", 2)
	rt.Observe("3", sp[1], strings.Title("x"), strings.Map(func(r rune) rune { return r + 1 }, "ab"), strings.Replace("aaa", "a", "b", 2))
	rt.Observe("4", bytes.Equal(b, []byte("ab")), bytes.IndexByte(b, 'a'), bytes.HasPrefix(b, []byte("a")))
	rt.Observe("5", bytes.Index([]byte("xx\r\n"), []byte("\r\n")), strings.Compare(s, "m"), bytes.Compare(b, []byte("m")))
	before, after, ok := strings.Cut("k=v", "=")
	rt.Observe("6", before, after, ok)
	rt.Observe("7", string(bytes.TrimSpace([]byte(" q "))), strings.ContainsRune("abc", 'b'), strings.IndexAny("abc", "cb"))
}

func VH_X01_misc() {
	l := list.New()
	l.PushBack(rt.Int("x", 0, 5))
	l.PushFront(2)
	s := 0
	for e := l.Front(); e != nil; e = e.Next() {
		s += e.Value.(int)
	}
	rt.Observe("s", s)
	rt.Observe("m", math.MaxInt64, math.Abs(-1), math.Floor(1.5), math.IsNaN(math.NaN()), math.Max(1, 2), math.Ceil(1.2), math.Pow(2, 3))
	m := map[string]int{"a": 1, "b": 2}
	t := 0
	for _, v := range m {
		t += v
	}
	delete(m, "a")
	rt.Observe("t", t, len(m))
	func() {
		defer func() { rt.Observe("rec", recover() != nil) }()
		var p *myErr
		_ = p.n
	}()
	type pair[T any] struct{ a, b T }
	q := pair[int]{1, 2}
	rt.Observe("q", q.a+q.b, min2(3, 4), min2("a", "b"))
	arr := [4]int{1, 2, 3, 4}
	for i := range arr {
		arr[i] <<= uint(i)
	}
	rt.Observe("arr", arr[3], arr == [4]int{1, 4, 12, 32})
	switch x := any(s).(type) {
	case fmt.Stringer:
		rt.Observe("sw", 1)
	case int:
		rt.Observe("sw", x)
	}
	goto end
end:
	c := complexf()
	rt.Observe("c", c)
}

func complexf() (r int) {
	defer func() { r *= 2 }()
	for i := 0; i < 3; i++ {
		defer func(k int) { r += k }(i)
	}
	return 1
}

type ord interface{ ~int | ~string }

func min2[T ord](a, b T) T {
	if a < b {
		return a
	}
	return b
}

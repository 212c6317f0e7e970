// Package stress uses the constructs a program may use, to try the translator on.
package stress

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type done chan struct{}

func (d done) finish() { close(d) }

type Flag bool
type bits uint8

type box struct {
	sync.Mutex
	m     map[string]int
	ok    Flag
	b     bits
	n     int
	f     func(int) int
	ch    chan int
	err   error
	arr   [4]int
	inner struct{ x, y int }
	at    atomic.Value
	cnt   int64
}

type rw struct {
	*sync.RWMutex
	vals []int
}

var global = map[string]chan int{"a": make(chan int, 1)}
var initOrder = compute()
var multiA, multiB = pair()

func pair() (int, error) { return 7, nil }
func compute() int       { return len(global) + 1 }

var errStop = errors.New("stop")

func init() { initOrder += 10 }
func init() { initOrder += 100 }

// Cases is every case by name.
var Cases = map[string]func() string{
	"named":      named,
	"goto":       gotos,
	"labels":     labels,
	"selects":    selects,
	"cond":       cond,
	"maps":       maps,
	"assign":     assigns,
	"defer":      defers,
	"gos":        gos,
	"ranges":     ranges,
	"closures":   closures,
	"timers":     timers,
	"ctx":        ctxs,
	"pipe":       pipes,
	"atomics":    atomics,
	"once":       onces,
	"typeswitch": typeswitch,
	"dirs":       dirs,
	"panics":     panics,
	"pool":       pool,
	"chanofchan": chanOfChan,
	"terminate":  func() string { return fmt.Sprint(terminate(1), terminate(2)) },
	"inits":      func() string { return fmt.Sprint(initOrder, multiA, multiB) },
	"rand":       func() string { r := rand.New(rand.NewSource(1)); return fmt.Sprint(r.Intn(3) < 3) },
	"semaphore":  semaphore,
	"iface":      ifaces,
	"shadow":     shadow,
	"fan":        fan,
	"bufs":       bufs,
}

func named() string {
	d := make(done)
	go d.finish()
	<-d
	e := make(done, 1)
	e <- struct{}{}
	_, ok := <-e
	var f done = make(chan struct{})
	go func() { f <- struct{}{} }()
	<-f
	g := done(make(chan struct{}, 2))
	g <- struct{}{}
	return fmt.Sprint(ok, len(g), cap(g))
}

func gotos() string {
	i := 0
	c := make(chan int, 3)
retry:
	select {
	case c <- i:
		i++
		goto retry
	default:
	}
	j := 0
again:
	for v := range map[int]int{1: 1} {
		j += v
		if j < 3 {
			goto again
		}
		break again
	}
	close(c)
	k := 0
loop:
	for x := range c {
		k += x
		if k > 100 {
			goto loop
		}
		continue loop
	}
end:
	if k < 5 {
		k += 5
		goto end
	}
	return fmt.Sprint(i, j, k)
}

func labels() string {
	c := make(chan int)
	stop := make(chan bool)
	out := []int{}
	go func() {
		for i := 0; i < 5; i++ {
			c <- i
		}
		close(stop)
	}()
outer:
	for {
		select {
		case v := <-c:
			if v == 1 {
				continue outer
			}
			switch {
			case v == 3:
				break
			default:
				out = append(out, v)
			}
		case <-stop:
			break outer
		}
	}
sel:
	select {
	default:
		for {
			break sel
		}
	}
	return fmt.Sprint(out)
}

func selects() string {
	var a, b chan int
	b = make(chan int, 1)
	arr := make([]int, 2)
	m := map[string]int{}
	b <- 4
	select {
	case arr[1] = <-b:
	case a <- 1:
	}
	b <- 5
	var ok bool
	select {
	case m["x"], ok = <-b:
	case <-a:
	}
	select {
	case b <- len(arr):
	}
	x := 0
	select {
	case x = <-b:
	case <-time.After(time.Second):
	}
	select {
	case <-b:
		x = 100
	default:
	}
	select {
	case v, more := <-func() chan int { c := make(chan int); close(c); return c }():
		x += v
		if more {
			x = 99
		}
	}
	n := 0
	for n < 3 {
		select {
		case b <- n:
			n++
		case <-b:
		}
	}
	return fmt.Sprint(arr, m, ok, x, n)
}

func cond() string {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	ready := 0
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.L.Lock()
			for ready == 0 {
				c.Wait()
			}
			ready++
			c.L.Unlock()
		}()
	}
	time.Sleep(time.Millisecond)
	mu.Lock()
	ready = 1
	mu.Unlock()
	c.Broadcast()
	wg.Wait()
	return fmt.Sprint(ready)
}

func maps() string {
	m := map[string][]int{"a": {1}, "b": {2, 3}, "c": nil}
	keys := []string{}
	sum := 0
	for k, v := range m {
		keys = append(keys, k)
		for _, x := range v {
			sum += x
		}
		if k == "c" {
			delete(m, "zz")
		}
	}
	sort.Strings(keys)
	var k string
	n := 0
	for k = range m {
		n += len(k)
	}
	for range m {
		n++
	}
	for k := range m {
		delete(m, k)
	}
	var nilmap map[int]int
	for range nilmap {
		n = -1
	}
	return fmt.Sprint(keys, sum, n, len(m))
}

func assigns() string {
	b := &box{m: map[string]int{}}
	n := uint(3)
	b.ok = n == 3
	b.ok = !(n == 3) || b.ok
	b.b = 1 << n
	b.b |= 1 << 1
	b.b &^= 1
	b.b <<= 1
	b.n, b.arr[0] = b.arr[0], b.n+1
	b.n += 1 << n
	b.m["x"]++
	b.m["x"] += 4
	b.m["y"] -= 1
	b.f = func(i int) int { return i + 1 }
	b.err = errStop
	b.err = nil
	b.inner = struct{ x, y int }{1, 2}
	b.inner.x *= 5
	p := &b.inner.y
	*p = 9
	*p++
	b.arr[b.f(1)]++
	b.arr[b.f(0)] += 2
	var f float64
	pf := &f
	*pf = 1 << 3
	*pf /= 2
	s := "a"
	ps := &s
	*ps += "b"
	var e interface{}
	pe := &e
	*pe = 5
	*pe = nil
	var d time.Duration
	pd := &d
	*pd = 2 * time.Second
	*pd = time.Duration(n) * time.Second
	b.n = 5
	b.n = len(b.m) + 1
	b.n = 'a'
	b.arr = [...]int{1, 2, 3, 4}
	b.m = nil
	b.ch = nil
	b.ch = make(chan int, 2)
	return fmt.Sprint(b.ok, b.b, b.n, b.m, b.inner, b.arr, f, s, e, d, cap(b.ch))
}

func defers() (s string) {
	c := make(chan int, 3)
	defer func() {
		if r := recover(); r != nil {
			s += fmt.Sprint(r)
		}
		_, ok := <-c
		s += fmt.Sprint(ok)
	}()
	defer close(c)
	var mu sync.Mutex
	mu.Lock()
	defer mu.Unlock()
	m := map[int]int{1: 1}
	defer delete(m, 1)
	defer fmt.Sprintln("x")
	panic("boom ")
}

func gos() string {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var got []string
	add := func(xs ...string) {
		defer wg.Done()
		mu.Lock()
		got = append(got, xs...)
		mu.Unlock()
	}
	wg.Add(6)
	go add("a", "b")
	go add([]string{"c", "d"}...)
	go func(e error, xs ...interface{}) {
		defer wg.Done()
		mu.Lock()
		defer mu.Unlock()
		got = append(got, fmt.Sprint(e, xs))
	}(nil, 1, "z", nil)
	go func(n int, err error) { add(fmt.Sprint(n, err)) }(pair())
	b := &box{}
	go b.method(&wg, 1<<3)
	go (*box).method(b, &wg, 5)
	wg.Wait()
	sort.Strings(got)
	return fmt.Sprint(got, b.n)
}

func (b *box) method(wg *sync.WaitGroup, n int) {
	defer wg.Done()
	b.Lock()
	defer b.Unlock()
	b.n += n
}

func ranges() string {
	c := make(chan int)
	go func() {
		defer close(c)
		for i := range []int{1, 2, 3} {
			c <- i
		}
	}()
	sum := 0
	var v int
	for v = range c {
		sum += v
	}
	d := make(chan string, 2)
	d <- "x"
	d <- "y"
	close(d)
	n := 0
	for range d {
		n++
	}
	for i, r := range "héé" {
		sum += i
		_ = r
	}
	arr := [3]int{4, 5, 6}
	for i := range arr {
		arr[i]++
	}
	for i, x := range &arr {
		sum += i * x
	}
	var idx [2]int
	for idx[0], idx[1] = range arr {
	}
	return fmt.Sprint(sum, v, n, idx)
}

func closures() string {
	fs := []func() int{}
	for i := 0; i < 3; i++ {
		i := i
		fs = append(fs, func() int { i++; return i })
	}
	s := 0
	for _, f := range fs {
		s += f() + f()
	}
	rec := func() func(int) int {
		var fib func(int) int
		fib = func(n int) int {
			if n < 2 {
				return n
			}
			return fib(n-1) + fib(n-2)
		}
		return fib
	}()
	mul := func(a, b int) int { return a * b }(2, 3)
	mv := strings.NewReader("abc").Len
	return fmt.Sprint(s, rec(10), mul, mv())
}

func timers() string {
	start := time.Now()
	t := time.NewTimer(10 * time.Second)
	if !t.Stop() {
		<-t.C
	}
	t.Reset(2 * time.Second)
	<-t.C
	fired := make(chan bool, 1)
	a := time.AfterFunc(time.Second, func() { fired <- true })
	<-fired
	stopped := a.Stop()
	k := time.NewTicker(time.Second)
	n := 0
	for range k.C {
		n++
		if n == 3 {
			k.Stop()
			break
		}
	}
	el := time.Since(start).Round(time.Second)
	dl := start.Add(time.Second).Before(time.Now())
	return fmt.Sprint(stopped, n, el, dl)
}

type keyT struct{}

func ctxs() string {
	ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), keyT{}, 5), time.Second)
	defer cancel()
	sub, c2 := context.WithCancel(ctx)
	go func() {
		time.Sleep(time.Millisecond)
		c2()
	}()
	<-sub.Done()
	e1 := sub.Err()
	<-ctx.Done()
	_, has := ctx.Deadline()
	var w context.Context = wrapped{ctx}
	return fmt.Sprint(e1, ctx.Err(), ctx.Err() == context.DeadlineExceeded, has, w.Value(keyT{}))
}

type wrapped struct{ context.Context }

func pipes() string {
	r, w := io.Pipe()
	go func() {
		fmt.Fprintf(w, "hello\nworld\n")
		w.Close()
	}()
	sc := bufio.NewScanner(r)
	var out []string
	for sc.Scan() {
		out = append(out, sc.Text())
	}
	var b1, b2 bytes.Buffer
	n, err := io.Copy(io.MultiWriter(&b1, &b2), io.LimitReader(strings.NewReader("abcdef"), 4))
	return fmt.Sprint(out, n, err, b1.String() == b2.String(), sc.Err())
}

func atomics() string {
	var n int64
	var u atomic.Uint32
	var f atomic.Bool
	var v atomic.Value
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			atomic.AddInt64(&n, int64(i))
			u.Add(1)
			f.Store(true)
			v.Store("x")
		}(i)
	}
	wg.Wait()
	return fmt.Sprint(atomic.LoadInt64(&n), u.Load(), f.Load(), v.Load().(string))
}

func onces() string {
	var o sync.Once
	n := 0
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			o.Do(func() { n++ })
		}()
	}
	wg.Wait()
	var m sync.Map
	m.Store("k", 1)
	x, ok := m.LoadOrStore("k", 2)
	c := 0
	m.Range(func(k, v interface{}) bool { c++; return true })
	return fmt.Sprint(n, x, ok, c)
}

func typeswitch() string {
	var out []string
	c := make(chan interface{}, 5)
	c <- 1
	c <- "s"
	c <- errStop
	c <- nil
	c <- []int{1}
	close(c)
	for {
		raw, ok := <-c
		if !ok {
			break
		}
		switch v := raw.(type) {
		case int, int64:
			out = append(out, fmt.Sprint("int", v))
		case string:
			out = append(out, v)
		case error:
			out = append(out, v.Error())
		case nil:
			out = append(out, "nil")
		default:
			out = append(out, "other")
		}
	}
	switch x := func() int { return 2 }(); {
	case x > 1:
		out = append(out, "gt")
		fallthrough
	case x > 5:
		out = append(out, "ft")
	default:
	}
	return fmt.Sprint(out)
}

func produce(out chan<- int, n int) {
	for i := 0; i < n; i++ {
		out <- i
	}
	close(out)
}

func consume(in <-chan int) (s int) {
	for v := range in {
		s += v
	}
	v, ok := <-in
	if ok || v != 0 {
		s = -1
	}
	return
}

func gen(n int) <-chan int {
	c := make(chan int)
	go produce(c, n)
	return c
}

func dirs() string {
	var ro <-chan int = gen(4)
	var so chan<- int
	d := make(chan int, 1)
	so = d
	so <- 3
	set := map[chan int]bool{d: true}
	var asI interface{} = d
	return fmt.Sprint(consume(ro), <-d, set[d], asI == interface{}(d), so != nil, len(so), (<-gen(1)))
}

func panics() string {
	try := func(f func()) (r string) {
		defer func() { r = fmt.Sprint(recover()) }()
		f()
		return "none"
	}
	c := make(chan int)
	close(c)
	var np *box
	return strings.Join([]string{
		try(func() { close(c) }),
		try(func() { c <- 1 }),
		try(func() { var n chan int; close(n) }),
		try(func() { _ = []int{}[len(c)] }),
		try(func() { np.n++ }),
		try(func() { var m map[string]int; m["a"]++ }),
		try(func() { var wg sync.WaitGroup; wg.Done() }),
	}, "|")
}

func pool() string {
	p := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.WriteString("x")
	p.Put(b)
	return "ok"
}

func chanOfChan() string {
	req := make(chan chan int)
	go func() {
		for r := range req {
			r <- 42
		}
	}()
	r := make(chan int)
	req <- r
	x := <-r
	close(req)
	cs := []chan int{make(chan int, 1), make(chan int, 1)}
	cs[1] <- 5
	st := struct{ c []chan int }{cs}
	y := <-st.c[1]
	fc := make(chan func() int, 1)
	fc <- func() int { return 3 }
	z := (<-fc)()
	return fmt.Sprint(x, y, z)
}

func terminate(n int) int {
	c := make(chan int, 1)
	c <- n
	for {
		select {
		case v := <-c:
			if v == 1 {
				return 10
			}
			return 20
		}
	}
}

func terminate2(c chan int) int {
	select {
	case v := <-c:
		return v
	case <-time.After(1):
		return 2
	}
}

func terminate3(c chan int) (int, error) {
	switch {
	default:
		return <-c, nil
	}
}

func forever() int {
	select {}
}

func semaphore() string {
	sem := make(chan struct{}, 2)
	var cur, max int
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			mu.Lock()
			cur++
			if cur > max {
				max = cur
			}
			mu.Unlock()
			time.Sleep(time.Millisecond)
			mu.Lock()
			cur--
			mu.Unlock()
		}()
	}
	wg.Wait()
	return fmt.Sprint(max <= 2, cur)
}

type runner interface {
	sync.Locker
	run(<-chan int) (int, bool)
}

func (b *box) run(c <-chan int) (x int, ok bool) {
	x, ok = <-c
	return
}

func ifaces() string {
	var r runner = &box{}
	r.Lock()
	r.Unlock()
	l := rw{RWMutex: new(sync.RWMutex)}
	l.RLock()
	l.RUnlock()
	lk := l.RLocker()
	lk.Lock()
	lk.Unlock()
	c := make(chan int, 1)
	c <- 3
	x, ok := r.run(c)
	return fmt.Sprint(x, ok)
}

func shadow() string {
	time := 5
	close := func(int) int { return 1 }
	make := func(int) int { return 2 }
	len := 3
	simrt := 4
	return fmt.Sprint(time, close(1), make(1), len, simrt)
}

func fan() string {
	in := make(chan int)
	outs := make([]chan int, 3)
	var wg sync.WaitGroup
	for i := range outs {
		outs[i] = make(chan int, 10)
		wg.Add(1)
		go func(c chan<- int, i int) {
			defer wg.Done()
			for v := range in {
				c <- v * (i + 1) / (i + 1)
			}
			close(c)
		}(outs[i], i)
	}
	for i := 0; i < 9; i++ {
		in <- i
	}
	close(in)
	wg.Wait()
	s := 0
	for _, c := range outs {
		for v := range c {
			s += v
		}
	}
	return fmt.Sprint(s)
}

func bufs() string {
	c := make(chan int, 3)
	for i := 0; ; i++ {
		select {
		case c <- i:
			continue
		default:
		}
		break
	}
	n := len(c)
	x := <-c + <-c
	if v, ok := <-c; ok && v == 2 {
		x += v
	}
	a := []int{<-gen(2), 5}
	m := map[int]int{<-gen(1): 4}
	return fmt.Sprint(n, x, a, m, -<-gen(1))
}

// vutil drives the packages util and parseutil: one JSON request per line, one
// JSON record of what was observed per line.  It contains no oracle.
package main

import (
	"archive/tar"
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/hsiaosiyuan0/mole/parseutil"
	"github.com/hsiaosiyuan0/mole/util"
)

type M = map[string]interface{}

var ops = map[string]func(json.RawMessage) interface{}{
	"lru": lru, "lruc": lruc, "omap": omap, "walkdir": walkdir, "pcache": pcache, "jsonc": jsonc, "obj": obj, "sets": sets, "untar": untar,
}

func arg(raw json.RawMessage, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		panic(err)
	}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			return
		}
		var r struct {
			Op  string          `json:"op"`
			Arg json.RawMessage `json:"arg"`
		}
		arg(line, &r)
		enc.Encode(run(r.Op, r.Arg))
		out.Flush()
	}
}

func run(op string, a json.RawMessage) (res M) {
	defer func() {
		if x := recover(); x != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 2500 {
				st = st[:2500]
			}
			res = M{"panic": fmt.Sprint(x) + "\n" + st}
		}
	}()
	return M{"val": ops[op](a)}
}

// ---- LruCache, sequential: results of the calls and the keys held after each
func lru(raw json.RawMessage) interface{} {
	var a struct {
		Cap, Clear, Keys int
		Ops              [][]int // [kind, key, val]
	}
	arg(raw, &a)
	c := util.NewLruCache[int, int](a.Cap, a.Clear)
	out := [][]int{}
	for _, o := range a.Ops {
		r := 0
		switch o[0] {
		case 0:
			c.Set(o[1], o[2])
		case 1:
			r = c.Get(o[1])
		case 2:
			if c.HasKey(o[1]) {
				r = 1
			}
		}
		row := []int{r}
		for k := 0; k < a.Keys; k++ {
			if c.HasKey(k) {
				row = append(row, k)
			}
		}
		out = append(out, row)
	}
	return out
}

// ---- LruCache, concurrent: a history of calls with the order of invocations and responses
func lruc(raw json.RawMessage) interface{} {
	var a struct {
		Cap, Clear int
		Threads    [][][]int
		Seed       int64
	}
	arg(raw, &a)
	c := util.NewLruCache[int, int](a.Cap, a.Clear)
	var clock int64
	hist := make([][][]int64, len(a.Threads))
	var wg sync.WaitGroup
	start := make(chan bool)
	for t := range a.Threads {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(a.Seed*100 + int64(t)))
			<-start
			for _, o := range a.Threads[t] {
				switch rnd.Intn(4) {
				case 0:
					runtime.Gosched()
				case 1:
					for i := 0; i < rnd.Intn(300); i++ {
						runtime.KeepAlive(i)
					}
				}
				b := atomic.AddInt64(&clock, 1)
				r := 0
				switch o[0] {
				case 0:
					c.Set(o[1], o[2])
				case 1:
					r = c.Get(o[1])
				case 2:
					if c.HasKey(o[1]) {
						r = 1
					}
				}
				e := atomic.AddInt64(&clock, 1)
				hist[t] = append(hist[t], []int64{int64(o[0]), int64(o[1]), int64(o[2]), int64(r), b, e})
			}
		}(t)
	}
	close(start)
	wg.Wait()
	return hist
}

// ---- OrderedMap: results and the whole order after each call
func omap(raw json.RawMessage) interface{} {
	var a struct {
		Ops [][]int
	}
	arg(raw, &a)
	m := util.NewOrderedMap[int, int]()
	out := []interface{}{}
	for _, o := range a.Ops {
		r := 0
		switch o[0] {
		case 0:
			e := m.Set(o[1], o[2])
			kv := e.Value.(*util.KvPair[int, int])
			r = kv.Key*1000 + kv.Val
		case 1:
			r = m.Get(o[1])
		case 2:
			if m.HasKey(o[1]) {
				r = 1
			}
		case 3:
			m.Remove(o[1])
		}
		order := [][]int{}
		for e := m.Front(); e != nil; e = e.Next() {
			kv := e.Value.(*util.KvPair[int, int])
			order = append(order, []int{kv.Key, kv.Val})
		}
		out = append(out, M{"r": r, "order": order})
	}
	return out
}

// ---- DirWalker over a tree made in a scratch directory
func goroutinesOf(names ...string) int {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, s := range names {
			if strings.Contains(g, s) {
				n++
				break
			}
		}
	}
	return n
}

func settle(names ...string) int {
	n := 0
	for i := 0; i < 400; i++ {
		if n = goroutinesOf(names...); n == 0 {
			return 0
		}
		time.Sleep(5 * time.Millisecond)
	}
	return n
}

func walkdir(raw json.RawMessage) interface{} {
	var a struct {
		Dirs, Files, Links []string
		Root               string // relative to the scratch directory, "" = its root
		Concurrent         int
		StopAt             []int             // the handle of these events calls Stop("stop N")
		StopOutside        int               // > 0: Stop is called by another goroutine after that many events
		Remove             map[string]string // the handle of an entry removes another
		Yield              int64             // seed of the delays, 0: none
		Base               string
	}
	arg(raw, &a)
	base, err := os.MkdirTemp(a.Base, "walk")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	for _, d := range a.Dirs {
		os.MkdirAll(filepath.Join(base, d), 0755)
	}
	for _, f := range a.Files {
		if err := os.WriteFile(filepath.Join(base, f), []byte("x"), 0644); err != nil {
			panic(err)
		}
	}
	for _, l := range a.Links {
		p := strings.SplitN(l, "=", 2)
		os.Symlink(p[1], filepath.Join(base, p[0]))
	}
	root := filepath.Join(base, a.Root)
	var mu sync.Mutex
	events := [][2]interface{}{}
	returned, late, running, over := int32(0), int32(0), int32(0), int32(0)
	var rnd *rand.Rand
	if a.Yield != 0 {
		rnd = rand.New(rand.NewSource(a.Yield))
	}
	maxPar := int32(0)
	outside := make(chan bool, 1)
	w := util.NewDirWalker(root, a.Concurrent, func(p string, dir bool, w *util.DirWalker) {
		if atomic.LoadInt32(&returned) == 1 {
			atomic.AddInt32(&late, 1)
		}
		r := atomic.AddInt32(&running, 1)
		defer atomic.AddInt32(&running, -1)
		rel, err := filepath.Rel(base, p)
		if err != nil {
			rel = "!" + p
		}
		mu.Lock()
		if r > maxPar {
			maxPar = r
		}
		k := len(events)
		events = append(events, [2]interface{}{rel, dir})
		d := -1
		if rnd != nil {
			d = rnd.Intn(6)
		}
		mu.Unlock()
		switch d {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(50) * time.Microsecond)
		case 2:
			time.Sleep(300 * time.Microsecond)
		}
		if x, ok := a.Remove[rel]; ok {
			os.RemoveAll(filepath.Join(base, x))
		}
		if a.StopOutside > 0 && k == a.StopOutside {
			outside <- true
		}
		for _, s := range a.StopAt {
			if s == k {
				w.Stop(fmt.Errorf("stop %d", k))
			}
		}
	})
	fin := make(chan bool)
	if a.StopOutside > 0 {
		go func() {
			select {
			case <-outside:
				w.Stop(errors.New("stop outside"))
			case <-fin:
			}
		}()
	}
	done := make(chan bool)
	go func() { w.Walk(); atomic.StoreInt32(&returned, 1); over = atomic.LoadInt32(&running); close(done) }()
	hang := false
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		hang = true
	}
	close(fin)
	if hang {
		return M{"hang": true, "stacks": stacks("util.(*DirWalker)")}
	}
	left := settle("util.(*DirWalker)")
	mu.Lock()
	defer mu.Unlock()
	e := ""
	if w.Err() != nil {
		e = w.Err().Error()
		e = strings.ReplaceAll(e, base, "")
	}
	return M{"events": events, "err": e, "hasErr": w.Err() != nil, "late": late, "left": left, "over": over, "par": maxPar}
}

func stacks(name string) string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	r := ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, name) && len(r) < 3000 {
			r += g + "\n\n"
		}
	}
	return r
}

// ---- ParseCache
type recParser struct {
	typ   uint8
	tag   string
	mu    sync.Mutex
	calls []string
	yield int64
	biz   []interface{}
}

type parsed struct {
	tag, file, code string
	n               int
}

func (p *recParser) Type() parseutil.ParserType { return p.typ }
func (p *recParser) Parse(file, code string, readFile bool, biz interface{}) parseutil.Parsed {
	p.mu.Lock()
	p.calls = append(p.calls, fmt.Sprintf("%s|%s|%v|%v", file, code, readFile, biz))
	n := len(p.calls)
	p.mu.Unlock()
	switch (int64(n) + p.yield) % 4 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(200 * time.Microsecond)
	case 2:
		time.Sleep(2 * time.Millisecond)
	}
	if strings.HasSuffix(file, "nil") {
		return nil
	}
	return &parsed{p.tag, file, code, n}
}

func pcache(raw json.RawMessage) interface{} {
	var a struct {
		Threads [][]string // keys requested by each thread
		Types   int
		Yield   int64
		Lazy    bool // read the futures after all requests were made
		Twice   bool // keep the futures unread of every other request
	}
	arg(raw, &a)
	c := parseutil.NewParseCache[string]()
	ps := []*recParser{}
	for i := 0; i < a.Types; i++ {
		p := &recParser{typ: uint8(i), tag: fmt.Sprint("p", i), yield: a.Yield}
		ps = append(ps, p)
		c.SetParser(p)
	}
	type ans struct {
		Key  string `json:"key"`
		Tag  string `json:"tag"`
		File string `json:"file"`
		Code string `json:"code"`
		Got  bool   `json:"got"`
		Id   string `json:"id"`
		Nil  bool   `json:"nil"`
	}
	out := make([][]*ans, len(a.Threads))
	var wg sync.WaitGroup
	start := make(chan bool)
	for t := range a.Threads {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			<-start
			type pend struct {
				a *ans
				f parseutil.FutureParsed
			}
			todo := []pend{}
			read := func(x pend) {
				select {
				case v := <-x.f:
					x.a.Got = true
					if p, ok := v.(*parsed); ok {
						x.a.Tag, x.a.File, x.a.Code, x.a.Id = p.tag, p.file, p.code, fmt.Sprintf("%p", p)
					} else {
						x.a.Nil = true
					}
				case <-time.After(30 * time.Second):
				}
			}
			for i, k := range a.Threads[t] {
				typ := uint8(int(k[0]) % a.Types)
				x := pend{&ans{Key: k}, c.Parse(typ, k, "file-"+k, "code-"+k, i%2 == 0, k)}
				out[t] = append(out[t], x.a)
				if a.Twice && i%3 == 2 {
					x.a.Got = true
					x.a.Id = "unread"
					continue
				}
				if a.Lazy {
					todo = append(todo, x)
				} else {
					read(x)
				}
			}
			for _, x := range todo {
				read(x)
			}
		}(t)
	}
	close(start)
	wg.Wait()
	left := settle("parseutil.(*ParseCache")
	calls := []string{}
	for _, p := range ps {
		p.mu.Lock()
		for _, x := range p.calls {
			calls = append(calls, p.tag+"|"+x)
		}
		p.mu.Unlock()
	}
	return M{"answers": out, "calls": calls, "left": left}
}

// ---- RemoveJsonComments
func jsonc(raw json.RawMessage) interface{} {
	var a struct {
		Src string
		B64 bool
	}
	arg(raw, &a)
	s := a.Src
	if a.B64 {
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			panic(err)
		}
		s = string(b)
	}
	in := strings.Clone(s)
	b, err := util.RemoveJsonComments(s)
	if err != nil {
		return M{"err": err.Error()}
	}
	return M{"out": base64.StdEncoding.EncodeToString(b), "same": in == s}
}

// ---- helpers of objects
func clone(v interface{}) interface{} {
	b, _ := json.Marshal(v)
	var r interface{}
	json.Unmarshal(b, &r)
	return r
}

func obj(raw json.RawMessage) interface{} {
	var a struct {
		Dst  M
		Srcs []M
		Path []string
		Stop int
	}
	arg(raw, &a)
	srcs0 := clone(a.Srcs)
	flat := util.FlattenMap(a.Dst)
	get := clone(util.GetByPath(a.Dst, a.Path))
	visits := [][]string{}
	n := 0
	ret := util.WalkObj(a.Dst, []string{}, func(path []string, val interface{}, key interface{}, parent interface{}, arr bool) bool {
		row := append([]string{}, path...)
		b, _ := json.Marshal(val)
		pb, _ := json.Marshal(parent)
		visits = append(visits, append(row, string(b), fmt.Sprint(key), string(pb), fmt.Sprint(arr)))
		n++
		return n != a.Stop
	}, nil, nil, false)
	b, _ := json.Marshal(a.Dst)
	kv, err := util.JsonToKeyPathAndVal(string(b))
	dst0 := clone(a.Dst)
	util.MergeMaps(a.Dst, a.Srcs...)
	merged := clone(a.Dst)
	// merging must not change the sources
	eq := func(x, y interface{}) bool {
		p, _ := json.Marshal(x)
		q, _ := json.Marshal(y)
		return bytes.Equal(p, q)
	}
	return M{"flat": flat, "get": get, "visits": visits, "ret": ret, "kv": kv, "kverr": err != nil, "dst0": dst0, "merged": merged, "srcs": eq(srcs0, clone(a.Srcs))}
}

func sets(raw json.RawMessage) interface{} {
	var a struct {
		A, B map[string]int
		Arr  []int
		I, J int
	}
	arg(raw, &a)
	cl := util.CloneMap(a.A)
	keys := util.Keys(a.A)
	sort.Strings(keys)
	pk, pv := util.PickOnePair(a.A)
	one := util.PickOne(a.A)
	n0 := len(a.A)
	m := util.CloneMap(a.A)
	util.Merge(m, a.B)
	tk := util.CloneMap(a.A)
	took := []int{}
	for len(tk) > 0 && len(took) <= n0 {
		l := len(tk)
		took = append(took, util.TakeOne(tk))
		if len(tk) != l-1 {
			took = append(took, -999)
			break
		}
	}
	sort.Ints(took)
	zero := util.TakeOne(map[string]int{})
	cl["__new"] = 1
	_, leaked := a.A["__new"]
	delete(cl, "__new")
	arr := util.Copy(a.Arr)
	sw := util.Copy(a.Arr)
	rm := util.Copy(a.Arr)
	inc := []bool{}
	for i := -2; i < 8; i++ {
		inc = append(inc, util.Includes(arr, i))
	}
	if len(arr) > 0 {
		util.Swap(sw, a.I, a.J)
		util.RemoveAt(&rm, a.I)
	}
	sort.Ints(rm)
	if len(arr) > 0 {
		arr[0] = -77
	}
	return M{"clone": cl, "keys": keys, "pk": pk, "pv": pv, "one": one, "merged": m, "took": took, "zero": zero, "leaked": leaked, "swapped": sw, "removed": rm, "inc": inc, "arr": a.Arr, "a": a.A, "b": a.B}
}

// ---- UnTarGz, as an unprivileged user in a scratch directory
func untar(raw json.RawMessage) interface{} {
	var a struct {
		Entries []struct {
			Name string
			Type string // f d l(symlink) h(hardlink)
			Link string
			Body string
			Mode int64
		}
		Pre   []string // files existing in the destination
		Trunc int      // bytes cut from the end of the tarball
		Raw   string
	}
	arg(raw, &a)
	if os.Getuid() == 0 {
		panic("vutil: refuses to extract as root")
	}
	base, err := os.MkdirTemp(os.Getenv("VUTIL_SCRATCH"), "tar")
	if err != nil {
		panic(err)
	}
	defer func() {
		filepath.Walk(base, func(p string, i os.FileInfo, err error) error {
			if i != nil && i.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(base)
	}()
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	tw := tar.NewWriter(gz)
	for _, e := range a.Entries {
		h := &tar.Header{Name: strings.ReplaceAll(e.Name, "$BASE", base), Mode: e.Mode, Size: int64(len(e.Body)), Typeflag: tar.TypeReg, Format: tar.FormatPAX}
		switch e.Type {
		case "d":
			h.Typeflag = tar.TypeDir
			h.Size = 0
		case "l":
			h.Typeflag = tar.TypeSymlink
			h.Linkname = strings.ReplaceAll(e.Link, "$BASE", base)
			h.Size = 0
		case "h":
			h.Typeflag = tar.TypeLink
			h.Linkname = e.Link
			h.Size = 0
		}
		if err := tw.WriteHeader(h); err != nil {
			return M{"skip": err.Error()}
		}
		if h.Size > 0 {
			tw.Write([]byte(e.Body))
		}
	}
	tw.Close()
	gz.Close()
	b := buf.Bytes()
	if a.Trunc > 0 && a.Trunc < len(b) {
		b = b[:len(b)-a.Trunc]
	}
	ball := filepath.Join(base, "x.tgz")
	os.WriteFile(ball, b, 0644)
	dst := filepath.Join(base, "a", "b", "dst")
	os.MkdirAll(dst, 0755)
	os.WriteFile(filepath.Join(base, "a", "canary"), []byte("canary"), 0644)
	for _, f := range a.Pre {
		p := filepath.Join(dst, f)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte("old"), 0644)
	}
	fds := nfds()
	e := util.UnTarGz(ball, dst)
	fd2 := nfds()
	tree := M{}
	outside := []string{}
	filepath.Walk(base, func(p string, i os.FileInfo, err error) error {
		rel, _ := filepath.Rel(base, p)
		if strings.HasPrefix(rel, "a/b/dst/") {
			if i.Mode()&os.ModeSymlink != 0 {
				l, _ := os.Readlink(p)
				tree[rel[8:]] = "link " + l
			} else if i.IsDir() {
				tree[rel[8:]] = nil
			} else {
				c, err := os.ReadFile(p)
				if err != nil {
					c = []byte("!" + err.Error())
				}
				tree[rel[8:]] = string(c)
			}
		} else {
			switch rel {
			case ".", "a", "a/b", "a/b/dst", "x.tgz":
			case "a/canary":
				if c, _ := os.ReadFile(p); string(c) != "canary" {
					outside = append(outside, "canary changed")
				}
			default:
				outside = append(outside, rel)
			}
		}
		return nil
	})
	msg := ""
	if e != nil {
		msg = strings.ReplaceAll(e.Error(), base, "")
	}
	return M{"err": msg, "tree": tree, "outside": outside, "fds": fd2 - fds}
}

func nfds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(d)
}

func init() {
	// drop the privileges before anything else when asked to
	if os.Getenv("VUTIL_NOBODY") != "" && os.Getuid() == 0 {
		if err := syscall.Setgroups([]int{}); err != nil {
			panic(err)
		}
		if err := syscall.Setgid(65534); err != nil {
			panic(err)
		}
		if err := syscall.Setuid(65534); err != nil {
			panic(err)
		}
		// an extraction that goes astray is limited to small files
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 16 << 20, Max: 16 << 20})
	}
}

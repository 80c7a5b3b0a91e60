package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
)

// runs the requests one after another, then from several goroutines at once,
// each in an order of its own, then one after another in the opposite order;
// every answer has to be the first one, byte by byte
func init() {
	ops["conc"] = func(r *Req, res *Res) {
		var a struct {
			Reqs    []*Req `json:"reqs"`
			Threads int    `json:"threads"`
			Rounds  int    `json:"rounds"`
			Seed    int64  `json:"seed"`
		}
		if err := json.Unmarshal(r.Arg, &a); err != nil {
			panic(err)
		}
		answer := func(q *Req) []byte {
			c := *q
			b, err := json.Marshal(run(&c))
			if err != nil {
				panic(err)
			}
			return b
		}
		first := make([][]byte, len(a.Reqs))
		for i, q := range a.Reqs {
			first[i] = answer(q)
		}
		type diff struct {
			I    int    `json:"i"`
			When string `json:"when"`
			A, B string
		}
		var mu sync.Mutex
		diffs := []diff{}
		check := func(i int, when string) {
			b := answer(a.Reqs[i])
			if !bytes.Equal(b, first[i]) {
				k := 0
				for k < len(b) && k < len(first[i]) && b[k] == first[i][k] {
					k++
				}
				cut := func(x []byte) string {
					lo, hi := k-80, k+80
					if lo < 0 {
						lo = 0
					}
					if hi > len(x) {
						hi = len(x)
					}
					return string(x[lo:hi])
				}
				mu.Lock()
				if len(diffs) < 5 {
					diffs = append(diffs, diff{i, when, cut(first[i]), cut(b)})
				}
				mu.Unlock()
			}
		}
		var inflight, overlaps, runs int64
		var wg sync.WaitGroup
		gate := make(chan bool)
		for t := 0; t < a.Threads; t++ {
			wg.Add(1)
			go func(rng *rand.Rand) {
				defer wg.Done()
				<-gate
				for k := 0; k < a.Rounds; k++ {
					for _, i := range rng.Perm(len(a.Reqs)) {
						if atomic.AddInt64(&inflight, 1) > 1 {
							atomic.AddInt64(&overlaps, 1)
						}
						check(i, "concurrent")
						atomic.AddInt64(&inflight, -1)
						atomic.AddInt64(&runs, 1)
						if rng.Intn(3) == 0 {
							runtime.Gosched()
						}
					}
				}
			}(rand.New(rand.NewSource(a.Seed + int64(t))))
		}
		close(gate)
		wg.Wait()
		for i := len(a.Reqs) - 1; i >= 0; i-- {
			check(i, "after the others")
		}
		bytes := 0
		for _, b := range first {
			bytes += len(b)
		}
		res.Ok = true
		res.Val = map[string]interface{}{"diffs": diffs, "runs": runs, "overlaps": overlaps, "bytes": bytes}
	}
}

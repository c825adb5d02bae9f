package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/stats"
)

// Replays histories of the collector: operations of one goroutine, whose reports are
// observed after each of them, or of many.

type cval struct {
	N   int `json:"n"`
	Sec int `json:"sec"`
	Rt  int `json:"rt"`
}

type centry struct {
	H string `json:"h"`
	I int    `json:"i"`
	V cval   `json:"v"`
}

type cop struct {
	Op   string     `json:"op"` // c, recv
	H    string     `json:"h,omitempty"`
	I    int        `json:"i,omitempty"`
	V    cval       `json:"v"`
	At   int        `json:"at,omitempty"`  // during Stop: ms after its start
	Adv  int        `json:"adv,omitempty"` // seconds the clock advances before the operation
	Reps [][]centry `json:"reps"`
}

type cstop struct {
	On      bool       `json:"on"`
	U       int        `json:"u"`
	Adv     int        `json:"adv"`
	Timeout int        `json:"timeout"`
	During  []cop      `json:"during"`
	V       cval       `json:"v"`
	Must    bool       `json:"must"`
	Ret     bool       `json:"ret"`
	Ms      int        `json:"ms"`
	LastAt  int        `json:"lastat"`
	Tol     int        `json:"tol"`
	Stopped int        `json:"stopped"`
	Reps    [][]centry `json:"reps"`
}

type ccase struct {
	N       int        `json:"n"`
	Freq    string     `json:"freq"`
	Ops     []cop      `json:"ops"`
	Stop    cstop      `json:"stop"`
	Free    bool       `json:"free"`
	Seed    int64      `json:"seed"`
	Sent    []centry   `json:"sent"`
	Reps    [][]centry `json:"reps"`
	Panic   bool       `json:"panic"`
	Changed bool       `json:"changed"`
	What    string     `json:"what"`
}

// recording reporter: keeps what it was given and looks at it again later, as reporters
// that send asynchronously do
type cRep struct {
	mu      sync.Mutex
	reps    [][]centry
	raw     [][]stats.Instance
	taken   int
	stopped int
}

func entry(in stats.Instance) centry {
	e := centry{H: in.Hostname, I: int(in.Interval), V: cval{Sec: int(in.Seconds + .5), Rt: int(in.Runtime + .5)}}
	if in.Hostname != "local" {
		e.V.N = int(in.Clients)
		if in.Total == nil || in.Total.N[stats.TOTAL] != uint64(in.Clients) {
			e.V.N = -2
		}
		return e
	}
	a, b := in.Trx["A"], in.Trx["B"]
	if a == nil || b == nil || in.Clients != 2 {
		e.V.N = -3
		return e
	}
	n := int(a.N[stats.TOTAL])
	want := uint64(n + 1)
	if n == 0 {
		want = 0
	}
	e.V.N = n
	if b.N[stats.TOTAL] != want || in.Total.N[stats.TOTAL] != uint64(n)+want || in.Total.N[stats.READ] != uint64(n)+want {
		e.V.N = -1
	}
	return e
}

func entries(from []stats.Instance) []centry {
	r := []centry{}
	for _, in := range from {
		r = append(r, entry(in))
	}
	return r
}

func (r *cRep) Report(from []stats.Instance) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.reps = append(r.reps, entries(from))
	r.raw = append(r.raw, append([]stats.Instance(nil), from...))
}

func (r *cRep) Stop() { r.mu.Lock(); r.stopped++; r.mu.Unlock() }

func (r *cRep) take() [][]centry {
	r.mu.Lock()
	defer r.mu.Unlock()
	x := append([][]centry{}, r.reps[r.taken:]...)
	r.taken = len(r.reps)
	return x
}

// were reports changed after they were made?
func (r *cRep) changed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := range r.raw {
		a, _ := json.Marshal(r.reps[i])
		b, _ := json.Marshal(entries(r.raw[i]))
		if string(a) != string(b) {
			return true
		}
	}
	return false
}

type cFactory struct {
	mu sync.Mutex
	m  map[string]*cRep
}

func (f *cFactory) Make(name string, opts map[string]string) (stats.Reporter, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.m[opts["id"]], nil
}

var cfac = &cFactory{m: map[string]*cRep{}}
var cclock int64 // seconds

type crun struct {
	c    *ccase
	col  *stats.Collector
	rep  *cRep
	cl   [2][]*stats.Trx
	last int64
	t0   int64
	li   int
}

func newCRun(c *ccase, id string) *crun {
	r := &crun{c: c, rep: &cRep{}}
	cfac.mu.Lock()
	cfac.m[id] = r.rep
	cfac.mu.Unlock()
	var err error
	r.col, err = stats.NewCollector(config.Stats{Freq: c.Freq, Report: map[string]map[string]string{"verifc": {"id": id}}}, "local", uint(c.N))
	fatal(err)
	for k := range r.cl {
		r.cl[k] = []*stats.Trx{stats.NewTrx("A"), stats.NewTrx("B")}
		r.col.Watch(r.cl[k])
	}
	r.t0 = atomic.LoadInt64(&cclock)
	r.last = r.t0
	r.col.Start()
	return r
}

// n events of trx A and n+1 of trx B over both clients
func (r *crun) record(n int) {
	if n == 0 {
		return
	}
	for i := 0; i < n; i++ {
		r.cl[i%2][0].Record(stats.READ, int64(10+i))
	}
	for i := 0; i <= n; i++ {
		r.cl[(i+1)%2][1].Record(stats.READ, int64(100+i))
	}
}

func (r *crun) collected(n int) cval {
	now := atomic.LoadInt64(&cclock)
	v := cval{N: n, Sec: int(now - r.last), Rt: int(now - r.t0)}
	r.last = now
	return v
}

func remoteIn(o *cop) stats.Instance {
	in := stats.NewInstance(o.H)
	in.Clients, in.Interval, in.Seconds, in.Runtime = uint(o.V.N), uint(o.I), float64(o.V.Sec), float64(o.V.Rt)
	for i := 0; i < o.V.N; i++ {
		in.Total.Record(stats.WRITE, 5)
	}
	return in
}

func (r *crun) guard(f func()) {
	defer func() {
		if x := recover(); x != nil {
			r.c.Panic = true
			r.c.What = fmt.Sprint(x)
		}
	}()
	f()
}

func (r *crun) ops() {
	r.guard(func() {
		for i := range r.c.Ops {
			o := &r.c.Ops[i]
			atomic.AddInt64(&cclock, int64(o.Adv))
			if o.Op == "c" {
				r.record(o.V.N)
				o.V = r.collected(o.V.N)
				r.col.Collect()
			} else {
				r.col.Recv(remoteIn(o))
			}
			o.Reps = r.rep.take()
		}
	})
}

func (r *crun) stop() {
	s := &r.c.Stop
	r.record(s.U)
	s.V = r.collected(s.U)
	s.Must = s.U > 0 || r.c.Freq == ""
	done := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	t := time.Now()
	during := []cop{}
	go func() {
		defer wg.Done()
		for i := range s.During {
			o := s.During[i]
			time.Sleep(time.Until(t.Add(time.Duration(o.At) * time.Millisecond)))
			select {
			case <-done:
				return
			default:
			}
			r.guard(func() { r.col.Recv(remoteIn(&o)) })
			o.Reps = [][]centry{}
			s.LastAt = int(time.Since(t).Milliseconds()) + 100
			during = append(during, o)
		}
	}()
	r.guard(func() { s.Ret = r.col.Stop(time.Duration(s.Timeout)*time.Millisecond, false) })
	s.Ms = int(time.Since(t).Milliseconds())
	close(done)
	wg.Wait()
	s.During = during
	s.Reps = r.rep.take()
	s.Stopped = r.rep.stopped
	// stragglers must not crash it
	r.guard(func() {
		in := stats.NewInstance("r9")
		in.Interval = 1
		r.col.Recv(in)
	})
}

func (r *crun) free() {
	rng := rand.New(rand.NewSource(r.c.Seed))
	var mu sync.Mutex
	var wg sync.WaitGroup
	sent := []centry{}
	k := 0
	for h := 1; h < r.c.N; h++ {
		seq := []cop{}
		i := 0
		for len(seq) < 40 {
			i += 1 + rng.Intn(2)*rng.Intn(2)
			for d := 0; d <= rng.Intn(2)*rng.Intn(2); d++ {
				k++
				seq = append(seq, cop{H: fmt.Sprintf("r%d", h), I: i, V: cval{N: k, Sec: 1, Rt: i}})
			}
		}
		if rng.Intn(3) == 0 {
			rng.Shuffle(len(seq), func(a, b int) { seq[a], seq[b] = seq[b], seq[a] })
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range seq {
				mu.Lock()
				sent = append(sent, centry{H: seq[j].H, I: seq[j].I, V: seq[j].V})
				mu.Unlock()
				r.guard(func() { r.col.Recv(remoteIn(&seq[j])) })
				if j%7 == 0 {
					time.Sleep(time.Microsecond * 50)
				}
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for j := 1; j <= 45; j++ {
			r.record(j)
			v := r.collected(j)
			mu.Lock()
			sent = append(sent, centry{H: "local", I: j, V: v})
			mu.Unlock()
			r.guard(func() { r.col.Collect() })
			time.Sleep(time.Microsecond * time.Duration(20*(j%5)))
		}
	}()
	wg.Wait()
	r.c.Stop = cstop{Timeout: 50}
	r.guard(func() { r.col.Stop(50*time.Millisecond, false) })
	v := r.collected(0)
	sent = append(sent, centry{H: "local", I: 46, V: v})
	r.c.Sent, r.c.Reps = sent, r.rep.take()
}

func init() {
	modes["collector"] = func(args []string) {
		log.SetOutput(io.Discard)
		fatal(stats.Register("verifc", cfac))
		base := time.Unix(1700000000, 0)
		stats.Now = func() time.Time { return base.Add(time.Duration(atomic.LoadInt64(&cclock)) * time.Second) }
		b, err := io.ReadAll(os.Stdin)
		fatal(err)
		var cases []*ccase
		fatal(json.Unmarshal(b, &cases))
		finish := func(r *crun) {
			r.c.Changed = r.rep.changed()
			if r.c.Sent == nil {
				r.c.Sent = []centry{}
			}
			if r.c.Reps == nil {
				r.c.Reps = [][]centry{}
			}
			if r.c.Stop.During == nil {
				r.c.Stop.During = []cop{}
			}
			if r.c.Stop.Reps == nil {
				r.c.Stop.Reps = [][]centry{}
			}
			if r.c.Ops == nil {
				r.c.Ops = []cop{}
			}
		}
		sem := make(chan struct{}, 400)
		var wg sync.WaitGroup
		groups := map[int][]*crun{}
		for i, c := range cases {
			r := newCRun(c, fmt.Sprint(i))
			switch {
			case c.Free:
				r.free()
				finish(r)
			case !c.Stop.On:
				r.ops()
				finish(r)
			default:
				groups[c.Stop.Adv] = append(groups[c.Stop.Adv], r)
			}
		}
		for _, adv := range []int{0, 36000} {
			atomic.StoreInt64(&cclock, 0)
			for _, r := range groups[adv] {
				r.last, r.t0 = 0, 0
				// started again with this clock
				*r = *newCRun(r.c, "s"+fmt.Sprintf("%p", r))
				r.ops()
			}
			atomic.StoreInt64(&cclock, int64(adv))
			for _, r := range groups[adv] {
				wg.Add(1)
				sem <- struct{}{}
				go func(r *crun) {
					defer wg.Done()
					r.stop()
					finish(r)
					<-sem
				}(r)
			}
			wg.Wait()
		}
		out, _ := json.Marshal(cases)
		os.Stdout.Write(out)
	}
}

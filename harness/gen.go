package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/square/finch/data"
)

// Makes built-in data generators, copies them like the workload does, calls
// the copies from one or many goroutines, and records every value returned.

type gcall struct {
	Copy bool   `json:"copy,omitempty"` // new copy of the original
	X    int    `json:"x,omitempty"`    // call on this copy (0..)
	Rc   []uint `json:"rc,omitempty"`
	V    []any  `json:"v,omitempty"`
}

type gcase struct {
	Name    string            `json:"name"`
	Params  map[string]string `json:"params"`
	Mode    string            `json:"mode"` // seq, conc, dist
	Copies  int               `json:"copies"`
	Callers int               `json:"callers"`
	N       int               `json:"n"`
	Ops     []gcall           `json:"ops,omitempty"`

	Err   string         `json:"err"`
	Panic string         `json:"panic"`
	Fmt   string         `json:"fmt"`
	NFmt  uint           `json:"nfmt"`
	Conc  [][]gcall      `json:"conc,omitempty"`
	Count map[string]int `json:"count,omitempty"`
}

func runGenCase(c *gcase) {
	var mu sync.Mutex
	guard := func() {
		if e := recover(); e != nil {
			mu.Lock()
			c.Panic = fmt.Sprint(e)
			mu.Unlock()
		}
	}
	defer guard()
	g, err := data.Make(c.Name, "@d", c.Params)
	if err != nil {
		c.Err = err.Error()
		if c.Err == "" {
			c.Err = "?"
		}
		return
	}
	c.NFmt, c.Fmt = g.Format()
	switch c.Mode {
	case "seq":
		cp := []data.Generator{}
		for i := range c.Ops {
			o := &c.Ops[i]
			if o.Copy {
				cp = append(cp, g.Copy())
				continue
			}
			var rc data.RunCount
			copy(rc[:], o.Rc)
			o.V = cp[o.X].Values(rc)
		}
		time.Sleep(time.Millisecond)
	case "conc":
		cp := []data.Generator{}
		for i := 0; i < c.Copies; i++ {
			cp = append(cp, g.Copy())
		}
		c.Conc = make([][]gcall, c.Callers)
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < c.Callers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer guard()
				<-start
				l := make([]gcall, c.N)
				for k := range l {
					l[k].X = (i + k) % c.Copies
					l[k].V = cp[l[k].X].Values(data.RunCount{})
				}
				c.Conc[i] = l
			}(i)
		}
		runtime.Gosched()
		close(start)
		wg.Wait()
	case "dist":
		c.Count = map[string]int{}
		x := g.Copy()
		for i := 0; i < c.N; i++ {
			v := x.Values(data.RunCount{})
			if str, ok := v[0].(string); ok { // letters
				for _, l := range str {
					c.Count[fmt.Sprintf("[[%d]]", l)]++
				}
				continue
			}
			b, _ := json.Marshal(v)
			c.Count[string(b)]++
		}
	}
}

func init() {
	modes["gen"] = func(args []string) {
		b, err := io.ReadAll(os.Stdin)
		fatal(err)
		var cs []*gcase
		fatal(json.Unmarshal(b, &cs))
		for _, c := range cs {
			runGenCase(c)
		}
		fatal(json.NewEncoder(os.Stdout).Encode(cs))
	}
}

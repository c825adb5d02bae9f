package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"

	"github.com/square/finch/stats"
)

// Replays operations on stats.Stats and prints reports with the built-in reporters.

type hobs struct {
	N   []uint64    `json:"n"`
	Min []int64     `json:"min"`
	Max []int64     `json:"max"`
	B   [][][2]int  `json:"b"`
	Err [][2]uint64 `json:"err"`
}

type hop struct {
	Op   string    `json:"op"`
	X    int       `json:"x"`
	Y    int       `json:"y"`
	T    int       `json:"t"` // 1..4
	D    int64     `json:"d"`
	Code int       `json:"code"`
	Cnt  int       `json:"cnt"`
	P    []float64 `json:"p"`
	Q    []uint64  `json:"q"`
	Full bool      `json:"full"`
	Obs  []hobs    `json:"obs"`
}

type hin struct {
	Host     string      `json:"host"`
	Clients  uint        `json:"clients"`
	Interval uint        `json:"interval"`
	Sec      float64     `json:"sec"`
	Rt       float64     `json:"rt"`
	Ev       [][3]int64  `json:"ev"`
	Er       [][2]uint16 `json:"er"`
}

type hrep struct {
	Ins []hin  `json:"ins"`
	Out string `json:"out"`
}

type hcase struct {
	Kind    string            `json:"kind"` // ops, csv, stdout
	Ops     []hop             `json:"ops"`
	Opts    map[string]string `json:"opts"`
	Reports []hrep            `json:"reports"`
	Header  string            `json:"header"`
	Panic   bool              `json:"panic"`
	What    string            `json:"what"`
}

func observe(s *stats.Stats) hobs {
	o := hobs{N: s.N, Min: append([]int64{}, s.Min...), Max: append([]int64{}, s.Max...), Err: [][2]uint64{}}
	o.N = append([]uint64{}, s.N...)
	for t := range s.Buckets {
		b := [][2]int{}
		for i, n := range s.Buckets[t] {
			if n > 0 {
				b = append(b, [2]int{i, int(n)})
			}
		}
		o.B = append(o.B, b)
	}
	for k, v := range s.Errors {
		if v > 0 {
			o.Err = append(o.Err, [2]uint64{uint64(k), v})
		}
	}
	sort.Slice(o.Err, func(a, b int) bool { return o.Err[a][0] < o.Err[b][0] })
	return o
}

func (c *hcase) run(dir string, n int) {
	defer func() {
		if x := recover(); x != nil {
			c.Panic, c.What = true, fmt.Sprint(x)
		}
	}()
	if c.Kind == "ops" {
		v := []*stats.Stats{nil, stats.NewStats(), stats.NewStats(), stats.NewStats()}
		for i := range c.Ops {
			o := &c.Ops[i]
			switch o.Op {
			case "rec":
				for n := 0; n < o.Cnt; n++ {
					v[o.X].Record(byte(o.T-1), o.D)
				}
			case "err":
				v[o.X].Errors[uint16(o.Code)]++
			case "comb":
				v[o.X].Combine(v[o.Y])
			case "copy":
				v[o.X].Copy(v[o.Y])
			case "reset":
				v[o.X].Reset()
			case "pct":
				o.Q = v[o.X].Percentiles(byte(o.T-1), o.P)
			}
			o.Obs = []hobs{}
			if o.Full {
				for k := 1; k <= 3; k++ {
					o.Obs = append(o.Obs, observe(v[k]))
				}
			}
		}
		return
	}
	var r stats.Reporter
	var err error
	file := filepath.Join(dir, fmt.Sprintf("out%d", n))
	if c.Kind == "csv" {
		c.Opts["file"] = file
		r, err = stats.NewCSV(c.Opts)
	} else {
		f, err := os.Create(file)
		fatal(err)
		old := os.Stdout
		os.Stdout = f
		defer func() { os.Stdout = old; f.Close() }()
		r, err = stats.NewStdout(c.Opts)
	}
	if err != nil || r == nil {
		c.Panic, c.What = true, fmt.Sprint("reporter: ", err)
		return
	}
	size := 0
	take := func() string {
		b, _ := os.ReadFile(file)
		s := string(b[size:])
		size = len(b)
		return s
	}
	c.Header = take()
	for i := range c.Reports {
		from := []stats.Instance{}
		for _, in := range c.Reports[i].Ins {
			s := stats.NewInstance(in.Host)
			s.Clients, s.Interval, s.Seconds, s.Runtime = in.Clients, in.Interval, in.Sec, in.Rt
			for _, e := range in.Ev {
				for n := int64(0); n < e[2]; n++ {
					s.Total.Record(byte(e[0]-1), e[1])
				}
			}
			for _, k := range in.Er {
				s.Total.Errors[k[0]] += uint64(k[1])
			}
			from = append(from, s)
		}
		before, _ := json.Marshal(from)
		r.Report(from)
		if after, _ := json.Marshal(from); !bytes.Equal(before, after) {
			c.Panic, c.What = true, "report changed the stats it was given"
		}
		c.Reports[i].Out = take()
	}
	r.Stop()
	os.Remove(file)
}

func init() {
	modes["histo"] = func(args []string) {
		log.SetOutput(io.Discard)
		b, err := io.ReadAll(os.Stdin)
		fatal(err)
		var cases []*hcase
		fatal(json.Unmarshal(b, &cases))
		dir, err := os.MkdirTemp("", "verif-histo")
		fatal(err)
		defer os.RemoveAll(dir)
		for i, c := range cases {
			c.run(dir, i)
		}
		out, _ := json.Marshal(cases)
		os.Stdout.Write(out)
	}
}

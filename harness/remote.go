package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/square/finch/stats"
)

// Scripted remote instances that speak the client side of the protocol to a real
// server, well-behaved or not.

type RStep struct {
	Op       string `json:"op"` // getboot postboot file getrun stats postrun ping
	Name     string `json:"name"`
	Sid      string `json:"sid"` // "" = the stage this remote was given, else literal
	Arg      string `json:"arg"`
	Method   string `json:"method"`
	I        int    `json:"i"`
	Interval int    `json:"interval"`
	Tag      int    `json:"tag"`
	Timeout  int    `json:"timeout"` // ms
	Retry    int    `json:"retry"`
	Wait     int    `json:"wait"` // ms between tries
	Pre      int    `json:"pre"`  // ms before the step
	Stop     bool   `json:"stop"` // end of segment if it fails
}

type Remote struct {
	Name  string    `json:"name"`
	Start int       `json:"start"`
	Segs  [][]RStep `json:"segs"`
}

var reqID int64

func (r *Remote) run(base string, log *evlog, quit chan struct{}) {
	time.Sleep(time.Duration(r.Start) * time.Millisecond)
	sid := ""
	cl := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}
	for _, seg := range r.Segs {
	SEG:
		for _, st := range seg {
			time.Sleep(time.Duration(st.Pre) * time.Millisecond)
			for try := 0; ; try++ {
				select {
				case <-quit:
					return
				default:
				}
				id := atomic.AddInt64(&reqID, 1)
				name := st.Name
				if name == "" {
					name = r.Name
				}
				s := st.Sid
				if s == "" {
					s = sid
				}
				method, ep := "GET", ""
				var body []byte
				q := ""
				switch st.Op {
				case "getboot":
					ep = "/boot"
				case "postboot":
					method, ep = "POST", "/boot"
					if st.Arg == "err" {
						body, _ = json.Marshal("boot failed on " + name)
					}
				case "file":
					ep = "/file"
					q = fmt.Sprintf("&stage=x&i=%d", st.I)
				case "getrun":
					ep = "/run"
				case "postrun":
					method, ep = "POST", "/run"
					if st.Arg == "err" {
						body, _ = json.Marshal("run failed")
					}
				case "stats":
					method, ep = "POST", "/stats"
					in := stats.NewInstance(name)
					in.Clients = uint(st.Tag)
					in.Interval = uint(st.Interval)
					in.Seconds, in.Runtime = 1, 1
					body, _ = json.Marshal(in)
				case "ping":
					ep = "/ping"
				}
				if st.Method != "" {
					method = st.Method
				}
				log.put(map[string]interface{}{"e": "req", "id": id, "op": st.Op, "name": name, "sid": s, "arg": st.Arg, "ri": st.I,
					"interval": st.Interval, "tag": st.Tag, "method": method})
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(st.Timeout)*time.Millisecond)
				req, _ := http.NewRequestWithContext(ctx, method, base+ep+"?name="+url.QueryEscape(name)+q+"&stage-id="+s, bytes.NewReader(body))
				resp, err := cl.Do(req)
				code := 0
				ev := map[string]interface{}{"e": "resp", "id": id, "op": st.Op}
				if err == nil {
					b, err := io.ReadAll(resp.Body)
					resp.Body.Close()
					if err == nil {
						code = resp.StatusCode
						switch st.Op {
						case "getboot":
							var c struct{ Name, Id string }
							if json.Unmarshal(b, &c) == nil {
								ev["stage"], ev["sid"] = c.Name, c.Id
								if code == 200 {
									sid = c.Id
								}
							}
						case "file":
							ev["file"] = strings.SplitN(string(b), "\n", 2)[0]
						}
					}
				}
				cancel()
				ev["code"] = code
				log.put(ev)
				if code == 205 {
					break SEG
				}
				if code == 200 {
					break
				}
				if try >= st.Retry {
					if st.Stop {
						break SEG
					}
					break
				}
				time.Sleep(time.Duration(st.Wait) * time.Millisecond)
			}
		}
	}
}

func runRemotes(rs []*Remote, base string, log *evlog, quit chan struct{}) *sync.WaitGroup {
	var wg sync.WaitGroup
	for _, r := range rs {
		wg.Add(1)
		go func(r *Remote) {
			defer wg.Done()
			r.run(base, log, quit)
		}(r)
	}
	return &wg
}

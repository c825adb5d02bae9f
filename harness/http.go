package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/stats"
)

// A scripted server for a real finch --client: it serves one stage and fails requests
// as told.

type HTTPFault struct {
	Ep  string `json:"ep"`  // boot file ack run ping stats done
	Nth []int  `json:"nth"` // which requests to that endpoint (1..)
	Act string `json:"act"` // drop (no response), half (processed, response lost), 500, slow (no answer for a while), cut (truncated body)
}

type HTTPScript struct {
	Stage    string      `json:"stage"` // stage file, relative to the scenario's srv/ directory
	Id       string      `json:"id"`
	Faults   []HTTPFault `json:"faults"`
	BootWait int         `json:"bootwait"` // ms
	RunWait  int         `json:"runwait"`  // ms before GET /run is answered
	Reset    bool        `json:"reset"`    // GET /run: 205
	StopAt   int         `json:"stopat"`   // ms after the run signal: ping answers 205; 0 never
	LostAt   int         `json:"lostat"`   // ms after the run signal: nothing is answered; 0 never
}

type httpServer struct {
	ln    net.Listener
	s     *HTTPScript
	log   *evlog
	dir   string
	mu    sync.Mutex
	n     map[string]int
	runAt time.Time
	stage *config.Stage
}

func startHTTP(s *HTTPScript, l *evlog, dir string) *httpServer {
	h := &httpServer{s: s, log: l, dir: dir, n: map[string]int{}}
	var err error
	h.ln, err = net.Listen("tcp", "127.0.0.1:0")
	fatal(err)
	// one connection per request: net/http silently repeats a GET on a reused connection that was closed
	hs := &http.Server{Handler: h}
	hs.SetKeepAlivesEnabled(false)
	go hs.Serve(h.ln)
	return h
}

// load the stage like the server does; called when its files exist
func (h *httpServer) load() {
	srv := filepath.Join(h.dir, "srv")
	cwd, _ := os.Getwd()
	st, err := config.Load([]string{filepath.Join(srv, h.s.Stage)}, nil, "", "")
	fatal(err)
	os.Chdir(cwd)
	st[0].Id = h.s.Id
	h.mu.Lock()
	h.stage = &st[0]
	h.mu.Unlock()
}

func (h *httpServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	ep := strings.TrimPrefix(r.URL.Path, "/")
	if r.Method == "POST" {
		ep = map[string]string{"boot": "ack", "run": "done"}[ep] + map[bool]string{true: ep}[ep != "boot" && ep != "run"]
	}
	q := r.URL.Query()
	sum := sha1.Sum(body)
	ev := map[string]interface{}{"e": "hreq", "ep": ep, "method": r.Method, "name": q.Get("name"), "sid": q.Get("stage-id"),
		"hash": hex.EncodeToString(sum[:4]), "len": len(body)}
	h.mu.Lock()
	h.n[ep]++
	n := h.n[ep]
	act := ""
	for _, f := range h.s.Faults {
		for _, k := range f.Nth {
			if f.Ep == ep && k == n {
				act = f.Act
			}
		}
	}
	lost := h.s.LostAt > 0 && !h.runAt.IsZero() && time.Since(h.runAt) > time.Duration(h.s.LostAt)*time.Millisecond
	stop := h.s.StopAt > 0 && !h.runAt.IsZero() && time.Since(h.runAt) > time.Duration(h.s.StopAt)*time.Millisecond
	stage := h.stage
	h.mu.Unlock()
	if lost {
		act = "drop"
	}
	code := 200
	var out []byte
	switch ep {
	case "boot":
		out, _ = json.Marshal(stage)
	case "file":
		i, err := strconv.Atoi(q.Get("i"))
		ev["ri"] = i
		if err != nil || i < 0 || i >= len(stage.Trx) {
			code = 400
		} else {
			b, err := os.ReadFile(filepath.Join(h.dir, "srv", stage.Trx[i].File))
			if err != nil {
				code = 500
			}
			out = b
		}
	case "ack", "done":
		ev["body"] = string(body)
	case "run":
		if h.s.Reset {
			code = 205
		} else {
			out = []byte{0}
		}
	case "ping":
		if stop {
			code = 205
		}
	case "stats":
		var in stats.Instance
		if err := json.Unmarshal(body, &in); err != nil {
			ev["bad"] = true
		} else {
			ev["interval"], ev["host"] = in.Interval, in.Hostname
			if in.Total != nil {
				ev["total"] = statMap(in.Total)
			}
		}
	default:
		code = 404
	}
	if act == "500" {
		code, out = 500, nil
	}
	ev["act"], ev["code"] = act, code
	if act == "drop" || act == "half" || act == "slow" || act == "cut" {
		ev["code"] = 0
	}
	h.log.put(ev)
	switch act {
	case "drop", "half":
		if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
		return
	case "slow":
		select {
		case <-r.Context().Done():
		case <-time.After(65 * time.Second):
		}
		return
	case "cut":
		w.Header().Set("Content-Length", strconv.Itoa(len(out)+10))
		w.WriteHeader(200)
		w.Write(out)
		return
	}
	if ep == "boot" {
		time.Sleep(time.Duration(h.s.BootWait) * time.Millisecond)
	}
	if ep == "run" && act == "" {
		select {
		case <-r.Context().Done():
			return
		case <-time.After(time.Duration(h.s.RunWait) * time.Millisecond):
		}
		h.mu.Lock()
		h.runAt = time.Now()
		h.mu.Unlock()
		h.log.put(map[string]interface{}{"e": "hrun", "code": code})
	}
	w.WriteHeader(code)
	w.Write(out)
}

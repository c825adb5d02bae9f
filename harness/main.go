package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// evlog is the single totally ordered event log of a scenario.
type evlog struct {
	mu   sync.Mutex
	t0   time.Time
	w    *bufio.Writer
	n    int
	cond func(map[string]interface{})
	max  int           // more events than this: a run that doesn't end
	full chan struct{} // closed then; only the end of the run is logged after that
}

func (l *evlog) put(ev map[string]interface{}) {
	l.mu.Lock()
	if l.max > 0 && l.n >= l.max {
		if l.full != nil {
			close(l.full)
			l.full = nil
		}
		if e := ev["e"]; e != "timeout" && e != "exit" {
			l.mu.Unlock()
			return
		}
	}
	l.n++
	ev["i"] = l.n
	ev["t"] = time.Since(l.t0).Microseconds()
	b, _ := json.Marshal(ev)
	l.w.Write(b)
	l.w.WriteByte('\n')
	f := l.cond
	l.mu.Unlock()
	if f != nil {
		f(ev)
	}
}

type Proc struct {
	Inst   string            `json:"inst"`
	Args   []string          `json:"args"`
	Env    map[string]string `json:"env"`
	Sigint []int             `json:"sigint"` // ms after start; or
	SigOn  string            `json:"sigon"`  // "stage trx stmt" tag: on first (or SigN-th) matching q event
	SigN   int               `json:"sign"`
	After  int               `json:"after"` // start delay ms
	Kill   int               `json:"kill"`  // kill -9 after ms
	Cwd    string            `json:"cwd"`   // relative to dir
	Host   string            `json:"host"`  // own hostname (own user and UTS namespace)
	Again  int               `json:"again"` // start it again that often when it ends (Inst_2, Inst_3...)
}

type Scenario struct {
	ID      string            `json:"id"`
	Dir     string            `json:"dir"`
	Files   map[string]string `json:"files"`
	Procs   []*Proc           `json:"procs"`
	MySQL   MySQLCfg          `json:"mysql"`
	Unix    bool              `json:"unix"`
	Timeout int               `json:"timeout"` // ms
	MaxEv   int               `json:"maxev"`   // events, 0 = no limit
	Child   string            `json:"child"`
	Ports   int               `json:"ports"`   // number of free ports to allot: {{port1}}...
	WaitFor string            `json:"waitfor"` // inst whose exit ends the scenario ("" = all)
	HTTP    *HTTPScript       `json:"http"`    // scripted server for --client
	Remotes []*Remote         `json:"remotes"` // scripted remotes for --server on port1
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run SCENARIO OUT | child ARGS... | MODE ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "run":
		runScenarios(os.Args[2:])
	case "child":
		child(os.Args[2:])
	default:
		if f, ok := modes[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(3)
	}
}

var modes = map[string]func([]string){}

func runScenarios(files []string) {
	for _, f := range files {
		b, err := os.ReadFile(f)
		fatal(err)
		var sc Scenario
		fatal(json.Unmarshal(b, &sc))
		runScenario(&sc, f)
	}
}

func runScenario(sc *Scenario, file string) {
	dir := sc.Dir
	fatal(os.MkdirAll(dir, 0755))
	out, err := os.Create(filepath.Join(dir, "trace.ndjson"))
	fatal(err)
	full := make(chan struct{})
	log := &evlog{t0: time.Now(), w: bufio.NewWriter(out), max: sc.MaxEv, full: full}
	srv := &fakeMySQL{cfg: sc.MySQL, log: log}
	fatal(srv.start())
	repl := []string{"{{addr}}", srv.ln.Addr().String(), "{{dir}}", dir}
	_, mport, _ := net.SplitHostPort(srv.ln.Addr().String())
	repl = append(repl, "{{mport}}", mport)
	if sc.Unix {
		p := filepath.Join(dir, "my.sock")
		fatal(srv.startUnix(p))
		repl = append(repl, "{{sock}}", p)
	}
	for i := 1; i <= sc.Ports; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		fatal(err)
		_, p, _ := net.SplitHostPort(ln.Addr().String())
		ln.Close()
		repl = append(repl, "{{port"+strconv.Itoa(i)+"}}", p)
	}
	var hs *httpServer
	if sc.HTTP != nil {
		hs = startHTTP(sc.HTTP, log, dir)
		_, p, _ := net.SplitHostPort(hs.ln.Addr().String())
		repl = append(repl, "{{hport}}", p)
	}
	rep := strings.NewReplacer(repl...)
	for name, text := range sc.Files {
		p := filepath.Join(dir, name)
		fatal(os.MkdirAll(filepath.Dir(p), 0755))
		fatal(os.WriteFile(p, []byte(rep.Replace(text)), 0644))
	}
	if hs != nil {
		hs.load()
	}
	// control channel: child events
	ctl, err := net.Listen("tcp", "127.0.0.1:0")
	fatal(err)
	go func() {
		for {
			c, err := ctl.Accept()
			if err != nil {
				return
			}
			go func() {
				r := bufio.NewReaderSize(c, 1<<20)
				for {
					line, err := r.ReadBytes('\n')
					if err != nil {
						return
					}
					var ev map[string]interface{}
					if json.Unmarshal(line, &ev) == nil {
						log.put(ev)
					}
					c.Write([]byte("ok\n"))
				}
			}()
		}
	}()
	self, _ := os.Executable()
	var wg sync.WaitGroup
	exited := make(chan string, len(sc.Procs))
	quit := make(chan struct{})
	rwg := runRemotes(sc.Remotes, "http://127.0.0.1:"+rep.Replace("{{port1}}"), log, quit)
	cmds := make([]*exec.Cmd, len(sc.Procs))
	var cmu sync.Mutex
	timedout := false
	runProc := func(i int, p *Proc) int {
		if p.After > 0 {
			time.Sleep(time.Duration(p.After) * time.Millisecond)
		}
		args := []string{"child"}
		for _, a := range p.Args {
			args = append(args, rep.Replace(a))
		}
		cmd := exec.Command(self, args...)
		cmd.Dir = dir
		if p.Cwd != "" {
			cmd.Dir = filepath.Join(dir, p.Cwd)
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmd.Env = append(os.Environ(), "VERIF_CTL="+ctl.Addr().String(), "VERIF_INST="+p.Inst, "TMPDIR="+dir)
		for k, v := range p.Env {
			cmd.Env = append(cmd.Env, k+"="+rep.Replace(v))
		}
		if p.Host != "" {
			cmd.SysProcAttr.Cloneflags = syscall.CLONE_NEWUSER | syscall.CLONE_NEWUTS
			cmd.SysProcAttr.UidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}}
			cmd.SysProcAttr.GidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}
			cmd.Env = append(cmd.Env, "VERIF_HOST="+p.Host)
		}
		lf, _ := os.Create(filepath.Join(dir, "log."+p.Inst))
		cmd.Stdout, cmd.Stderr = lf, lf
		cmu.Lock()
		select {
		case <-quit: // all others are being killed
			cmu.Unlock()
			lf.Close()
			return -98
		default:
		}
		log.put(map[string]interface{}{"e": "start", "inst": p.Inst})
		if err := cmd.Start(); err != nil {
			cmu.Unlock()
			log.put(map[string]interface{}{"e": "exit", "inst": p.Inst, "code": -99})
			return -99
		}
		cmds[i] = cmd
		cmu.Unlock()
		done := make(chan struct{})
		sig := func() {
			log.put(map[string]interface{}{"e": "sigint", "inst": p.Inst})
			cmd.Process.Signal(syscall.SIGINT)
		}
		for _, ms := range p.Sigint {
			go func(ms int) {
				select {
				case <-done:
				case <-time.After(time.Duration(ms) * time.Millisecond):
					sig()
				}
			}(ms)
		}
		if p.SigOn != "" {
			n := 0
			log.mu.Lock()
			log.cond = func(ev map[string]interface{}) {
				if ev["e"] != "q" || ev["kind"] != "stmt" {
					return
				}
				if fmt.Sprintf("%v %v %v", ev["stage"], ev["trx"], ev["stmt"]) != p.SigOn {
					return
				}
				cmu.Lock()
				n++
				k := n
				cmu.Unlock()
				if k == p.SigN || (p.SigN == 0 && k == 1) {
					go sig()
				}
			}
			log.mu.Unlock()
		}
		if p.Kill > 0 {
			go func() {
				select {
				case <-done:
				case <-time.After(time.Duration(p.Kill) * time.Millisecond):
					log.put(map[string]interface{}{"e": "kill", "inst": p.Inst})
					cmd.Process.Kill()
				}
			}()
		}
		err := cmd.Wait()
		close(done)
		code := 0
		if err != nil {
			code = -1
			if x, ok := err.(*exec.ExitError); ok {
				code = x.ExitCode()
			}
		}
		lf.Close()
		tail := ""
		if b, err := os.ReadFile(filepath.Join(dir, "log."+p.Inst)); err == nil {
			tail = string(b)
			if len(tail) > 6000 {
				tail = tail[:3000] + "\n...\n" + tail[len(tail)-3000:]
			}
		}
		log.put(map[string]interface{}{"e": "exit", "inst": p.Inst, "code": code, "killed": timedout, "log": tail})
		return code
	}
	for i, p := range sc.Procs {
		wg.Add(1)
		go func(i int, p *Proc) {
			defer wg.Done()
			for k := 0; k <= p.Again; k++ {
				q := *p
				if k > 0 {
					q.Inst, q.After = fmt.Sprintf("%s_%d", p.Inst, k+1), 0
				}
				if runProc(i, &q) != 0 {
					break
				}
			}
			exited <- p.Inst
		}(i, p)
	}
	to := sc.Timeout
	if to == 0 {
		to = 30000
	}
	deadline := time.After(time.Duration(to) * time.Millisecond)
	left := len(sc.Procs)
WAIT:
	for left > 0 {
		select {
		case inst := <-exited:
			left--
			if sc.WaitFor != "" && inst == sc.WaitFor {
				break WAIT
			}
		case <-full:
			timedout = true
			log.put(map[string]interface{}{"e": "timeout"})
			break WAIT
		case <-deadline:
			timedout = true
			log.put(map[string]interface{}{"e": "timeout"})
			break WAIT
		}
	}
	close(quit)
	cmu.Lock()
	for _, c := range cmds {
		if c != nil && c.Process != nil {
			c.Process.Kill()
		}
	}
	cmu.Unlock()
	wg.Wait()
	rwg.Wait()
	log.put(map[string]interface{}{"e": "end"})
	log.mu.Lock()
	log.w.Flush()
	log.mu.Unlock()
	out.Close()
	io.WriteString(os.Stdout, sc.ID+" done\n")
}

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/square/finch/boot"
	"github.com/square/finch/config"
)

// Loads stage files with the real code and records the resulting stages as
// a list of settings (path, value).

type csetting struct {
	P []string `json:"p"`
	V string   `json:"v"`
}

type cstage struct {
	N    uint       `json:"n"`
	File string     `json:"file"`
	Set  []csetting `json:"set"`
}

type confcase struct {
	Files map[string]string `json:"files"` // relative to root
	Argv  []string          `json:"argv"`  // command line; "@/x" is absolute
	Env   map[string]string `json:"env"`

	Err   string   `json:"err"`
	Panic string   `json:"panic"`
	Cwd   bool     `json:"cwd"`
	Out   []cstage `json:"out"`
}

func flattenStage(root string, s config.Stage) cstage {
	c := cstage{N: s.N, File: s.File, Set: []csetting{}}
	if r, err := filepath.Rel(root, s.File); err == nil && filepath.IsAbs(s.File) {
		c.File = r
	}
	add := func(v string, p ...string) {
		if v != "" {
			c.Set = append(c.Set, csetting{P: p, V: v})
		}
	}
	any := func(v string, p ...string) {
		c.Set = append(c.Set, csetting{P: p, V: v})
	}
	yes := func(b bool, p ...string) {
		if b {
			any("true", p...)
		}
	}
	add(s.Name, "name")
	yes(s.Disable, "disable")
	add(s.Runtime, "runtime")
	add(s.QPS, "qps")
	add(s.TPS, "tps")
	add(s.Compute.Instances, "compute", "instances")
	yes(s.Compute.DisableLocal, "compute", "disable-local")
	m := s.MySQL
	add(m.Db, "mysql", "db")
	add(m.DSN, "mysql", "dsn")
	add(m.Hostname, "mysql", "hostname")
	add(m.MyCnf, "mysql", "mycnf")
	add(m.Password, "mysql", "password")
	add(m.PasswordFile, "mysql", "password-file")
	add(m.Socket, "mysql", "socket")
	add(m.TimeoutConnect, "mysql", "timeout-connect")
	add(m.Username, "mysql", "username")
	yes(config.True(m.DisableAutoTLS), "mysql", "disable-auto-tls")
	add(m.TLS.CA, "tls", "ca")
	add(m.TLS.Cert, "tls", "cert")
	add(m.TLS.Key, "tls", "key")
	yes(config.True(m.TLS.SkipVerify), "tls", "skip-verify")
	yes(config.True(m.TLS.Disable), "tls", "disable")
	yes(config.True(s.Stats.Disable), "stats", "disable")
	add(s.Stats.Freq, "stats", "freq")
	for r, o := range s.Stats.Report {
		any("", "report", r)
		for k, v := range o {
			any(v, "report", r, k)
		}
	}
	for k, v := range s.Params {
		any(v, "params", k)
	}
	for i, t := range s.Trx {
		n := fmt.Sprint(i + 1)
		add(t.Name, "trx", n, "name")
		add(t.File, "trx", n, "file")
		for k, d := range t.Data {
			add(d.Name, "trx", n, "data", k, "name")
			add(d.Generator, "trx", n, "data", k, "generator")
			add(d.Scope, "trx", n, "data", k, "scope")
			for p, v := range d.Params {
				any(v, "trx", n, "data", k, "params", p)
			}
		}
	}
	for i, w := range s.Workload {
		n := fmt.Sprint(i + 1)
		add(w.Clients, "workload", n, "clients")
		add(w.Db, "workload", n, "db")
		yes(w.DisableStats, "workload", n, "disable-stats")
		add(w.Iter, "workload", n, "iter")
		add(w.IterClients, "workload", n, "iter-clients")
		add(w.IterExecGroup, "workload", n, "iter-exec-group")
		add(w.Group, "workload", n, "group")
		add(w.QPS, "workload", n, "qps")
		add(w.QPSClients, "workload", n, "qps-clients")
		add(w.QPSExecGroup, "workload", n, "qps-exec-group")
		add(w.Runtime, "workload", n, "runtime")
		add(w.TPS, "workload", n, "tps")
		add(w.TPSClients, "workload", n, "tps-clients")
		add(w.TPSExecGroup, "workload", n, "tps-exec-group")
		for j, t := range w.Trx {
			add(t, "workload", n, "trx", fmt.Sprint(j+1))
		}
	}
	return c
}

func runConfigCase(c *confcase) {
	defer func() {
		if e := recover(); e != nil {
			c.Panic = fmt.Sprint(e)
		}
	}()
	root, err := os.MkdirTemp("", "conf")
	fatal(err)
	root, err = filepath.EvalSymlinks(root)
	fatal(err)
	defer os.RemoveAll(root)
	for f, text := range c.Files {
		f = filepath.Join(root, f)
		fatal(os.MkdirAll(filepath.Dir(f), 0o755))
		fatal(os.WriteFile(f, []byte(text), 0o644))
	}
	fatal(os.Chdir(root))
	defer os.Chdir("/")
	for k, v := range c.Env {
		os.Setenv(k, v)
		defer os.Unsetenv(k)
	}
	args := []string{}
	for _, a := range c.Argv {
		if strings.HasPrefix(a, "@/") {
			a = filepath.Join(root, a[2:])
		}
		args = append(args, a)
	}
	opt, err := boot.ParseCommandLine(args)
	if err == nil && (len(opt.Args) == 0 || opt.Args[0] != "finch") {
		c.Panic = fmt.Sprint("positional arguments ", opt.Args)
		return
	}
	var stages []config.Stage
	if err == nil {
		stages, err = config.Load(opt.Args[1:], opt.Params, opt.DSN, opt.Database) // as boot.Up does
	}
	cwd, _ := os.Getwd()
	c.Cwd = cwd == root
	if err != nil {
		c.Err = "?" + err.Error()
		return
	}
	for _, s := range stages {
		c.Out = append(c.Out, flattenStage(root, s))
	}
}

func init() {
	modes["config"] = func(args []string) {
		log.SetOutput(io.Discard)
		b, err := io.ReadAll(os.Stdin)
		fatal(err)
		var cs []*confcase
		fatal(json.Unmarshal(b, &cs))
		for _, c := range cs {
			c.Out = []cstage{}
			runConfigCase(c)
		}
		fatal(json.NewEncoder(os.Stdout).Encode(cs))
	}
}

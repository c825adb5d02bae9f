package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"log"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/square/finch/boot"
	"github.com/square/finch/data"
	"github.com/square/finch/stats"
)

// The child process: real finch, with a reporter and data generators that make
// what finch does observable.

var ctlMu sync.Mutex
var ctlConn net.Conn
var ctlR *bufio.Reader

func emit(ev map[string]interface{}) {
	ctlMu.Lock()
	defer ctlMu.Unlock()
	if ctlConn == nil {
		return
	}
	ev["inst"] = os.Getenv("VERIF_INST")
	b, _ := json.Marshal(ev)
	ctlConn.Write(append(b, '\n'))
	ctlR.ReadString('\n')
}

type repFactory struct{}

func (repFactory) Make(name string, opts map[string]string) (stats.Reporter, error) {
	o := map[string]string{}
	for k, v := range opts {
		o[k] = v
	}
	emit(map[string]interface{}{"e": "mkrep", "opts": o})
	return &rep{}, nil
}

type rep struct{}

func statMap(s *stats.Stats) map[string]interface{} {
	er := [][]uint64{}
	for k, v := range s.Errors {
		if v > 0 {
			er = append(er, []uint64{uint64(k), v})
		}
	}
	bs := make([]uint64, len(s.Buckets))
	for i := range s.Buckets {
		for _, n := range s.Buckets[i] {
			bs[i] += n
		}
	}
	return map[string]interface{}{"n": s.N, "min": s.Min, "max": s.Max, "errs": er, "bsum": bs}
}

func (r *rep) Report(from []stats.Instance) {
	ins := []map[string]interface{}{}
	for _, in := range from {
		m := map[string]interface{}{"host": in.Hostname, "clients": in.Clients, "interval": in.Interval,
			"sec": int64(in.Seconds * 1e6), "runtime": int64(in.Runtime * 1e6)}
		if in.Total != nil {
			m["total"] = statMap(in.Total)
		}
		t := map[string]interface{}{}
		for k, v := range in.Trx {
			t[k] = statMap(v)
		}
		m["trx"] = t
		ins = append(ins, m)
	}
	emit(map[string]interface{}{"e": "report", "from": ins})
}

func (r *rep) Stop() { emit(map[string]interface{}{"e": "repstop"}) }

// rc generator: prints the run count it is called with
type rcGen struct{}

func (g rcGen) Format() (uint, string) { return 1, "%s" }
func (g rcGen) Copy() data.Generator   { return rcGen{} }
func (g rcGen) Scan(interface{}) error { return nil }
func (g rcGen) Name() string           { return "verif-rc" }
func (g rcGen) Values(rc data.RunCount) []interface{} {
	s := make([]string, len(rc))
	for i := range rc {
		s[i] = strconv.FormatUint(uint64(rc[i]), 10)
	}
	return []interface{}{os.Getenv("VERIF_INST") + "|" + strings.Join(s, ",")}
}

// value generator: key#copy#n, n counts calls of this copy
var copies uint64

type vGen struct {
	key  string
	cp   uint64
	n    uint64
	many int
	prm  string
}

func (g *vGen) Format() (uint, string) {
	if g.many > 1 {
		return uint(g.many), "%s" // further values are used through @PREV
	}
	return 1, "%s"
}
func (g *vGen) Copy() data.Generator {
	return &vGen{key: g.key, cp: atomic.AddUint64(&copies, 1), many: g.many, prm: g.prm}
}
func (g *vGen) Scan(interface{}) error { return nil }
func (g *vGen) Name() string           { return "verif-gen" }
func (g *vGen) Values(rc data.RunCount) []interface{} {
	n := atomic.AddUint64(&g.n, 1)
	if g.many > 1 {
		out := []interface{}{}
		for i := 0; i < g.many; i++ {
			out = append(out, fmt.Sprintf("%s#%d#%d#%d#%s", g.key, g.cp, n, i, g.prm))
		}
		return out
	}
	return []interface{}{fmt.Sprintf("%s#%d#%d#0#%s", g.key, g.cp, n, g.prm)}
}

type genFactory struct{}

func (genFactory) Make(name, dataKey string, params map[string]string) (data.Generator, error) {
	switch name {
	case "verif-rc":
		return rcGen{}, nil
	case "verif-gen":
		many, _ := strconv.Atoi(params["many"])
		return &vGen{key: strings.TrimPrefix(dataKey, "@"), many: many, prm: params["p"]}, nil
	}
	return nil, fmt.Errorf("no generator %s", name)
}

func child(args []string) {
	if h := os.Getenv("VERIF_HOST"); h != "" {
		fatal(syscall.Sethostname([]byte(h)))
	}
	if a := os.Getenv("VERIF_CTL"); a != "" {
		c, err := net.Dial("tcp", a)
		fatal(err)
		ctlConn = c
		ctlR = bufio.NewReader(c)
	}
	fatal(stats.Register("verif", repFactory{}))
	fatal(data.Register("verif-rc", genFactory{}))
	fatal(data.Register("verif-gen", genFactory{}))
	if err := boot.Up(boot.Env{Args: args}); err != nil {
		log.Fatal(err)
	}
}

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strconv"

	"github.com/square/finch"
	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/trx"
)

// Loads trx files with the real code and records the statements.

type tkey struct {
	Gen    string            `json:"gen"`
	Scope  string            `json:"scope"`
	Params map[string]string `json:"params"`
	Quoted bool              `json:"quoted"`
	Plain  string            `json:"plain"`
}

type tfile struct {
	Name string `json:"name"`
	Path string `json:"path"`
	Text string `json:"text"`
}

type tstmt struct {
	Trx      string   `json:"trx"`
	Text     string   `json:"text"`
	Inputs   []string `json:"inputs"`
	Calls    []int    `json:"calls"`
	Outputs  []string `json:"outputs"`
	InsertId string   `json:"insertid"`
	Prepare  bool     `json:"prepare"`
	Read     bool     `json:"read"`
	Begin    bool     `json:"begin"`
	Commit   bool     `json:"commit"`
	Write    bool     `json:"write"`
	DDL      bool     `json:"ddl"`
	Idle     int64    `json:"idle"`
	Limited  bool     `json:"limited"`
	Multi    int      `json:"multi"`
}

type tout struct {
	Stmts []tstmt `json:"stmts"`
	DDL   bool    `json:"ddl"`
}

type tcase struct {
	Files  []tfile           `json:"files"`
	Data   map[string]tkey   `json:"data"`
	Params map[string]string `json:"params"`

	Err   string            `json:"err"`
	Panic string            `json:"panic"`
	Order []string          `json:"order"`
	Out   []tout            `json:"out"`
	Keys  map[string]string `json:"keys"`
}

// the text sent to MySQL when the n-th value is a known value
func (c *tcase) text(s *trx.Statement) string {
	if len(s.Inputs) == 0 || s.Prepare {
		return s.Query
	}
	vals := []interface{}{}
	last := ""
	for i, k := range s.Inputs {
		if k != "@PREV" {
			last = k
		}
		n := strconv.Itoa(i + 1)
		d, ok := c.Data[last]
		switch {
		case ok && !d.Quoted && d.Plain != "s":
			v, err := strconv.Atoi(d.Plain + n)
			fatal(err)
			vals = append(vals, v)
		default:
			vals = append(vals, "s"+n)
		}
	}
	return fmt.Sprintf(s.Query, vals...)
}

func runTrxCase(c *tcase) {
	defer func() {
		if e := recover(); e != nil {
			c.Panic = "?" + fmt.Sprint(e)
		}
	}()
	root, err := os.MkdirTemp("", "trx")
	fatal(err)
	defer os.RemoveAll(root)
	list := []config.Trx{}
	for _, f := range c.Files {
		p := filepath.Join(root, f.Path)
		fatal(os.MkdirAll(filepath.Dir(p), 0o755))
		fatal(os.WriteFile(p, []byte(f.Text), 0o644))
		t := config.Trx{Name: f.Name, File: p, Data: map[string]config.Data{}}
		for k, d := range c.Data {
			t.Data[k[1:]] = config.Data{Generator: d.Gen, Scope: d.Scope, Params: d.Params}
		}
		list = append(list, t)
	}
	scope := data.NewScope()
	set, err := trx.Load(list, scope, c.Params)
	if err != nil {
		c.Err = "?" + err.Error()
		return
	}
	c.Order = set.Order
	for _, f := range c.Files {
		o := tout{Stmts: []tstmt{}, DDL: set.Meta[f.Name].DDL}
		for _, s := range set.Statements[f.Name] {
			r := tstmt{Trx: s.Trx, Text: c.text(s), Inputs: []string{}, Calls: []int{}, Outputs: []string{}, InsertId: s.InsertId,
				Prepare: s.Prepare, Read: s.ResultSet, Begin: s.Begin, Commit: s.Commit, Write: s.Write, DDL: s.DDL,
				Idle: s.Idle.Milliseconds(), Limited: s.Limit != nil, Multi: s.PrepareMulti}
			r.Inputs = append(r.Inputs, s.Inputs...)
			r.Outputs = append(r.Outputs, s.Outputs...)
			for _, b := range s.Calls {
				r.Calls = append(r.Calls, int(b))
			}
			o.Stmts = append(o.Stmts, r)
		}
		c.Out = append(c.Out, o)
	}
	for k := range set.Data.Keys {
		if k == finch.NOOP_COLUMN {
			continue
		}
		set.Data.Copy(k, finch.RunLevel{}) // resolves the default scope
		c.Keys[k] = set.Data.Keys[k].Scope
	}
}

func init() {
	modes["trxfile"] = func(args []string) {
		log.SetOutput(io.Discard)
		out := os.Stdout
		os.Stdout, _ = os.Open(os.DevNull) // finch prints notes
		b, err := io.ReadAll(os.Stdin)
		fatal(err)
		var cs []*tcase
		fatal(json.Unmarshal(b, &cs))
		for _, c := range cs {
			c.Order, c.Out, c.Keys = []string{}, []tout{}, map[string]string{}
			runTrxCase(c)
		}
		fatal(json.NewEncoder(out).Encode(cs))
	}
}

package main

// A scripted MySQL server: just enough of the protocol for go-sql-driver, with
// rules that inject errors, delays, drops, result sets.  Everything that
// happens is written to the event log in one total order.

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha1"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Rule struct {
	On    string `json:"on"`    // query (default), prepare, use, connect, rollback
	Re    string `json:"re"`    // regexp on text, optional
	Tag   string `json:"tag"`   // "stage trx stmt" exact, optional
	Nth   []int  `json:"nth"`   // 1-based match counts to apply at; empty: all
	Every int    `json:"every"` // apply each Every-th match
	PerC  bool   `json:"perc"`  // count matches per connection
	Code  int    `json:"code"`
	Late  bool   `json:"late"` // result sets: the error comes after the rows
	Drop  bool   `json:"drop"` // close connection instead of answering
	Delay int    `json:"delay"`
	Hold  int    `json:"hold"` // wait until that many statements are held by this rule (or 2.5 s)
	Aff   *int64 `json:"aff"`
	Iid   *int64 `json:"iid"`
	Rows  *int   `json:"rows"`
	Bytes *int64 `json:"bytes"` // information_schema answer
	re    *regexp.Regexp
	n     int
	nc    map[int]int
	held  int
	relCh chan struct{}
}

type MySQLCfg struct {
	Rules       []*Rule             `json:"rules"`
	Jitter      []int               `json:"jitter"` // us lo, hi
	Seed        int64               `json:"seed"`
	Users       map[string]string   `json:"users"`     // user -> password to check; nil: accept all
	Tables      map[string][]string `json:"tables"`    // db -> "name[:view]"
	BytesPerRow int64               `json:"bpr"`       // size of table = affected*bpr
	Passwords   []string            `json:"passwords"` // candidates to identify auth response
	TLS         bool                `json:"tls"`
	Binary      bool                `json:"binary"`
}

type fakeMySQL struct {
	cfg    MySQLCfg
	log    *evlog
	ln     net.Listener
	ln2    net.Listener // unix
	mu     sync.Mutex
	rng    *rand.Rand
	nconn  int
	iid    int64
	val    int64
	rowsOf map[string]int64 // table -> affected
	anal   map[string]int64 // table -> rows as of the last ANALYZE TABLE
	tlsCfg *tls.Config
	conns  map[net.Conn]bool
}

func (s *fakeMySQL) start() error {
	s.rng = rand.New(rand.NewSource(s.cfg.Seed + 1))
	s.rowsOf = map[string]int64{}
	s.anal = map[string]int64{}
	s.conns = map[net.Conn]bool{}
	s.iid = 1000
	for _, r := range s.cfg.Rules {
		if r.Re != "" {
			r.re = regexp.MustCompile(r.Re)
		}
		r.nc = map[int]int{}
		r.relCh = make(chan struct{})
	}
	if s.cfg.TLS {
		s.tlsCfg = selfSigned()
	}
	var err error
	s.ln, err = net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	go s.accept(s.ln, "tcp")
	return nil
}

func (s *fakeMySQL) startUnix(path string) error {
	ln, err := net.Listen("unix", path)
	if err != nil {
		return err
	}
	s.ln2 = ln
	go s.accept(ln, "unix")
	return nil
}

func (s *fakeMySQL) accept(ln net.Listener, nt string) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		s.nconn++
		id := s.nconn
		s.mu.Unlock()
		go s.serve(c, id, nt)
	}
}

func selfSigned() *tls.Config {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true,
		BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
		DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
	der, _ := x509.CreateCertificate(crand.Reader, tpl, tpl, &key.PublicKey, key)
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
}

type myconn struct {
	s    *fakeMySQL
	c    net.Conn
	r    *bufio.Reader
	id   int
	seq  byte
	caps uint32
	user string
	db   string
	ps   map[uint32]*pstmt
	nps  uint32
	snap map[string]int64 // rows of all tables at the last ANALYZE TABLE
}

// bufconn is a connection whose first bytes were read into a buffer.
type bufconn struct {
	net.Conn
	r *bufio.Reader
}

func (b bufconn) Read(p []byte) (int, error) { return b.r.Read(p) }

type pstmt struct {
	text string
	n    int
}

func (m *myconn) read() ([]byte, error) {
	var out []byte
	for {
		h := make([]byte, 4)
		if _, err := io.ReadFull(m.r, h); err != nil {
			return nil, err
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		m.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(m.r, b); err != nil {
			return nil, err
		}
		out = append(out, b...)
		if n < 0xffffff {
			return out, nil
		}
	}
}

func (m *myconn) frame(b []byte) []byte {
	h := []byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), m.seq}
	m.seq++
	return append(h, b...)
}

func (m *myconn) write(pkts ...[]byte) error {
	var out []byte
	for _, p := range pkts {
		out = append(out, m.frame(p)...)
	}
	_, err := m.c.Write(out)
	return err
}

func lenenc(n uint64) []byte {
	switch {
	case n < 251:
		return []byte{byte(n)}
	case n < 1<<16:
		return []byte{0xfc, byte(n), byte(n >> 8)}
	case n < 1<<24:
		return []byte{0xfd, byte(n), byte(n >> 8), byte(n >> 16)}
	}
	b := make([]byte, 9)
	b[0] = 0xfe
	binary.LittleEndian.PutUint64(b[1:], n)
	return b
}
func lestr(s string) []byte { return append(lenenc(uint64(len(s))), s...) }

func okPkt(aff, iid int64) []byte {
	b := []byte{0}
	b = append(b, lenenc(uint64(aff))...)
	b = append(b, lenenc(uint64(iid))...)
	return append(b, 2, 0, 0, 0)
}
func errPkt(code int, msg string) []byte {
	b := []byte{0xff, byte(code), byte(code >> 8)}
	return append(b, []byte("#HY000"+msg)...)
}

var eofPkt = []byte{0xfe, 0, 0, 2, 0}

func colDef(name string, typ byte) []byte {
	b := lestr("def")
	b = append(b, lestr("")...)
	b = append(b, lestr("")...)
	b = append(b, lestr("")...)
	b = append(b, lestr(name)...)
	b = append(b, lestr(name)...)
	b = append(b, 0x0c, 33, 0, 255, 255, 0, 0, typ, 0, 0, 0, 0, 0)
	return b
}

func scramble(scr []byte, pw string) []byte {
	if pw == "" {
		return nil
	}
	h1 := sha1.Sum([]byte(pw))
	h2 := sha1.Sum(h1[:])
	h := sha1.New()
	h.Write(scr)
	h.Write(h2[:])
	x := h.Sum(nil)
	for i := range x {
		x[i] ^= h1[i]
	}
	return x
}

func (s *fakeMySQL) rule(m *myconn, on, text, tag string) []*Rule {
	var out []*Rule
	for _, r := range s.cfg.Rules {
		ron := r.On
		if ron == "" {
			ron = "query"
		}
		if ron != on {
			continue
		}
		if r.Tag != "" && r.Tag != tag {
			continue
		}
		if r.re != nil && !r.re.MatchString(text) {
			continue
		}
		r.n++
		n := r.n
		if r.PerC {
			r.nc[m.id]++
			n = r.nc[m.id]
		}
		ok := len(r.Nth) == 0 && r.Every == 0
		for _, k := range r.Nth {
			if k == n {
				ok = true
			}
		}
		if r.Every > 0 && n%r.Every == 0 {
			ok = true
		}
		if ok {
			out = append(out, r)
		}
	}
	return out
}

var tagRe = regexp.MustCompile(`/\*V (\S+) (\S+) (\S+) ((?:\w=\S+ )*)(\S+)\*/`)
var useRe = regexp.MustCompile(`u\(([\w-]+),([^()]*)\)`)

func (s *fakeMySQL) serve(c net.Conn, id int, nt string) {
	s.mu.Lock()
	s.conns[c] = true
	s.mu.Unlock()
	defer c.Close()
	m := &myconn{s: s, c: c, r: bufio.NewReader(c), id: id, ps: map[uint32]*pstmt{}}
	s.mu.Lock()
	rules := s.rule(m, "connect", "", "")
	s.mu.Unlock()
	for _, r := range rules {
		if r.Delay > 0 {
			time.Sleep(time.Duration(r.Delay) * time.Millisecond)
		}
		if r.Drop {
			s.log.put(map[string]interface{}{"e": "refused", "c": id})
			return
		}
		if r.Code > 0 {
			s.log.put(map[string]interface{}{"e": "refused", "c": id})
			m.write(errPkt(r.Code, "injected"))
			return
		}
	}
	scr := make([]byte, 20)
	for i := range scr {
		scr[i] = byte(33 + (id*7+i*13)%90)
	}
	caps := uint32(0x00000001 | 0x4 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x80000 | 0x20000 | 0x10000)
	if s.tlsCfg != nil {
		caps |= 0x800
	}
	h := []byte{10}
	h = append(h, []byte("8.0.36-verif\x00")...)
	h = append(h, byte(id), byte(id>>8), 0, 0)
	h = append(h, scr[:8]...)
	h = append(h, 0, byte(caps), byte(caps>>8), 33, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	h = append(h, make([]byte, 10)...)
	h = append(h, scr[8:]...)
	h = append(h, 0)
	h = append(h, []byte("mysql_native_password\x00")...)
	if m.write(h) != nil {
		return
	}
	p, err := m.read()
	if err != nil || len(p) < 32 {
		return
	}
	m.caps = binary.LittleEndian.Uint32(p)
	usedTLS := false
	sni, cert := "", ""
	if m.caps&0x800 != 0 && len(p) == 32 {
		cfg := s.tlsCfg.Clone()
		cfg.GetConfigForClient = func(h *tls.ClientHelloInfo) (*tls.Config, error) {
			sni = h.ServerName
			return nil, nil
		}
		tc := tls.Server(bufconn{c, m.r}, cfg) // m.r may hold the ClientHello already
		if err := tc.Handshake(); err != nil {
			s.log.put(map[string]interface{}{"e": "tlsfail", "c": id, "sni": sni})
			return
		}
		if pc := tc.ConnectionState().PeerCertificates; len(pc) > 0 {
			cert = pc[0].Subject.CommonName
		}
		sni = tc.ConnectionState().ServerName
		m.c = tc
		m.r = bufio.NewReader(tc)
		usedTLS = true
		if p, err = m.read(); err != nil || len(p) < 32 { // client refused the certificate
			s.log.put(map[string]interface{}{"e": "tlsfail", "c": id, "sni": sni})
			return
		}
	}
	b := p[32:]
	cstr := func() string {
		i := strings.IndexByte(string(b), 0)
		if i < 0 {
			x := string(b)
			b = nil
			return x
		}
		x := string(b[:i])
		b = b[i+1:]
		return x
	}
	m.user = cstr()
	var auth []byte
	if len(b) > 0 {
		n := int(b[0])
		auth = b[1 : 1+n]
		b = b[1+n:]
	}
	if m.caps&0x8 != 0 {
		m.db = cstr()
	}
	plugin := cstr()
	if plugin != "mysql_native_password" {
		m.write(append([]byte{0xfe}, append([]byte("mysql_native_password\x00"), append(append([]byte{}, scr...), 0)...)...))
		auth, err = m.read()
		if err != nil {
			return
		}
	}
	pw := "?"
	if len(auth) == 0 {
		pw = ""
	}
	for _, cand := range s.cfg.Passwords {
		if string(scramble(scr, cand)) == string(auth) {
			pw = cand
		}
	}
	if s.cfg.Users != nil {
		want, ok := s.cfg.Users[m.user]
		if !ok || string(scramble(scr, want)) != string(auth) {
			s.log.put(map[string]interface{}{"e": "denied", "c": id, "user": m.user, "pw": pw})
			m.write(errPkt(1045, "Access denied"))
			return
		}
	}
	s.log.put(map[string]interface{}{"e": "open", "c": id, "user": m.user, "pw": pw, "db": m.db, "net": nt, "tls": usedTLS, "sni": sni, "cert": cert})
	defer func() { s.log.put(map[string]interface{}{"e": "close", "c": id}) }()
	if m.write(okPkt(0, 0)) != nil {
		return
	}
	for {
		m.seq = 0
		p, err := m.read()
		if err != nil || len(p) == 0 {
			return
		}
		switch p[0] {
		case 1: // QUIT
			return
		case 14: // PING
			s.log.put(map[string]interface{}{"e": "ping", "c": id})
			if m.write(okPkt(0, 0)) != nil {
				return
			}
		case 2: // INIT_DB
			m.db = string(p[1:])
			if m.write(okPkt(0, 0)) != nil {
				return
			}
		case 3:
			if !m.query(string(p[1:]), nil, false) {
				return
			}
		case 22:
			if !m.prepare(string(p[1:])) {
				return
			}
		case 23:
			sid := binary.LittleEndian.Uint32(p[1:])
			st := m.ps[sid]
			if st == nil {
				m.write(errPkt(1243, "Unknown prepared statement"))
				continue
			}
			args, err := parseArgs(p[10:], st.n)
			if err != nil {
				m.write(errPkt(1210, err.Error()))
				continue
			}
			if !m.query(st.text, args, true) {
				return
			}
		case 25: // close stmt
			sid := binary.LittleEndian.Uint32(p[1:])
			if st := m.ps[sid]; st != nil {
				if tm := tagRe.FindStringSubmatch(st.text); tm != nil {
					m.s.log.put(map[string]interface{}{"e": "unprep", "c": m.id, "trx": tm[2], "stmt": tm[3]})
				}
			}
			delete(m.ps, sid)
		default:
			m.write(errPkt(1047, "unknown command"))
		}
	}
}

func parseArgs(b []byte, n int) ([]string, error) {
	if n == 0 {
		return []string{}, nil
	}
	nb := (n + 7) / 8
	null := b[:nb]
	if b[nb] != 1 {
		return nil, fmt.Errorf("types not bound")
	}
	types := b[nb+1 : nb+1+2*n]
	b = b[nb+1+2*n:]
	out := make([]string, n)
	for i := 0; i < n; i++ {
		if null[i/8]&(1<<(uint(i)%8)) != 0 {
			out[i] = "NULL"
			continue
		}
		switch types[2*i] {
		case 8:
			v := binary.LittleEndian.Uint64(b)
			b = b[8:]
			if types[2*i+1]&0x80 != 0 {
				out[i] = strconv.FormatUint(v, 10)
			} else {
				out[i] = strconv.FormatInt(int64(v), 10)
			}
		case 5:
			v := binary.LittleEndian.Uint64(b)
			b = b[8:]
			out[i] = strconv.FormatFloat(math.Float64frombits(v), 'g', -1, 64)
		case 1:
			out[i] = strconv.Itoa(int(int8(b[0])))
			b = b[1:]
		case 6:
			out[i] = "NULL"
		default:
			l := uint64(b[0])
			switch b[0] {
			case 0xfc:
				l = uint64(b[1]) | uint64(b[2])<<8
				b = b[3:]
			case 0xfd:
				l = uint64(b[1]) | uint64(b[2])<<8 | uint64(b[3])<<16
				b = b[4:]
			case 0xfe:
				l = binary.LittleEndian.Uint64(b[1:])
				b = b[9:]
			default:
				b = b[1:]
			}
			out[i] = string(b[:l])
			b = b[l:]
		}
	}
	return out, nil
}

func subst(text string, args []string) string {
	var sb strings.Builder
	k := 0
	for i := 0; i < len(text); i++ {
		if text[i] == '?' && k < len(args) {
			sb.WriteString(args[k])
			k++
		} else {
			sb.WriteByte(text[i])
		}
	}
	return sb.String()
}

// apply waits and returns the error code / drop to inject
func (s *fakeMySQL) pause(rules []*Rule) {
	d := 0
	for _, r := range rules {
		d += r.Delay
	}
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	} else if len(s.cfg.Jitter) == 2 {
		s.mu.Lock()
		us := s.cfg.Jitter[0] + s.rng.Intn(s.cfg.Jitter[1]-s.cfg.Jitter[0]+1)
		s.mu.Unlock()
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
	for _, r := range rules {
		if r.Hold > 0 {
			s.mu.Lock()
			r.held++
			if r.held == r.Hold {
				close(r.relCh)
			}
			s.mu.Unlock()
			select {
			case <-r.relCh:
				s.log.put(map[string]interface{}{"e": "held", "ok": true})
			case <-time.After(2500 * time.Millisecond):
				s.log.put(map[string]interface{}{"e": "held", "ok": false})
			}
		}
	}
}

func (m *myconn) prepare(text string) bool {
	s := m.s
	st := &pstmt{text: text, n: strings.Count(text, "?")}
	ev := map[string]interface{}{"e": "prep", "c": m.id, "text": text}
	tag := ""
	if tm := tagRe.FindStringSubmatch(text); tm != nil {
		ev["stage"], ev["trx"] = tm[1], tm[2]
		ev["stmt"] = tm[3]
		tag = tm[1] + " " + tm[2] + " " + tm[3]
	}
	s.mu.Lock()
	rules := s.rule(m, "prepare", text, tag)
	s.mu.Unlock()
	code, drop := 0, false
	for _, r := range rules {
		if r.Code > 0 {
			code = r.Code
		}
		drop = drop || r.Drop
	}
	ev["code"] = code
	ev["drop"] = drop
	s.pause(rules)
	s.log.put(ev)
	if drop {
		return false
	}
	if code > 0 {
		return m.write(errPkt(code, "injected")) == nil
	}
	m.nps++
	m.ps[m.nps] = st
	ncol := 0
	b := []byte{0, byte(m.nps), byte(m.nps >> 8), 0, 0, byte(ncol), 0, byte(st.n), byte(st.n >> 8), 0, 0, 0}
	pk := [][]byte{b}
	if st.n > 0 {
		for i := 0; i < st.n; i++ {
			pk = append(pk, colDef("?", 253))
		}
		pk = append(pk, eofPkt)
	}
	return m.write(pk...) == nil
}

func firstWord(t string) string {
	f := strings.Fields(t)
	if len(f) == 0 {
		return ""
	}
	w := f[0]
	if i := strings.IndexAny(w, "/("); i > 0 {
		w = w[:i]
	}
	return strings.ToUpper(w)
}

var islRe = regexp.MustCompile(`(?is)table_schema\s*=\s*'([^']*)'`)
var tblRe = regexp.MustCompile(`(?is)table_name\s*=\s*'([^']*)'`)

func (m *myconn) query(text string, args []string, ps bool) bool {
	s := m.s
	if ps {
		text = subst(text, args)
	}
	ev := map[string]interface{}{"e": "q", "c": m.id, "ps": ps, "text": text, "db": m.db}
	rev := map[string]interface{}{"e": "r", "c": m.id}
	w := firstWord(text)
	tag := ""
	on := "query"
	opts := map[string]string{}
	kind := "other"
	if tm := tagRe.FindStringSubmatch(text); tm != nil {
		kind = "stmt"
		ev["stage"], ev["trx"] = tm[1], tm[2]
		ev["stmt"] = tm[3]
		tag = tm[1] + " " + tm[2] + " " + tm[3]
		for _, o := range strings.Fields(tm[4]) {
			opts[o[:1]] = o[2:]
		}
		ev["rc"] = tm[5]
		uses := [][]string{}
		for _, u := range useRe.FindAllStringSubmatch(text, -1) {
			v := u[2]
			uses = append(uses, []string{u[1], v})
		}
		ev["uses"] = uses
	} else if w == "USE" {
		kind, on = "use", "use"
	} else if w == "ROLLBACK" {
		kind, on = "rollback", "rollback"
	} else {
		kind, on = "meta", "meta"
	}
	ev["kind"] = kind
	s.mu.Lock()
	rules := s.rule(m, on, text, tag)
	s.mu.Unlock()
	s.log.put(ev)
	code, drop, late := 0, false, false
	aff := int64(0)
	iid := int64(0)
	rows := 1
	cols := 0
	if w == "INSERT" || w == "UPDATE" || w == "DELETE" || w == "REPLACE" {
		aff = 1
		if o, ok := opts["a"]; ok {
			aff, _ = strconv.ParseInt(o, 10, 64)
		}
	}
	if w == "INSERT" || w == "REPLACE" {
		s.mu.Lock()
		s.iid += 7
		iid = s.iid
		s.mu.Unlock()
	}
	if o, ok := opts["r"]; ok {
		rows, _ = strconv.Atoi(o)
	}
	if o, ok := opts["c"]; ok {
		cols, _ = strconv.Atoi(o)
	}
	bytes := int64(-1)
	for _, r := range rules {
		if r.Code > 0 {
			code = r.Code
			late = r.Late && w == "SELECT" && kind == "stmt"
		}
		drop = drop || r.Drop
		if r.Aff != nil {
			aff = *r.Aff
		}
		if r.Iid != nil {
			iid = *r.Iid
		}
		if r.Rows != nil {
			rows = *r.Rows
		}
		if r.Bytes != nil {
			bytes = *r.Bytes
		}
	}
	s.pause(rules)
	if drop {
		rev["code"], rev["drop"] = 0, true
		s.log.put(rev)
		return false
	}
	if code > 0 && !late {
		rev["code"] = code
		s.log.put(rev)
		return m.write(errPkt(code, "injected error")) == nil
	}
	rev["code"] = 0
	if w == "ANALYZE" {
		names := regexp.MustCompile("[`\\w.-]+").FindAllString(strings.TrimSpace(text), -1)
		if len(names) < 3 {
			rev["code"] = 1064
			s.log.put(rev)
			return m.write(errPkt(1064, "syntax error")) == nil
		}
		s.mu.Lock()
		for _, n := range names[2:] {
			n = strings.ReplaceAll(n, "`", "")
			if !strings.Contains(n, ".") {
				n = m.db + "." + n
			}
			s.anal[n] = s.rowsOf[n]
		}
		// what an analysis of all tables at this time would have found
		m.snap = map[string]int64{}
		for n, v := range s.rowsOf {
			m.snap[n] = v
		}
		s.mu.Unlock()
	}
	if kind == "use" {
		m.db = strings.Trim(strings.TrimSpace(text[3:]), "`; ")
		rev["db"] = m.db
	}
	if w == "SELECT" || w == "SHOW" {
		var data [][]string
		switch {
		case kind == "stmt":
			if cols == 0 {
				cols = 1
			}
			s.mu.Lock()
			for i := 0; i < rows; i++ {
				row := make([]string, cols)
				for j := range row {
					s.val++
					if opts["n"] == "y" {
						row[j] = strconv.FormatInt(100000+s.val, 10)
					} else {
						row[j] = "v" + strconv.FormatInt(s.val, 10) + "xyzuvw"[:s.val*s.val%7]
					}
				}
				data = append(data, row)
			}
			s.mu.Unlock()
			rev["nrows"] = rows
			if rows > 0 {
				rev["row"] = data[rows-1]
			}
		case strings.Contains(strings.ToUpper(text), "DATABASE()"):
			cols = 1
			data = [][]string{{m.db}}
		case w == "SHOW":
			cols = 1
			db := m.db
			if fm := regexp.MustCompile("(?i)(?:FROM|IN)\\s+`?([\\w-]+)`?\\s*(?:WHERE.*)?$").FindStringSubmatch(strings.TrimSpace(text)); fm != nil {
				db = fm[1]
			}
			full := strings.Contains(strings.ToUpper(text), "FULL")
			if full {
				cols = 2
			}
			for _, t := range s.cfg.Tables[db] {
				typ := "BASE TABLE"
				if strings.HasSuffix(t, ":view") {
					t = strings.TrimSuffix(t, ":view")
					typ = "VIEW"
				}
				if full {
					data = append(data, []string{t, typ})
				} else {
					data = append(data, []string{t})
				}
			}
		case strings.Contains(strings.ToLower(text), "information_schema"):
			cols = 1
			db, tbl := m.db, ""
			if x := islRe.FindStringSubmatch(text); x != nil {
				db = x[1]
			}
			if x := tblRe.FindStringSubmatch(text); x != nil {
				tbl = x[1]
			}
			s.mu.Lock()
			sizes := []int64{}
			for _, t := range s.cfg.Tables[db] {
				if strings.HasSuffix(t, ":view") {
					if tbl == "" {
						sizes = append(sizes, 0)
					}
					continue
				}
				if tbl == "" || tbl == t {
					// a quarter of a table is indexes
					n, low := s.anal[db+"."+t]*s.cfg.BytesPerRow, strings.ToLower(text)
					x := n / 4
					if !strings.Contains(low, "data_length") {
						n = x
					} else if !strings.Contains(low, "index_length") {
						n -= x
					}
					sizes = append(sizes, n)
				}
			}
			s.mu.Unlock()
			if strings.Contains(strings.ToUpper(text), "SUM(") {
				sum := int64(0)
				for _, x := range sizes {
					sum += x
				}
				sizes = []int64{sum}
			}
			if bytes >= 0 {
				sizes = []int64{bytes}
			}
			for _, x := range sizes {
				data = append(data, []string{strconv.FormatInt(x, 10)})
			}
			rev["sizes"] = sizes
			tots := []map[string]interface{}{}
			s.mu.Lock()
			for d, ts := range s.cfg.Tables {
				for _, t := range ts {
					if !strings.HasSuffix(t, ":view") {
						v := s.rowsOf[d+"."+t]
						if m.snap != nil {
							v = m.snap[d+"."+t]
						}
						if a := s.anal[d+"."+t]; a > v {
							v = a
						}
						tots = append(tots, map[string]interface{}{"db": d, "t": t, "bytes": v * s.cfg.BytesPerRow})
					}
				}
			}
			s.mu.Unlock()
			rev["tots"] = tots
		default:
			cols = 1
			data = [][]string{{"1"}}
		}
		pk := [][]byte{lenenc(uint64(cols))}
		for j := 0; j < cols; j++ {
			pk = append(pk, colDef("c"+strconv.Itoa(j), 253))
		}
		pk = append(pk, eofPkt)
		for _, row := range data {
			var b []byte
			if ps {
				b = append(b, 0)
				b = append(b, make([]byte, (cols+9)/8)...)
			}
			for _, v := range row {
				b = append(b, lestr(v)...)
			}
			pk = append(pk, b)
		}
		if late {
			rev["code"] = code
			pk = append(pk, errPkt(code, "injected error"))
		} else {
			pk = append(pk, eofPkt)
		}
		s.log.put(rev)
		return m.write(pk...) == nil
	}
	rev["aff"], rev["iid"] = aff, iid
	if tn := opts["t"]; tn != "" {
		s.mu.Lock()
		if strings.Contains(tn, ".") {
			s.rowsOf[tn] += aff
		} else {
			s.rowsOf[m.db+"."+tn] += aff
		}
		s.mu.Unlock()
	}
	s.log.put(rev)
	return m.write(okPkt(aff, iid)) == nil
}

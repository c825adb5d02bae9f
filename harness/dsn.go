package main

import (
	"bufio"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/go-sql-driver/mysql"
	"github.com/square/finch/boot"
)

// Runs finch (boot.Up) with stage files and records how it connects to MySQL:
// address, time limit, TLS, credentials, database, and everything it prints.

type dcase struct {
	Files     map[string]string `json:"files"` // {{ROOT}} is the directory of the files
	Argv      []string          `json:"argv"`
	Passwords []string          `json:"passwords"`

	Events []map[string]interface{} `json:"events"`
	Output string                   `json:"output"`
	RC     int                      `json:"rc"`
}

// names the MySQL server is valid for
var dsnNames = []string{"db1.example", "db.example", "localhost", "x.rds.amazonaws.com"}

func pemFile(path, typ string, der []byte) {
	fatal(os.WriteFile(path, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}), 0o644))
}

// makeCerts writes ca-a, ca-b, a server certificate by ca-a, and client certificates cn1, cn2.
func makeCerts(dir string) {
	n := int64(1)
	mk := func(name string, parent *x509.Certificate, pkey *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey) {
		key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		fatal(err)
		n++
		t := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: name},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
			BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature,
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
		if parent == nil {
			parent, pkey = t, key
			t.IsCA = true
			t.KeyUsage |= x509.KeyUsageCertSign
			t.ExtKeyUsage = nil
		}
		if name == "server" {
			t.DNSNames = dsnNames
			t.IPAddresses = []net.IP{net.ParseIP("127.0.0.1")}
		}
		der, err := x509.CreateCertificate(crand.Reader, t, parent, &key.PublicKey, pkey)
		fatal(err)
		pemFile(filepath.Join(dir, name+".pem"), "CERTIFICATE", der)
		k, err := x509.MarshalECPrivateKey(key)
		fatal(err)
		pemFile(filepath.Join(dir, name+".key"), "EC PRIVATE KEY", k)
		c, err := x509.ParseCertificate(der)
		fatal(err)
		return c, key
	}
	ca, cak := mk("ca-a", nil, nil)
	mk("ca-b", nil, nil)
	mk("server", ca, cak)
	mk("cn1", ca, cak)
	mk("cn2", ca, cak)
}

func dsnChild(args []string) {
	// dsnchild CERTDIR EVENTFILE PASSWORDS-JSON ARGV...
	ef, err := os.Create(args[1])
	fatal(err)
	l := &evlog{t0: time.Now(), w: bufio.NewWriter(ef)}
	l.cond = func(map[string]interface{}) { l.mu.Lock(); l.w.Flush(); l.mu.Unlock() }
	s := &fakeMySQL{log: l}
	var wg sync.WaitGroup
	for i := 1; i <= 4; i++ { // all clients of a stage at once
		s.cfg.Rules = append(s.cfg.Rules, &Rule{On: "meta", Re: fmt.Sprintf("'stage %d'", i), Hold: 3, PerC: true, Nth: []int{1}})
	}
	fatal(json.Unmarshal([]byte(args[2]), &s.cfg.Passwords))
	fatal(s.start())
	s.ln.Close()
	cert, err := tls.LoadX509KeyPair(filepath.Join(args[0], "server.pem"), filepath.Join(args[0], "server.key"))
	fatal(err)
	s.tlsCfg = &tls.Config{Certificates: []tls.Certificate{cert}, ClientAuth: tls.RequestClientCert}
	var mu sync.Mutex
	id := 0
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	fatal(err)
	for _, nt := range []string{"tcp", "unix"} {
		nt := nt
		mysql.RegisterDialContext(nt, func(ctx context.Context, addr string) (net.Conn, error) {
			mu.Lock()
			defer mu.Unlock()
			id++
			ms := -1
			if d, ok := ctx.Deadline(); ok {
				ms = int(time.Until(d).Milliseconds())
			}
			l.put(map[string]interface{}{"e": "dial", "c": id, "net": nt, "addr": addr, "ms": ms})
			c, err := net.Dial("tcp", ln.Addr().String())
			if err != nil {
				return nil, err
			}
			sc, err := ln.Accept()
			if err != nil {
				return nil, err
			}
			wg.Add(1)
			go func(id int) {
				defer wg.Done()
				s.serve(sc, id, nt)
			}(id)
			return c, nil
		})
	}
	err = boot.Up(boot.Env{Args: args[3:]})
	if err != nil { // let the server see the end of failed connections
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(500 * time.Millisecond):
		}
		log.Fatal(err)
	}
}

func (c *dcase) run(certs, self string) {
	root, err := os.MkdirTemp("", "dsn")
	fatal(err)
	defer os.RemoveAll(root)
	sub := strings.NewReplacer("{{ROOT}}", root, "{{TLS}}", certs)
	for f, text := range c.Files {
		f = filepath.Join(root, f)
		fatal(os.MkdirAll(filepath.Dir(f), 0o755))
		fatal(os.WriteFile(f, []byte(sub.Replace(text)), 0o644))
	}
	pw, _ := json.Marshal(c.Passwords)
	ef := filepath.Join(root, ".events")
	a := []string{"dsnchild", certs, ef, string(pw), "finch"}
	for _, x := range c.Argv {
		a = append(a, sub.Replace(x))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, a...)
	cmd.Dir = root
	out, err := cmd.CombinedOutput()
	c.Output = string(out)
	c.RC = cmd.ProcessState.ExitCode()
	c.Events = []map[string]interface{}{}
	b, _ := os.ReadFile(ef)
	for _, line := range strings.Split(string(b), "\n") {
		var ev map[string]interface{}
		if json.Unmarshal([]byte(line), &ev) == nil && ev != nil {
			c.Events = append(c.Events, ev)
		}
	}
}

func init() {
	modes["dsnchild"] = dsnChild
	modes["dsn"] = func(args []string) {
		b, err := io.ReadAll(os.Stdin)
		fatal(err)
		var cs []*dcase
		fatal(json.Unmarshal(b, &cs))
		certs, err := os.MkdirTemp("", "dsncerts")
		fatal(err)
		defer os.RemoveAll(certs)
		makeCerts(certs)
		self, err := os.Executable()
		fatal(err)
		var wg sync.WaitGroup
		ch := make(chan *dcase)
		for i := 0; i < 10; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for c := range ch {
					c.run(certs, self)
				}
			}()
		}
		for _, c := range cs {
			ch <- c
		}
		close(ch)
		wg.Wait()
		fatal(json.NewEncoder(os.Stdout).Encode(cs))
	}
}

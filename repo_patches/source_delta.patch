From c1f6edf4998b8afe9ae2e2bc0400e984b889ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 01/51] fix: skip disabled stages instead of hanging on them

---
 compute/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index 8a253d5..0189c63 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -49,6 +49,11 @@ func NewServer(name, addr string, test bool) *Server {
 
 func (s *Server) Run(ctxFinch context.Context, stages []config.Stage) error {
 	for _, cfg := range stages {
+		if cfg.Disable {
+			log.Printf("[%s] Stage is disabled", cfg.Name)
+			continue
+		}
+
 		// cd dir of config file so relative file paths in config work
 		if err := os.Chdir(filepath.Dir(cfg.File)); err != nil {
 			return err
-- 
2.43.0


From 70b6bd6923a92822207b1f5c0732c4b05b939939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 02/51] fix: replace only whole human-readable numbers and
 variables in config values

A number inside another word was replaced too (idle: 4ms became 4000000s,
data key d2b became d2), a decimal like 5.1GB lost its unit, and a variable
that is a prefix of another one corrupted it ($params.x in $params.xy).
---
 config/config.go | 134 +++++++++++++++++++++++++++--------------------
 1 file changed, 77 insertions(+), 57 deletions(-)

diff --git a/config/config.go b/config/config.go
index d29dd95..a5d8a99 100644
--- a/config/config.go
+++ b/config/config.go
@@ -193,85 +193,105 @@ func FileExists(filePath string) bool {
 	return err == nil
 }
 
-var varRE = []*regexp.Regexp{
-	regexp.MustCompile(`\${([^}]+)}`),  // ${param.foo} for "hello${param.foo}bar"
-	regexp.MustCompile(`\$([^\s"']+)`), // $param.foo for standalone value
-}
-var reHumanNumber = regexp.MustCompile(`([\d,]*\d+(?i:[MKGBI]*))`) // 1M or 1,000,000 -> 1000000
-var reAllDigits = regexp.MustCompile(`^\d+$`)
+// varRE matches ${params.foo} in "hello${params.foo}bar", and $params.foo as a
+// standalone value.
+var varRE = regexp.MustCompile(`\${([^}]+)}|\$([^\s"'${}]+)`)
+
+// reHumanNumber matches human numbers: 1M or 1,000,000 -> 1000000.
+var reHumanNumber = regexp.MustCompile(`\d(?:[\d,]*\d)?(?:\.\d+)?(?i:[MKGBI]*)`)
+var reMachineNumber = regexp.MustCompile(`^\d+(?:\.\d+)?$`)
 
 // Vars changes $params.foo and $FOO to param values and environment variable
 // values, respectively, and human numbers to integers (1k -> 1000).
 // "${var}" is also valid but YAML requires string quotes around {}.
 func Vars(s string, params map[string]string, numbers bool) (string, error) {
-	for _, r := range varRE {
-		m := r.FindAllStringSubmatch(s, -1)
-		if len(m) == 0 {
-			continue
+	// Replace each variable in place, and only once: variable names can be
+	// prefixes of each other, and values can contain "$"
+	var out strings.Builder
+	end := 0
+	for _, m := range varRE.FindAllStringSubmatchIndex(s, -1) {
+		var p string
+		if m[2] >= 0 {
+			p = s[m[2]:m[3]]
+		} else {
+			p = s[m[4]:m[5]]
 		}
-		rep := make([]string, 0, len(m)*2)
-		for i := range m {
-			v := m[i]
-			//p := strings.Trim(v[1], "{}")
-			p := v[1]
-			switch {
-			case strings.HasPrefix(p, "params."):
-				k := strings.TrimPrefix(p, "params.")
-				val, ok := params[k]
-				if !ok {
-					return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
-				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (user-defined)", s, rep)
-			case strings.HasPrefix(p, "sys."):
-				k := strings.TrimPrefix(p, "sys.")
-				val, ok := finch.SystemParams[k]
-				if !ok {
-					return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
-				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (built-in)", s, rep)
-			default:
-				val, ok := os.LookupEnv(p)
-				if !ok {
-					return "", fmt.Errorf("environment variable %s not set (is it spelled correctly?)", p)
-				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (env var)", s, rep)
-			}
+		val, err := varValue(p, params)
+		if err != nil {
+			return "", err
 		}
-		r := strings.NewReplacer(rep...)
-		s = r.Replace(s)
+		finch.Debug("param: %s -> %s", s[m[0]:m[1]], val)
+		out.WriteString(s[end:m[0]])
+		out.WriteString(val)
+		end = m[1]
 	}
+	out.WriteString(s[end:])
+	s = out.String()
 
 	if !numbers {
 		return s, nil
 	}
 
 	// Look for human numbers like 1k and 1,000
-	m := reHumanNumber.FindAllStringSubmatch(s, -1)
-	if len(m) == 0 {
-		return s, nil // no human numbers
-	}
-	rep := []string{}
-	for i := range m {
+	out.Reset()
+	end = 0
+	for _, m := range reHumanNumber.FindAllStringIndex(s, -1) {
 		// To keep the regex simple, reHumanNumber also matches ints like 1000,
 		// but don't waste time parsing something that's already machine number.
-		if reAllDigits.MatchString(m[i][0]) {
+		// It also matches part of other words like "10ms", "d2b", and IP addresses.
+		n := s[m[0]:m[1]]
+		if reMachineNumber.MatchString(n) || !standalone(s, m[0], m[1]) {
 			continue
 		}
-		d, err := human.ParseBytes(m[i][1])
+		d, err := human.ParseBytes(n)
 		if err != nil {
-			return "", fmt.Errorf("invalid human-readable number: %s: %s", m[i][1], err)
+			return "", fmt.Errorf("invalid human-readable number: %s: %s", n, err)
 		}
-		rep = append(rep, m[i][0], strconv.FormatUint(d, 10))
+		finch.Debug("var: %s -> %d", n, d)
+		out.WriteString(s[end:m[0]])
+		out.WriteString(strconv.FormatUint(d, 10))
+		end = m[1]
 	}
-	if len(rep) == 0 { // all machine numbers (see comment above)
-		return s, nil
+	out.WriteString(s[end:])
+	return out.String(), nil
+}
+
+// varValue returns the value of params.foo, sys.foo, or environment variable FOO.
+func varValue(p string, params map[string]string) (string, error) {
+	switch {
+	case strings.HasPrefix(p, "params."):
+		val, ok := params[strings.TrimPrefix(p, "params.")]
+		if !ok {
+			return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
+		}
+		return val, nil
+	case strings.HasPrefix(p, "sys."):
+		val, ok := finch.SystemParams[strings.TrimPrefix(p, "sys.")]
+		if !ok {
+			return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
+		}
+		return val, nil
+	}
+	val, ok := os.LookupEnv(p)
+	if !ok {
+		return "", fmt.Errorf("environment variable %s not set (is it spelled correctly?)", p)
+	}
+	return val, nil
+}
+
+// standalone returns true if s[i:j] is not part of a longer word in s.
+func standalone(s string, i, j int) bool {
+	word := func(k int) bool {
+		if k < 0 || k >= len(s) {
+			return false
+		}
+		c := s[k]
+		return c == '_' || c == '.' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
+	}
+	if i > 0 && s[i-1] == '-' { // sign or hyphen
+		i--
 	}
-	finch.Debug("var: %s -> %v", s, rep)
-	r := strings.NewReplacer(rep...)
-	return r.Replace(s), nil
+	return !word(i-1) && !word(j) && !(j < len(s) && s[j] == '-')
 }
 
 // setBool sets c to the value of b if c is nil (not set). Pointers are required
-- 
2.43.0


From 39648400d7587343b683901b923db0c751fec58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:16 +0000
Subject: [PATCH 03/51] fix: really disconnect after an unhandled query error

Closing the sql.Conn returned the failed connection to the pool, so the client
got it back, and prepared statements of the closed connection were kept, so all
later executions of them failed.
---
 client/client.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/client/client.go b/client/client.go
index 5cfe61e..699af08 100644
--- a/client/client.go
+++ b/client/client.go
@@ -5,6 +5,7 @@ package client
 import (
 	"context"
 	"database/sql"
+	"database/sql/driver"
 	"errors"
 	"fmt"
 	"log"
@@ -115,8 +116,7 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	}
 
 	if c.conn != nil {
-		c.conn.Close()
-		c.conn = nil
+		c.disconnect(true)
 		time.Sleep(ConnectRetryWait)
 	}
 
@@ -170,6 +170,25 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	return nil
 }
 
+// disconnect closes the prepared statements and the connection, if any. Closing
+// only the sql.Conn would return the connection (and its MySQL transaction) to the
+// pool from which the next sql.Conn is made, so it's discarded if there was an error.
+func (c *Client) disconnect(discard bool) {
+	for i := range c.ps {
+		if c.ps[i] != nil {
+			c.ps[i].Close()
+			c.ps[i] = nil
+		}
+	}
+	if c.conn != nil {
+		if discard {
+			c.conn.Raw(func(interface{}) error { return driver.ErrBadConn })
+		}
+		c.conn.Close()
+		c.conn = nil
+	}
+}
+
 func (c *Client) Run(ctxExec context.Context) {
 	finch.Debug("run client %s: %d stmts, iter %d/%d/%d", c.RunLevel.ClientId(), len(c.Statements), c.IterExecGroup, c.IterClients, c.Iter)
 	var err error
@@ -179,15 +198,7 @@ func (c *Client) Run(ctxExec context.Context) {
 			n := runtime.Stack(b, false)
 			err = fmt.Errorf("PANIC: %v\n%s", r, string(b[0:n]))
 		}
-		for i := range c.ps {
-			if c.ps[i] == nil {
-				continue
-			}
-			c.ps[i].Close()
-		}
-		if c.conn != nil {
-			c.conn.Close()
-		}
+		c.disconnect(err != nil)
 		// Context cancellation is not an error it's runtime elapsing or CTRL-C
 		if !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {
 			c.Error.Err = err
-- 
2.43.0


From ad3b91f6a076a5c971ab82c5cc0ffc0e028f1ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:38 +0000
Subject: [PATCH 04/51] fix: execute ROLLBACK also when the last statement of a
 trx fails

The trx was marked inactive before its last statement executed. Idle time as the
first statement of a trx skipped the start of the trx, which counted its
statements in the previous trx or crashed the client if there was none.
---
 client/client.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/client/client.go b/client/client.go
index 699af08..38d63fc 100644
--- a/client/client.go
+++ b/client/client.go
@@ -249,12 +249,6 @@ ITER:
 		trxActive = false
 
 		for i := range c.Statements {
-			// Idle time
-			if c.Statements[i].Idle != 0 {
-				time.Sleep(c.Statements[i].Idle)
-				continue
-			}
-
 			// Is this query the start of a new (finch) trx file? This is not
 			// a MySQL trx (either BEGIN or implicit). It marks finch trx scope
 			// "trx" is a trx file in the config assigned to this client.
@@ -262,8 +256,12 @@ ITER:
 				rc[data.TRX] += 1
 				trxNo += 1
 				trxActive = true
-			} else if c.Data[i].TrxBoundary&trx.END != 0 {
-				trxActive = false
+			}
+
+			// Idle time
+			if c.Statements[i].Idle != 0 {
+				time.Sleep(c.Statements[i].Idle)
+				continue
 			}
 
 			// If BEGIN, check TPS rate limiter
-- 
2.43.0


From 5880e42f95ffe1623c81992b49bc195ef911a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:54 +0000
Subject: [PATCH 05/51] fix: handle duplicate key error without reconnecting

As documented in benchmark/error-handling.
---
 finch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finch.go b/finch.go
index 9148000..5e91aea 100644
--- a/finch.go
+++ b/finch.go
@@ -194,9 +194,9 @@ const (
 
 var MySQLErrorHandling = map[uint16]byte{
 	1046: Eabort,                // no database selected
-	1062: Eabort,                // duplicate key
 	1064: Eabort,                // You have an error in your SQL syntax
 	1146: Eabort,                // table doesn't exist
+	1062: Econtinue,             // duplicate key
 	1205: Erollback | Econtinue, // lock wait timeout; no automatic rollback (innodb_rollback_on_timeout=OFF by default)
 	1213: Econtinue,             // deadlock; automatic rollback
 	1290: Erollback | Econtinue, // read-only (server is running with the --read-only option so it cannot execute this statement)
-- 
2.43.0


From 4fce4db69ff832596d305c6a7d35645953539dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:56 +0000
Subject: [PATCH 06/51] fix: do not waste iterations of a shared limit

A client at its own iteration limit took one more iteration from iter-clients and
iter-exec-group (and one at iter-clients from iter-exec-group), so fewer than the
configured number of iterations were executed.
---
 client/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 38d63fc..6c1f41b 100644
--- a/client/client.go
+++ b/client/client.go
@@ -235,13 +235,16 @@ func (c *Client) Run(ctxExec context.Context) {
 	//
 ITER:
 	for {
-		if c.IterExecGroup > 0 && atomic.AddUint32(c.IterExecGroupPtr, 1) > c.IterExecGroup {
+		// The client's own limit first, then the client group's, then the exec
+		// group's, else a client that doesn't start this iteration would still
+		// take it from the clients with which it shares a limit.
+		if c.Iter > 0 && rc[data.ITER] == c.Iter {
 			return
 		}
 		if c.IterClients > 0 && atomic.AddUint32(c.IterClientsPtr, 1) > c.IterClients {
 			return
 		}
-		if c.Iter > 0 && rc[data.ITER] == c.Iter {
+		if c.IterExecGroup > 0 && atomic.AddUint32(c.IterExecGroupPtr, 1) > c.IterExecGroup {
 			return
 		}
 		rc[data.ITER] += 1
-- 
2.43.0


From 1a173034a5449707497f178d5bb1f29841b579a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:49 +0000
Subject: [PATCH 07/51] fix: stop idle and rate limited clients when the
 runtime elapses or on CTRL-C

A client waiting for its idle time or its turn in a rate limit didn't stop until
after the wait, and a runtime that elapsed while preparing statements or rolling
back was reported as a client error.
---
 client/client.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/client/client.go b/client/client.go
index 6c1f41b..d77c8fb 100644
--- a/client/client.go
+++ b/client/client.go
@@ -102,7 +102,7 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 			if errFlags&finch.Erollback != 0 && trxActive {
 				finch.Debug("%s: rollback", c.RunLevel.ClientId())
 				if _, err := c.conn.ExecContext(ctx, "ROLLBACK"); err != nil {
-					return fmt.Errorf("ROLLBACK failed: %s (on err: %s) (query: %s)", err, cerr, c.Statements[stmtNo].Query)
+					return fmt.Errorf("ROLLBACK failed: %w (on err: %s) (query: %s)", err, cerr, c.Statements[stmtNo].Query)
 				}
 			}
 			if errFlags&finch.Econtinue != 0 {
@@ -157,7 +157,7 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 		c.ps[i], err = c.conn.PrepareContext(ctx, s.Query)
 		if err != nil {
 			c.Error.StatementNo = i
-			return fmt.Errorf("prepare: %s", err)
+			return fmt.Errorf("prepare: %w", err)
 		}
 
 		// If s.PrepareMulti = 3, it means this ps should be used for 3 statments
@@ -263,18 +263,30 @@ ITER:
 
 			// Idle time
 			if c.Statements[i].Idle != 0 {
-				time.Sleep(c.Statements[i].Idle)
+				select {
+				case <-time.After(c.Statements[i].Idle):
+				case <-ctxExec.Done():
+					return // runtime elapsed or CTRL-C
+				}
 				continue
 			}
 
 			// If BEGIN, check TPS rate limiter
 			if c.TPS != nil && c.Statements[i].Begin {
-				<-c.TPS
+				select {
+				case <-c.TPS:
+				case <-ctxExec.Done():
+					return // runtime elapsed or CTRL-C
+				}
 			}
 
 			// If query, check QPS
 			if c.QPS != nil {
-				<-c.QPS
+				select {
+				case <-c.QPS:
+				case <-ctxExec.Done():
+					return // runtime elapsed or CTRL-C
+				}
 			}
 
 			// Generate new data values for this query. A single data generator
-- 
2.43.0


From 36a6dd7e93a1c4e1f653bc81493134ca7d6516d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:27 +0000
Subject: [PATCH 08/51] fix: handle query errors returned after the first rows
 of a result set

The error was ignored: not counted in statistics, and the client continued with
the next query.
---
 client/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index d77c8fb..1a57910 100644
--- a/client/client.go
+++ b/client/client.go
@@ -325,8 +325,15 @@ ITER:
 							goto ERROR
 						}
 					}
+					err = rows.Err()
+				}
+				// MySQL can return an error after the first rows
+				if cerr := rows.Close(); err == nil {
+					err = cerr
+				}
+				if err != nil {
+					goto ERROR
 				}
-				rows.Close()
 			} else {
 				//
 				// Write or query without result set (e.g. BEGIN, SET, etc.)
-- 
2.43.0


From 9ceba094444b0c873aa9ad681dfe78238dea7c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 09/51] fix: replace every data key by its own value

A data key whose name is a prefix of another data key replaced part of the other
one in the query and in the row scope of a CSV template, and all @PREV in a query
got the format of the last one.
---
 trx/trx.go | 47 +++++++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 8a67e6f..1cfb32b 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -434,7 +434,7 @@ func (f *File) statements() ([]*Statement, error) {
 		return strings.TrimSuffix(s, EXPLICIT_CALL_SUFFIX)
 	})
 
-	dataFormats := map[string]string{} // keyed on data name
+	dataFormats := make([]string, len(s.Inputs)) // in order, like s.Inputs
 	for i, name := range s.Inputs {
 		// Remove () from @d()
 		name = strings.TrimSuffix(name, EXPLICIT_CALL_SUFFIX)
@@ -495,22 +495,20 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 
 		if s.Prepare {
-			dataFormats[name] = "?"
+			dataFormats[i] = "?"
 		} else {
-			_, dataFormats[name] = g.Format()
+			_, dataFormats[i] = g.Format()
 		}
 	}
 
-	replacements := make([]string, len(dataFormats)*2) // *2 because key + value
-	i := 0
-	for k, v := range dataFormats {
-		replacements[i] = k
-		replacements[i+1] = v
-		i += 2
-	}
-	finch.Debug("replacements: %v", replacements)
-	r := strings.NewReplacer(replacements...)
-	s.Query = r.Replace(query)
+	// Replace each @d by its own format: one name can be the prefix of another,
+	// and each @PREV depends on the @d before it
+	finch.Debug("formats: %v", dataFormats)
+	i := -1
+	s.Query = DataKeyPattern.ReplaceAllStringFunc(query, func(string) string {
+		i++
+		return dataFormats[i]
+	})
 
 	// Caller debug prints full Statement
 	return []*Statement{s}, nil
@@ -586,22 +584,15 @@ func Calls(dataKeys []string) []byte {
 // makes @d row scoped because each row will call @d again. This is called
 // when the /*!csv N template */ is being processed (see reCSV).
 func RowScope(keys map[string]bool, csvTemplate string) string {
-	csvDataKeys := DataKeyPattern.FindAllString(csvTemplate, -1)
-KEY:
-	for dataKey := range keys { // row scoped keys
-		for _, k := range csvDataKeys { // all keys in csvTemplate
-			if !strings.HasPrefix(k, dataKey) {
-				continue // not the row scoped key we're looking for
-			}
-			// This is first occurrence of row scoped key in csvTemplate.
-			// Add () suffix if not already set.
-			if !strings.HasSuffix(k, EXPLICIT_CALL_SUFFIX) {
-				csvTemplate = strings.Replace(csvTemplate, k, k+EXPLICIT_CALL_SUFFIX, 1) // 1=only first occurrence
-			}
-			continue KEY // only check/change first occurrence, so this row scoped key is done
+	done := map[string]bool{}
+	return DataKeyPattern.ReplaceAllStringFunc(csvTemplate, func(k string) string {
+		name := strings.TrimSuffix(k, EXPLICIT_CALL_SUFFIX)
+		if !keys[name] || done[name] {
+			return k // not row scoped, or not first occurrence
 		}
-	}
-	return csvTemplate
+		done[name] = true
+		return name + EXPLICIT_CALL_SUFFIX
+	})
 }
 
 func cfgKey(s string) string {
-- 
2.43.0


From 2fb53e646a3a53e7982e422a167178472d991e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 10/51] fix: report incomplete statement modifiers instead of
 crashing

A modifier without a value crashed finch, "rows: 0" (no limit) crashed the
client, and "save-columns: @a,@b" without a space was one column.
---
 limit/data.go |  2 +-
 trx/trx.go    | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/limit/data.go b/limit/data.go
index 0d7d800..9e65c38 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -73,7 +73,7 @@ type Rows struct {
 
 var _ Data = &Rows{}
 
-func NewRows(max, offset int64) *Rows {
+func NewRows(max, offset int64) Data {
 	if max == 0 {
 		return nil
 	}
diff --git a/trx/trx.go b/trx/trx.go
index 1cfb32b..308db24 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -260,6 +260,12 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 		m[0] = strings.Trim(m[0], ":")
 		switch m[0] {
+		case "idle", "rows", "save-insert-id", "save-columns", "copies":
+			if len(m) < 2 {
+				return nil, fmt.Errorf("invalid %s modifier: no value: %s", m[0], mod)
+			}
+		}
+		switch m[0] {
 		case "prepare", "prepared":
 			s.Prepare = true
 		case "idle":
@@ -298,7 +304,6 @@ func (f *File) statements() ([]*Statement, error) {
 			}
 			s.Limit = limit.Or(s.Limit, lm)
 		case "save-insert-id":
-			// @todo check len(m)
 			if s.ResultSet {
 				return nil, fmt.Errorf("save-insert-id not allowed on SELECT")
 			}
@@ -310,9 +315,8 @@ func (f *File) statements() ([]*Statement, error) {
 			s.InsertId = dataKey
 			s.Outputs = append(s.Outputs, dataKey)
 		case "save-columns":
-			// @todo check len(m)
-			for i, col := range m[1:] {
-				// @todo split csv (handle "col1,col2" instead of "col1, col2")
+			cols := strings.FieldsFunc(strings.Join(m[1:], " "), func(r rune) bool { return r == ' ' || r == ',' })
+			for i, col := range cols {
 				dataKey, err := f.column(i, col)
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 55b6ae520a30a9d2e808321d2110588242aedc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 11/51] fix: end a CSV template at its own end of comment

A later comment in the statement was made part of the template.
---
 trx/trx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trx/trx.go b/trx/trx.go
index 308db24..205d659 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -215,7 +215,7 @@ func (f *File) line(line string) error {
 }
 
 var reKeyVal = regexp.MustCompile(`([\w_-]+)(?:\:\s*(\w+))?`)
-var reCSV = regexp.MustCompile(`\/\*\!csv\s+(\d+)\s+(.+)\*\/`)
+var reCSV = regexp.MustCompile(`\/\*\!csv\s+(\d+)\s+(.+?)\*\/`)
 var reFirstWord = regexp.MustCompile(`^(\w+)`)
 
 func (f *File) statements() ([]*Statement, error) {
-- 
2.43.0


From a60ea6436a2a1801c14bddcf544ab01ca226f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 12/51] fix: tell clients of different groups apart in
 exec-group and workload scope

Client numbers are unique only within a client group, so clients with the same
number in different client groups received each other's values.
---
 data/scope.go | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 4969e47..b056977 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -145,16 +145,22 @@ func (s *Scope) Reset() {
 // care which--to handle either scoped value generator or explicit calls like
 // @d().
 type ScopedGenerator struct {
-	id           Id                     // identify this copy of the real Generator for debugging
-	g            Generator              // real Generator:
-	sno          byte                   //   scope number in RunCount (if singleClient == true)
-	last         RunCount               //   last time value was generated
-	vals         []interface{}          //   last value
-	singleClient bool                   // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
-	oneTime      bool                   // One time scopes: STAGE and GLOBAL
-	cgMux        *sync.RWMutex          // Multi client: client-group, exec-group, workload
-	cgIter       map[uint]uint          //   last client iter
-	cgVals       map[uint][]interface{} //   last client value
+	id           Id                         // identify this copy of the real Generator for debugging
+	g            Generator                  // real Generator:
+	sno          byte                       //   scope number in RunCount (if singleClient == true)
+	last         RunCount                   //   last time value was generated
+	vals         []interface{}              //   last value
+	singleClient bool                       // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
+	oneTime      bool                       // One time scopes: STAGE and GLOBAL
+	cgMux        *sync.RWMutex              // Multi client: client-group, exec-group, workload
+	cgIter       map[clientId]uint          //   last client iter
+	cgVals       map[clientId][]interface{} //   last client value
+}
+
+// clientId identifies a client in multi client scopes because client numbers
+// are unique only within the client group.
+type clientId struct {
+	execGroup, clientGroup, client uint
 }
 
 var _ Generator = &ScopedGenerator{}
@@ -175,8 +181,8 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_WORKLOAD) {
 		// Multi client scopes: iter = each <client, iter>
 		s.cgMux = &sync.RWMutex{}
-		s.cgIter = map[uint]uint{}
-		s.cgVals = map[uint][]interface{}{}
+		s.cgIter = map[clientId]uint{}
+		s.cgVals = map[clientId][]interface{}{}
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_GLOBAL) {
 		// One time scopes
 		s.oneTime = true
@@ -202,11 +208,11 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		Don't debug or call anything slow/superfluous.
 	*/
 	if s.cgMux != nil { // multi client
-		clientNo := cnt[CLIENT]
+		client := clientId{cnt[EXEC_GROUP], cnt[CLIENT_GROUP], cnt[CLIENT]}
 		v := s.g.Values(cnt)
 		s.cgMux.Lock()
-		s.cgIter[clientNo] = cnt[ITER]
-		s.cgVals[clientNo] = v
+		s.cgIter[client] = cnt[ITER]
+		s.cgVals[client] = v
 		s.cgMux.Unlock()
 		return v
 	}
@@ -233,14 +239,14 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 
 	// Multi client scopes: CLIENT_GROUP, EXEC_GROUP, WORKLOAD
 	if s.cgMux != nil {
-		clientNo := cnt[CLIENT]
+		client := clientId{cnt[EXEC_GROUP], cnt[CLIENT_GROUP], cnt[CLIENT]}
 		s.cgMux.RLock()
-		prevIter, ok := s.cgIter[clientNo]
+		prevIter, ok := s.cgIter[client]
 		if !ok || cnt[ITER] > prevIter {
 			s.cgMux.RUnlock()
 			return s.Call(cnt)
 		}
-		v := s.cgVals[clientNo]
+		v := s.cgVals[client]
 		s.cgMux.RUnlock()
 		return v
 	}
-- 
2.43.0


From eb7ac5a43110d25e99eec6f20f82b50e6ea10f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 13/51] fix: generate stage and global scoped values

They were never generated: NULL was used until an explicit call, and a new value
every time after it. Also guard them because they're used by all clients.
---
 data/scope.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index b056977..0cf6f68 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -151,7 +151,7 @@ type ScopedGenerator struct {
 	last         RunCount                   //   last time value was generated
 	vals         []interface{}              //   last value
 	singleClient bool                       // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
-	oneTime      bool                       // One time scopes: STAGE and GLOBAL
+	oneMux       *sync.Mutex                // One time scopes: STAGE and GLOBAL
 	cgMux        *sync.RWMutex              // Multi client: client-group, exec-group, workload
 	cgIter       map[clientId]uint          //   last client iter
 	cgVals       map[clientId][]interface{} //   last client value
@@ -185,7 +185,7 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 		s.cgVals = map[clientId][]interface{}{}
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_GLOBAL) {
 		// One time scopes
-		s.oneTime = true
+		s.oneMux = &sync.Mutex{}
 	} else {
 		panic("invalid scope: " + id.Scope)
 	}
@@ -216,6 +216,12 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		s.cgMux.Unlock()
 		return v
 	}
+	if s.oneMux != nil { // one time
+		s.oneMux.Lock()
+		defer s.oneMux.Unlock()
+		s.vals = s.g.Values(cnt)
+		return s.vals
+	}
 	s.last[s.sno] = cnt[s.sno] // save last run counter value
 	s.vals = s.g.Values(cnt)   // generate new data value
 	return s.vals
@@ -252,10 +258,11 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 	}
 
 	// One time scopes: STAGE and GLOBAL
-	if s.oneTime {
-		// @todo guard with mux
-		if s.vals != nil {
-			return s.Call(cnt)
+	if s.oneMux != nil {
+		s.oneMux.Lock()
+		defer s.oneMux.Unlock()
+		if s.vals == nil {
+			s.vals = s.g.Values(cnt) // first call
 		}
 		return s.vals
 	}
-- 
2.43.0


From 7ad7015406e090490f7b86e30d89ac37ab1ce7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 14/51] fix: do not keep stage scoped data keys for the next
 stage

The next stage used the generator, configuration, and value of the previous one.
---
 data/scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/scope.go b/data/scope.go
index 0cf6f68..32e2d06 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -124,7 +124,7 @@ func (s *Scope) Copy(keyName string, rl finch.RunLevel) *ScopedGenerator {
 
 func (s *Scope) Reset() {
 	for keyName, k := range s.Keys {
-		if k.Scope == finch.SCOPE_STAGE || k.Scope == finch.SCOPE_GLOBAL {
+		if k.Scope == finch.SCOPE_GLOBAL {
 			continue
 		}
 		finch.Debug("delete %s (scope: %s)", keyName, k.Scope)
-- 
2.43.0


From c97e90da36b867b564a62e61d1fe20558619ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 15/51] fix: create the data generator of global scoped data
 keys

Global scope is never greater than any previous run level, so no generator was
created, the data key got no value, and later values in the query were shifted.
---
 data/scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/scope.go b/data/scope.go
index 32e2d06..f888b9b 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -107,7 +107,7 @@ func (s *Scope) Copy(keyName string, rl finch.RunLevel) *ScopedGenerator {
 	}
 
 	prev := s.CopiedAt[keyName] // last time we saw this @d
-	if rl.GreaterThan(prev, k.Scope) {
+	if s.CopyOf[keyName] == nil || rl.GreaterThan(prev, k.Scope) {
 		s.CopyCount[keyName] += 1
 		id := Id{
 			RunLevel: rl,
-- 
2.43.0


From 8144cc0dc0e57998ef2e539d0e1d3318f39e4d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 16/51] fix: size limits measure the whole database (or the
 qualified table) they name

---
 limit/data.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/limit/data.go b/limit/data.go
index 9e65c38..6fe6d18 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -181,18 +181,17 @@ func (lm *Size) More(conn *sql.Conn) bool {
 
 	// Set queries on first call
 	if lm.query == "" {
-		lm.query = "SELECT COALESCE(data_length + index_length, 0) AS bytes FROM information_schema.TABLES WHERE "
+		lm.query = "SELECT COALESCE(SUM(data_length + index_length), 0) AS bytes FROM information_schema.TABLES WHERE "
 		if lm.db != "" {
 			log.Printf("Database size limit: %s %s (progress report every %d%%)", lm.db, lm.maxStr, lm.r)
 			lm.query += "table_schema='" + lm.db + "'"
 
 			var tbls []string
-			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES")
+			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES FROM `"+lm.db+"`")
 			if err != nil {
 				log.Printf("Error running SHOW FULL TABLES: %s", err)
 				return false
 			}
-			rows.Close()
 			for rows.Next() {
 				var name, base string
 				err = rows.Scan(&name, &base)
@@ -202,18 +201,34 @@ func (lm *Size) More(conn *sql.Conn) bool {
 				if base != "BASE TABLE" {
 					continue
 				}
-				tbls = append(tbls, name)
+				tbls = append(tbls, "`"+lm.db+"`.`"+name+"`")
+			}
+			rows.Close()
+			if err == nil {
+				err = rows.Err()
+			}
+			if err != nil {
+				log.Printf("Error running SHOW FULL TABLES: %s", err)
+				return false
+			}
+			if len(tbls) == 0 {
+				log.Printf("Database %s has no tables", lm.db)
+				return false
 			}
 			lm.analyze = "ANALYZE TABLE " + strings.Join(tbls, ", ")
 		} else {
 			log.Printf("Table size limit: %s %s (progress report every %d%%)", lm.tbl, lm.maxStr, lm.r)
-			err := conn.QueryRowContext(ctx, "SELECT DATABASE()").Scan(&lm.db)
-			if err != nil {
-				log.Printf("Error getting current database: %s", err)
-				return false
+			db, tbl, qualified := strings.Cut(lm.tbl, ".")
+			if !qualified {
+				tbl = lm.tbl
+				err := conn.QueryRowContext(ctx, "SELECT DATABASE()").Scan(&db)
+				if err != nil {
+					log.Printf("Error getting current database: %s", err)
+					return false
+				}
 			}
-			lm.query += "table_schema='" + lm.db + "' AND table_name='" + lm.tbl + "'"
-			lm.analyze = "ANALYZE TABLE " + lm.tbl
+			lm.query += "table_schema='" + db + "' AND table_name='" + tbl + "'"
+			lm.analyze = "ANALYZE TABLE `" + db + "`.`" + tbl + "`"
 		}
 		finch.Debug(lm.query)
 		finch.Debug(lm.analyze)
-- 
2.43.0


From ce2c0911813647d6644022817e37f8e90fbe5da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 17/51] fix: combined min response time ignores stats without
 events; Copy overwrites errors

---
 stats/stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stats/stats.go b/stats/stats.go
index 3e8ea3f..0b98ad9 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -112,6 +112,9 @@ func (s *Stats) Copy(c *Stats) {
 		s.Max[i] = c.Max[i]
 		s.N[i] = c.N[i]
 	}
+	for k := range s.Errors {
+		delete(s.Errors, k)
+	}
 	for k, v := range c.Errors {
 		s.Errors[k] = v
 	}
@@ -125,7 +128,7 @@ func (s *Stats) Combine(c *Stats) {
 		for j := range s.Buckets[i] {
 			s.Buckets[i][j] += c.Buckets[i][j]
 		}
-		if c.Min[i] < s.Min[i] || s.N[i] == 0 {
+		if c.N[i] > 0 && (c.Min[i] < s.Min[i] || s.N[i] == 0) { // Min is undefined if N=0
 			s.Min[i] = c.Min[i]
 		}
 		if c.Max[i] > s.Max[i] {
-- 
2.43.0


From 85a2e59c8b36e5ecd6941b4b4396802da6ca30c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 18/51] fix: report every percentile by its own value in any
 order

---
 stats/stats.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index 0b98ad9..5a9dc88 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -4,6 +4,7 @@ package stats
 
 import (
 	"math"
+	"sort"
 	"sync/atomic"
 )
 
@@ -145,10 +146,14 @@ func (s Stats) Percentiles(eventType byte, p []float64) (q []uint64) {
 	if len(p) == 0 {
 		return []uint64{}
 	}
-	q = make([]uint64, len(p)) // returned ^ approximate percentiles
-	n := uint64(0)             // running total event count
-	f := 0.0                   // running total frequency (percentile per bucket)
-	j := 0                     // index in p[] and q[]
+	q = make([]uint64, len(p))   // returned ^ approximate percentiles
+	n := uint64(0)               // running total event count
+	f := 0.0                     // running total frequency (percentile per bucket)
+	order := make([]int, len(p)) // indexes in p[] and q[], lowest to highest percentile
+	for i := range p {
+		order[i] = i
+	}
+	sort.SliceStable(order, func(a, b int) bool { return p[order[a]] < p[order[b]] })
 	for i := range s.Buckets[eventType] {
 		n += s.Buckets[eventType][i]
 		f = float64(n) / float64(s.N[eventType]) * 100
@@ -158,7 +163,8 @@ func (s Stats) Percentiles(eventType byte, p []float64) (q []uint64) {
 		// 101  95.7         502300 (502.3 ms)
 		// 102  96.0  95.0
 		//fmt.Printf("at %d n = %d, f = %f, p = %f ap = %f\n", i, n, f, p[j], base*math.Pow(factor, float64(i)))
-		if f >= p[j] {
+		for len(order) > 0 && f >= p[order[0]] { // all p[] in this bucket
+			j := order[0]
 			q[j] = uint64(base * math.Pow(factor, float64(i))) // high value
 
 			intP, _ := math.Modf(p[j])
@@ -172,10 +178,10 @@ func (s Stats) Percentiles(eventType byte, p []float64) (q []uint64) {
 			} else if i == 0 {
 				q[j] = uint64(base * math.Pow(factor, 0.0)) // first, lowest bucket
 			}
-			if j == len(q)-1 { // stop early once all p[] found
-				break
-			}
-			j++ // find next p[]
+			order = order[1:] // find next p[]
+		}
+		if len(order) == 0 { // stop early once all p[] found
+			break
 		}
 	}
 	return // q
-- 
2.43.0


From d7a52602d2b7ad5a9a8feefc217926fe68faea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 19/51] fix: do not lose or corrupt stats recorded while they
 are collected

---
 stats/stats.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index 5a9dc88..4df0577 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -5,6 +5,7 @@ package stats
 import (
 	"math"
 	"sort"
+	"sync"
 	"sync/atomic"
 )
 
@@ -194,10 +195,12 @@ func (s Stats) Percentiles(eventType byte, p []float64) (q []uint64) {
 // to the active stats. When the Collector is ready to collect stats, it calls
 // Swap, and Trx atomically swaps "a" and "b". If, for example, "a" was active,
 // then it's returned to the Collector for reporting, and "b" is made active for
-// on-going stats recording by the Client. This is the other half of the lock-free
-// Stats design.
+// on-going stats recording by the Client. The mutex ensures that a Client is not
+// still recording to the stats that Swap returns; it's contended only when the
+// Collector calls Swap.
 type Trx struct {
 	Name string
+	mu   sync.Mutex
 	a    *Stats
 	b    *Stats
 	sp   atomic.Pointer[Stats]
@@ -217,14 +220,20 @@ func NewTrx(name string) *Trx {
 }
 
 func (t *Trx) Record(eventType byte, d int64) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.sp.Load().Record(eventType, d)
 }
 
 func (t *Trx) Error(n uint16) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.sp.Load().Errors[n] += 1
 }
 
 func (t *Trx) Swap() *Stats {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	// on A; switch to B
 	if t.onA {
 		t.b.Reset()
-- 
2.43.0


From 31fe4c1af3facba352e82cdd77849761ab6bf816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 20/51] fix: collect and report every interval completely,
 once, and without mixing intervals or instances

---
 stats/collector.go | 127 ++++++++++++++++++++++++---------------------
 stats/stats.go     |  12 +++++
 2 files changed, 80 insertions(+), 59 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index 53a473a..03bc2b7 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -69,7 +69,6 @@ type Collector struct {
 	intervalNo uint       // current interval being filled
 	interval   []Instance // all Instance stats
 	n          uint       // index in interval
-	reported   time.Time  // when Report was last called
 }
 
 func NewCollector(cfg config.Stats, hostname string, nInstances uint) (*Collector, error) {
@@ -226,57 +225,44 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 		until Report returns true, which means all stats received and reported.
 	*/
 
-	reported := false
-	var lastReported time.Duration
-	if c.Freq == 0 {
-		reported = c.Collect() // first/last/only collection
-	} else {
+	if c.Freq > 0 && !c.start.IsZero() { // not started if local compute is disabled
 		close(c.stopChan) // stop goroutine in Start ^
 		<-c.doneChan      // wait for Start to return
-		if terminated {
-			//finch.Debug("terminated; not waiting for next report")
-			//reported = true
-			//goto STOP
-		}
 	}
 
-	c.Lock()
-	lastReported = time.Now().Sub(c.reported)
-	c.Unlock()
-	finch.Debug("last report: %s ago", lastReported)
+	// Collect the last stats unless case A or C: the final tick just collected them
+	if !c.start.IsZero() && (c.Freq == 0 || Now().Sub(c.last) >= c.Freq/2 || c.uncollected()) {
+		finch.Debug("last collect")
+		c.Collect()
+	}
 
-	if reported || lastReported < (c.Freq/2) {
-		finch.Debug("final report done")
-		reported = true
-	} else {
-		if c.Freq > 0 {
-			finch.Debug("last periodic collect")
-			reported = c.Collect()
-			if reported {
-				goto STOP
-			}
+	// Wait for other instances to complete the last interval. Recv reports it when
+	// the last stats arrive.
+	finch.Debug("waiting %s for final report...", timeout)
+	timeoutC := time.After(timeout)
+	reported := false
+WAIT:
+	for {
+		c.Lock()
+		reported = c.intervalNo > c.local.Interval && c.n == 0
+		c.Unlock()
+		if reported {
+			finch.Debug("final report done")
+			break WAIT
 		}
-
-		finch.Debug("waiting %s for final report...", timeout)
-		timeoutC := time.After(timeout)
-	WAIT:
-		for !reported {
-			select {
-			case <-timeoutC:
-				c.Lock()
-				reported = c.Report(true) // true=force
-				c.Unlock()
-				break WAIT
-			default:
-				time.Sleep(100 * time.Millisecond)
-			}
+		select {
+		case <-timeoutC:
 			c.Lock()
-			reported = c.Report(false)
+			if c.n > 0 {
+				c.Report(true) // true=force
+			}
 			c.Unlock()
+			break WAIT
+		default:
+			time.Sleep(100 * time.Millisecond)
 		}
 	}
 
-STOP:
 	finch.Debug("stopping reporters")
 	for _, r := range c.reporters {
 		r.Stop()
@@ -311,18 +297,18 @@ func (c *Collector) Collect() bool {
 		}
 	}
 
-	// Combine all trx stats into total stats
-	c.local.Total.Reset()
-	seen := map[string]bool{}
+	// Combine all trx stats into total stats. These are new every interval because
+	// reporters and an incomplete interval keep a reference to the previous ones.
+	c.local.Total = NewStats()
+	c.local.Trx = map[string]*Stats{}
 	for i := range c.trx {
 		for j := range c.trx[i] {
 			trxName := c.trx[i][j].Name
 			s := c.stats[i][j] // *Stats: DO NOT modify; see comment ^
 
-			// Reset our local copy first time we see the trx each interval
-			if !seen[trxName] {
-				c.local.Trx[trxName].Reset()
-				seen[trxName] = true
+			// New local copy first time we see the trx each interval
+			if _, ok := c.local.Trx[trxName]; !ok {
+				c.local.Trx[trxName] = NewStats()
 			}
 
 			// Merge stats into our local copies
@@ -333,9 +319,19 @@ func (c *Collector) Collect() bool {
 
 	c.Lock()
 	defer c.Unlock()
-	c.interval[c.n] = c.local
-	c.n++
-	return c.Report(false)
+	return c.add(c.local)
+}
+
+// uncollected returns true if there are stats that Collect has not yet collected.
+func (c *Collector) uncollected() bool {
+	for i := range c.trx {
+		for j := range c.trx[i] {
+			if !c.trx[i][j].empty() {
+				return true
+			}
+		}
+	}
+	return false
 }
 
 // Recv receives stats from remote compute instances. It's called by
@@ -345,13 +341,19 @@ func (c *Collector) Recv(in Instance) {
 	c.Lock()
 	defer c.Unlock()
 
+	c.add(in)
+}
+
+// add adds instance stats to the current interval and reports the interval if it's
+// complete. The caller must lock the Collector.
+func (c *Collector) add(in Instance) bool {
 	// Is the received interval in the past? This can happen for stats from remote
 	// instances if, for example, there's a really bad network delay. Since the old
 	// interval has already been reported, and we don't buffer or report intervals
 	// out of order, we just have to drop the old/delayed interval.
 	if in.Interval < c.intervalNo {
 		log.Printf("Discarding past stats: %+v", in)
-		return
+		return false
 	}
 
 	// Reverse of above: is received interval in the future? If yes, then report
@@ -359,17 +361,25 @@ func (c *Collector) Recv(in Instance) {
 	// reported earlier). This can happen if stats from one or more remote instance
 	// are return  lost, so the interval doesn't complete. This will report a partial interval.
 	if in.Interval > c.intervalNo {
-		log.Printf("Received next stats interval (%d) before current interval (%d) complete; reporting incomplete current interval; next stats: %+v", in.Interval, c.intervalNo, in)
-		c.Report(true) // true=force
-		c.interval[0] = in
-		c.n = 1
-		return
+		if c.n > 0 {
+			log.Printf("Received next stats interval (%d) before current interval (%d) complete; reporting incomplete current interval; next stats: %+v", in.Interval, c.intervalNo, in)
+			c.Report(true) // true=force
+		}
+		c.intervalNo = in.Interval
+	}
+
+	// Instances resend stats if the first try was received but the response was lost
+	for i := range c.interval[0:c.n] {
+		if c.interval[i].Hostname == in.Hostname {
+			log.Printf("Discarding duplicate stats: %+v", in)
+			return false
+		}
 	}
 
 	// Stats in current interval; buffer until we've received all stats
 	c.interval[c.n] = in
 	c.n += 1
-	c.Report(false)
+	return c.Report(false)
 }
 
 // Report reports stats when then current interval is completed: when there are
@@ -388,7 +398,6 @@ func (c *Collector) Report(force bool) bool {
 	for _, r := range c.reporters {
 		r.Report(c.interval[0:c.n])
 	}
-	c.reported = time.Now()
 	c.intervalNo += 1
 	c.n = 0
 	return true // interval complete and reported
diff --git a/stats/stats.go b/stats/stats.go
index 4df0577..a4a53ec 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -231,6 +231,18 @@ func (t *Trx) Error(n uint16) {
 	t.sp.Load().Errors[n] += 1
 }
 
+// empty returns true if nothing has been recorded since the last Swap.
+func (t *Trx) empty() bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	s := t.sp.Load()
+	n := s.N[TOTAL]
+	for _, v := range s.Errors {
+		n += v
+	}
+	return n == 0
+}
+
 func (t *Trx) Swap() *Stats {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-- 
2.43.0


From fc341edbb8edd196d1fe9b1d11bcbaaa16c9d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 21/51] fix: stop waiting for lost clients of the old stage
 after the timeout

---
 compute/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compute/api.go b/compute/api.go
index a45ea26..7982f7e 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -121,12 +121,13 @@ func (a *API) Stage(newStage *stageMeta) error {
 	// Wait for clients to check in (GET /run), be signaled that stage.done=true,
 	// send final stats, then call POST /run to terminate
 	timeout := time.After(3 * time.Second)
+WAIT:
 	for {
 		time.Sleep(100 * time.Millisecond)
 		select {
 		case <-timeout:
 			finch.Debug("timeout waiting for clients to reset")
-			break
+			break WAIT
 		default:
 		}
 		oldStage.Lock()
-- 
2.43.0


From 352c122c736808fbc51a3c04abfa252d637bcdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 22/51] fix: do not assign abandoned boot requests; free the
 space of clients that fail to boot; allow clients to restart and retry

---
 compute/api.go | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index 7982f7e..5111f6b 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -167,21 +167,34 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 
 		// Wait until there's a stage that's not done booting (needs more instances)
 		log.Printf("Remote %s ready to boot\n", rc.name)
+		var prev *client
+		var assigned bool
 		for {
+			// Is the client still waiting? If not, don't assign it to a stage
+			// because it will never ack.
+			if r.Context().Err() != nil {
+				log.Printf("Remote %s stopped waiting to boot\n", rc.name)
+				return
+			}
+
 			// Has server set a stage?
 			a.Lock()
 			stage := a.stage // copy ptr
-			if stage == nil || stage.done {
+			if stage == nil {
 				a.Unlock()
 				goto RETRY // no stage
 			}
 
-			// Is the stage still booting (waiting for instances)?
+			// Is the stage still booting (waiting for instances)? If this client was
+			// already assigned but didn't ack, then it's restarting and keeps its space.
 			stage.Lock()
-			if stage.booted || len(stage.clients) == int(stage.nRemotes) {
+			prev, assigned = stage.clients[rc.name]
+			if stage.done || stage.booted ||
+				(!assigned && len(stage.clients) == int(stage.nRemotes)) ||
+				(assigned && prev.state != booting) {
 				stage.Unlock()
 				a.Unlock()
-				goto RETRY // stage is full
+				goto RETRY // stage is done or full
 			}
 
 			// Stage is ready and there's a space for this client
@@ -203,6 +216,10 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		}
 	} else {
 		// POST /boot: client is ack'ing previous GET /boot; body is error message, if any
+		if rc.state == runnable {
+			w.WriteHeader(http.StatusOK) // already ack'ed; client lost our response
+			return
+		}
 		if rc.state != booting {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
@@ -217,14 +234,18 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		w.WriteHeader(http.StatusOK)
 
 		// Remote might fail to boot. If that's the case, do not advance its state;
-		// it should call GET /boot again to reset itself and try again.
+		// it should call GET /boot again to reset itself and try again. Until then,
+		// its space is free for another remote.
 		var clientErr error
+		rc.stage.Lock()
 		if string(body) != "" {
 			// Don't advance state: client failed to boot, so it's not ready to run
 			clientErr = fmt.Errorf("%s", string(body))
+			delete(rc.stage.clients, rc.name)
 		} else {
 			rc.state = runnable // advance client state (successful boot)
 		}
+		rc.stage.Unlock()
 		rc.stage.bootChan <- ack{name: rc.name, err: clientErr}
 
 	}
@@ -298,15 +319,21 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if get {
-		// GET /run: client is waiting for signal to run previously booted stage
-		if rc.state != runnable {
+		// GET /run: client is waiting for signal to run previously booted stage,
+		// or lost our response (running) and is asking again
+		if rc.state != runnable && rc.state != running {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
 
 		// Remote is waiting for next stage to run
 		log.Printf("Remote %s waiting to start...", rc.name)
-		<-rc.stage.runChan // closed in Server.Run, or api.Stage if --test
+		select {
+		case <-rc.stage.runChan: // closed in Server.Run, or api.Stage if --test
+		case <-r.Context().Done():
+			log.Printf("Remote %s stopped waiting to start\n", rc.name)
+			return
+		}
 
 		// If boot --test and there's a new stage, Server.Boot calls api.Stage
 		// which will stop the old stage and trigger this block.
@@ -463,7 +490,7 @@ func (a *API) client(w http.ResponseWriter, r *http.Request, boot bool) (*client
 
 	// Is instance assigned to the current stage?
 	rc, ok := a.stage.clients[name]
-	if !ok {
+	if !ok || (get && boot && rc.state == booting) { // new client, or restarting
 
 		// Instance not assigned to the stage, but that's ok if it's trying
 		// to boot and join the stage.
-- 
2.43.0


From bbd84c843b9cd36e9471c3d5b679e1cdcad7a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 23/51] fix: release remotes after a boot test

---
 compute/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index 0189c63..224bb0d 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -88,6 +88,8 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 		fmt.Printf("#\n# %s (%s)\n#\n", stageName, cfg.Id)
 	}
 
+	cfg.Test = s.test
+
 	m := &stageMeta{
 		Mutex:    &sync.Mutex{},
 		cfg:      cfg,
@@ -155,6 +157,9 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	m.Unlock()
 
 	if s.test {
+		if s.api != nil && nRemotes > 0 {
+			s.api.Stage(nil) // tell remotes that the boot test is done
+		}
 		return nil
 	}
 
-- 
2.43.0


From 8a3ad817a107b4ee89ea81a6ded251cb6637872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 24/51] fix: stop after CTRL-C without waiting for lost
 remotes; report the last stats without a local instance

---
 compute/server.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/compute/server.go b/compute/server.go
index 224bb0d..95a4bf4 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path/filepath"
 	"sync"
+	"time"
 
 	"github.com/rs/xid"
 
@@ -179,10 +180,16 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 
 	// Wait for instances to finish running
 	running := booted
+	localRunning := local != nil
+	ctxDone := ctxFinch.Done()
+	var timeout <-chan time.Time // set on CTRL-C
 	for running > 0 {
 		select {
 		case ack := <-m.doneChan:
 			running -= 1
+			if ack.name == s.name {
+				localRunning = false
+			}
 			if ack.err != nil {
 				log.Printf("%s error running stage %s: %s", ack.name, stageName, ack.err)
 			}
@@ -192,13 +199,28 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 					log.Printf("%d/%d instances running", running, nInstances)
 				}
 			}
-		case <-ctxFinch.Done():
+		case <-ctxDone:
+			ctxDone = nil // only once
 			// Signal remote instances to stop early and (maybe) send finals stats
 			if s.api != nil {
 				s.api.Stage(nil)
 			}
+			timeout = time.After(100 * time.Millisecond) // Stage already waited
+		case <-timeout:
+			timeout = nil
+			if localRunning {
+				timeout = time.After(100 * time.Millisecond) // local always stops
+				continue
+			}
+			log.Printf("%d remote instances did not stop, ignoring", running)
+			running = 0
 		}
 	}
 
+	// Stage.Run stops stats (reports the last interval), but not without a local instance
+	if local == nil && m.stats != nil {
+		m.stats.Stop(0, ctxFinch.Err() != nil) // remotes already sent everything
+	}
+
 	return nil
 }
-- 
2.43.0


From 55d4c434a494608b227614a879a644f4657d76c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 25/51] fix: retry requests with the same body; read the whole
 response before the request is cancelled

---
 proto/proto.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 45cace3..f13f856 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -60,6 +60,7 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 	if data != nil {
 		json.NewEncoder(buf).Encode(data)
 	}
+	reqBody := buf.Bytes() // same on every try
 
 	var err error
 	var body []byte
@@ -69,17 +70,18 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 	for r.Tries == -1 || try < r.Tries {
 		try += 1
 		ctxReq, cancelReq := context.WithTimeout(ctx, r.Timeout)
-		req, _ = http.NewRequestWithContext(ctxReq, method, url, buf)
+		req, _ = http.NewRequestWithContext(ctxReq, method, url, bytes.NewReader(reqBody))
 		resp, err = c.client.Do(req)
-		cancelReq()
 		if err != nil {
+			cancelReq()
 			goto RETRY
 		}
 
 		body, err = io.ReadAll(resp.Body)
 		resp.Body.Close()
+		cancelReq() // after reading the body
 		if err != nil {
-			return nil, nil, err
+			goto RETRY
 		}
 
 		switch resp.StatusCode {
-- 
2.43.0


From 0fb8691460aeecd63fc535919d54aee7e2936bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 26/51] fix: do not mix trx files with the same name in
 different directories

---
 compute/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compute/client.go b/compute/client.go
index d7b0542..b322a9b 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -202,7 +202,8 @@ func (c *Client) getTrxFiles(ctxFinch context.Context, cfg config.Stage, tmpdir
 		}
 		finch.Debug("%+v", resp)
 
-		filename := filepath.Join(tmpdir, filepath.Base(trx[i].File))
+		// Prefix with trx number because files in different dirs can have the same name
+		filename := filepath.Join(tmpdir, fmt.Sprintf("%d-%s", i, filepath.Base(trx[i].File)))
 		f, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0440)
 		if err != nil {
 			return err
-- 
2.43.0


From 57edbe875551becf67a1706c81d1af56b75cbc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:28 +0000
Subject: [PATCH 27/51] fix: accept percentiles like P999 as documented

---
 stats/reporter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stats/reporter.go b/stats/reporter.go
index 273204c..355e4d0 100644
--- a/stats/reporter.go
+++ b/stats/reporter.go
@@ -110,7 +110,10 @@ func ParsePercentiles(pCSV string) ([]string, []float64, error) {
 		if err != nil {
 			return nil, nil, fmt.Errorf("invalid percentile: %s: %s", pStr, err)
 		}
-		if f < 0.0 || f > 100.0 {
+		for f > 100.0 && strings.Trim(pStr, "9") == "" { // P999 -> 99.9
+			f /= 10.0
+		}
+		if !(f >= 0.0 && f <= 100.0) {
 			return nil, nil, fmt.Errorf("percentile out of range: %s (%f): must be bretween 0 and 100", pStr, f)
 		}
 		s = append(s, "P"+pStr) // 99 -> P99 (string)
-- 
2.43.0


From 69ffa1e797d6c42439c0ad6dd8b77babf85b3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:30 +0000
Subject: [PATCH 28/51] fix: print the combined stats of a single instance when
 each-instance is off

---
 stats/stdout.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stats/stdout.go b/stats/stdout.go
index d615052..6ca77bd 100644
--- a/stats/stdout.go
+++ b/stats/stdout.go
@@ -79,6 +79,8 @@ func (r *Stdout) Report(from []Instance) {
 	if r.combined && len(from) > 1 {
 		r.all.Combine(from)
 		r.print(r.all)
+	} else if r.combined && !r.each { // nothing to combine
+		r.print(&from[0])
 	}
 	r.w.Flush()
 	fmt.Println()
-- 
2.43.0


From 7123e813283f8b90e3a13fd7cf6727fb94526aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 29/51] fix: str-fill-az was not safe when shared by clients

rand.Source is not safe for concurrent use: clients sharing the generator
(value scope and multi-client scopes) got the same or corrupt values.
---
 data/string.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/string.go b/data/string.go
index 2131341..0d892bf 100644
--- a/data/string.go
+++ b/data/string.go
@@ -6,13 +6,15 @@ import (
 	"fmt"
 	"math/rand"
 	"strings"
+	"sync"
 	"time"
 )
 
 // StrFillAz implemnts the str-fill-az data generator.
 type StrFillAz struct {
 	len int64
-	src rand.Source
+	src rand.Source // not safe for concurrent use
+	mu  sync.Mutex  // guards src: clients can share the generator
 }
 
 var _ Generator = &StrFillAz{}
@@ -51,6 +53,8 @@ func (g *StrFillAz) Copy() Generator {
 }
 
 func (g *StrFillAz) Values(_ RunCount) []interface{} {
+	g.mu.Lock()
+	defer g.mu.Unlock()
 	sb := strings.Builder{}
 	sb.Grow(int(g.len))
 	// A src.Int63() generates 63 random bits, enough for letterIdxMax characters!
-- 
2.43.0


From cda7951bfd6b343feb13e50df391f58c9985020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:38 +0000
Subject: [PATCH 30/51] fix: int-gaps crashed or returned garbage for small
 ranges

If p percent of [min, max] is less than one value, Values crashed; if it is
exactly one, the slope is infinite and Values returned -2^63.
---
 data/integer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data/integer.go b/data/integer.go
index 66f9b6f..72dc6f9 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -139,12 +139,17 @@ func NewIntGaps(params map[string]string) (*IntGaps, error) {
 		return nil, fmt.Errorf("invalid int-gaps p: %d, must be between 1 to 100 (inclusive)", p)
 	}
 	input_max := int64(float64(size) * (float64(p) / 100.0))
+	if input_max < 1 {
+		input_max = 1 // at least one value: min
+	}
 
 	g := &IntGaps{
 		params:       params,
 		input_max:    input_max,
 		output_start: float64(min),
-		slope:        float64(max-min) / float64(input_max-1),
+	}
+	if input_max > 1 {
+		g.slope = float64(max-min) / float64(input_max-1)
 	}
 	finch.Debug("1..%d -> %d..%d (%d%% of %d) gap: %d records", input_max, min, max, p, size, int(g.slope))
 	return g, nil
-- 
2.43.0


From f325d939a5453a5c4d146a9cb876063d38a2ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:40 +0000
Subject: [PATCH 31/51] fix: int returned values outside [min, max], or never
 max

A uniform int never returned max and returned every value less than min as
min. A normal int could return a mean that is outside [min, max], which was
also the default for min > 1.
---
 data/integer.go                 | 22 +++++++++++++++++-----
 docs/content/data/generators.md |  2 +-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 72dc6f9..fad4669 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -43,6 +43,9 @@ func NewInt(params map[string]string) (*Int, error) {
 	if err := int64From(params, "max", &g.max, false); err != nil {
 		return nil, err
 	}
+	if g.min > g.max {
+		return nil, fmt.Errorf("invalid int: min %d > max %d", g.min, g.max)
+	}
 
 	switch strings.ToLower(params["dist"]) {
 	case "normal":
@@ -52,7 +55,7 @@ func NewInt(params map[string]string) (*Int, error) {
 			return nil, err
 		}
 		if mean == 0 {
-			mean = (g.max - g.min + 1) / 2
+			mean = g.min + (g.max-g.min)/2
 		}
 		g.mean = float64(mean)
 
@@ -91,14 +94,23 @@ func (g *Int) Values(_ RunCount) []interface{} {
 		if v < g.min || v > g.max {
 			v = int64(math.Floor(rand.NormFloat64()*g.stddev + g.mean))
 			if v < g.min || v > g.max {
-				return []interface{}{int64(g.mean)}
+				v = int64(g.mean)
+				if v < g.min { // mean can be outside [min, max]
+					v = g.min
+				} else if v > g.max {
+					v = g.max
+				}
 			}
 		}
 		return []interface{}{v}
 	default: // uniform
-		v := rand.Int63n(g.max)
-		if v < g.min {
-			v = g.min
+		if n := g.max - g.min + 1; n > 0 {
+			return []interface{}{g.min + rand.Int63n(n)}
+		}
+		// More than 2^63 values in [min, max]
+		v := int64(rand.Uint64())
+		for v < g.min || v > g.max {
+			v = int64(rand.Uint64())
 		}
 		return []interface{}{v}
 	}
diff --git a/docs/content/data/generators.md b/docs/content/data/generators.md
index 6a0135d..f283817 100644
--- a/docs/content/data/generators.md
+++ b/docs/content/data/generators.md
@@ -18,7 +18,7 @@ Random integer between `[min, max]` with uniform or normal distribution
 |`min`|1|v &ge; 0|
 |`max`|100,000|v &lt; 2<sup>64</sup>|
 |`dist`|`uniform`|`uniform` or `normal`|
-|`mean`|(max-min+1)/2||
+|`mean`|(min+max)/2||
 |`stddev`|max-min/8.0||
 {.compact .params}
 
-- 
2.43.0


From d8b2f144c75a32ee975683e3da9f952ed37e9ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:57 +0000
Subject: [PATCH 32/51] fix: --param was ignored if set in the stage file or
 not in _all.yaml

--param overrides all: it was applied only to the params of _all.yaml, which
the stage file overrides, and not at all if _all.yaml has no params.
---
 config/config.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/config/config.go b/config/config.go
index a5d8a99..067c628 100644
--- a/config/config.go
+++ b/config/config.go
@@ -82,16 +82,6 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 				finch.Debug("base: none in %s", dir)
 			}
 
-			// --param foo=bar on command line overrides .params in stage files
-			if len(b.Params) > 0 {
-				if b.Params == nil {
-					b.Params = map[string]string{}
-				}
-				for k, v := range params {
-					b.Params[k] = v
-				}
-			}
-
 			base[dir] = b
 		}
 
@@ -115,6 +105,14 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		// Set stage with defaults (base)
 		f.Stage.With(b)
 
+		// --param foo=bar on command line overrides .params in config files
+		if len(params) > 0 && f.Stage.Params == nil {
+			f.Stage.Params = map[string]string{}
+		}
+		for k, v := range params {
+			f.Stage.Params[k] = v
+		}
+
 		// --dsn and --database on command line override config files
 		f.Stage.CommandLine(dsn, db)
 
-- 
2.43.0


From c73ee24a6cc3bdb872ad726eb3a99f22c751d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 33/51] fix: stats.freq and stats.report in a stage file were
 ignored

_all.yaml overwrote them, even with nothing.
---
 config/file.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/config/file.go b/config/file.go
index 60bd355..c20cdf6 100644
--- a/config/file.go
+++ b/config/file.go
@@ -68,8 +68,10 @@ func (c *Stage) With(b Base) {
 
 	// Stats has a map, so copy in all fields manually
 	c.Stats.Disable = setBool(c.Stats.Disable, b.Stats.Disable)
-	c.Stats.Freq = b.Stats.Freq
-	if len(b.Stats.Report) > 0 {
+	if c.Stats.Freq == "" {
+		c.Stats.Freq = b.Stats.Freq
+	}
+	if len(c.Stats.Report) == 0 && len(b.Stats.Report) > 0 {
 		c.Stats.Report = map[string]map[string]string{}
 		for r := range b.Stats.Report {
 			c.Stats.Report[r] = map[string]string{}
-- 
2.43.0


From 6110b08cbe60077ec9fcf7e3b59ff809e2e1b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:06 +0000
Subject: [PATCH 34/51] fix: params that refer to other params were not always
 replaced

Params were interpolated in random order, so a param could be replaced by the
unresolved value of another.
---
 config/config.go | 37 +++++++++++++++++++++++++++++++++++++
 config/file.go   |  7 ++-----
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/config/config.go b/config/config.go
index 067c628..6edb8fc 100644
--- a/config/config.go
+++ b/config/config.go
@@ -254,6 +254,43 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 	return out.String(), nil
 }
 
+// resolveParams interpolates the params, which can refer to each other in any order.
+func resolveParams(params map[string]string) error {
+	resolving := map[string]bool{} // false = resolved
+	var resolve func(string) error
+	resolve = func(k string) error {
+		if busy, ok := resolving[k]; ok {
+			if busy {
+				return fmt.Errorf("params.%s refers to itself", k)
+			}
+			return nil
+		}
+		resolving[k] = true
+		for _, m := range varRE.FindAllStringSubmatch(params[k], -1) {
+			ref := strings.TrimPrefix(m[1]+m[2], "params.") // only one submatch is not empty
+			if _, ok := params[ref]; !ok || ref == m[1]+m[2] {
+				continue // not a param, or undefined: Vars returns an error
+			}
+			if err := resolve(ref); err != nil {
+				return err
+			}
+		}
+		val, err := Vars(params[k], params, true)
+		if err != nil {
+			return err
+		}
+		params[k] = val
+		resolving[k] = false
+		return nil
+	}
+	for k := range params {
+		if err := resolve(k); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // varValue returns the value of params.foo, sys.foo, or environment variable FOO.
 func varValue(p string, params map[string]string) (string, error) {
 	switch {
diff --git a/config/file.go b/config/file.go
index c20cdf6..885841d 100644
--- a/config/file.go
+++ b/config/file.go
@@ -110,11 +110,8 @@ func (c *Stage) Vars() error {
 	var err error
 
 	// First interpolate the params before they're used in other config vars
-	for k, v := range c.Params {
-		c.Params[k], err = Vars(v, c.Params, true)
-		if err != nil {
-			return fmt.Errorf("in params: %s", err)
-		}
+	if err := resolveParams(c.Params); err != nil {
+		return fmt.Errorf("in params: %s", err)
 	}
 
 	// Interpolate $params.var in other config vars
-- 
2.43.0


From 3dee333068a9c85f35d5bba292181e3375aaaccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:09 +0000
Subject: [PATCH 35/51] fix: params were not replaced in iter limits, MySQL
 hostname and socket

---
 config/file.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/config/file.go b/config/file.go
index 885841d..68e25cf 100644
--- a/config/file.go
+++ b/config/file.go
@@ -440,6 +440,18 @@ func (c *ClientGroup) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Iter, err = Vars(c.Iter, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterClients, err = Vars(c.IterClients, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterExecGroup, err = Vars(c.IterExecGroup, params, true)
+	if err != nil {
+		return err
+	}
 	c.QPSClients, err = Vars(c.QPSClients, params, true)
 	if err != nil {
 		return err
@@ -539,6 +551,10 @@ func (c *MySQL) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Hostname, err = Vars(c.Hostname, params, false)
+	if err != nil {
+		return err
+	}
 	c.MyCnf, err = Vars(c.MyCnf, params, false)
 	if err != nil {
 		return err
@@ -555,6 +571,10 @@ func (c *MySQL) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Socket, err = Vars(c.Socket, params, false)
+	if err != nil {
+		return err
+	}
 	c.TimeoutConnect, err = Vars(c.TimeoutConnect, params, false)
 	if err != nil {
 		return err
-- 
2.43.0


From 86a76b3a89b143058744cc53e9045c09767c1786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:13 +0000
Subject: [PATCH 36/51] fix: compute.instances = 0 hung the server

0 is valid and means the default, like an empty value.
---
 config/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/file.go b/config/file.go
index 68e25cf..adef3f9 100644
--- a/config/file.go
+++ b/config/file.go
@@ -298,7 +298,7 @@ func (c *Compute) Validate() error {
 	if err := parseInt(c.Instances); err != nil {
 		return fmt.Errorf("instances: '%s' is not an integer: %s", c.Instances, err)
 	}
-	if c.Instances == "" {
+	if finch.Uint(c.Instances) == 0 {
 		c.Instances = "1"
 	}
 	return nil
-- 
2.43.0


From 897c45465ab92c0051caea3b0d761dc20b2fac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:53 +0000
Subject: [PATCH 37/51] fix: expand every /*!csv*/ in a statement, not all of
 them as the first

---
 trx/trx.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 205d659..0d12a5c 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -378,15 +378,16 @@ func (f *File) statements() ([]*Statement, error) {
 	// ----------------------------------------------------------------------
 	// Expand CSV /*!csv N template*/
 	// ----------------------------------------------------------------------
-	csvTemplate := ""
-	m := reCSV.FindStringSubmatch(query)
-	if len(m) > 0 {
+	var csvQuery strings.Builder
+	end := 0
+	for _, i := range reCSV.FindAllStringSubmatchIndex(query, -1) {
+		m := []string{query[i[0]:i[1]], query[i[2]:i[3]], query[i[4]:i[5]]}
 		n, err := strconv.ParseInt(m[1], 10, 32)
 		if err != nil {
 			return nil, fmt.Errorf("invalid number of CSV values in %s: %s", m[0], err)
 		}
 		vals := make([]string, n)
-		csvTemplate = strings.TrimSpace(m[2])
+		csvTemplate := strings.TrimSpace(m[2])
 
 		keys := map[string]bool{}
 		for _, name := range DataKeyPattern.FindAllString(csvTemplate, -1) {
@@ -415,12 +416,15 @@ func (f *File) statements() ([]*Statement, error) {
 		finch.Debug("csv %d %s -> %s", n, csvTemplate, csvTemplateScoped)
 
 		// Expand template, e.g. 3 (@d) -> (@d), (@d), (@d)
-		for i := int64(0); i < n; i++ {
-			vals[i] = csvTemplateScoped
+		for j := range vals {
+			vals[j] = csvTemplateScoped
 		}
-		csv := strings.Join(vals, ", ")
-		query = reCSV.ReplaceAllLiteralString(query, csv)
+		csvQuery.WriteString(query[end:i[0]])
+		csvQuery.WriteString(strings.Join(vals, ", "))
+		end = i[1]
 	}
+	csvQuery.WriteString(query[end:])
+	query = csvQuery.String()
 
 	// ----------------------------------------------------------------------
 	// Data keys: @d -> data.Generator
-- 
2.43.0


From 5fe99ca4e5807bd71684b18fda2f8bb0b87192d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 38/51] fix: keep a literal % in an unprepared statement with
 data keys

---
 trx/trx.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trx/trx.go b/trx/trx.go
index 0d12a5c..53a2b8a 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -216,6 +216,7 @@ func (f *File) line(line string) error {
 
 var reKeyVal = regexp.MustCompile(`([\w_-]+)(?:\:\s*(\w+))?`)
 var reCSV = regexp.MustCompile(`\/\*\!csv\s+(\d+)\s+(.+?)\*\/`)
+var rePercent = regexp.MustCompile(`%%?`)
 var reFirstWord = regexp.MustCompile(`^(\w+)`)
 
 func (f *File) statements() ([]*Statement, error) {
@@ -509,6 +510,12 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 	}
 
+	// Statement is executed as a format string if not prepared, so escape each
+	// literal %, like LIKE 'a%', unless it's already written as %%
+	if !s.Prepare {
+		query = rePercent.ReplaceAllLiteralString(query, "%%")
+	}
+
 	// Replace each @d by its own format: one name can be the prefix of another,
 	// and each @PREV depends on the @d before it
 	finch.Debug("formats: %v", dataFormats)
-- 
2.43.0


From 1de12db984346b215628ca656ef09a4c8626dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:25 +0000
Subject: [PATCH 39/51] fix: idle modifier in minutes

---
 trx/trx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trx/trx.go b/trx/trx.go
index 53a2b8a..96e3558 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -180,7 +180,9 @@ func (f *File) line(line string) error {
 			if line == "-- EOF" {
 				return ErrEOF
 			}
-			mod, err := config.Vars(strings.TrimSpace(strings.TrimPrefix(line, "--")), f.params, true)
+			mod := strings.TrimSpace(strings.TrimPrefix(line, "--"))
+			numbers := !strings.HasPrefix(mod, "idle") // idle: 1m is 1 minute, not 1 million
+			mod, err := config.Vars(mod, f.params, numbers)
 			if err != nil {
 				return fmt.Errorf("parsing modifier '%s' on line %d: %s", line, f.lb.n, err)
 			}
-- 
2.43.0


From d9638730c5681942e6565b083ce9de887ebd369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:27 +0000
Subject: [PATCH 40/51] fix: allow @PREV and saved columns in a CSV template

---
 trx/trx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trx/trx.go b/trx/trx.go
index 96e3558..455ffa4 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -394,6 +394,12 @@ func (f *File) statements() ([]*Statement, error) {
 
 		keys := map[string]bool{}
 		for _, name := range DataKeyPattern.FindAllString(csvTemplate, -1) {
+			// @PREV and saved columns have their own value and aren't row scoped,
+			// so they don't have to be configured
+			if k, ok := f.set.Data.Keys[strings.TrimSuffix(name, EXPLICIT_CALL_SUFFIX)]; name == "@PREV" || (ok && k.Column >= 0) {
+				continue
+			}
+
 			// Trim to look up data key in config because @ is not valid YAML.
 			// The @ will be put back later because all other code expects it.
 			name = cfgKey(name)
-- 
2.43.0


From 512c773d51177dc71c4d03c210821cfd8a68e94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:29 +0000
Subject: [PATCH 41/51] fix: long lines in trx files

---
 trx/trx.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 455ffa4..17304cc 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -5,7 +5,6 @@ package trx
 import (
 	"bufio"
 	"fmt"
-	"log"
 	"os"
 	"regexp"
 	"strconv"
@@ -28,6 +27,8 @@ const (
 
 const EXPLICIT_CALL_SUFFIX = "()"
 
+const maxLine = 64 * 1024 * 1024 // bytes, default max_allowed_packet in MySQL 8.0
+
 var DataKeyPattern = regexp.MustCompile(`@[\w_-]+(?:\(\))?`)
 var ExplicitCallPattern = regexp.MustCompile(`@[\w_-]+\(\)`)
 
@@ -128,6 +129,7 @@ func (f *File) Load() error {
 	defer file.Close()
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, maxLine)
 	for scanner.Scan() {
 		err = f.line(strings.TrimSpace(scanner.Text()))
 		if err != nil {
@@ -137,6 +139,9 @@ func (f *File) Load() error {
 			return err
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return fmt.Errorf("error reading %s after line %d: %s", f.cfg.File, f.lb.n, err)
+	}
 	err = f.line("") // last line
 	if err != nil {
 		return err
@@ -157,10 +162,6 @@ func (f *File) Load() error {
 		return fmt.Errorf("saved columns not referenced: %s", strings.Join(noRefs, ", "))
 	}
 
-	if err := scanner.Err(); err != nil {
-		log.Fatal(err) // shouldn't happen
-	}
-
 	f.set.Order = append(f.set.Order, f.cfg.Name)
 	f.set.Statements[f.cfg.Name] = f.stmts
 	f.set.Meta[f.cfg.Name] = Meta{
-- 
2.43.0


From 12eda78500c42167e07cb320a567cc7cec3737fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 42/51] fix: refuse different trx files with the same name

---
 config/file.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/config/file.go b/config/file.go
index adef3f9..a7d1af7 100644
--- a/config/file.go
+++ b/config/file.go
@@ -168,6 +168,7 @@ func (c *Stage) Validate() error {
 
 	// Trx list: must validate before Workload because Workload reference trx by name
 	seen := map[string]string{}
+	trxFile := map[string]string{} // keyed on trx name
 	for i := range c.Trx {
 		if c.Trx[i].File == "" {
 			return fmt.Errorf("no file specified for trx %d", i+1)
@@ -178,6 +179,11 @@ func (c *Stage) Validate() error {
 		if c.Trx[i].Name == "" {
 			c.Trx[i].Name = filepath.Base(c.Trx[i].File)
 		}
+		file := filepath.Clean(c.Trx[i].File)
+		if prevFile, ok := trxFile[c.Trx[i].Name]; ok && prevFile != file {
+			return fmt.Errorf("duplicate trx name: %s: %s then %s; set trx[%d].name to a different name", c.Trx[i].Name, prevFile, file, i)
+		}
+		trxFile[c.Trx[i].Name] = file
 
 		for dataKey, data := range c.Trx[i].Data {
 			if data.Generator == "" {
-- 
2.43.0


From f9f4b5303bb07a2d0b1af2e1e1008e2b123d60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:51 +0000
Subject: [PATCH 43/51] fix: invalid DSN caused a panic

---
 dbconn/factory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 67591f9..c4ff0ba 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -224,8 +224,9 @@ func isSocket(file string) bool {
 
 func RedactedDSN(dsn string) string {
 	redactedPassword, err := mysql.ParseDSN(dsn)
-	if err != nil { // ok to ignore
+	if err != nil { // ok to ignore, Make returns the error
 		finch.Debug("mysql.ParseDSN error: %s", err)
+		return "(invalid DSN)"
 	}
 	redactedPassword.Passwd = "..."
 	return redactedPassword.FormatDSN()
-- 
2.43.0


From c33c7f46b1fec34fb8f1aaefe406122dbe234ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:53 +0000
Subject: [PATCH 44/51] fix: line end in password file was part of the password

---
 dbconn/factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index c4ff0ba..7d774ed 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -141,7 +141,7 @@ func (f *factory) setDSN() error {
 		if err != nil {
 			return err
 		}
-		password = string(bytes)
+		password = strings.TrimRight(string(bytes), "\r\n") // line end isn't part of password
 	}
 
 	if f.cfg.Username == "" {
-- 
2.43.0


From f2d16bc6c6939d7133d0ecd65db57b29ee65ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 45/51] fix: TLS in my.cnf was ignored

---
 dbconn/mycnf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index 99d56de..98260ee 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -37,7 +37,7 @@ func ParseMyCnf(file string) (config.MySQL, error) {
 	//   https://dev.mysql.com/doc/refman/8.0/en/connection-options.html#option_general_ssl-mode
 	// But Go tls.Config (which is derived from config.TLS) has only two
 	// options: specify tls.Confg.ServerName _or_ .InsecureSkipVerify=true.
-	mysqlTLS(file, mycnf, &cfg)
+	cfg.TLS = mysqlTLS(file, mycnf, &cfg)
 
 	finch.Debug("mycnf %s: %s %+v", file, cfg.Redacted())
 	return cfg, nil
@@ -54,7 +54,7 @@ func mysqlTLS(file string, mycnf *ini.File, cfg *config.MySQL) (tls config.TLS)
 	// Explicitly disabled = not TLS even if other vars set
 	if tls.MySQLMode == "DISABLED" {
 		finch.Debug("mycnf %s: ssl-mode=DISABLED", file)
-		return
+		return config.TLS{} // don't disable mysql.tls in a stage
 	}
 
 	// As per the MySQL manual:
-- 
2.43.0


From e4a30d28d120d460e072f02d0799aa070313f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:57 +0000
Subject: [PATCH 46/51] fix: port without host in my.cnf

---
 dbconn/factory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 7d774ed..e7f2317 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -95,6 +95,8 @@ func (f *factory) setDSN() error {
 		net = "tcp"
 		if f.cfg.Hostname == "" {
 			f.cfg.Hostname = "127.0.0.1"
+		} else if strings.HasPrefix(f.cfg.Hostname, ":") { // only port in my.cnf
+			f.cfg.Hostname = "127.0.0.1" + f.cfg.Hostname
 		}
 		addr = f.cfg.Hostname
 	}
-- 
2.43.0


From 34c4ee9815709df18238cb9a5048974731f9395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:59 +0000
Subject: [PATCH 47/51] fix: special characters in MySQL user, database and
 socket

---
 dbconn/factory.go | 52 ++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index e7f2317..632ddf8 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -5,7 +5,6 @@ package dbconn
 
 import (
 	"database/sql"
-	"fmt"
 	"io/fs"
 	"io/ioutil"
 	"os"
@@ -33,37 +32,42 @@ var f = &factory{}
 
 type factory struct {
 	cfg config.MySQL
-	dsn string
+	my  *mysql.Config
 }
 
 func SetConfig(cfg config.MySQL) {
 	f.cfg = cfg
-	f.dsn = ""
+	f.my = nil
 }
 
 func Make() (*sql.DB, string, error) {
 	// Parse MySQL params and set DSN on first call. There's only 1 DSN for
 	// all clients, so this only needs to be done once.
-	if f.dsn == "" {
+	if f.my == nil {
 		if err := f.setDSN(); err != nil {
 			return nil, "", err
 		}
 	}
-	finch.Debug("dsn: %s", RedactedDSN(f.dsn))
+	dsn := redacted(f.my)
+	finch.Debug("dsn: %s", dsn)
 
 	// Make new sql.DB (conn pool) for each client group; see the call to
 	// this func in workload/workload.go.
-	db, err := sql.Open("mysql", f.dsn)
+	c, err := mysql.NewConnector(f.my)
 	if err != nil {
 		return nil, "", err
 	}
-	return db, RedactedDSN(f.dsn), nil
+	return sql.OpenDB(c), dsn, nil
 }
 
 func (f *factory) setDSN() error {
 	// --dsn or mysql.dsn (in that order) overrides all
 	if f.cfg.DSN != "" {
-		f.dsn = f.cfg.DSN
+		my, err := mysql.ParseDSN(f.cfg.DSN)
+		if err != nil {
+			return err
+		}
+		f.my = my
 		return nil
 	}
 
@@ -104,7 +108,8 @@ func (f *factory) setDSN() error {
 	// ----------------------------------------------------------------------
 	// Load TLS
 
-	params := []string{"parseTime=true"}
+	my := mysql.NewConfig()
+	my.ParseTime = true
 
 	// Go says "either ServerName or InsecureSkipVerify must be specified".
 	// This is a pathological case: socket and TLS but no hostname to verify
@@ -123,7 +128,7 @@ func (f *factory) setDSN() error {
 	}
 	if tlsConfig != nil {
 		mysql.RegisterTLSConfig("benchmark", tlsConfig)
-		params = append(params, "tls=benchmark")
+		my.TLSConfig = "benchmark"
 		finch.Debug("TLS enabled")
 	}
 
@@ -131,7 +136,7 @@ func (f *factory) setDSN() error {
 	if rdsAddr.MatchString(addr) && !config.True(f.cfg.DisableAutoTLS) && tlsConfig == nil {
 		finch.Debug("auto AWS TLS: hostname has suffix .rds.amazonaws.com")
 		aws.RegisterRDSCA() // safe to call multiple times
-		params = append(params, "tls=rds")
+		my.TLSConfig = "rds"
 	}
 
 	// ----------------------------------------------------------------------
@@ -154,18 +159,15 @@ func (f *factory) setDSN() error {
 			password = "amazing"
 		}
 	}
-	cred := f.cfg.Username
-	if password != "" {
-		cred += ":" + password
-	}
-
 	// ----------------------------------------------------------------------
-	// Set DSN
+	// Set DSN (not as a string because values can have any character)
 
-	f.dsn = fmt.Sprintf("%s@%s(%s)/%s", cred, net, addr, f.cfg.Db)
-	if len(params) > 0 {
-		f.dsn += "?" + strings.Join(params, "&")
-	}
+	my.User = f.cfg.Username
+	my.Passwd = password
+	my.Net = net
+	my.Addr = addr
+	my.DBName = f.cfg.Db
+	f.my = my
 
 	return nil
 }
@@ -230,9 +232,13 @@ func RedactedDSN(dsn string) string {
 		finch.Debug("mysql.ParseDSN error: %s", err)
 		return "(invalid DSN)"
 	}
-	redactedPassword.Passwd = "..."
-	return redactedPassword.FormatDSN()
+	return redacted(redactedPassword)
+}
 
+func redacted(my *mysql.Config) string {
+	my = my.Clone()
+	my.Passwd = "..."
+	return my.FormatDSN()
 }
 
 // Suppress error messages from Go MySQL driver like "[mysql] 2023/07/27 15:59:30 packets.go:37: unexpected EOF"
-- 
2.43.0


From fa4b998c72698494ee65c5aa1011448f0d8938f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:01 +0000
Subject: [PATCH 48/51] fix: mysql.timeout-connect was ignored

---
 dbconn/factory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 632ddf8..d71bb3d 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -5,12 +5,14 @@ package dbconn
 
 import (
 	"database/sql"
+	"fmt"
 	"io/fs"
 	"io/ioutil"
 	"os"
 	"os/exec"
 	"regexp"
 	"strings"
+	"time"
 
 	"github.com/go-sql-driver/mysql"
 
@@ -110,6 +112,14 @@ func (f *factory) setDSN() error {
 
 	my := mysql.NewConfig()
 	my.ParseTime = true
+	my.Timeout = 10 * time.Second // default
+	if f.cfg.TimeoutConnect != "" {
+		d, err := time.ParseDuration(f.cfg.TimeoutConnect)
+		if err != nil || d < 0 {
+			return fmt.Errorf("invalid mysql.timeout-connect: %s: must be a time duration >= 0", f.cfg.TimeoutConnect)
+		}
+		my.Timeout = d
+	}
 
 	// Go says "either ServerName or InsecureSkipVerify must be specified".
 	// This is a pathological case: socket and TLS but no hostname to verify
-- 
2.43.0


From eab9c5a2c80ee7de49fb6335f837caeabeec3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:44 +0000
Subject: [PATCH 49/51] fix: TLS on socket with only port in my.cnf

---
 dbconn/factory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index d71bb3d..d927693 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -125,7 +125,7 @@ func (f *factory) setDSN() error {
 	// This is a pathological case: socket and TLS but no hostname to verify
 	// and user didn't explicitly set skip-verify=true. So we set this latter
 	// automatically because Go will certainly error if we don't.
-	if net == "unix" && f.cfg.TLS.Set() && f.cfg.Hostname == "" && !config.True(f.cfg.TLS.SkipVerify) {
+	if net == "unix" && f.cfg.TLS.Set() && portSuffix.ReplaceAllString(f.cfg.Hostname, "") == "" && !config.True(f.cfg.TLS.SkipVerify) {
 		b := true
 		f.cfg.TLS.SkipVerify = &b
 		finch.Debug("auto-enabled skip-verify on socket with TLS but no hostname")
@@ -169,6 +169,7 @@ func (f *factory) setDSN() error {
 			password = "amazing"
 		}
 	}
+
 	// ----------------------------------------------------------------------
 	// Set DSN (not as a string because values can have any character)
 
-- 
2.43.0


From a0710d9cc57785b0540780741acaab7098e7bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:55 +0000
Subject: [PATCH 50/51] fix: quoted # and ; in my.cnf values

---
 dbconn/mycnf.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index 98260ee..30688b1 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -3,6 +3,8 @@
 package dbconn
 
 import (
+	"bytes"
+	"os"
 	"strings"
 
 	"github.com/go-ini/ini"
@@ -14,8 +16,12 @@ import (
 // ParseMyCnf parses a MySQL my.cnf file. It only reads the "[client]" section,
 // same as the mysql CLI.
 func ParseMyCnf(file string) (config.MySQL, error) {
-	opts := ini.LoadOptions{AllowBooleanKeys: true}
-	mycnf, err := ini.LoadSources(opts, file)
+	opts := ini.LoadOptions{AllowBooleanKeys: true, IgnoreInlineComment: true}
+	text, err := os.ReadFile(file)
+	if err != nil {
+		return config.MySQL{}, err
+	}
+	mycnf, err := ini.LoadSources(opts, stripComments(text))
 	if err != nil {
 		return config.MySQL{}, err
 	}
@@ -43,6 +49,30 @@ func ParseMyCnf(file string) (config.MySQL, error) {
 	return cfg, nil
 }
 
+// stripComments removes comments same as MySQL: from # to the end of the line,
+// unless the # is quoted.
+func stripComments(text []byte) []byte {
+	lines := bytes.Split(text, []byte("\n"))
+	for i, line := range lines {
+		quote, escaped := byte(0), false
+		for j, c := range line {
+			if quote == 0 && c == '#' {
+				lines[i] = line[:j]
+				break
+			}
+			if (c == '\'' || c == '"') && !escaped {
+				if quote == 0 {
+					quote = c
+				} else if quote == c {
+					quote = 0
+				}
+			}
+			escaped = quote != 0 && c == '\\' && !escaped
+		}
+	}
+	return bytes.Join(lines, []byte("\n"))
+}
+
 func mysqlTLS(file string, mycnf *ini.File, cfg *config.MySQL) (tls config.TLS) {
 	// USING IMPLICIT RETURN -----------------------------------^
 
-- 
2.43.0


From 7bdb7eb70e7d4ca026fd0c0905a0755c495feba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:27 +0000
Subject: [PATCH 51/51] fix: combined rate limits wasted tokens of shared
 limits

---
 limit/rate.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/limit/rate.go b/limit/rate.go
index 0df3de7..5170e62 100644
--- a/limit/rate.go
+++ b/limit/rate.go
@@ -136,10 +136,20 @@ func (lm *and) run() {
 	a := false
 	b := false
 	for {
+		// Once allowed by one, wait only for the other, else this takes (and wastes)
+		// more from a limit that's shared with other rate limiters
+		ac := lm.a.Allow()
+		if a {
+			ac = nil
+		}
+		bc := lm.b.Allow()
+		if b {
+			bc = nil
+		}
 		select {
-		case <-lm.a.Allow():
+		case <-ac:
 			a = true
-		case <-lm.b.Allow():
+		case <-bc:
 			b = true
 		}
 		if a && b {
-- 
2.43.0


From 1224e5e74e4cd85c47ad3c2ce38a18cec5754afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 01/32] fix: reject integers of 20 or more digits that wrap
 around in ToInt

The overflow test only looked at the final 64-bit value, so numbers like
18446744073709551617 were silently parsed as 1.
---
 convert/convert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convert/convert.go b/convert/convert.go
index b12830c..c74b7ac 100644
--- a/convert/convert.go
+++ b/convert/convert.go
@@ -45,6 +45,9 @@ func ToInt(s []byte) (int64, error) {
 		} else {
 			return 0, errors.New("invalid char")
 		}
+		if n > (math.MaxUint64-9)/10 {
+			return 0, errors.New("overflow")
+		}
 		n = n*10 + uint64(c)
 	}
 
-- 
2.43.0


From 6f58e8fb76de37ebab1565af30560e8dc59936cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 02/32] fix: never return a chunk larger than the chunk size
 from the batch splitter

When the byte just after the limit was a newline, the chunk included it
and so was one byte larger than requested (and larger than NATS accepts).
---
 batchsplitter/batch_splitter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batchsplitter/batch_splitter.go b/batchsplitter/batch_splitter.go
index 33e49e9..3134654 100644
--- a/batchsplitter/batch_splitter.go
+++ b/batchsplitter/batch_splitter.go
@@ -55,7 +55,7 @@ func (s *BatchSplitter) Next() bool {
 	}
 
 	// Look backwards from the maximum size for a newline.
-	for i := s.chunkSize; i >= 0; i-- {
+	for i := s.chunkSize - 1; i >= 0; i-- {
 		if s.buf[i] == '\n' {
 			i++
 			s.out = s.buf[:i]
-- 
2.43.0


From 8bf3337ebf0c42ace274b198ecd869396f606965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 03/32] fix: keep HTTP request bodies intact and separate in
 the listener

Request bodies were read straight into the shared batch. As a result a
stalled client blocked every other write, an aborted request left a
partial line behind, a body without a trailing newline was merged with
the next one, and a request with a line of 64KB or more and a precision
was cut short. Read the complete body first and append it in one go.
---
 listener/listener.go | 87 ++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 51 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 215eb3e..311026e 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -17,9 +17,9 @@
 package listener
 
 import (
-	"bufio"
 	"bytes"
 	"fmt"
+	"io/ioutil"
 	"log"
 	"net"
 	"net/http"
@@ -264,68 +264,53 @@ func (l *Listener) handleHTTPWrite(w http.ResponseWriter, r *http.Request) {
 	w.WriteHeader(http.StatusNoContent)
 }
 
-func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
-	precision := r.URL.Query().Get("precision")
+func (l *Listener) readHTTPBody(r *http.Request) (int, error) {
+	// Read the whole body before touching the batch. This ensures that
+	// a slow client can't block others and that an incomplete body
+	// (e.g. client disconnect) doesn't leave a partial line behind.
+	body, err := ioutil.ReadAll(r.Body)
+	if err != nil {
+		return 0, err
+	}
+	bytesRead := len(body)
 
-	if precision == "" || precision == "ns" {
-		// Fast-path when timestamps are already in nanoseconds - no
-		// need for conversion.
-		return l.readHTTPBodyNanos(r)
+	precision := r.URL.Query().Get("precision")
+	if precision != "" && precision != "ns" {
+		// Non-nanosecond precison specified. Convert the timestamp of
+		// each line to nanoseconds.
+		body = applyBodyPrecision(body, precision)
 	}
 
-	// Non-nanosecond precison specified. Read lines individually and
-	// convert timestamps to nanoseconds.
-	count, err := l.readHTTPBodyWithPrecision(r, precision)
-	return int64(count), err
+	l.appendHTTPBody(body)
+	return bytesRead, nil
 }
 
-func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
+// appendHTTPBody adds the lines of a complete request body to the
+// batch.
+func (l *Listener) appendHTTPBody(body []byte) {
+	if len(body) == 0 {
+		return
+	}
 	l.mu.Lock()
 	defer l.mu.Unlock()
-	return l.batch.ReadFrom(r.Body)
+	// The last line of the previous body might not have been
+	// terminated. Don't let it run into the first line of this one.
+	l.batch.EnsureNewline()
+	l.batch.Append(body)
 }
 
-func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
-	scanner := bufio.NewScanner(r.Body)
-
-	// scanLines is like bufio.ScanLines but the returned lines
-	// includes the trailing newlines. Leaving the newline on the line
-	// is useful for incoming lines that don't contain a timestamp and
-	// therefore should pass through unchanged.
-	scanner.Split(scanLines)
-
-	bytesRead := 0
-	for scanner.Scan() {
-		line := scanner.Bytes()
-		bytesRead += len(line)
-		if len(line) <= 1 {
+// applyBodyPrecision converts the timestamps of all the lines in a
+// request body to nanoseconds. Blank lines are dropped. Lines that
+// don't contain a timestamp pass through unchanged.
+func applyBodyPrecision(body []byte, precision string) []byte {
+	out := make([]byte, 0, len(body)+len(body)/4)
+	for _, line := range bytes.SplitAfter(body, []byte("\n")) {
+		if len(line) == 0 || line[0] == '\n' {
 			continue
 		}
-
-		newLine := applyTimestampPrecision(line, precision)
-		l.mu.Lock()
-		l.batch.Append(newLine)
-		l.mu.Unlock()
-	}
-	return bytesRead, scanner.Err()
-}
-
-func scanLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
-	if atEOF && len(data) == 0 {
-		return 0, nil, nil
-	}
-	if i := bytes.IndexByte(data, '\n'); i >= 0 {
-		// We have a full newline-terminated line.
-		return i + 1, data[0 : i+1], nil
-
-	}
-	// If we're at EOF, we have a final, non-terminated line. Return it.
-	if atEOF {
-		return len(data), data, nil
-
+		out = append(out, applyTimestampPrecision(line, precision)...)
 	}
-	// Request more data.
-	return 0, nil, nil
+	return out
 }
 
 func applyTimestampPrecision(line []byte, precision string) []byte {
-- 
2.43.0


From 0ce1243496782c7c0352aa9cb676474fbd57e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 04/32] fix: close the listener's probes when it can't connect
 to NATS

---
 listener/listener.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/listener/listener.go b/listener/listener.go
index 311026e..58312e2 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -141,6 +141,7 @@ func newListener(c *config.Config) (*Listener, error) {
 
 	nc, err := nats.Connect(l.c.NATSAddress, nats.MaxReconnects(-1), nats.Name(l.c.Name))
 	if err != nil {
+		l.probes.Close()
 		return nil, err
 	}
 	l.nc = nc
-- 
2.43.0


From acdcde2f403267454378b5f74885f67bab25d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 05/32] fix: bind HTTP ports before reporting ready in listener
 and monitor

The HTTP listener and the monitor reported themselves ready before their
port was bound, so early requests were refused, and a port which was
already in use wasn't reported as a failed start. Also wait for the server
to be gone when stopping.
---
 listener/listener.go | 21 +++++++++++++++++----
 monitor/monitor.go   | 16 ++++++++++++----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 58312e2..5fe9b4d 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -81,16 +81,26 @@ func StartListener(c *config.Config) (_ *Listener, err error) {
 // StartHTTPListener initialises listener configured to accept lines
 // from HTTP request bodies instead of via UDP. It starts the listener
 // and its statistician and never returns.
-func StartHTTPListener(c *config.Config) (*Listener, error) {
+func StartHTTPListener(c *config.Config) (_ *Listener, err error) {
 	listener, err := newListener(c)
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			listener.Stop()
+		}
+	}()
+
 	server := listener.setupHTTP()
+	sc, err := net.Listen("tcp", server.Addr)
+	if err != nil {
+		return nil, err
+	}
 
 	listener.wg.Add(2)
 	go listener.startStatistician()
-	go listener.listenHTTP(server)
+	go listener.listenHTTP(server, sc)
 
 	log.Printf("HTTP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
 
@@ -331,12 +341,14 @@ func applyTimestampPrecision(line []byte, precision string) []byte {
 	return append(newLine, '\n')
 }
 
-func (l *Listener) listenHTTP(server *http.Server) {
+func (l *Listener) listenHTTP(server *http.Server, sc net.Listener) {
 	defer l.wg.Done()
 
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		l.probes.SetReady(true)
-		err := server.ListenAndServe()
+		err := server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
@@ -346,6 +358,7 @@ func (l *Listener) listenHTTP(server *http.Server) {
 	// Close the server if the stop channel is closed.
 	<-l.stop
 	server.Close()
+	<-done
 }
 
 func (l *Listener) maybeSendBatch() {
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 3a3bdc8..70ed3bf 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -18,6 +18,7 @@ package monitor
 import (
 	"fmt"
 	"log"
+	"net"
 	"net/http"
 	"sync"
 
@@ -56,8 +57,13 @@ func Start(conf *config.Config) (_ *Monitor, err error) {
 		return nil, fmt.Errorf("NATS: failed to flush: %v", err)
 	}
 
+	sc, err := net.Listen("tcp", fmt.Sprintf(":%d", m.c.Port))
+	if err != nil {
+		return nil, err
+	}
+
 	m.wg.Add(1)
-	go m.serveHTTP()
+	go m.serveHTTP(sc)
 
 	log.Printf("monitor subscribed to [%s] at %s - serving HTTP on port %d",
 		m.c.NATSSubjectMonitor, m.c.NATSAddress, m.c.Port)
@@ -107,7 +113,7 @@ func (m *Monitor) natsConnect() (*nats.Conn, error) {
 	return nc, nil
 }
 
-func (m *Monitor) serveHTTP() {
+func (m *Monitor) serveHTTP(sc net.Listener) {
 	defer m.wg.Done()
 
 	mux := http.NewServeMux()
@@ -121,13 +127,14 @@ func (m *Monitor) serveHTTP() {
 	})
 
 	server := &http.Server{
-		Addr:    fmt.Sprintf(":%d", m.c.Port),
 		Handler: mux,
 	}
 
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		m.probes.SetReady(true)
-		err := server.ListenAndServe()
+		err := server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
@@ -137,6 +144,7 @@ func (m *Monitor) serveHTTP() {
 	// Close the server if the stop channel is closed.
 	<-m.stop
 	server.Close()
+	<-done
 }
 
 func (m *Monitor) receiveMetrics(msg *nats.Msg) {
-- 
2.43.0


From 3d2140190d090434590198a67aee0baaf4190053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 06/32] fix: flush the filter's subscription before reporting
 ready

---
 filter/filter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filter/filter.go b/filter/filter.go
index 7ab2f00..8c59677 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -102,6 +102,12 @@ func StartFilter(conf *config.Config) (_ *Filter, err error) {
 		return nil, fmt.Errorf("NATS: failed to set pending limits: %v", err)
 	}
 
+	// Make sure that the server has seen the subscription. Otherwise
+	// messages can be missed after reporting ready.
+	if err := f.nc.Flush(); err != nil {
+		return nil, fmt.Errorf("NATS: failed to flush: %v", err)
+	}
+
 	f.wg.Add(1)
 	go f.startStatistician(st, ruleSt, rules)
 
@@ -124,6 +130,7 @@ func (f *Filter) natsConnect() (natsConn, error) {
 type natsConn interface {
 	Publish(string, []byte) error
 	QueueSubscribe(string, string, nats.MsgHandler) (*nats.Subscription, error)
+	Flush() error
 	Close()
 }
 
-- 
2.43.0


From 28dc3ef616ed253d726cc0473bf4b9f726ed496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 07/32] fix: recognise a delimiter at the very start of a token

The tokeniser never looked at the first character of inputs longer than
one character. Tags with an empty key or value were accepted and the
delimiter became part of the following key or value.
---
 influx/tags.go  |  2 +-
 influx/token.go | 13 ++-----------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/influx/tags.go b/influx/tags.go
index 83b6cff..9a9c00d 100644
--- a/influx/tags.go
+++ b/influx/tags.go
@@ -115,7 +115,7 @@ func ParseTags(line []byte) ([]byte, TagSet, []byte, error) {
 		}
 
 		key, line = Token(line[1:], []byte("= ,"))
-		if len(line) == 0 || line[0] != '=' {
+		if len(key) == 0 || len(line) == 0 || line[0] != '=' {
 			return nil, nil, nil, errors.New("invalid tag")
 		}
 
diff --git a/influx/token.go b/influx/token.go
index 4b3fa56..2aa9859 100644
--- a/influx/token.go
+++ b/influx/token.go
@@ -35,24 +35,15 @@ func TokenEscaped(s []byte, until []byte) ([]byte, []byte) {
 
 func token(s []byte, until []byte) ([]byte, []byte, bool) {
 	length := len(s)
-	if length == 1 {
-		for _, c := range until {
-			if s[0] == c {
-				return nil, s, false
-			}
-		}
-		return s, nil, false
-	}
-
 	escaped := false
-	i := 0
+	i := -1
 	for {
 		i++
 		if i >= length {
 			return s, nil, escaped
 		}
 
-		if s[i-1] == '\\' {
+		if i > 0 && s[i-1] == '\\' {
 			// Skip character (it's escaped).
 			escaped = true
 			continue
-- 
2.43.0


From 3429dbb6febd2d2a8a01f52958c6ec770c617987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 08/32] fix: compare measurement names, not just their hashes,
 in basic rules

---
 filter/rules.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index ddbc8ae..abb0947 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -15,6 +15,7 @@
 package filter
 
 import (
+	"bytes"
 	"fmt"
 	"hash/fnv"
 	"regexp"
@@ -37,11 +38,13 @@ type Rule struct {
 // CreateBasicRule creates a simple rule that publishes measurements
 // with the name @measurement to the NATS @subject.
 func CreateBasicRule(measurement string, subject string) Rule {
-	hh := hashMeasurement([]byte(measurement))
+	name := []byte(measurement)
+	hh := hashMeasurement(name)
 
 	return Rule{
 		match: func(line *parsedLine) bool {
-			return hh == line.HashedMeasurement()
+			// Different names can have the same hash.
+			return hh == line.HashedMeasurement() && bytes.Equal(name, line.Measurement)
 		},
 		subject: subject,
 	}
-- 
2.43.0


From a4812cf96230b73443088241696b5b5c151381c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 09/32] fix: sort tags of a line without changing anything else

Sorting re-escaped the tags, which could lose backslashes, moved the line
terminator of lines without fields into the middle of the line, dropped
trailing spaces and could overwrite the line it was reading from. Move the
raw tags around instead and keep the terminator out of the parsed line, so
that it doesn't end up in a tag value or defeat a regex's $ anchor.
---
 filter/rules.go | 61 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index abb0947..1ea174e 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -166,7 +166,7 @@ func (rs *RuleSet) LookupParsed(line *parsedLine) int {
 }
 
 func newParsedLine(escaped []byte) (*parsedLine, error) {
-	measurement, tags, remainder, err := influx.ParseTags(escaped)
+	measurement, tags, remainder, err := influx.ParseTags(trimEOL(escaped))
 	if err != nil {
 		return nil, err
 	}
@@ -199,7 +199,7 @@ type parsedLine struct {
 func (pl *parsedLine) Unescaped() []byte {
 	// Cached unescaped version if it hasn't been generated yet.
 	if pl.unescaped == nil {
-		pl.unescaped = influx.Unescape(pl.Escaped)
+		pl.unescaped = influx.Unescape(trimEOL(pl.Escaped))
 	}
 	return pl.unescaped
 }
@@ -218,30 +218,45 @@ func (pl *parsedLine) SortTags() {
 		return
 	}
 
-	sort.Sort(pl.Tags)
+	// Replace Escaped with sorted tags version. The escaped form of each
+	// tag is moved around as is.
+	line := trimEOL(pl.Escaped)
+	newLine := make([]byte, 0, len(pl.Escaped))
+	name, rest := influx.TokenEscaped(line, []byte(", "))
+	newLine = append(newLine, name...)
 
-	// Replace Escaped with sorted tags version.
+	escaped := make([][]byte, len(pl.Tags))
+	for i := range escaped {
+		escaped[i], rest = influx.TokenEscaped(rest[1:], []byte(", "))
+	}
+	sort.Stable(&tagSorter{tags: pl.Tags, escaped: escaped})
+	for _, tag := range escaped {
+		newLine = append(newLine, ',')
+		newLine = append(newLine, tag...)
+	}
 
-	var newHdr []byte
-	newHdr = append(newHdr, influx.EscapeMeasurement(pl.Measurement)...)
-	newHdr = append(newHdr, ',')
-	newHdr = append(newHdr, pl.Tags.Bytes()...)
+	// Add whatever follows the tags including the line terminator.
+	newLine = append(newLine, rest...)
+	pl.Escaped = append(newLine, pl.Escaped[len(line):]...)
+}
 
-	if len(pl.Remainder) == 0 {
-		// Nothing left so "newHdr" is exactly what needs to be returned.
-		pl.Escaped = newHdr
-		return
-	}
+// tagSorter sorts tags together with their escaped representation.
+type tagSorter struct {
+	tags    influx.TagSet
+	escaped [][]byte
+}
 
-	if len(newHdr)+len(pl.Remainder)+1 == len(pl.Escaped) {
-		// Length hasn't changed so reuse memory used by original,
-		// overwriting the measurement name and tags part.
-		copy(pl.Escaped, newHdr)
-		return
-	}
+func (s *tagSorter) Len() int           { return s.tags.Len() }
+func (s *tagSorter) Less(i, j int) bool { return s.tags.Less(i, j) }
+func (s *tagSorter) Swap(i, j int) {
+	s.tags.Swap(i, j)
+	s.escaped[i], s.escaped[j] = s.escaped[j], s.escaped[i]
+}
 
-	// Length as changed (original escaped differently?)
-	newHdr = append(newHdr, ' ')
-	newHdr = append(newHdr, pl.Remainder...)
-	pl.Escaped = newHdr
+// trimEOL returns line without its trailing newline, if there is one.
+func trimEOL(line []byte) []byte {
+	if n := len(line); n > 0 && line[n-1] == '\n' {
+		return line[:n-1]
+	}
+	return line
 }
-- 
2.43.0


From d6024c148365abbee9f6b2113f3bbcd8ac7a25ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 10/32] fix: recognise negative timestamps with 19 digits

---
 influx/timestamps.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/influx/timestamps.go b/influx/timestamps.go
index 25a8c86..7a9e9e7 100644
--- a/influx/timestamps.go
+++ b/influx/timestamps.go
@@ -76,6 +76,9 @@ func ExtractTimestamp(line []byte) (int64, int) {
 	if to < 0 {
 		to = 0
 	}
+	if to > 0 && line[to] == '-' {
+		to-- // A sign doesn't count towards the maximum length.
+	}
 	for i := length - 1; i >= to; i-- {
 		if line[i] == ' ' {
 			out, err := convert.ToInt(line[i+1:])
@@ -112,6 +115,9 @@ func ExtractNanos(line []byte) (int64, int) {
 	if from < 0 {
 		from = 0
 	}
+	if from > 0 && line[from] == '-' {
+		from-- // A sign doesn't count towards the maximum length.
+	}
 	for i := from; i < length; i++ {
 		if line[i] == ' ' {
 			out, err := convert.ToInt(line[i+1:])
-- 
2.43.0


From 989463ed0c6d0e5fb54e936bfe74da7d4f5899cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 11/32] fix: apply the filter's time window to every timestamp

Timestamps with fewer than 18 digits, -1 and timestamps on short lines
weren't recognised, so such lines bypassed max_time_delta. A very large
max_time_delta overflowed and dropped every line.
---
 filter/worker.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/filter/worker.go b/filter/worker.go
index 3c028da..19b90a3 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -87,8 +87,6 @@ func (w *worker) run(jobs <-chan []byte, stop <-chan struct{}, wg *sync.WaitGrou
 
 func (w *worker) processBatch(batch []byte) {
 	now := time.Now().UnixNano()
-	minTs := now - int64(w.maxTimeDelta)
-	maxTs := now + int64(w.maxTimeDelta)
 
 	for _, line := range bytes.SplitAfter(batch, []byte("\n")) {
 		if len(line) == 0 {
@@ -97,7 +95,7 @@ func (w *worker) processBatch(batch []byte) {
 		w.st.Inc(statProcessed)
 
 		ts := extractTimestamp(line, now)
-		if minTs < ts && ts < maxTs {
+		if withinDelta(ts, now, w.maxTimeDelta) {
 			w.processLine(line)
 		} else {
 			w.st.Inc(statInvalidTime)
@@ -160,19 +158,19 @@ func (w *worker) publish(subject string, data []byte) {
 	}
 }
 
-// Any realistic nanosecond timestamp will be at least 18 characters
-// long.
-const minTsLen = 18
-
 func extractTimestamp(line []byte, defaultTs int64) int64 {
-	// Reject lines that are too short to have a timestamp.
-	if len(line) <= minTsLen+6 {
+	out, offset := influx.ExtractTimestamp(line)
+	if offset == -1 {
 		return defaultTs
 	}
+	return out
+}
 
-	out, _ := influx.ExtractNanos(line)
-	if out == -1 {
-		return defaultTs
+// withinDelta returns true if the difference between two timestamps is
+// less than maxDelta. Extreme values don't overflow.
+func withinDelta(a, b int64, maxDelta time.Duration) bool {
+	if a < b {
+		a, b = b, a
 	}
-	return out
+	return maxDelta > 0 && uint64(a)-uint64(b) < uint64(maxDelta)
 }
-- 
2.43.0


From 16e39bd7f1088c8b902d448bfb8bdf9b726769b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 12/32] fix: validate tags rules properly in the writer's
 configuration

Tags rules were rejected because of their missing "match", and a tags
rule which did set "match" made the writer panic if one of its tags
didn't have 2 values.
---
 config/config.go | 50 +++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/config/config.go b/config/config.go
index 31cffe4..8424c7f 100644
--- a/config/config.go
+++ b/config/config.go
@@ -155,29 +155,38 @@ func (c *Config) validateFilter() error {
 		return errors.New("filter should only use one NATS subject")
 	}
 	for _, rule := range c.Rule {
-		if rule.Rtype == "" {
-			return errors.New(`rule missing "type"`)
+		if err := validateRule(rule); err != nil {
+			return err
 		}
 		if rule.Subject == "" {
 			return errors.New(`rule missing "subject"`)
 		}
-		if rule.Rtype != "tags" && rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+	}
+	return nil
+}
+
+// validateRule checks those parts of a rule which are common to filter
+// and writer rules.
+func validateRule(rule Rule) error {
+	if rule.Rtype == "" {
+		return errors.New(`rule missing "type"`)
+	}
+	if rule.Rtype != "tags" && rule.Match == "" {
+		return errors.New(`rule missing "match"`)
+	}
+	if rule.Rtype != "tags" && len(rule.Tags) > 0 {
+		return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+	}
+	if rule.Rtype == "tags" {
+		if rule.Match != "" {
+			return errors.New(`tags rule cannot use "match"`)
 		}
-		if rule.Rtype != "tags" && len(rule.Tags) > 0 {
-			return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+		if len(rule.Tags) == 0 {
+			return errors.New(`tags rule missing "tags"`)
 		}
-		if rule.Rtype == "tags" {
-			if rule.Match != "" {
-				return errors.New(`tags rule cannot use "match"`)
-			}
-			if len(rule.Tags) == 0 {
-				return errors.New(`tags rule missing "tags"`)
-			}
-			for _, tag := range rule.Tags {
-				if len(tag) != 2 {
-					return errors.New("each tags item must contain 2 values")
-				}
+		for _, tag := range rule.Tags {
+			if len(tag) != 2 {
+				return errors.New("each tags item must contain 2 values")
 			}
 		}
 	}
@@ -212,11 +221,8 @@ func (c *Config) validateWriter() error {
 	}
 
 	for _, rule := range c.Rule {
-		if rule.Rtype == "" {
-			return errors.New(`rule missing "type"`)
-		}
-		if rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+		if err := validateRule(rule); err != nil {
+			return err
 		}
 		if rule.Subject != "" {
 			return fmt.Errorf("writer rules shouldn't have subject (%q)", rule.Subject)
-- 
2.43.0


From 479f64d13de7241536616272ca548975d3ac87c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 13/32] fix: report an invalid regular expression in a rule
 instead of panicking

---
 filter/rules.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filter/rules.go b/filter/rules.go
index 1ea174e..e920060 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -96,6 +96,12 @@ func CreateTagRule(tags influx.TagSet, subject string) Rule {
 func RuleSetFromConfig(conf *config.Config) (*RuleSet, error) {
 	rs := new(RuleSet)
 	for _, r := range conf.Rule {
+		if r.Rtype == "regex" || r.Rtype == "negregex" {
+			if _, err := regexp.Compile(r.Match); err != nil {
+				return nil, fmt.Errorf("invalid %s rule: %v", r.Rtype, err)
+			}
+		}
+
 		switch r.Rtype {
 		case "basic":
 			rs.Append(CreateBasicRule(r.Match, r.Subject))
-- 
2.43.0


From 0dfacf2c096414b2ff8293412c356bd1b6c97115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 14/32] fix: don't mix up rules from the common and the
 specific config file

Each rule was decoded on top of the rule at the same position in the
common file, so options it didn't set itself were taken from there.
---
 config/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/config.go b/config/config.go
index 8424c7f..3801614 100644
--- a/config/config.go
+++ b/config/config.go
@@ -238,9 +238,17 @@ func NewConfigFromFile(fileName string) (*Config, error) {
 	if err := readConfig(commonFileName, conf); err != nil && !os.IsNotExist(err) {
 		return nil, err
 	}
+
+	// A file's rules replace those from the common file as a whole.
+	// Decoding them on top of each other would mix up their settings.
+	commonRules := conf.Rule
+	conf.Rule = nil
 	if err := readConfig(fileName, conf); err != nil {
 		return nil, err
 	}
+	if conf.Rule == nil {
+		conf.Rule = commonRules
+	}
 
 	if conf.Mode == "" {
 		return nil, errors.New("mode not specified in config")
-- 
2.43.0


From d6f72c87d1f9d857e4e932165a7c83380c15aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 15/32] fix: reject out of range worker counts and downsample
 periods

Negative values made the writer panic, the filter accept but never process
lines and the downsampler spin.
---
 config/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/config/config.go b/config/config.go
index 3801614..d197ac6 100644
--- a/config/config.go
+++ b/config/config.go
@@ -154,6 +154,9 @@ func (c *Config) validateFilter() error {
 	if len(c.NATSSubject) != 1 {
 		return errors.New("filter should only use one NATS subject")
 	}
+	if c.Workers < 1 {
+		return errors.New("filter needs at least one worker")
+	}
 	for _, rule := range c.Rule {
 		if err := validateRule(rule); err != nil {
 			return err
@@ -197,6 +200,9 @@ func (c *Config) validateDownsampler() error {
 	if c.DownsamplePeriod.Duration == time.Duration(0) {
 		return errors.New("downsample_period must be set")
 	}
+	if c.DownsamplePeriod.Duration < time.Duration(0) {
+		return errors.New("downsample_period out of range")
+	}
 	if c.DownsampleSuffix == "" {
 		return errors.New("downsample_suffix must be set")
 	}
@@ -207,6 +213,9 @@ func (c *Config) validateWriter() error {
 	if len(c.NATSSubject) < 1 {
 		return errors.New("writer needs at least one NATS subject")
 	}
+	if c.Workers < 0 {
+		return errors.New("workers out of range")
+	}
 	if c.InfluxDBPort < 1 || c.InfluxDBPort > 65535 {
 		return errors.New("influxdb_port out of range")
 	}
-- 
2.43.0


From 5e5b8f2123d8814749300ffc2b0e3f62776ea6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 16/32] fix: don't panic when writer_retry_batches is very
 large

---
 writer/retryworker.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/writer/retryworker.go b/writer/retryworker.go
index 8341ae7..b4821af 100644
--- a/writer/retryworker.go
+++ b/writer/retryworker.go
@@ -26,7 +26,16 @@ type dbWriter interface {
 	Write([]byte) error
 }
 
+// maxReportSize limits the size of the channels used for reporting
+// writes and errors.
+const maxReportSize = 4096
+
 func newRetryWorker(inputCh <-chan []byte, dbWriter dbWriter, c *config.Config) *retryWorker {
+	reportSize := maxReportSize
+	if c.WriterRetryBatches < maxReportSize/4 {
+		reportSize = c.WriterRetryBatches * 4
+	}
+
 	w := &retryWorker{
 		inputCh:       inputCh,
 		dbWriter:      dbWriter,
@@ -35,8 +44,8 @@ func newRetryWorker(inputCh <-chan []byte, dbWriter dbWriter, c *config.Config)
 			maxBatches: c.WriterRetryBatches,
 			maxTTL:     c.WriterRetryTimeout.Duration,
 		},
-		writes:      make(chan struct{}, c.WriterRetryBatches*4),
-		writeErrors: make(chan error, c.WriterRetryBatches*4),
+		writes:      make(chan struct{}, reportSize),
+		writeErrors: make(chan error, reportSize),
 		stop:        make(chan struct{}),
 	}
 	w.wg.Add(1)
-- 
2.43.0


From 1564643176cf8eca317d4ce47984ad6c55141455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 17/32] fix: don't leak subscription goroutines when stopping
 under load

A subscription callback waiting for space in a full job queue was stuck
forever once the workers had gone.
---
 downsampler/downsampler.go |  5 ++++-
 filter/filter.go           |  5 ++++-
 writer/writer.go           | 10 ++++++++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/downsampler/downsampler.go b/downsampler/downsampler.go
index 0eea6d7..e6472d7 100644
--- a/downsampler/downsampler.go
+++ b/downsampler/downsampler.go
@@ -82,7 +82,10 @@ func StartDownsampler(c *config.Config) (_ *Downsampler, err error) {
 		ds.wg.Add(1)
 		go ds.worker(subject, inputCh)
 		subscription, err := ds.nc.Subscribe(subject, func(msg *nats.Msg) {
-			inputCh <- msg.Data
+			select {
+			case inputCh <- msg.Data:
+			case <-ds.stop:
+			}
 		})
 		if err != nil {
 			return nil, fmt.Errorf("NATS: subscription for %q failed: %v", subject, err)
diff --git a/filter/filter.go b/filter/filter.go
index 8c59677..1760f89 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -93,7 +93,10 @@ func StartFilter(conf *config.Config) (_ *Filter, err error) {
 		if conf.Debug {
 			log.Printf("filter received %d bytes", len(msg.Data))
 		}
-		jobs <- msg.Data
+		select {
+		case jobs <- msg.Data:
+		case <-f.stop:
+		}
 	})
 	if err != nil {
 		return nil, fmt.Errorf("NATS: failed to subscribe: %v", err)
diff --git a/writer/writer.go b/writer/writer.go
index 5bfc905..17c2c55 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -92,11 +92,17 @@ func StartWriter(c *config.Config) (_ *Writer, err error) {
 		var sub *nats.Subscription
 		if c.QueueGroup == "" {
 			sub, err = w.nc.Subscribe(subject, func(msg *nats.Msg) {
-				jobs <- msg
+				select {
+				case jobs <- msg:
+				case <-w.stop:
+				}
 			})
 		} else {
 			sub, err = w.nc.QueueSubscribe(subject, c.QueueGroup, func(msg *nats.Msg) {
-				jobs <- msg
+				select {
+				case jobs <- msg:
+				case <-w.stop:
+				}
 			})
 		}
 
-- 
2.43.0


From 4b42302c42bb9d803138288153084f13a187a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 18/32] fix: handle escaped backslashes in quoted strings

The closing quote of a string ending in an escaped backslash was taken
for an escaped quote, so the string swallowed what followed or was
rejected.
---
 influx/escape.go   |  4 ++--
 influx/token.go    | 21 +++++++++------------
 influx/unescape.go | 14 ++++++++++++++
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/influx/escape.go b/influx/escape.go
index 8a4721c..a1ad8ea 100644
--- a/influx/escape.go
+++ b/influx/escape.go
@@ -33,7 +33,7 @@ func EscapeMeasurement(in []byte) []byte {
 // EscapeQuotedString escapes the characters that need to escaped in a
 // quoted string. The returned value is wrapped in double quotes.
 func EscapeQuotedString(in []byte) []byte {
-	toEscapeCount := countBytes(in, []byte{'"'})
+	toEscapeCount := countBytes(in, []byte{'"', '\\'})
 	if toEscapeCount == 0 {
 		// Short circuit, no escaping needed
 		out := make([]byte, len(in)+2)
@@ -48,7 +48,7 @@ func EscapeQuotedString(in []byte) []byte {
 	out := make([]byte, 0, len(in)+toEscapeCount+2)
 	out = append(out, '"')
 	for _, b := range in {
-		if b == '"' {
+		if b == '"' || b == '\\' {
 			out = append(out, '\\')
 		}
 		out = append(out, b)
diff --git a/influx/token.go b/influx/token.go
index 2aa9859..69c5ce4 100644
--- a/influx/token.go
+++ b/influx/token.go
@@ -72,22 +72,19 @@ func QuotedString(s []byte) ([]byte, []byte, error) {
 	}
 
 	escaped := false
-	i := 0
-	for {
-		i++
-		if i >= length {
-			return nil, nil, errors.New("missing trailing double quote")
-		}
-		if s[i] == '"' {
-			if s[i-1] == '\\' {
-				escaped = true
-				continue
-			}
+	for i := 1; i < length; i++ {
+		switch s[i] {
+		case '\\':
+			// Skip the next character (it might be escaped).
+			escaped = true
+			i++
+		case '"':
 			out := s[1:i]
 			if escaped {
-				out = Unescape(out)
+				out = unescapeQuotedString(out)
 			}
 			return out, s[i+1:], nil
 		}
 	}
+	return nil, nil, errors.New("missing trailing double quote")
 }
diff --git a/influx/unescape.go b/influx/unescape.go
index 49d1d3c..1e3c43d 100644
--- a/influx/unescape.go
+++ b/influx/unescape.go
@@ -55,3 +55,17 @@ func Unescape(in []byte) []byte {
 	}
 	return out[:j]
 }
+
+// unescapeQuotedString removes the escaping from the contents of a
+// string field value. Only double quotes and backslashes are escaped
+// in these.
+func unescapeQuotedString(in []byte) []byte {
+	out := make([]byte, 0, len(in))
+	for i := 0; i < len(in); i++ {
+		if in[i] == '\\' && i+1 < len(in) && (in[i+1] == '"' || in[i+1] == '\\') {
+			i++
+		}
+		out = append(out, in[i])
+	}
+	return out
+}
-- 
2.43.0


From 6cc41041243e0b3ab32fae11bb1810324ea5dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 19/32] fix: keep downsampled fields correct for all values and
 malformed lines

- A line which turned out to be malformed half-way had already updated
  the fields before that point. Parse the line completely first.
- Fields without a name or value and lines without a measurement were
  accepted, as was garbage following a string.
- A quoted number updated a numeric field, a bare value replaced a string
  (and was quoted) and a string replaced a boolean (and wasn't quoted).
- Strings and unquoted values weren't emitted byte for byte if they
  contained escapes.
- Rounding errors accumulated in integer averages and large values
  overflowed. Integers now use an exact sum.
---
 downsampler/avgbucket.go | 227 +++++++++++++++++++++++++--------------
 1 file changed, 146 insertions(+), 81 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 7aead5b..d6e0334 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -17,6 +17,8 @@ package downsampler
 import (
 	"errors"
 	"fmt"
+	"math"
+	"math/bits"
 	"sort"
 	"strconv"
 	"time"
@@ -44,17 +46,24 @@ func (b *avgBucket) EndTime() time.Time {
 func (b *avgBucket) AddLine(line []byte) (errs []error) {
 	var keyBytes []byte
 	keyBytes, line = influx.TokenEscaped(line, []byte(" ")) // key = measurement + tags
+	if len(keyBytes) == 0 {
+		return []error{errors.New("missing measurement")}
+	}
 	key := string(keyBytes)
 
+	// Parse the whole line before using any of it so that an invalid
+	// line has no effect.
+	rawFields, err := parseFields(line)
+	if err != nil {
+		return []error{err}
+	}
+
 	// Assumption: tags are already ordered (filter does this).
 	fields, found := b.lines[key]
 	if !found {
 		fields = newFieldPairs()
 	}
-	if updateErrs := fields.update(line); len(updateErrs) > 0 {
-		errs = append(errs, updateErrs...)
-		return
-	}
+	errs = fields.update(rawFields)
 	b.lines[key] = fields
 	return
 }
@@ -77,70 +86,90 @@ func (b *avgBucket) Bytes() []byte {
 	return out
 }
 
-func newFieldPairs() *fieldPairs {
-	return &fieldPairs{
-		fields: make(map[string]fieldValue),
-	}
+// rawField is a field as found in a line. The value is still escaped
+// and includes the double quotes if it is a string.
+type rawField struct {
+	name  string
+	value []byte
 }
 
-type fieldPairs struct {
-	fields map[string]fieldValue
+func (f rawField) isString() bool {
+	return f.value[0] == '"'
 }
 
-func (fp *fieldPairs) count() int {
-	return len(fp.fields)
+// displayValue returns the field's value for use in error messages.
+func (f rawField) displayValue() []byte {
+	if f.isString() {
+		if value, _, err := influx.QuotedString(f.value); err == nil {
+			return value
+		}
+	}
+	return f.value
 }
 
-func (fp *fieldPairs) update(raw []byte) (errs []error) {
-	for {
-		if len(raw) == 0 {
-			return
+// parseFields splits up the part of the line which follows the
+// measurement and tags.
+func parseFields(raw []byte) (fields []rawField, err error) {
+	for first := true; len(raw) > 0; first = false {
+		if !first && raw[0] != ',' {
+			return nil, errors.New("invalid field")
 		}
 		raw = raw[1:] // remove leading comma or space
+
+		var field rawField
 		var nameBytes []byte
 		nameBytes, raw = influx.TokenEscaped(raw, []byte("="))
-		if len(raw) == 0 || raw[0] != '=' {
-			errs = append(errs, errors.New("invalid field"))
-			return
+		if len(nameBytes) == 0 || len(raw) == 0 || raw[0] != '=' {
+			return nil, errors.New("invalid field")
 		}
-		name := string(nameBytes)
+		field.name = string(nameBytes)
 
 		raw = raw[1:]
-		if len(raw) == 0 {
-			errs = append(errs, errors.New("missing field value"))
-			return
+		if len(raw) == 0 || raw[0] == ',' {
+			return nil, errors.New("missing field value")
 		}
 
-		var rawValue []byte
-		var err error
 		if raw[0] == '"' {
 			// String field
-			rawValue, raw, err = influx.QuotedString(raw)
+			value := raw
+			_, raw, err = influx.QuotedString(value)
 			if err != nil {
-				errs = append(errs, err)
-				return
-			}
-			value, exists := fp.fields[name]
-			if !exists {
-				fp.fields[name] = newStringValue(rawValue)
-			} else {
-				if err := value.update(rawValue); err != nil {
-					errs = append(errs, err) // Non-fatal, so keep going.
-				}
+				return nil, err
 			}
+			field.value = value[:len(value)-len(raw)]
 		} else {
 			// Other field
-			rawValue, raw = influx.Token(raw, []byte{','})
-			value, exists := fp.fields[name]
-			if !exists {
-				fp.fields[name] = newFieldValue(rawValue)
-			} else {
-				if err := value.update(rawValue); err != nil {
-					errs = append(errs, err) // Non-fatal, so keep going.
-				}
-			}
+			field.value, raw = influx.TokenEscaped(raw, []byte{','})
 		}
+		fields = append(fields, field)
 	}
+	return fields, nil
+}
+
+func newFieldPairs() *fieldPairs {
+	return &fieldPairs{
+		fields: make(map[string]fieldValue),
+	}
+}
+
+type fieldPairs struct {
+	fields map[string]fieldValue
+}
+
+func (fp *fieldPairs) count() int {
+	return len(fp.fields)
+}
+
+func (fp *fieldPairs) update(fields []rawField) (errs []error) {
+	for _, field := range fields {
+		value, exists := fp.fields[field.name]
+		if !exists {
+			fp.fields[field.name] = newFieldValue(field)
+		} else if err := value.update(field); err != nil {
+			errs = append(errs, err) // Non-fatal, so keep going.
+		}
+	}
+	return
 }
 
 func (fp *fieldPairs) bytes() []byte {
@@ -169,54 +198,81 @@ func (fp *fieldPairs) bytes() []byte {
 }
 
 type fieldValue interface {
-	update([]byte) error
+	update(rawField) error
 	bytes() []byte
 }
 
-func newFieldValue(v []byte) fieldValue {
-	if len(v) >= 2 && v[len(v)-1] == 'i' {
-		if iv, err := convert.ToInt(v[:len(v)-1]); err == nil {
-			return &intFieldValue{
-				average: iv,
-				count:   1,
-			}
-		}
+func newFieldValue(field rawField) fieldValue {
+	if field.isString() {
+		return &stringFieldValue{field.value}
+	}
+	if iv, err := parseInt(field); err == nil {
+		out := new(intFieldValue)
+		out.add(iv)
+		return out
 	}
-	if fv, err := strconv.ParseFloat(string(v), 64); err == nil {
+	if fv, err := parseFloat(field); err == nil {
 		return &floatFieldValue{
 			average: fv,
 			count:   1,
 		}
 	}
-	return &rawFieldValue{v}
+	return &rawFieldValue{field.value}
 }
 
-func newStringValue(v []byte) fieldValue {
-	return &stringFieldValue{v}
+func parseInt(field rawField) (int64, error) {
+	b := field.value
+	if len(b) < 2 || b[len(b)-1] != 'i' {
+		return 0, errors.New("not an int")
+	}
+	return convert.ToInt(b[:len(b)-1])
 }
 
+func parseFloat(field rawField) (float64, error) {
+	return strconv.ParseFloat(string(field.value), 64)
+}
+
+// intFieldValue tracks the exact sum of the values (as 128 bits) so
+// that rounding errors don't accumulate.
 type intFieldValue struct {
-	average int64
-	count   int64
+	sumHi uint64
+	sumLo uint64
+	count uint64
 }
 
-func (v *intFieldValue) update(b []byte) error {
-	if len(b) < 2 || b[len(b)-1] != 'i' {
-		return fmt.Errorf("wrong type for int: %s", b)
-	}
-	bi, err := convert.ToInt(b[:len(b)-1])
+func (v *intFieldValue) update(field rawField) error {
+	iv, err := parseInt(field)
 	if err != nil {
-		return fmt.Errorf("wrong type for int: %s", b)
+		return fmt.Errorf("wrong type for int: %s", field.displayValue())
 	}
+	v.add(iv)
+	return nil
+}
 
-	// Update incremental average.
+func (v *intFieldValue) add(iv int64) {
+	var carry uint64
+	v.sumLo, carry = bits.Add64(v.sumLo, uint64(iv), 0)
+	v.sumHi, _ = bits.Add64(v.sumHi, uint64(iv>>63), carry) // sign extended
 	v.count++
-	v.average = v.average + ((bi - v.average) / v.count)
-	return nil
+}
+
+func (v *intFieldValue) average() int64 {
+	hi, lo := v.sumHi, v.sumLo
+	negative := int64(hi) < 0
+	if negative {
+		var borrow uint64
+		lo, borrow = bits.Sub64(0, lo, 0)
+		hi, _ = bits.Sub64(0, hi, borrow)
+	}
+	average, _ := bits.Div64(hi, lo, v.count)
+	if negative {
+		return -int64(average)
+	}
+	return int64(average)
 }
 
 func (v *intFieldValue) bytes() []byte {
-	return append(strconv.AppendInt(nil, v.average, 10), 'i')
+	return append(strconv.AppendInt(nil, v.average(), 10), 'i')
 }
 
 type floatFieldValue struct {
@@ -224,15 +280,20 @@ type floatFieldValue struct {
 	count   int64
 }
 
-func (v *floatFieldValue) update(b []byte) error {
-	bf, err := strconv.ParseFloat(string(b), 64)
+func (v *floatFieldValue) update(field rawField) error {
+	fv, err := parseFloat(field)
 	if err != nil {
-		return fmt.Errorf("wrong type for float: %s", b)
+		return fmt.Errorf("wrong type for float: %s", field.displayValue())
 	}
 
 	// Update incremental average.
 	v.count++
-	v.average = v.average + ((bf - v.average) / float64(v.count))
+	count := float64(v.count)
+	if delta := fv - v.average; !math.IsInf(delta, 0) {
+		v.average = v.average + (delta / count)
+	} else {
+		v.average = v.average + (fv/count - v.average/count)
+	}
 	return nil
 }
 
@@ -242,18 +303,22 @@ func (v *floatFieldValue) bytes() []byte {
 
 type stringFieldValue struct{ b []byte }
 
-func (v *stringFieldValue) update(b []byte) error {
-	v.b = b
+func (v *stringFieldValue) update(field rawField) error {
+	if !field.isString() {
+		return fmt.Errorf("wrong type for string: %s", field.displayValue())
+	}
+	v.b = field.value
 	return nil
 }
-func (v *stringFieldValue) bytes() []byte {
-	return influx.EscapeQuotedString(v.b)
-}
+func (v *stringFieldValue) bytes() []byte { return v.b }
 
 type rawFieldValue struct{ b []byte }
 
-func (v *rawFieldValue) update(b []byte) error {
-	v.b = b
+func (v *rawFieldValue) update(field rawField) error {
+	if field.isString() {
+		return fmt.Errorf("wrong type for field: %s", field.displayValue())
+	}
+	v.b = field.value
 	return nil
 }
 func (v *rawFieldValue) bytes() []byte { return v.b }
-- 
2.43.0


From 6ca62fe04db098e7bcb1fa15f9c20874a5055e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 20/32] fix: don't panic on truncated metrics

A metric cut off inside or just after its labels made the parser, and with
it the monitor, crash.
---
 prometheus/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index f37555e..d81a0b0 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -68,6 +68,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 		}
 		out.Labels = labels
 		i += n
+		if i >= len(s) || s[i] != ' ' {
+			return nil, errors.New("no value")
+		}
 	}
 
 	i++
@@ -92,7 +95,7 @@ func ParseMetric(s []byte) (*Metric, error) {
 }
 
 func parseLabels(s []byte) (Labels, int, error) {
-	if s[0] == '}' {
+	if len(s) > 0 && s[0] == '}' {
 		return nil, 1, nil
 	}
 
@@ -117,6 +120,9 @@ func parseLabels(s []byte) (Labels, int, error) {
 
 		out = append(out, label)
 
+		if i >= len(s) {
+			return nil, i, errors.New("missing label separator")
+		}
 		switch s[i] {
 		case '}':
 			return out, i + 1, nil
-- 
2.43.0


From a816af634b97c14e5ea06c94a68302bebce41992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 21/32] fix: don't share memory between metrics when rendering
 or adding labels

Rendering a parsed metric wrote over the text it was parsed from,
including the labels and neighbouring metrics still referring to it, and
labels derived from the same set could overwrite each other.
---
 prometheus/labels.go | 4 +++-
 prometheus/metric.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/prometheus/labels.go b/prometheus/labels.go
index 94ee161..ac84a77 100644
--- a/prometheus/labels.go
+++ b/prometheus/labels.go
@@ -62,7 +62,9 @@ func (labels Labels) sort() {
 
 // With returns a new Labels with the additional labels added.
 func (labels Labels) With(name, value string) Labels {
-	return append(labels, Label{
+	out := make(Labels, len(labels), len(labels)+1)
+	copy(out, labels)
+	return append(out, Label{
 		Name:  []byte(name),
 		Value: []byte(value),
 	})
diff --git a/prometheus/metric.go b/prometheus/metric.go
index ccc9ecc..52132c7 100644
--- a/prometheus/metric.go
+++ b/prometheus/metric.go
@@ -34,7 +34,8 @@ func (m *Metric) String() string {
 
 // ToBytes renders the metric to wire format.
 func (m *Metric) ToBytes() []byte {
-	out := bytes.NewBuffer(m.Name)
+	out := new(bytes.Buffer)
+	out.Write(m.Name)
 	if len(m.Labels) > 0 {
 		out.Write(m.Labels.ToBytes())
 	}
-- 
2.43.0


From 46074bfb4229f57081fd978fac87c7bc1e58525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 22/32] fix: count a write request for every chunk of a split
 batch

---
 writer/writer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index 17c2c55..a3fcccc 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -187,8 +187,6 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 		}
 
 		if w.shouldSend(batch) {
-			w.stats.Inc(statWriteRequests)
-
 			// It is possible for the batch to end up being slightly
 			// larger than the configured maximum batch size because
 			// inbound messages will almost never align exactly with
@@ -196,6 +194,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 			splitter := batchsplitter.New(batch.Bytes(), w.c.BatchMaxSize)
 			for splitter.Next() {
 				chunk := splitter.Chunk()
+				w.stats.Inc(statWriteRequests)
 				if err := dbClient.Write(chunk); err != nil {
 					w.stats.Inc(statFailedWrites)
 					log.Printf("Error: %v", err)
-- 
2.43.0


From 209a046ec4f00138000236a3b334b0a81b954966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 23/32] fix: escape the database name in the writer's URL

---
 writer/influxclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index 800a44b..ebf8f8c 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/jumptrading/influx-spout/v2/config"
@@ -26,7 +27,7 @@ import (
 
 func newInfluxClient(c *config.Config) *influxClient {
 	return &influxClient{
-		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, c.DBName),
+		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName)),
 		username: c.InfluxDBUser,
 		password: c.InfluxDBPass,
 		debug:    c.Debug,
-- 
2.43.0


From 54a7abfacc56577645647be565d30022119657b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 24/32] fix: print lines verbatim in influx-spout-tap

Lines were used as format strings, which garbled any line with a %.
---
 cmd/influx-spout-tap/influx-spout-tap.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index 9dbe8b9..b87b798 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -19,7 +19,6 @@ package main
 import (
 	"bytes"
 	"flag"
-	"fmt"
 	"log"
 	"os"
 	"regexp"
@@ -57,10 +56,10 @@ func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
 			if r.Match(line) {
-				fmt.Printf(string(line))
+				os.Stdout.Write(line)
 			}
 		} else {
-			fmt.Printf(string(line))
+			os.Stdout.Write(line)
 		}
 	}
 }
-- 
2.43.0


From 569988c3156709e000711b9cd524c0783cac700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 25/32] fix: don't panic on huge chunk sizes in the batch
 splitter

---
 batchsplitter/batch_splitter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/batchsplitter/batch_splitter.go b/batchsplitter/batch_splitter.go
index 3134654..aea0a11 100644
--- a/batchsplitter/batch_splitter.go
+++ b/batchsplitter/batch_splitter.go
@@ -26,9 +26,14 @@ import "github.com/c2h5oh/datasize"
 // returned. In the unlikely case of a line existing that is larger
 // than chunkSize, it will be broken up.
 func New(buf []byte, chunkSize datasize.ByteSize) *BatchSplitter {
+	size := int(chunkSize)
+	if size < 0 {
+		// Larger than any buffer can be.
+		size = len(buf)
+	}
 	return &BatchSplitter{
 		buf:       buf,
-		chunkSize: int(chunkSize),
+		chunkSize: size,
 	}
 }
 
-- 
2.43.0


From 16988af6cdf7b927609b33296c8be0402d4f34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 26/32] fix: let $ match the end of a line in influx-spout-tap

---
 cmd/influx-spout-tap/influx-spout-tap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index b87b798..85ed05d 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -55,7 +55,7 @@ func main() {
 func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
-			if r.Match(line) {
+			if r.Match(bytes.TrimSuffix(line, []byte("\n"))) {
 				os.Stdout.Write(line)
 			}
 		} else {
-- 
2.43.0


From 73391fce697ee7dee75e02ecb51b3a999ff8729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 27/32] fix: report malformed TOML which makes the parser panic

---
 config/config.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index d197ac6..f72fadd 100644
--- a/config/config.go
+++ b/config/config.go
@@ -304,13 +304,20 @@ func NewConfigFromFile(fileName string) (*Config, error) {
 	return conf, nil
 }
 
-func readConfig(fileName string, conf *Config) error {
+func readConfig(fileName string, conf *Config) (err error) {
 	f, err := Fs.Open(fileName)
 	if err != nil {
 		return err
 	}
 	defer f.Close()
 
+	// The TOML parser panics on some malformed input.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%s: %v", fileName, r)
+		}
+	}()
+
 	_, err = toml.DecodeReader(f, conf)
 	if err != nil {
 		return fmt.Errorf("%s: %v", fileName, err)
-- 
2.43.0


From 0e3c2ac70c7b5dbb4602ab7f3b19718e4bebf85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 28/32] fix: don't report ready again while being stopped

The listeners' and the monitor's serving goroutines marked the component
as ready, which could happen after Stop had marked it as not ready.
---
 listener/listener.go | 4 ++--
 monitor/monitor.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 5fe9b4d..b3819c5 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -71,6 +71,7 @@ func StartListener(c *config.Config) (_ *Listener, err error) {
 
 	listener.wg.Add(2)
 	go listener.startStatistician()
+	listener.probes.SetReady(true)
 	go listener.listenUDP(sc)
 
 	log.Printf("UDP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
@@ -100,6 +101,7 @@ func StartHTTPListener(c *config.Config) (_ *Listener, err error) {
 
 	listener.wg.Add(2)
 	go listener.startStatistician()
+	listener.probes.SetReady(true)
 	go listener.listenHTTP(server, sc)
 
 	log.Printf("HTTP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
@@ -195,7 +197,6 @@ func (l *Listener) listenUDP(sc *net.UDPConn) {
 		l.wg.Done()
 	}()
 
-	l.probes.SetReady(true)
 	for {
 		// Read deadline is used so that the stop channel can be
 		// periodically checked.
@@ -347,7 +348,6 @@ func (l *Listener) listenHTTP(server *http.Server, sc net.Listener) {
 	done := make(chan struct{})
 	go func() {
 		defer close(done)
-		l.probes.SetReady(true)
 		err := server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 70ed3bf..e8edce3 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -63,6 +63,7 @@ func Start(conf *config.Config) (_ *Monitor, err error) {
 	}
 
 	m.wg.Add(1)
+	m.probes.SetReady(true)
 	go m.serveHTTP(sc)
 
 	log.Printf("monitor subscribed to [%s] at %s - serving HTTP on port %d",
@@ -133,7 +134,6 @@ func (m *Monitor) serveHTTP(sc net.Listener) {
 	done := make(chan struct{})
 	go func() {
 		defer close(done)
-		m.probes.SetReady(true)
 		err := server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
-- 
2.43.0


From 982af01a292f350d34a874a7961ae2429a4dd97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:58 +0000
Subject: [PATCH 29/32] fix: don't take a higher speed for a regression in
 benchcheck

---
 cmd/benchcheck/benchcheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/benchcheck/benchcheck.go b/cmd/benchcheck/benchcheck.go
index f3aef93..3c72b55 100644
--- a/cmd/benchcheck/benchcheck.go
+++ b/cmd/benchcheck/benchcheck.go
@@ -90,6 +90,10 @@ func findProblems(tables []*benchstat.Table) (bool, error) {
 			if err != nil {
 				return false, err
 			}
+			if table.Metric == "speed" {
+				// Larger is better, unlike for all other metrics.
+				delta = -delta
+			}
 			if delta > *flagDelta {
 				return true, nil
 			}
-- 
2.43.0


From 9332c58b680529bbed4845890f3fb0ad531a18c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 30/32] fix: don't let a slow client of the monitor block
 everything else

---
 monitor/monitor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index e8edce3..9c050fa 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -122,9 +122,13 @@ func (m *Monitor) serveHTTP(sc net.Listener) {
 		r.Body.Close()
 		w.Header().Set("Content-Type", "text/plain")
 
-		defer m.mu.Unlock()
 		m.mu.Lock()
-		w.Write(m.metrics.ToBytes())
+		out := m.metrics.ToBytes()
+		m.mu.Unlock()
+
+		// Don't hold the lock while writing, so that a client which is
+		// slow to read doesn't block updates and other clients.
+		w.Write(out)
 	})
 
 	server := &http.Server{
-- 
2.43.0


From c4ec6ce09b86eba7f7257d580a3a5ceb5e90ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:00 +0000
Subject: [PATCH 31/32] fix: don't take a redirected GET for a successful write

A 301, 302 or 303 response makes Go's HTTP client send a GET without
a body to the new location. When that succeeded (a login page or /ping,
say) the batch was considered written and lost. Such a redirect is a
failed write now, which is retried.
---
 writer/influxclient.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index ebf8f8c..3cf2e79 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -38,7 +38,8 @@ func newInfluxClient(c *config.Config) *influxClient {
 				IdleConnTimeout:     30 * time.Second,
 				DisableCompression:  true,
 			},
-			Timeout: c.WriteTimeout.Duration,
+			Timeout:       c.WriteTimeout.Duration,
+			CheckRedirect: checkRedirect,
 		},
 	}
 }
@@ -83,6 +84,16 @@ func (ic *influxClient) Write(buf []byte) error {
 	return nil
 }
 
+// checkRedirect stops redirects which turn the POST into another
+// request, which wouldn't write anything. The redirect is then the
+// response to the write (and is not a success).
+func checkRedirect(req *http.Request, via []*http.Request) error {
+	if req.Method != "POST" || len(via) >= 10 {
+		return http.ErrUseLastResponse
+	}
+	return nil
+}
+
 func isHTTPPOSTSuccess(code int) bool {
 	return code >= 200 && code < 300
 }
-- 
2.43.0


From 17f115bf4a5034c5d882a614a1c73e6bc8cc2a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:48 +0000
Subject: [PATCH 32/32] fix: put an IPv6 influxdb_address in brackets in the
 URL

With influxdb_address = "::1" every write failed, since the address was
put before the port as it is.
---
 writer/influxclient.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index 3cf2e79..4b27dc1 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -20,6 +20,7 @@ import (
 	"io/ioutil"
 	"net/http"
 	"net/url"
+	"strings"
 	"time"
 
 	"github.com/jumptrading/influx-spout/v2/config"
@@ -27,7 +28,7 @@ import (
 
 func newInfluxClient(c *config.Config) *influxClient {
 	return &influxClient{
-		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName)),
+		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, urlHost(c.InfluxDBAddress), c.InfluxDBPort, url.QueryEscape(c.DBName)),
 		username: c.InfluxDBUser,
 		password: c.InfluxDBPass,
 		debug:    c.Debug,
@@ -94,6 +95,15 @@ func checkRedirect(req *http.Request, via []*http.Request) error {
 	return nil
 }
 
+// urlHost returns an address as it is written in a URL, where IPv6
+// addresses are enclosed in brackets.
+func urlHost(address string) string {
+	if strings.Contains(address, ":") && !strings.HasPrefix(address, "[") {
+		return "[" + address + "]"
+	}
+	return address
+}
+
 func isHTTPPOSTSuccess(code int) bool {
 	return code >= 200 && code < 300
 }
-- 
2.43.0


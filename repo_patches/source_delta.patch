From 17a189f031be4d08d3fcdc2ce4b0404dccd68b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:58 +0000
Subject: [PATCH 01/67] fix: don't cache responses to anything but standard
 queries

The cache key has no opcode, so the response to a NOTIFY or UPDATE was
stored and then served to queries for the same name, type and class, and
the other way around.
---
 cache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cache.go b/cache.go
index 792130d..7804707 100644
--- a/cache.go
+++ b/cache.go
@@ -209,6 +209,13 @@ func (r *Cache) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return r.resolver.Resolve(q, ci)
 	}
 
+	// Only standard queries are cacheable. The cache key doesn't include the
+	// opcode, so the response to a NOTIFY or UPDATE would otherwise be served
+	// to queries for the same name and type, and the other way around.
+	if q.Opcode != dns.OpcodeQuery {
+		return r.resolver.Resolve(q, ci)
+	}
+
 	log := logger(r.id, q, ci)
 
 	// Flush the cache if the magic query name is received and flushing is enabled.
-- 
2.43.0


From f1099721301915c75c0a21ffdca4099afe45c019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:58 +0000
Subject: [PATCH 02/67] fix: only deduplicate standard queries with a single
 question

Two requests in flight with the same first question but a different opcode
or further questions shared one response. A request without a question
crashed the process.
---
 request-dedup.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/request-dedup.go b/request-dedup.go
index ce551b4..045cab0 100644
--- a/request-dedup.go
+++ b/request-dedup.go
@@ -49,6 +49,12 @@ func NewRequestDedup(id string, resolver Resolver) *requestDedup {
 }
 
 func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	// The key below covers one question of a standard query. Anything else
+	// can't be told apart by it and isn't deduplicated.
+	if q.Opcode != dns.OpcodeQuery || len(q.Question) != 1 {
+		return r.resolver.Resolve(q, ci)
+	}
+
 	var (
 		ecsIPv4              uint32
 		ecsIPv6Lo, ecsIPv6Hi uint64
-- 
2.43.0


From 3ad32f278aed84b1cb33cfa77b4b089e753ec3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:59 +0000
Subject: [PATCH 03/67] fix: tell a zero-length client subnet from none when
 deduplicating

A client that opts out of ECS with a /0 option shared the response of a
query in flight without the option, or with a /0 of the other address
family.
---
 request-dedup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request-dedup.go b/request-dedup.go
index 045cab0..502eb90 100644
--- a/request-dedup.go
+++ b/request-dedup.go
@@ -14,6 +14,7 @@ type dedupKey struct {
 	qclass      uint16
 	do          bool
 	cd          bool
+	ecs_family  uint16
 	ecs_ipv4    uint32
 	ecs_ipv6_hi uint64
 	ecs_ipv6_lo uint64
@@ -56,6 +57,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	}
 
 	var (
+		ecsFamily            uint16
 		ecsIPv4              uint32
 		ecsIPv6Lo, ecsIPv6Hi uint64
 		ecsMask              uint8
@@ -71,6 +73,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 			if !ok {
 				continue
 			}
+			ecsFamily = ecs.Family
 			switch ecs.Family {
 			case 1: // ip4
 				ecsIPv4 = byteToUint32(ecs.Address.To4())
@@ -88,6 +91,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		qclass:      q.Question[0].Qclass,
 		do:          do,
 		cd:          q.CheckingDisabled,
+		ecs_family:  ecsFamily,
 		ecs_ipv4:    ecsIPv4,
 		ecs_ipv6_hi: ecsIPv6Hi,
 		ecs_ipv6_lo: ecsIPv6Lo,
-- 
2.43.0


From 16ef6e1dc8509e4e58c1ad88c0c4b3eee2329e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:50 +0000
Subject: [PATCH 04/67] fix: walk up whole labels when looking for a cached
 NXDOMAIN

With harden-below-nxdomain, a dot escaped inside a label was taken for a
label separator. A name like a\.b.example. was answered NXDOMAIN because
b.example. was, although it isn't below it.
---
 cache.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cache.go b/cache.go
index 7804707..0636ab9 100644
--- a/cache.go
+++ b/cache.go
@@ -4,7 +4,6 @@ import (
 	"expvar"
 	"math"
 	"math/rand"
-	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -310,9 +309,8 @@ func (r *Cache) answerFromCache(q *dns.Msg) (*dns.Msg, bool, bool) {
 	if r.HardenBelowNXDOMAIN {
 		name := q.Question[0].Name
 		newQ := q.Copy()
-		fragments := strings.Split(name, ".")
-		for i := 1; i < len(fragments)-1; i++ {
-			newQ.Question[0].Name = strings.Join(fragments[i:], ".")
+		for off, end := dns.NextLabel(name, 0); !end; off, end = dns.NextLabel(name, off) {
+			newQ.Question[0].Name = name[off:]
 			if a, _, ok := r.backend.Lookup(newQ); ok {
 				if a.Rcode == dns.RcodeNameError {
 					return nxdomain(q), false, true
-- 
2.43.0


From 9d3126d78f99bb37d160751b44c6906493eff537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:31 +0000
Subject: [PATCH 05/67] fix: return DoH and ODoH answers with the ID of the
 query

---
 dohclient.go  | 3 +++
 odohclient.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/dohclient.go b/dohclient.go
index 53a4297..e6d5216 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -309,6 +309,9 @@ func (d *DoHClient) responseFromHTTP(q *dns.Msg, resp *http.Response) (*dns.Msg,
 		d.metrics.err.Add("unpack", 1)
 		return nil, err
 	}
+	// The HTTP exchange ties the response to the query, the ID in it doesn't and
+	// servers may well set it to 0. The client needs its own.
+	a.Id = q.Id
 	if err := validateResponseQuestion(q, a); err != nil {
 		d.metrics.err.Add("question", 1)
 		return nil, err
diff --git a/odohclient.go b/odohclient.go
index 8c43b45..9c7d852 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -132,6 +132,7 @@ func (d *ODoHClient) decodeProxyResponse(q *dns.Msg, resp *http.Response, queryC
 		d.proxy.metrics.err.Add("unpack", 1)
 		return nil, err
 	}
+	a.Id = q.Id
 	if err := validateResponseQuestion(q, a); err != nil {
 		d.proxy.metrics.err.Add("question", 1)
 		return nil, err
-- 
2.43.0


From 1d66cdbfecca8faff8fd4e6e165d3097e4108434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:08 +0000
Subject: [PATCH 06/67] fix: fail the query when an ODoH target offers no
 supported config

---
 odohclient.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/odohclient.go b/odohclient.go
index 9c7d852..6a0795e 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -182,6 +182,9 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal odohConfig: %w", err)
 		}
+		if len(odohConfigs.Configs) == 0 {
+			return nil, errors.New("no supported config in odohConfig")
+		}
 		d.odohConfig = &odohConfigs.Configs[0]
 	} else if d.odohConfig == nil || time.Now().After(d.odohConfigExpiry) {
 		d.odohConfig, d.odohConfigExpiry, err = d.refreshTargetKey()
@@ -207,7 +210,11 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	odohConfigs, err := odoh.UnmarshalObliviousDoHConfigs(bodyBytes)
 	expiry := time.Now().Add(24 * time.Hour)
 
-	if err != nil || len(odohConfigs.Marshal()) < 1 {
+	// Configs with an unsupported version are skipped, so the list can be empty
+	if err == nil && len(odohConfigs.Configs) == 0 {
+		err = errors.New("no supported config received from odoh target")
+	}
+	if err != nil {
 		Log.Warn("Could not load the targets ODoH config")
 		return nil, time.Time{}, err
 	}
-- 
2.43.0


From 67f075908715a981b3a0b489c65c3939bc0d04d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:10 +0000
Subject: [PATCH 07/67] fix: limit how long fetching an ODoH config can take

---
 odohclient.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/odohclient.go b/odohclient.go
index 6a0795e..98dc329 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -194,7 +194,10 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 
 func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, error) {
 	var url string = "https://" + d.targetName + ":" + d.targetPort + ODOH_CONFIG_PATH
-	req, err := http.NewRequest(http.MethodGet, url, nil)
+	// All queries wait for the config, don't let a stalled target hold them up
+	ctx, cancel := context.WithTimeout(context.Background(), d.proxy.opt.QueryTimeout)
+	defer cancel()
+	req, err := http.NewRequestWithContext(ctx, http.MethodGet, url, nil)
 	if err != nil {
 		return nil, time.Time{}, err
 	}
@@ -203,6 +206,7 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	if err != nil {
 		return nil, time.Time{}, err
 	}
+	defer resp.Body.Close()
 	bodyBytes, err := readBoundedBody(resp.Body, maxDoHResponseSize)
 	if err != nil {
 		return nil, time.Time{}, err
-- 
2.43.0


From f989065d5a61a2b2f0794fd5ddc0901eab2b9f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:49 +0000
Subject: [PATCH 08/67] fix: limit the wait of DoQ and ODoH queries to their
 timeout

Queries waited for each other without limit while the first one was
connecting (DoQ) or fetching the target config (ODoH). With an
unreachable server each queued query used up its own connect timeout
before the next one got its turn, so a burst of queries took the number
of queries times the timeout to fail.

Wait for the connection or config no longer than the query's timeout.
---
 doqclient.go  | 50 ++++++++++++++++++++++++++++++++------------------
 odohclient.go | 32 ++++++++++++++++----------------
 2 files changed, 48 insertions(+), 34 deletions(-)

diff --git a/doqclient.go b/doqclient.go
index 458b64c..0f8a4d1 100644
--- a/doqclient.go
+++ b/doqclient.go
@@ -6,7 +6,6 @@ import (
 	"encoding/binary"
 	"io"
 	"net"
-	"sync"
 	"time"
 
 	"log/slog"
@@ -199,7 +198,9 @@ func (d *DoQClient) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 			conn = d.connectionV6
 		}
 	}
-	stream, err := conn.getStream(d.endpoint, isReplayableOpcode(qc.Opcode), d.log)
+	ctx, cancel := context.WithDeadline(context.Background(), deadlineTime)
+	defer cancel()
+	stream, err := conn.getStream(ctx, d.endpoint, isReplayableOpcode(qc.Opcode), d.log)
 	if err != nil {
 		d.metrics.err.Add("getstream", 1)
 		return nil, err
@@ -278,7 +279,7 @@ type quicConnection struct {
 	lAddr     net.IP
 	tlsConfig *tls.Config
 	config    *quic.Config
-	mu        sync.Mutex
+	lock      chan struct{} // Held while using the connection, can be waited for with a deadline
 	udpConn   *net.UDPConn
 	dialFunc  func(ctx context.Context, addr net.Addr, tlsConf *tls.Config, conf *quic.Config) (*quic.Conn, error)
 }
@@ -301,6 +302,7 @@ func newQuicConnection(lAddr net.IP, tlsConfig *tls.Config, config *quic.Config,
 		lAddr:     lAddr,
 		tlsConfig: tlsConfig,
 		config:    config,
+		lock:      make(chan struct{}, 1),
 		udpConn:   udpConn,
 		dialFunc:  dialFunc,
 	}, nil
@@ -312,19 +314,24 @@ func newQuicConnection(lAddr net.IP, tlsConfig *tls.Config, config *quic.Config,
 // connection's handshake has completed. That wait holds the lock, so it also
 // stalls other queries on the same connection, but only for as long as the
 // handshake takes, and those queries have nowhere else to go in the meantime.
-func (s *quicConnection) getStream(endpoint string, replaySafe bool, log *slog.Logger) (*quic.Stream, error) {
+// None of them waits for longer than its own context allows.
+func (s *quicConnection) getStream(ctx context.Context, endpoint string, replaySafe bool, log *slog.Logger) (*quic.Stream, error) {
 	rAddr, err := net.ResolveUDPAddr("udp", endpoint)
 	if err != nil {
 		return nil, err
 	}
 
-	s.mu.Lock()
-	defer s.mu.Unlock()
+	select {
+	case s.lock <- struct{}{}:
+		defer func() { <-s.lock }()
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	}
 
 	// If we don't have a connection yet, make one
 	if s.Conn == nil {
 		var err error
-		s.Conn, err = s.dialFunc(context.Background(), rAddr, s.tlsConfig, s.config)
+		s.Conn, err = s.dialFunc(ctx, rAddr, s.tlsConfig, s.config)
 		if err != nil {
 			log.Warn("failed to open connection",
 				"hostname", endpoint,
@@ -333,7 +340,9 @@ func (s *quicConnection) getStream(endpoint string, replaySafe bool, log *slog.L
 			return nil, err
 		}
 	}
-	s.awaitReplaySafe(replaySafe)
+	if err := s.awaitReplaySafe(ctx, replaySafe); err != nil {
+		return nil, err
+	}
 
 	// If we can't get a stream then restart the connection and try again once
 	stream, err := s.Conn.OpenStream()
@@ -341,11 +350,13 @@ func (s *quicConnection) getStream(endpoint string, replaySafe bool, log *slog.L
 		log.Debug("temporary fail when trying to open stream, attempting new connection",
 			"error", err,
 		)
-		if err = s.restart(rAddr); err != nil {
+		if err = s.restart(ctx, rAddr); err != nil {
 			log.Warn("failed to open connection", "hostname", endpoint, "error", err)
 			return nil, err
 		}
-		s.awaitReplaySafe(replaySafe)
+		if err := s.awaitReplaySafe(ctx, replaySafe); err != nil {
+			return nil, err
+		}
 		stream, err = s.Conn.OpenStream()
 		if err != nil {
 			log.Warn("failed to open stream",
@@ -361,28 +372,31 @@ func (s *quicConnection) getStream(endpoint string, replaySafe bool, log *slog.L
 // connection is gone. A dead connection is left for the caller's OpenStream to
 // discover and restart; failing here instead would break the retry. It returns
 // at once when the caller's data is replay-safe anyway, and for connections
-// dialled without 0-RTT, which are only handed out post-handshake. Call with
-// the mutex held.
-func (s *quicConnection) awaitReplaySafe(replaySafe bool) {
+// dialled without 0-RTT, which are only handed out post-handshake. It fails
+// only when the context ends first. Call with the lock held.
+func (s *quicConnection) awaitReplaySafe(ctx context.Context, replaySafe bool) error {
 	if replaySafe {
-		return
+		return nil
 	}
 	select {
 	case <-s.HandshakeComplete():
 	case <-s.Context().Done():
+	case <-ctx.Done():
+		return ctx.Err()
 	}
+	return nil
 }
 
-// Try to open a new connection. This function should be called with the mutex
-// locked.
-func (s *quicConnection) restart(rAddr *net.UDPAddr) error {
+// Try to open a new connection. This function should be called with the lock
+// held.
+func (s *quicConnection) restart(ctx context.Context, rAddr *net.UDPAddr) error {
 	_ = s.Conn.CloseWithError(DOQNoError, "")
 
 	Log.Debug("attempt reconnect", slog.String("protocol", "quic"),
 		slog.String("local", s.lAddr.String()),
 		slog.String("remote", rAddr.String()),
 	)
-	conn, err := s.dialFunc(context.TODO(), rAddr, s.tlsConfig, s.config)
+	conn, err := s.dialFunc(ctx, rAddr, s.tlsConfig, s.config)
 	if err != nil {
 		Log.Warn("couldn't restart quic connection", slog.Group("details", slog.String("protocol", "quic"), slog.String("remote", rAddr.String()), slog.String("local", s.lAddr.String())), "error", err)
 		return err
diff --git a/odohclient.go b/odohclient.go
index 98dc329..25fd286 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"net/http"
 	"net/url"
-	"sync"
 	"time"
 
 	odoh "github.com/cloudflare/odoh-go"
@@ -33,7 +32,7 @@ type ODoHClient struct {
 	odohConfig       *odoh.ObliviousDoHConfig
 	odohConfigString string
 	odohConfigExpiry time.Time
-	mu               sync.Mutex
+	odohConfigLock   chan struct{} // Held while using the config, can be waited for with a timeout
 }
 
 var _ Resolver = &DoHClient{}
@@ -61,20 +60,20 @@ func NewODoHClient(id, proxy, target, targetConfig string, opt DoHClientOptions)
 		targetPort:       u.Port(),
 		targetPath:       u.Path,
 		odohConfigString: targetConfig,
+		odohConfigLock:   make(chan struct{}, 1),
 	}, nil
 }
 
 // Resolve a DNS query.
 func (d *ODoHClient) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	// Build the encrypted query. The target key is retrieved on-demand
-	msg, queryContext, err := d.buildTargetQuery(q)
+	ctx, cancel := context.WithTimeout(context.Background(), d.proxy.opt.QueryTimeout)
+	defer cancel()
+	msg, queryContext, err := d.buildTargetQuery(ctx, q)
 	if err != nil {
 		return nil, err
 	}
 
-	ctx, cancel := context.WithTimeout(context.Background(), d.proxy.opt.QueryTimeout)
-	defer cancel()
-
 	// Build a regular DoH request. It needs to be modified for a proxy.
 	req, err := d.proxy.buildRequest(ctx, msg.Marshal(), q.Opcode)
 	if err != nil {
@@ -152,8 +151,8 @@ func (d *ODoHClient) customizeRequest(req *http.Request) {
 }
 
 // Marshal and encrypt the original query with the key for the target.
-func (d *ODoHClient) buildTargetQuery(q *dns.Msg) (odoh.ObliviousDNSMessage, odoh.QueryContext, error) {
-	config, err := d.getTargetConfig()
+func (d *ODoHClient) buildTargetQuery(ctx context.Context, q *dns.Msg) (odoh.ObliviousDNSMessage, odoh.QueryContext, error) {
+	config, err := d.getTargetConfig(ctx)
 	if err != nil {
 		return odoh.ObliviousDNSMessage{}, odoh.QueryContext{}, err
 	}
@@ -167,10 +166,14 @@ func (d *ODoHClient) buildTargetQuery(q *dns.Msg) (odoh.ObliviousDNSMessage, odo
 }
 
 // Get the current (cached) target config or refresh it if expired.
-func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
+func (d *ODoHClient) getTargetConfig(ctx context.Context) (*odoh.ObliviousDoHConfig, error) {
 	var err error
-	d.mu.Lock()
-	defer d.mu.Unlock()
+	select {
+	case d.odohConfigLock <- struct{}{}:
+		defer func() { <-d.odohConfigLock }()
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	}
 
 	if len(d.odohConfigString) != 0 {
 		Log.Debug("loading preset ODoH config")
@@ -187,16 +190,13 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 		}
 		d.odohConfig = &odohConfigs.Configs[0]
 	} else if d.odohConfig == nil || time.Now().After(d.odohConfigExpiry) {
-		d.odohConfig, d.odohConfigExpiry, err = d.refreshTargetKey()
+		d.odohConfig, d.odohConfigExpiry, err = d.refreshTargetKey(ctx)
 	}
 	return d.odohConfig, err
 }
 
-func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, error) {
+func (d *ODoHClient) refreshTargetKey(ctx context.Context) (*odoh.ObliviousDoHConfig, time.Time, error) {
 	var url string = "https://" + d.targetName + ":" + d.targetPort + ODOH_CONFIG_PATH
-	// All queries wait for the config, don't let a stalled target hold them up
-	ctx, cancel := context.WithTimeout(context.Background(), d.proxy.opt.QueryTimeout)
-	defer cancel()
 	req, err := http.NewRequestWithContext(ctx, http.MethodGet, url, nil)
 	if err != nil {
 		return nil, time.Time{}, err
-- 
2.43.0


From 94420c1027a31a2f60f0c6d5d9282afc44c13ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:29 +0000
Subject: [PATCH 09/67] fix: don't drop DoQ queries in flight when the stream
 limit is reached

Servers limit the number of concurrent streams, 100 by default. A query
that found no free stream closed the connection and opened a new one,
which failed all other queries that were waiting for their answers.

Wait for a free stream instead, and release the streams of queries that
failed so they don't use up the limit.
---
 doqclient.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/doqclient.go b/doqclient.go
index 0f8a4d1..7b38464 100644
--- a/doqclient.go
+++ b/doqclient.go
@@ -206,6 +206,10 @@ func (d *DoQClient) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return nil, err
 	}
 
+	// Let go of the stream in any case, failed ones would otherwise count against
+	// the server's limit for as long as the connection lives.
+	defer stream.CancelRead(DOQNoError)
+
 	// Write the query into the stream and close it. Only one stream per query/response
 	_ = stream.SetWriteDeadline(deadlineTime)
 	if _, err = stream.Write(b); err != nil {
@@ -344,8 +348,17 @@ func (s *quicConnection) getStream(ctx context.Context, endpoint string, replayS
 		return nil, err
 	}
 
-	// If we can't get a stream then restart the connection and try again once
+	// If the server doesn't allow any more streams at the moment, wait for one of
+	// the queries in flight to finish. Restarting would fail all of them.
 	stream, err := s.Conn.OpenStream()
+	var limitErr *quic.StreamLimitReachedError
+	if errors.As(err, &limitErr) {
+		if stream, err = s.Conn.OpenStreamSync(ctx); err != nil && ctx.Err() != nil {
+			return nil, err
+		}
+	}
+
+	// If we can't get a stream then restart the connection and try again once
 	if err != nil {
 		log.Debug("temporary fail when trying to open stream, attempting new connection",
 			"error", err,
-- 
2.43.0


From bb6a5d27b883ed4016169bae3d0f518ec67970ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:50 +0000
Subject: [PATCH 10/67] fix: ask every resolver of a fail-rotate or fail-back
 group once

A query that failed on one resolver continued with whichever resolver
was active by then. When other queries or the reset timer of a fail-back
group changed it in the meantime, the query could ask the same resolver
again and give up without having tried others that would have answered.

Continue with the next resolver in the list instead.
---
 failback.go   | 16 ++++++++--------
 failrotate.go |  9 +++++++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/failback.go b/failback.go
index d66e9e5..8c1b73c 100644
--- a/failback.go
+++ b/failback.go
@@ -81,8 +81,12 @@ func (r *FailBack) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		err error
 		a   *dns.Msg
 	)
-	for i := 0; i < len(r.resolvers); i++ {
-		resolver, active := r.current(i)
+	// Start with the active resolver, then go through the rest of the list. The
+	// active one can change at any time and isn't suitable to pick the next one,
+	// this query could miss resolvers or ask the same one twice.
+	_, active := r.current()
+	for range r.resolvers {
+		resolver := r.resolvers[active]
 		log.With("resolver", resolver.String()).Debug("forwarding query to resolver")
 		r.metrics.route.Add(resolver.String(), 1)
 		a, err = resolver.Resolve(q, ci)
@@ -94,6 +98,7 @@ func (r *FailBack) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		r.metrics.failure.Add(resolver.String(), 1)
 
 		r.errorFrom(active)
+		active = (active + 1) % len(r.resolvers)
 	}
 	return a, err
 }
@@ -103,12 +108,7 @@ func (r *FailBack) String() string {
 }
 
 // Thread-safe method to return the currently active resolver.
-func (r *FailBack) current(attempt int) (Resolver, int) {
-	// With ResetAfter set to 0, simply iterate through the list of
-	// resolvers on a per-request basis.
-	if r.opt.ResetAfter == 0 {
-		return r.resolvers[attempt], attempt
-	}
+func (r *FailBack) current() (Resolver, int) {
 	r.mu.RLock()
 	defer r.mu.RUnlock()
 	return r.resolvers[r.active], r.active
diff --git a/failrotate.go b/failrotate.go
index 745b793..ee76d4a 100644
--- a/failrotate.go
+++ b/failrotate.go
@@ -53,8 +53,12 @@ func (r *FailRotate) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		err error
 		a   *dns.Msg
 	)
-	for i := 0; i < len(r.resolvers); i++ {
-		resolver, active := r.current()
+	// Start with the active resolver, then go through the rest of the list. The
+	// active one can change at any time and isn't suitable to pick the next one,
+	// this query could miss resolvers or ask the same one twice.
+	_, active := r.current()
+	for range r.resolvers {
+		resolver := r.resolvers[active]
 		log.With("resolver", resolver.String()).Debug("forwarding query to resolver")
 		r.metrics.route.Add(resolver.String(), 1)
 		a, err = resolver.Resolve(q, ci)
@@ -66,6 +70,7 @@ func (r *FailRotate) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		r.metrics.failure.Add(resolver.String(), 1)
 
 		r.errorFrom(active)
+		active = (active + 1) % len(r.resolvers)
 	}
 	return a, err
 }
-- 
2.43.0


From 770d38976f62c845e5739fa0330cc748213c583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:48 +0000
Subject: [PATCH 11/67] fix: ask every resolver of a random group at most once
 per query

Resolvers that failed return to the group after the reset time. When all
of them keep failing and together take longer to fail than that, there
is always one that is active again and the query never ended.
---
 random.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/random.go b/random.go
index 6d648bb..2b24508 100644
--- a/random.go
+++ b/random.go
@@ -3,6 +3,7 @@ package rdns
 import (
 	"errors"
 	"math/rand"
+	"slices"
 	"sync"
 	"time"
 
@@ -49,8 +50,11 @@ func NewRandom(id string, opt RandomOptions, resolvers ...Resolver) *Random {
 // Resolve a DNS query using a random resolver.
 func (r *Random) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	log := logger(r.id, q, ci)
+	// Ask every resolver only once. Those that failed come back into the group
+	// eventually, without a limit the query may never end.
+	var tried []Resolver
 	for {
-		resolver := r.pick()
+		resolver := r.pick(tried)
 		if resolver == nil {
 			log.Warn("no active resolvers left")
 			return nil, errors.New("no active resolvers left")
@@ -66,6 +70,7 @@ func (r *Random) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 			"error", err)
 		r.metrics.failure.Add(resolver.String(), 1)
 		r.deactivate(resolver)
+		tried = append(tried, resolver)
 	}
 }
 
@@ -73,17 +78,26 @@ func (r *Random) String() string {
 	return r.id
 }
 
-// Pick a random resolver from the list of active ones.
-func (r *Random) pick() Resolver {
+// Pick a random resolver from the list of active ones, leaving out those that
+// were tried already.
+func (r *Random) pick(tried []Resolver) Resolver {
 	r.mu.RLock()
 	defer r.mu.RUnlock()
-	available := len(r.resolvers)
-	r.metrics.available.Set(int64(available))
+	r.metrics.available.Set(int64(len(r.resolvers)))
 	r.metrics.failover.Add(1)
-	if available == 0 {
+	candidates := r.resolvers
+	if len(tried) > 0 {
+		candidates = make([]Resolver, 0, len(r.resolvers))
+		for _, resolver := range r.resolvers {
+			if !slices.Contains(tried, resolver) {
+				candidates = append(candidates, resolver)
+			}
+		}
+	}
+	if len(candidates) == 0 {
 		return nil
 	}
-	return r.resolvers[rand.Intn(available)]
+	return candidates[rand.Intn(len(candidates))]
 }
 
 // Remove the resolver from the list of active ones and schedule it to
-- 
2.43.0


From 0a5ef8b499044a8dabdb1a2f8cac041a7bdb6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:09 +0000
Subject: [PATCH 12/67] fix: keep all addresses when fastest-tcp moves one to
 the front

Moving the fastest address to the front of three or more lost one address
and repeated another, unless the fastest was first or last in the answer.
---
 fastest-tcp.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fastest-tcp.go b/fastest-tcp.go
index 1cd045e..4ecb506 100644
--- a/fastest-tcp.go
+++ b/fastest-tcp.go
@@ -146,15 +146,17 @@ func (r *FastestTCP) probeFastest(log queryLogger, rrs []dns.RR) ([]dns.RR, erro
 	select {
 	case res := <-resultCh:
 		// Re-order the list in-place to put the fastest at the top
+		if res.err != nil {
+			return nil, res.err
+		}
 		rr := res.rr
-		err := res.err
 		for i := range rrs {
-			if rrs[i] == rr {
-				return rrs, err
-			}
 			rrs[i], rr = rr, rrs[i]
+			if rr == res.rr {
+				break
+			}
 		}
-		return rrs, err
+		return rrs, nil
 	case <-ctx.Done():
 		return nil, ctx.Err()
 	}
-- 
2.43.0


From 9a93b1f773aafc5c112de8e7ccaaf657993ca32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:26 +0000
Subject: [PATCH 13/67] fix: disable prefetch when prefetch-max-items is not
 set

The documentation says so, but the tracking caches fell back to a default
size of 10000 entries instead.
---
 prefetch.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prefetch.go b/prefetch.go
index 468608c..5679cfa 100644
--- a/prefetch.go
+++ b/prefetch.go
@@ -123,6 +123,11 @@ func (r *Prefetch) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return answer, err
 	}
 
+	// Prefetch is disabled unless the number of items is set
+	if r.options.PrefetchMaxItems <= 0 {
+		return answer, nil
+	}
+
 	// Check the response can be used for prefetch, return if not
 	if (answer.Rcode != dns.RcodeSuccess) || answer.Truncated {
 		return answer, nil
-- 
2.43.0


From 4f903a2e2df31efbb860adf311ffeeeb6fca696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:42 +0000
Subject: [PATCH 14/67] fix: skip empty lines and comments in domain blocklists

An empty line blocked queries for the root, and the text of comments was
used as rules, or rejected if it had a wildcard in it. The other formats
skip both.
---
 blocklistdb-domain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blocklistdb-domain.go b/blocklistdb-domain.go
index e036144..4009367 100644
--- a/blocklistdb-domain.go
+++ b/blocklistdb-domain.go
@@ -69,6 +69,9 @@ func newDomainDB(name string, loader BlocklistLoader, includeSubdomains bool) (*
 	root := make(node)
 	for _, r := range rules {
 		r = strings.TrimSpace(r)
+		if r == "" || strings.HasPrefix(r, "#") {
+			continue
+		}
 
 		// Strip trailing . in case the list has FQDN names with . suffixes.
 		r = strings.TrimSuffix(r, ".")
-- 
2.43.0


From 92b3633697a9002c8ca8d67ff37d9c2ded3bba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:42 +0000
Subject: [PATCH 15/67] fix: match domain blocklists by whole labels

A label with a dot in it was split, so 'a\.b.com' matched a rule for
b.com although it is not below that.
---
 blocklistdb-domain.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blocklistdb-domain.go b/blocklistdb-domain.go
index 4009367..6f3ac00 100644
--- a/blocklistdb-domain.go
+++ b/blocklistdb-domain.go
@@ -187,7 +187,10 @@ func (m *DomainDB) Match(msg *dns.Msg) ([]net.IP, []string, *BlocklistMatch, boo
 	q := msg.Question[0]
 	s := strings.ToLower(strings.TrimSuffix(q.Name, "."))
 	var matched []string
-	parts := strings.Split(s, ".")
+	parts := dns.SplitDomainName(s) // labels can contain escaped dots
+	if len(parts) == 0 {
+		parts = []string{""}
+	}
 	n := m.root
 	for i := len(parts) - 1; i >= 0; i-- {
 		part := parts[i]
-- 
2.43.0


From 6940a35bc89ab1927cb6b3a5fe506e76875f1c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:42 +0000
Subject: [PATCH 16/67] fix: ignore comments at the end of a line in hosts
 blocklists

The words of the comment were blocked or spoofed like host names.
---
 blocklistdb-hosts.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/blocklistdb-hosts.go b/blocklistdb-hosts.go
index e86a530..39b9be3 100644
--- a/blocklistdb-hosts.go
+++ b/blocklistdb-hosts.go
@@ -36,16 +36,13 @@ func NewHostsDB(name string, loader BlocklistLoader) (*HostsDB, error) {
 	filters := make(map[string]ipRecords)
 	ptrMap := make(map[string][]string)
 	for _, r := range rules {
-		r = strings.TrimSpace(r)
+		r, _, _ = strings.Cut(r, "#") // comments, also at the end of a line
 		fields := strings.Fields(r)
 		if len(fields) == 0 {
 			continue
 		}
 		ipString := fields[0]
 		names := fields[1:]
-		if strings.HasPrefix(ipString, "#") {
-			continue
-		}
 		if len(names) == 0 {
 			continue
 		}
-- 
2.43.0


From 6ad11aea28a90edb932da2bd8ac92a290d02a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:42 +0000
Subject: [PATCH 17/67] fix: use allowlist-format for static allowlists

They were read in the format of the blocklist.
---
 cmd/routedns/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/routedns/main.go b/cmd/routedns/main.go
index 4270abe..1d8d8ad 100644
--- a/cmd/routedns/main.go
+++ b/cmd/routedns/main.go
@@ -573,7 +573,7 @@ func instantiateGroup(id string, g group, resolvers map[string]rdns.Resolver) er
 		}
 		var allowlistDB rdns.BlocklistDB
 		if len(g.Allowlist) > 0 {
-			allowlistDB, err = newBlocklistDB(list{Format: g.BlocklistFormat}, g.Allowlist)
+			allowlistDB, err = newBlocklistDB(list{Format: g.AllowlistFormat}, g.Allowlist)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 7fdd46e32f67f059404586baed0b183032941fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:27 +0000
Subject: [PATCH 18/67] fix: truncate large answers on UDP listeners with an
 ip-version

---
 dnslistener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnslistener.go b/dnslistener.go
index b93a6d8..9603237 100644
--- a/dnslistener.go
+++ b/dnslistener.go
@@ -146,7 +146,7 @@ func listenHandler(id, protocol, addr string, r Resolver, allowedNet []*net.IPNe
 		}
 
 		// Check the response actually fits if the query was sent over UDP. If not, respond with TC flag.
-		if protocol == "udp" || protocol == "dtls" {
+		if strings.HasPrefix(protocol, "udp") || protocol == "dtls" {
 			maxSize := dns.MinMsgSize
 			if edns0 := req.IsEdns0(); edns0 != nil {
 				maxSize = int(edns0.UDPSize())
-- 
2.43.0


From 03a64d25061eb307dd2c780c62962e47101d8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:29 +0000
Subject: [PATCH 19/67] fix: don't crash when a query is dropped on a DoQ
 listener

---
 doqlistener.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doqlistener.go b/doqlistener.go
index 7c6458e..66b5676 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -268,6 +268,12 @@ func (s *DoQListener) handleStream(stream *quic.Stream, connection *quic.Conn, c
 		a.SetRcode(q, dns.RcodeServerFailure)
 	}
 
+	// A nil response from the resolvers means "drop", close the stream
+	if a == nil {
+		s.metrics.drop.Add(1)
+		return
+	}
+
 	p, err := a.Pack()
 	if err != nil {
 		log.Warn("failed to encode response", "error", err)
-- 
2.43.0


From 433d008a6489fe970a9b11c3e7b2e709de24b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:31 +0000
Subject: [PATCH 20/67] fix: apply allowed-net to oblivious queries and proxy
 requests

---
 odohlistener.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/odohlistener.go b/odohlistener.go
index c315081..fa76706 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -110,6 +110,11 @@ func (s *ODoHListener) Stop() error {
 }
 
 func (s *ODoHListener) ODoHproxyHandler(w http.ResponseWriter, r *http.Request) {
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		Log.Debug("refusing client ip", "client", r.RemoteAddr)
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
 	if r.Method != http.MethodPost {
 		http.Error(w, "only POST allowed", http.StatusMethodNotAllowed)
 		return
@@ -203,6 +208,11 @@ func (s *ODoHListener) ODoHqueryHandler(w http.ResponseWriter, r *http.Request)
 		http.Error(w, "only contentType oblivious-dns-message allowed", http.StatusMethodNotAllowed)
 		return
 	}
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		Log.Debug("refusing client ip", "client", r.RemoteAddr)
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
 	b, err := io.ReadAll(io.LimitReader(r.Body, 4096))
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
-- 
2.43.0


From b07e9ba8c86e1b4bb30a877b5088e96bcf508b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:13 +0000
Subject: [PATCH 21/67] fix: remove upstream padding from answers to clients
 without EDNS0

---
 padding.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/padding.go b/padding.go
index f6b6841..19f6854 100644
--- a/padding.go
+++ b/padding.go
@@ -17,6 +17,7 @@ var queryPadBuf [QueryPaddingBlockSize]byte
 func padAnswer(q, a *dns.Msg) {
 	edns0q := q.IsEdns0()
 	if edns0q == nil { // Don't pad if the client does not support EDNS0
+		stripPadding(a)
 		return
 	}
 
-- 
2.43.0


From 75ce9f93c412dfe53d5f513579206e6e05f45374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:38 +0000
Subject: [PATCH 22/67] fix: don't fail other queries when one can't be sent
 upstream

A query that can't be encoded or is too large for a datagram closed the shared
upstream connection and failed all queries in flight on it. Only the query
itself fails now.
---
 pipeline.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pipeline.go b/pipeline.go
index a01a94c..75af06c 100644
--- a/pipeline.go
+++ b/pipeline.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"net"
 	"sync"
+	"syscall"
 	"time"
 
 	"github.com/miekg/dns"
@@ -119,6 +120,12 @@ func (c *Pipeline) start() {
 						if c.inFlight.get(query) != nil {
 							req.markDone(nil, err) // fail the request
 						}
+						if isMessageError(err) { // nothing was sent, others can still use the connection
+							c.metrics.err.Add("send_query", 1)
+							log.With("qname", qName(query)).Debug("failed sending query",
+								"error", err)
+							continue
+						}
 						conn.Close() // throw away this connection, should wake up the reader as well
 						wg.Done()
 						c.metrics.err.Add("send_query", 1)
@@ -195,6 +202,13 @@ func (c *Pipeline) start() {
 	}
 }
 
+// Returns true if the error from sending a query is due to the query itself, such as
+// one that can't be encoded or is too large, rather than to the connection.
+func isMessageError(err error) bool {
+	var dnsErr *dns.Error
+	return errors.As(err, &dnsErr) || errors.Is(err, syscall.EMSGSIZE)
+}
+
 // Request received from a client. It also contains the response and a channel that is
 // closed when the request is done.
 type request struct {
-- 
2.43.0


From 11e70df537f6b2d6c2349f5f7a3c40e9985e7448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:38 +0000
Subject: [PATCH 23/67] fix: don't lengthen the client subnet prefix in ECS
 privacy mode

A client that already sends a shorter prefix than the configured one had its
option rewritten to the longer prefix, claiming address bits it never gave.
---
 ecs-modifier.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecs-modifier.go b/ecs-modifier.go
index 1516145..922b9f8 100644
--- a/ecs-modifier.go
+++ b/ecs-modifier.go
@@ -164,14 +164,14 @@ func ECSModifierPrivacy(prefix4, prefix6 uint8) ECSModifierFunc {
 			switch ecs.Family {
 			case 1: // ip4
 				beforeAddr = ecs.Address.To4()
-				afterAddr = beforeAddr.Mask(net.CIDRMask(int(prefix4), 32))
+				ecs.SourceNetmask = min(ecs.SourceNetmask, prefix4)
+				afterAddr = beforeAddr.Mask(net.CIDRMask(int(ecs.SourceNetmask), 32))
 				ecs.Address = afterAddr
-				ecs.SourceNetmask = prefix4
 			case 2: // ip6
 				beforeAddr = ecs.Address
-				afterAddr = beforeAddr.Mask(net.CIDRMask(int(prefix6), 128))
+				ecs.SourceNetmask = min(ecs.SourceNetmask, prefix6)
+				afterAddr = beforeAddr.Mask(net.CIDRMask(int(ecs.SourceNetmask), 128))
 				ecs.Address = afterAddr
-				ecs.SourceNetmask = prefix6
 			}
 			hasECS = true
 		}
-- 
2.43.0


From f5e3f98b6522e9907a622838f6832d00920b444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:38 +0000
Subject: [PATCH 24/67] fix: keep the owner name of A records in DNS64 answers

With a CNAME chain the synthesized AAAA records were put at the start of the
chain, next to the CNAME, instead of at its end where the A records are.
---
 dns64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns64.go b/dns64.go
index 7317eb2..0228223 100644
--- a/dns64.go
+++ b/dns64.go
@@ -168,7 +168,7 @@ func (r *DNS64) synthesizeAAAA(aAnswer *dns.Msg, question dns.Question) []dns.RR
 				ipv6 := synthesizeIPv6(prefix, ipv4)
 				aaaa = append(aaaa, &dns.AAAA{
 					Hdr: dns.RR_Header{
-						Name:   question.Name,
+						Name:   rec.Hdr.Name,
 						Rrtype: dns.TypeAAAA,
 						Class:  question.Qclass,
 						Ttl:    rec.Hdr.Ttl,
-- 
2.43.0


From 105f37cb80d142af07ef3655f9fc3e428c7aa7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:38 +0000
Subject: [PATCH 25/67] fix: honour truncated responses in DNS64

A truncated AAAA response without records was taken for NODATA, and the
truncation flag of the A response was lost in the synthesized one.
---
 dns64.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dns64.go b/dns64.go
index 0228223..a459c3b 100644
--- a/dns64.go
+++ b/dns64.go
@@ -103,6 +103,13 @@ func (r *DNS64) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return answer, nil
 	}
 
+	// A truncated response doesn't tell if there are AAAA records. Pass it on
+	// so the client retries over a transport that fits the whole response.
+	if answer.Truncated {
+		r.metrics.passthru.Add(1)
+		return answer, nil
+	}
+
 	// If upstream returned AAAA records, pass through
 	if hasAAAARecords(answer) {
 		r.metrics.passthru.Add(1)
@@ -139,6 +146,7 @@ func (r *DNS64) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	resp := new(dns.Msg)
 	resp.SetReply(q)
 	resp.RecursionAvailable = answer.RecursionAvailable
+	resp.Truncated = aAnswer.Truncated
 	resp.Answer = synthesized
 	resp.Ns = aAnswer.Ns
 	resp.Extra = aAnswer.Extra
-- 
2.43.0


From 6f82d87f9aead2b7f030d612a560d272baf4924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:38 +0000
Subject: [PATCH 26/67] fix: ignore case when restoring names in the replace
 modifier

Upstreams may answer with a different case than the query. Such records kept
the replaced name.
---
 replace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/replace.go b/replace.go
index 9a42dc3..e6da0d6 100644
--- a/replace.go
+++ b/replace.go
@@ -2,6 +2,7 @@ package rdns
 
 import (
 	"regexp"
+	"strings"
 
 	"github.com/miekg/dns"
 )
@@ -87,7 +88,7 @@ func (r *Replace) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	// Now put the original name in all answer records that have the
 	// new name
 	for _, answer := range a.Answer {
-		if answer.Header().Name == newName {
+		if strings.EqualFold(answer.Header().Name, newName) {
 			answer.Header().Name = oldName
 		}
 	}
-- 
2.43.0


From 4b73d42d3653d33473566dcbabb249a68923cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:38 +0000
Subject: [PATCH 27/67] fix: leave out blank records in static responses

A template that expands to nothing, for example because of a condition, put a
nil record into the response which then could not be packed. A blank record in
a static response caused a panic.
---
 static-template.go |  3 +++
 static.go          | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/static-template.go b/static-template.go
index 077f1cd..f39ec47 100644
--- a/static-template.go
+++ b/static-template.go
@@ -103,6 +103,9 @@ func (r *StaticTemplateResolver) processRRTemplates(q *dns.Msg, ci ClientInfo, t
 			log.Warn("failed to parse template output", "error", err)
 			continue
 		}
+		if rr == nil { // blank or just a comment
+			continue
+		}
 		// Update the name of every answer record to match that of the query
 		// rr.Header().Name = qName(q)
 		resp = append(resp, rr)
diff --git a/static.go b/static.go
index 960700c..f2dbf05 100644
--- a/static.go
+++ b/static.go
@@ -40,21 +40,27 @@ func NewStaticResolver(id string, opt StaticResolverOptions) (*StaticResolver, e
 		if err != nil {
 			return nil, err
 		}
-		r.answer = append(r.answer, rr)
+		if rr != nil { // blank or just a comment
+			r.answer = append(r.answer, rr)
+		}
 	}
 	for _, record := range opt.NS {
 		rr, err := dns.NewRR(record)
 		if err != nil {
 			return nil, err
 		}
-		r.ns = append(r.ns, rr)
+		if rr != nil { // blank or just a comment
+			r.ns = append(r.ns, rr)
+		}
 	}
 	for _, record := range opt.Extra {
 		rr, err := dns.NewRR(record)
 		if err != nil {
 			return nil, err
 		}
-		r.extra = append(r.extra, rr)
+		if rr != nil { // blank or just a comment
+			r.extra = append(r.extra, rr)
+		}
 	}
 	r.rcode = opt.RCode
 	r.truncate = opt.Truncate
-- 
2.43.0


From e698554d8658274450734c073a92b8bc0226e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:38 +0000
Subject: [PATCH 28/67] fix: clean up the Lua stack after bad return values

Each unsupported return value left the remaining ones on the stack, which
eventually overflowed and made the script fail for all further queries.
---
 lua-script.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lua-script.go b/lua-script.go
index eb9c10e..a4a28d7 100644
--- a/lua-script.go
+++ b/lua-script.go
@@ -89,6 +89,10 @@ func (s *LuaScript) Call(fnName string, nret int, params ...any) ([]any, error)
 		return nil, fmt.Errorf("failed to call lua: %w", err)
 	}
 
+	// Don't leave anything on the stack if the script returned bad values
+	top := s.L.GetTop() - nret
+	defer s.L.SetTop(top)
+
 	// Grab return values from the stack and add them to the result slice
 	// in reverse order
 	ret := make([]any, nret)
-- 
2.43.0


From 9b5dd2b6e73d271ff85f5b2228415dc56f7b0ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:04 +0000
Subject: [PATCH 29/67] fix: handle dropped queries in the DNSSEC validator

Resolvers return no message when they drop a query. The validator's own DS
and DNSKEY lookups dereferenced it, which ended the process.
---
 dnssec/validator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 10a019e..aa7b178 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -20,6 +20,7 @@ var (
 	ErrNoTrustAnchor        = errors.New("dnssec: no trust anchor")
 	ErrInsecureDelegation   = errors.New("dnssec: insecure delegation")
 	ErrSignerOutOfBailiwick = errors.New("dnssec: RRSIG signer name out of bailiwick")
+	ErrNoResponse           = errors.New("dnssec: no response")
 	ErrDenialOfExistence    = errors.New("dnssec: denial of existence not proven")
 )
 
@@ -314,6 +315,9 @@ func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, sigs []*d
 	if err != nil {
 		return nil, nil, nil, err
 	}
+	if a == nil {
+		return nil, nil, nil, fmt.Errorf("%w: DNSKEY for %q", ErrNoResponse, name)
+	}
 	if a.Rcode != dns.RcodeSuccess {
 		return nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
 	}
@@ -345,6 +349,9 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	if err != nil {
 		return nil, nil, nil, err
 	}
+	if a == nil {
+		return nil, nil, nil, fmt.Errorf("%w: DS for %q", ErrNoResponse, name)
+	}
 	var (
 		ds   []*dns.DS
 		sigs []*dns.RRSIG
-- 
2.43.0


From cbd46b8909b30a33f34a0e04fe183d7b645d31a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:04 +0000
Subject: [PATCH 30/67] fix: do not pass on the upstream's authenticated-data
 flag

The validator only set the flag and never cleared it. Answers from insecure
zones, answers that failed validation in log-only mode and errors kept the
value the upstream had put there.
---
 dnssec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dnssec.go b/dnssec.go
index 091e3b9..0e8dd5f 100644
--- a/dnssec.go
+++ b/dnssec.go
@@ -124,6 +124,9 @@ func (r *DNSSECValidator) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return answer, err
 	}
 
+	// Nothing the upstream says about the authenticity of its answer counts
+	answer.AuthenticatedData = false
+
 	// Only validate successful responses
 	if answer.Rcode != dns.RcodeSuccess && answer.Rcode != dns.RcodeNameError {
 		stripDNSSEC(answer, clientSetDo, clientHadEdns0, qtype)
-- 
2.43.0


From f18e208889e7d6e3adf47952c6da2497b701cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:03 +0000
Subject: [PATCH 31/67] fix: use all zone keys when validating signatures

Data was only verified with keys that have the flags 256, and DNSKEY sets
only with keys that have the flags 257. Answers of zones with a single key
and DNSKEY answers failed validation. Keys with other flags, such as revoked
ones, were left out of the set the signature covers, so that all of the zone
failed.
---
 dnssec/denial_existence.go |  4 +--
 dnssec/validator.go        | 69 ++++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 35 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 482479d..bc41499 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -82,11 +82,11 @@ func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, q
 		if !dns.IsSubDomain(signer, qname) {
 			continue
 		}
-		zsk, _, err := v.buildChainOfTrust(signer)
+		zsk, ksk, err := v.buildChainOfTrust(signer)
 		if err != nil {
 			continue
 		}
-		if verifyRRSIG(sig, zsk, rrset, v.now()) == nil {
+		if verifyRRSIG(sig, slices.Concat(zsk, ksk), rrset, v.now()) == nil {
 			return true
 		}
 	}
diff --git a/dnssec/validator.go b/dnssec/validator.go
index aa7b178..ec2b2b0 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -146,14 +146,14 @@ func (v *Validator) proveNoDS(zone string) (bool, error) {
 		return false, nil
 	}
 	parent := parentZone(zone)
-	parentZSK, _, err := v.buildChainOfTrust(parent)
+	parentZSK, parentKSK, err := v.buildChainOfTrust(parent)
 	if err != nil {
 		if errors.Is(err, ErrInsecureDelegation) {
 			return true, nil
 		}
 		return false, err
 	}
-	if err := verifyDSDenial(resp, zone, parentZSK, v.now()); err != nil {
+	if err := verifyDSDenial(resp, zone, slices.Concat(parentZSK, parentKSK), v.now()); err != nil {
 		return false, err
 	}
 	return true, nil
@@ -179,12 +179,14 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
 			lastErr = fmt.Errorf("%w: %s cannot sign %s", ErrSignerOutOfBailiwick, signer, owner)
 			continue
 		}
-		zsk, _, err := v.buildChainOfTrust(signer)
+		zsk, ksk, err := v.buildChainOfTrust(signer)
 		if err != nil {
 			lastErr = err
 			continue
 		}
-		if err := verifyRRSIG(sig, zsk, rrset, v.now()); err != nil {
+		// Any zone key can sign any RRset, the SEP flag that tells KSK from ZSK
+		// is only a hint (RFC 4034 §2.1.1).
+		if err := verifyRRSIG(sig, slices.Concat(zsk, ksk), rrset, v.now()); err != nil {
 			lastErr = err
 			continue
 		}
@@ -205,20 +207,26 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	}
 
 	// Fetch DNSKEY records for this zone
-	fetchedZSK, fetchedKSK, dnsSigs, err := v.lookupDNSKEY(zone)
+	fetchedKeys, dnsSigs, err := v.lookupDNSKEY(zone)
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to lookup DNSKEY for %s: %w", zone, err)
 	}
-	if len(fetchedKSK) == 0 {
-		return nil, nil, fmt.Errorf("%w: no KSK for %s", ErrNoKey, zone)
-	}
 
-	allKeys := make([]dns.RR, 0, len(fetchedZSK)+len(fetchedKSK))
-	for _, k := range fetchedZSK {
+	// The signature covers all keys, including those that can't be used such
+	// as revoked ones.
+	allKeys := make([]dns.RR, 0, len(fetchedKeys))
+	for _, k := range fetchedKeys {
 		allKeys = append(allKeys, k)
+		switch k.Flags {
+		case 257:
+			ksk = append(ksk, k)
+		case 256:
+			zsk = append(zsk, k)
+		}
 	}
-	for _, k := range fetchedKSK {
-		allKeys = append(allKeys, k)
+	zoneKeys := slices.Concat(zsk, ksk)
+	if len(zoneKeys) == 0 {
+		return nil, nil, fmt.Errorf("%w: no zone key for %s", ErrNoKey, zone)
 	}
 
 	// Obtain authenticated DS records for this zone — from the configured
@@ -240,13 +248,14 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		}
 
 		parent := parentZone(zone)
-		parentZSK, _, err := v.buildChainOfTrust(parent)
+		parentZSK, parentKSK, err := v.buildChainOfTrust(parent)
 		if err != nil {
 			return nil, nil, fmt.Errorf("failed to build chain of trust for parent %s: %w", parent, err)
 		}
 
+		parentKeys := slices.Concat(parentZSK, parentKSK)
 		if len(dsRecords) == 0 {
-			if err := verifyDSDenial(dsResp, zone, parentZSK, v.now()); err != nil {
+			if err := verifyDSDenial(dsResp, zone, parentKeys, v.now()); err != nil {
 				return nil, nil, err
 			}
 			return nil, nil, fmt.Errorf("%w: %s", ErrInsecureDelegation, zone)
@@ -261,7 +270,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		}
 		var verified bool
 		for _, dsSig := range dsSigs {
-			if err := verifyRRSIG(dsSig, parentZSK, dsRRset, v.now()); err == nil {
+			if err := verifyRRSIG(dsSig, parentKeys, dsRRset, v.now()); err == nil {
 				verified = true
 				break
 			}
@@ -274,9 +283,9 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	// RFC 4035 §5.2: the DNSKEY RRset must be signed by a key that itself
 	// chains to an authenticated DS. Restrict candidate signing keys to
 	// those matching a DS before accepting the self-signature.
-	trustedKSK := filterKeysByDS(fetchedKSK, dsRecords)
-	if len(trustedKSK) == 0 {
-		return nil, nil, fmt.Errorf("KSK doesn't match DS for %s: %w", zone, ErrDSMismatch)
+	trustedKeys := filterKeysByDS(zoneKeys, dsRecords)
+	if len(trustedKeys) == 0 {
+		return nil, nil, fmt.Errorf("DNSKEY doesn't match DS for %s: %w", zone, ErrDSMismatch)
 	}
 
 	var sigSeen, sigVerified bool
@@ -285,7 +294,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 			continue
 		}
 		sigSeen = true
-		if err := verifyRRSIG(sig, trustedKSK, allKeys, v.now()); err == nil {
+		if err := verifyRRSIG(sig, trustedKeys, allKeys, v.now()); err == nil {
 			sigVerified = true
 			break
 		}
@@ -298,38 +307,32 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	}
 
 	// Cache the validated keys
-	allDNSKEYs := slices.Concat(fetchedZSK, fetchedKSK)
-	v.ks.addDNSKEY(zone, allDNSKEYs)
+	v.ks.addDNSKEY(zone, zoneKeys)
 
-	return fetchedZSK, fetchedKSK, nil
+	return zsk, ksk, nil
 }
 
 // lookupDNSKEY queries for DNSKEY records for the given zone and returns
-// the ZSKs, KSKs, and RRSIGs from the response.
-func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, sigs []*dns.RRSIG, err error) {
+// the keys and RRSIGs from the response.
+func (v *Validator) lookupDNSKEY(name string) (keys []*dns.DNSKEY, sigs []*dns.RRSIG, err error) {
 	q := new(dns.Msg)
 	q.SetQuestion(dns.CanonicalName(name), dns.TypeDNSKEY)
 	q.SetEdns0(4096, true)
 	q.MsgHdr.CheckingDisabled = true
 	a, err := v.resolver(q)
 	if err != nil {
-		return nil, nil, nil, err
+		return nil, nil, err
 	}
 	if a == nil {
-		return nil, nil, nil, fmt.Errorf("%w: DNSKEY for %q", ErrNoResponse, name)
+		return nil, nil, fmt.Errorf("%w: DNSKEY for %q", ErrNoResponse, name)
 	}
 	if a.Rcode != dns.RcodeSuccess {
-		return nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
+		return nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
 	}
 	for _, rr := range a.Answer {
 		switch r := rr.(type) {
 		case *dns.DNSKEY:
-			switch r.Flags {
-			case 257:
-				ksk = append(ksk, r)
-			case 256:
-				zsk = append(zsk, r)
-			}
+			keys = append(keys, r)
 		case *dns.RRSIG:
 			sigs = append(sigs, r)
 		}
-- 
2.43.0


From 7bae3a706db083c79949259b321ef02db618dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:03 +0000
Subject: [PATCH 32/67] fix: do not take a matching NSEC3 record as covering

NSEC3.Cover() of the DNS library is true for the name that owns the record
too. The record that shows that a name exists was accepted as proof that it
does not, so NXDOMAIN could be forged from genuine records.
---
 dnssec/denial.go           |  2 +-
 dnssec/denial_existence.go | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/dnssec/denial.go b/dnssec/denial.go
index 28f723e..b75e65c 100644
--- a/dnssec/denial.go
+++ b/dnssec/denial.go
@@ -62,7 +62,7 @@ func nsec3DeniesDS(r *dns.NSEC3, name string) bool {
 	if r.Match(name) {
 		return bitmapProvesInsecureDelegation(r.TypeBitMap)
 	}
-	return r.Flags&1 != 0 && r.Cover(name)
+	return r.Flags&1 != 0 && nsec3Covers(r, name)
 }
 
 // bitmapProvesInsecureDelegation reports whether an NSEC/NSEC3 type bitmap at
diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index bc41499..7c9d303 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -290,9 +290,16 @@ func nsec3MatchAny(nsec3s []*dns.NSEC3, name string) bool {
 	return false
 }
 
+// nsec3Covers reports whether the hashed name lies in the span of the record.
+// NSEC3.Cover() also returns true for the name that owns the record, which is
+// proof of the opposite.
+func nsec3Covers(r *dns.NSEC3, name string) bool {
+	return r.Cover(name) && !r.Match(name)
+}
+
 func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Cover(name) {
+		if nsec3Covers(r, name) {
 			return true
 		}
 	}
@@ -301,7 +308,7 @@ func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 
 func nsec3OptOutCovers(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Flags&1 == 1 && r.Cover(name) {
+		if r.Flags&1 == 1 && nsec3Covers(r, name) {
 			return true
 		}
 	}
-- 
2.43.0


From 431cd6307b136e45df1be0a925fd26a106503447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:04 +0000
Subject: [PATCH 33/67] fix: do not mix NSEC3 records of different zones in a
 proof

Hashed names of a zone are covered by records of the zones above. Together
with the record of the apex those were taken as proof that existing names of
the zone do not exist.
---
 dnssec/denial_existence.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 7c9d303..fc308fe 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -201,18 +201,34 @@ func nsecCovers(n *dns.NSEC, qname string) bool {
 // nsec3ProvesDenial reports whether the authenticated NSEC3 records prove the
 // denial for the given response code.
 func nsec3ProvesDenial(nsec3s []*dns.NSEC3, qname string, qtype uint16, rcode int) bool {
-	if len(nsec3s) == 0 {
-		return false
-	}
-	switch rcode {
-	case dns.RcodeNameError:
-		return nsec3ProvesNXDOMAIN(nsec3s, qname)
-	case dns.RcodeSuccess:
-		return nsec3ProvesNODATA(nsec3s, qname, qtype)
+	// All records of a proof have to be from the same zone. A name that exists
+	// in one is covered by the records of the zones above.
+	zones := make(map[string][]*dns.NSEC3)
+	for _, r := range nsec3s {
+		zone := nsec3Zone(r)
+		zones[zone] = append(zones[zone], r)
+	}
+	for _, records := range zones {
+		switch rcode {
+		case dns.RcodeNameError:
+			if nsec3ProvesNXDOMAIN(records, qname) {
+				return true
+			}
+		case dns.RcodeSuccess:
+			if nsec3ProvesNODATA(records, qname, qtype) {
+				return true
+			}
+		}
 	}
 	return false
 }
 
+// nsec3Zone returns the zone an NSEC3 record belongs to, that is its owner name
+// without the hash.
+func nsec3Zone(r *dns.NSEC3) string {
+	return lastNLabels(dns.CanonicalName(r.Hdr.Name), dns.CountLabel(r.Hdr.Name)-1)
+}
+
 // nsec3ProvesNODATA proves that qname exists but the queried type does not.
 func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 	qname = dns.CanonicalName(qname)
-- 
2.43.0


From ddfda0dbaec0b7f3134a3440d001571c0e5638b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:04 +0000
Subject: [PATCH 34/67] fix: do not accept denials from the wrong side of a
 delegation

The NSEC or NSEC3 record of a parent zone at a delegation was accepted as
proof that names below it, or types other than DS at it, do not exist. Anyone
can replay it to deny everything in the child zone. Likewise with the apex
record of the child zone and DS.
---
 dnssec/denial_existence.go | 62 +++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index fc308fe..6d395dd 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -114,11 +114,18 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 	qname = dns.CanonicalName(qname)
 
 	// Direct NODATA: an NSEC owning qname with the type (and CNAME) absent.
+	var exists bool
 	for _, n := range nsecs {
 		if dns.CanonicalName(n.Hdr.Name) != qname {
 			continue
 		}
-		return !slices.Contains(n.TypeBitMap, qtype) && !slices.Contains(n.TypeBitMap, dns.TypeCNAME)
+		if bitmapProvesNoType(n.TypeBitMap, qname, qtype) {
+			return true
+		}
+		exists = true
+	}
+	if exists {
+		return false
 	}
 
 	// Wildcard NODATA: qname has no exact match (an NSEC covers it) but the
@@ -132,12 +139,38 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 			if dns.CanonicalName(w.Hdr.Name) != wildcard {
 				continue
 			}
-			return !slices.Contains(w.TypeBitMap, qtype) && !slices.Contains(w.TypeBitMap, dns.TypeCNAME)
+			return bitmapProvesNoType(w.TypeBitMap, wildcard, qtype)
 		}
 	}
 	return false
 }
 
+// bitmapProvesNoType reports whether the type bitmap of an NSEC/NSEC3 at name
+// proves that there is no qtype (and no CNAME). At a delegation, the parent
+// only has a say about DS, and the child about everything else (RFC 6840 §4.1).
+func bitmapProvesNoType(bitmap []uint16, name string, qtype uint16) bool {
+	if slices.Contains(bitmap, qtype) || slices.Contains(bitmap, dns.TypeCNAME) {
+		return false
+	}
+	if qtype == dns.TypeDS {
+		return name == "." || !slices.Contains(bitmap, dns.TypeSOA)
+	}
+	return !bitmapIsDelegation(bitmap)
+}
+
+// bitmapIsDelegation reports whether the type bitmap of an NSEC/NSEC3 is the
+// one of a delegation, from the parent side of the cut.
+func bitmapIsDelegation(bitmap []uint16) bool {
+	return slices.Contains(bitmap, dns.TypeNS) && !slices.Contains(bitmap, dns.TypeSOA)
+}
+
+// bitmapHidesSubdomains reports whether the names below the owner of an
+// NSEC/NSEC3 are none of its zone's, because they are delegated or redirected.
+// The record proves nothing about them (RFC 6840 §4.1).
+func bitmapHidesSubdomains(bitmap []uint16) bool {
+	return bitmapIsDelegation(bitmap) || slices.Contains(bitmap, dns.TypeDNAME)
+}
+
 // nsecProvesNXDOMAIN proves that qname does not exist: an NSEC must cover it,
 // and an NSEC must cover the wildcard at the closest encloser (so no wildcard
 // could have synthesized an answer). RFC 4035 §5.4.
@@ -191,6 +224,9 @@ func nsecCovers(n *dns.NSEC, qname string) bool {
 	if qname == owner {
 		return false
 	}
+	if dns.IsSubDomain(owner, qname) && bitmapHidesSubdomains(n.TypeBitMap) {
+		return false
+	}
 	if canonicalNameCmp(owner, next) < 0 {
 		return canonicalNameCmp(owner, qname) < 0 && canonicalNameCmp(qname, next) < 0
 	}
@@ -236,7 +272,7 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 	// Direct match with the type (and CNAME) absent.
 	for _, r := range nsec3s {
 		if r.Match(qname) {
-			return !slices.Contains(r.TypeBitMap, qtype) && !slices.Contains(r.TypeBitMap, dns.TypeCNAME)
+			return bitmapProvesNoType(r.TypeBitMap, qname, qtype)
 		}
 	}
 
@@ -253,7 +289,7 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 		wildcard := "*." + ce
 		for _, r := range nsec3s {
 			if r.Match(wildcard) {
-				return !slices.Contains(r.TypeBitMap, qtype) && !slices.Contains(r.TypeBitMap, dns.TypeCNAME)
+				return bitmapProvesNoType(r.TypeBitMap, wildcard, qtype)
 			}
 		}
 	}
@@ -290,22 +326,18 @@ func nsec3ClosestEncloser(nsec3s []*dns.NSEC3, qname string) (ce, nextCloser str
 	n := dns.CountLabel(qname)
 	for k := n - 1; k >= 0; k-- {
 		candidate := lastNLabels(qname, k)
-		if nsec3MatchAny(nsec3s, candidate) {
-			return candidate, lastNLabels(qname, k+1), true
+		for _, r := range nsec3s {
+			if r.Match(candidate) {
+				if bitmapHidesSubdomains(r.TypeBitMap) {
+					return "", "", false
+				}
+				return candidate, lastNLabels(qname, k+1), true
+			}
 		}
 	}
 	return "", "", false
 }
 
-func nsec3MatchAny(nsec3s []*dns.NSEC3, name string) bool {
-	for _, r := range nsec3s {
-		if r.Match(name) {
-			return true
-		}
-	}
-	return false
-}
-
 // nsec3Covers reports whether the hashed name lies in the span of the record.
 // NSEC3.Cover() also returns true for the name that owns the record, which is
 // proof of the opposite.
-- 
2.43.0


From b00de484ae7532b825f8e90ac1756c7336ea86dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:33 +0000
Subject: [PATCH 35/67] fix: recognize empty non-terminals in NSEC proofs

A name that only has names below it has no NSEC record of its own. The record
that covers it was accepted as proof that it does not exist, and the genuine
answer that it has no records failed validation.
---
 dnssec/denial_existence.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 6d395dd..ce86d91 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -128,6 +128,14 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 		return false
 	}
 
+	// Empty non-terminal: there is no NSEC for qname, but the next name of the
+	// one that covers it is below, so it exists.
+	for _, n := range nsecs {
+		if nsecCovers(n, qname) && nsecNextIsBelow(n, qname) {
+			return true
+		}
+	}
+
 	// Wildcard NODATA: qname has no exact match (an NSEC covers it) but the
 	// wildcard at the closest encloser matches with the type absent.
 	for _, cover := range nsecs {
@@ -180,7 +188,7 @@ func nsecProvesNXDOMAIN(nsecs []*dns.NSEC, qname string) bool {
 	var ce string
 	covered := false
 	for _, n := range nsecs {
-		if nsecCovers(n, qname) {
+		if nsecCovers(n, qname) && !nsecNextIsBelow(n, qname) {
 			ce = nsecClosestEncloser(qname, n)
 			covered = true
 			break
@@ -197,7 +205,7 @@ func nsecProvesNXDOMAIN(nsecs []*dns.NSEC, qname string) bool {
 		if dns.CanonicalName(n.Hdr.Name) == wildcard {
 			return false
 		}
-		if nsecCovers(n, wildcard) {
+		if nsecCovers(n, wildcard) && !nsecNextIsBelow(n, wildcard) {
 			return true
 		}
 	}
@@ -234,6 +242,12 @@ func nsecCovers(n *dns.NSEC, qname string) bool {
 	return canonicalNameCmp(owner, qname) < 0 || canonicalNameCmp(qname, next) < 0
 }
 
+// nsecNextIsBelow reports whether the next name of the NSEC record is below
+// name. In that case, name exists as an empty non-terminal.
+func nsecNextIsBelow(n *dns.NSEC, name string) bool {
+	return dns.IsSubDomain(name, dns.CanonicalName(n.NextDomain))
+}
+
 // nsec3ProvesDenial reports whether the authenticated NSEC3 records prove the
 // denial for the given response code.
 func nsec3ProvesDenial(nsec3s []*dns.NSEC3, qname string, qtype uint16, rcode int) bool {
-- 
2.43.0


From 5e8a47c48ed4be3440d4f262f6a04b615ad83d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:34 +0000
Subject: [PATCH 36/67] fix: do not accept NSEC records expanded from a
 wildcard

The signature of the NSEC record of a wildcard also verifies for any name
below. Renamed to an existing name, it was accepted as proof that the name
has no records of a type.
---
 dnssec/denial_existence.go |  5 +++++
 dnssec/validator.go        | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index ce86d91..acb34ea 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -82,6 +82,11 @@ func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, q
 		if !dns.IsSubDomain(signer, qname) {
 			continue
 		}
+		// The owner name is what an NSEC is about. One that has been expanded
+		// from a wildcard says nothing about the name it was given.
+		if isWildcardExpansion(sig) {
+			continue
+		}
 		zsk, ksk, err := v.buildChainOfTrust(signer)
 		if err != nil {
 			continue
diff --git a/dnssec/validator.go b/dnssec/validator.go
index ec2b2b0..3ce2e01 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -432,6 +432,9 @@ func verifyRRSIG(sig *dns.RRSIG, keys []*dns.DNSKEY, rrset []dns.RR, now time.Ti
 // signature checks out, tolerating multiple RRSIGs from a key rollover.
 func verifyAnyRRSIG(sigs []*dns.RRSIG, keys []*dns.DNSKEY, rrset []dns.RR, now time.Time) bool {
 	for _, sig := range sigs {
+		if isWildcardExpansion(sig) {
+			continue
+		}
 		if verifyRRSIG(sig, keys, rrset, now) == nil {
 			return true
 		}
@@ -439,6 +442,16 @@ func verifyAnyRRSIG(sigs []*dns.RRSIG, keys []*dns.DNSKEY, rrset []dns.RR, now t
 	return false
 }
 
+// isWildcardExpansion reports whether the signature is one of a wildcard, and
+// the RRset it covers has been synthesized from that (RFC 4035 §5.3.4).
+func isWildcardExpansion(sig *dns.RRSIG) bool {
+	labels := dns.CountLabel(sig.Hdr.Name)
+	if strings.HasPrefix(sig.Hdr.Name, "*.") {
+		labels--
+	}
+	return int(sig.Labels) < labels
+}
+
 // filterKeysByDS returns the subset of keys whose computed DS digest matches
 // one of the provided DS records.
 func filterKeysByDS(keys []*dns.DNSKEY, ds []*dns.DS) []*dns.DNSKEY {
-- 
2.43.0


From 557ce508afe45f458cbdcdb7a055ba395b2cd20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:34 +0000
Subject: [PATCH 37/67] fix: require proof that a wildcard applies

Records synthesized from a wildcard were accepted for any name below it,
including names that have records of their own. Signed answers of such names
could be replaced with those of the wildcard.
---
 dnssec/denial_existence.go | 22 ++++++++++++++++++++++
 dnssec/validator.go        | 16 +++++++++++-----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index acb34ea..78febf5 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -46,6 +46,28 @@ func (v *Validator) validateDenial(answer *dns.Msg) error {
 	return fmt.Errorf("%w: %s/%s", ErrDenialOfExistence, qname, dns.TypeToString[qtype])
 }
 
+// validateExpansion authenticates that an RRset that was synthesized from a
+// wildcard has a right to be: the authority section has to prove that there's
+// no closer match for its name (RFC 4035 §5.3.4, RFC 5155 §8.8). Without this,
+// a wildcard could be used to replace records of names that exist.
+func (v *Validator) validateExpansion(answer *dns.Msg, sig *dns.RRSIG) error {
+	owner := dns.CanonicalName(sig.Hdr.Name)
+	nextCloser := lastNLabels(owner, int(sig.Labels)+1)
+
+	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, owner)
+	for _, n := range nsecs {
+		if nsecCovers(n, nextCloser) && !nsecNextIsBelow(n, nextCloser) {
+			return nil
+		}
+	}
+	for _, r := range nsec3s {
+		if nsec3Zone(r) == dns.CanonicalName(sig.SignerName) && nsec3Covers(r, nextCloser) {
+			return nil
+		}
+	}
+	return fmt.Errorf("%w: wildcard used for %s", ErrDenialOfExistence, owner)
+}
+
 // collectVerifiedDenialRecords returns the NSEC and NSEC3 records from the
 // authority section whose covering RRSIG is signed by a zone at or above qname
 // and chains to the trust anchor. Unsigned or unauthenticated records are
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 3ce2e01..bcd1de2 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -102,9 +102,15 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 			}
 			return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
 		}
-		if err := v.validateRRset(rrset, rrsigs); err != nil {
+		sig, err := v.validateRRset(rrset, rrsigs)
+		if err != nil {
 			return err
 		}
+		if isWildcardExpansion(sig) {
+			if err := v.validateExpansion(answer, sig); err != nil {
+				return err
+			}
+		}
 	}
 	return nil
 }
@@ -163,8 +169,8 @@ func (v *Validator) proveNoDS(zone string) (bool, error) {
 // a chain of trust to each signer's DNSKEY. An RRset is accepted as soon as one
 // of its RRSIGs verifies; this tolerates ZSK rollovers, where the set carries
 // signatures from both the outgoing and incoming keys and only one is valid
-// against the currently-published DNSKEY RRset.
-func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
+// against the currently-published DNSKEY RRset. The RRSIG is returned.
+func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) (*dns.RRSIG, error) {
 	owner := dns.CanonicalName(rrset[0].Header().Name)
 	var lastErr error
 	for _, sig := range sigs {
@@ -190,9 +196,9 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
 			lastErr = err
 			continue
 		}
-		return nil
+		return sig, nil
 	}
-	return lastErr
+	return nil, lastErr
 }
 
 // buildChainOfTrust recursively builds a DNSSEC chain of trust from
-- 
2.43.0


From 77e6cf8eb91d824aa527c75eddf3a09344b110d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:59 +0000
Subject: [PATCH 38/67] fix: validate all records of a partly insecure answer

Validation ended at the first record set that is provably unsigned. Forged
records of signed zones in the same answer were passed on.
---
 dnssec/validator.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index bcd1de2..7227dd7 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -92,25 +92,39 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
 
+	// One insecure RRset makes the whole answer insecure, but the others still
+	// have to be validated.
+	var insecure error
 	for key, rrset := range rrsets {
-		rrsigs := sigs[key]
-		if len(rrsigs) == 0 {
-			// Check if this is an insecure delegation by looking for DS in parent
-			zone := rrset[0].Header().Name
-			if err := v.checkInsecureDelegation(zone); err != nil {
-				return err
-			}
-			return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
+		err := v.validateAnswerRRset(answer, key, rrset, sigs[key])
+		if errors.Is(err, ErrInsecureDelegation) {
+			insecure = err
+			continue
 		}
-		sig, err := v.validateRRset(rrset, rrsigs)
 		if err != nil {
 			return err
 		}
-		if isWildcardExpansion(sig) {
-			if err := v.validateExpansion(answer, sig); err != nil {
-				return err
-			}
+	}
+	return insecure
+}
+
+// validateAnswerRRset validates an RRset of the answer section. It returns
+// ErrInsecureDelegation if it's from a zone that is provably unsigned.
+func (v *Validator) validateAnswerRRset(answer *dns.Msg, key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
+	if len(rrsigs) == 0 {
+		// Check if this is an insecure delegation by looking for DS in parent
+		zone := rrset[0].Header().Name
+		if err := v.checkInsecureDelegation(zone); err != nil {
+			return err
 		}
+		return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
+	}
+	sig, err := v.validateRRset(rrset, rrsigs)
+	if err != nil {
+		return err
+	}
+	if isWildcardExpansion(sig) {
+		return v.validateExpansion(answer, sig)
 	}
 	return nil
 }
-- 
2.43.0


From cd1d4e0870200aab28344f512a13e93e49ea9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:24 +0000
Subject: [PATCH 39/67] fix: require proof for answers without the records
 asked for

Any correctly signed records were accepted, whether they answer the question
or not. Records of other names, aliases without what they lead to and
signatures alone all passed as authentic, which denies what was asked for.
---
 dnssec/denial_existence.go | 12 +++------
 dnssec/validator.go        | 52 +++++++++++++++++++++++++++++++++++---
 2 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 78febf5..e4cb8bb 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -9,7 +9,8 @@ import (
 	"github.com/miekg/dns"
 )
 
-// validateDenial authenticates a negative response (NXDOMAIN or NODATA). It
+// validateDenial authenticates a negative response (NXDOMAIN or NODATA) for
+// qname, which is where the aliases in the answer lead. It
 // verifies that the authority section carries signed NSEC/NSEC3 records that
 // chain to the trust anchor and that actually prove the absence of the queried
 // name/type. It returns nil when the denial is proven, ErrInsecureDelegation
@@ -19,14 +20,7 @@ import (
 // Without this, an attacker could forge an NXDOMAIN/NODATA with an empty
 // answer section to suppress a record (e.g. a DANE/CAA downgrade) and have it
 // accepted as authentic.
-func (v *Validator) validateDenial(answer *dns.Msg) error {
-	if len(answer.Question) == 0 {
-		return fmt.Errorf("%w: response has no question", ErrDenialOfExistence)
-	}
-	q := answer.Question[0]
-	qname := dns.CanonicalName(q.Name)
-	qtype := q.Qtype
-
+func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16) error {
 	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, qname)
 
 	if nsecProvesDenial(nsecs, qname, qtype, answer.Rcode) {
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 7227dd7..17a1946 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -86,10 +86,10 @@ func (v *Validator) SetAnchor(owner string, tag uint16, alg, digestType uint8, d
 // It groups the answer section into RRsets, finds covering RRSIGs,
 // and validates each signed RRset against a chain of trust.
 func (v *Validator) Validate(answer *dns.Msg) error {
-	if len(answer.Answer) == 0 {
-		return v.validateDenial(answer)
+	if len(answer.Question) == 0 {
+		return fmt.Errorf("%w: response has no question", ErrDenialOfExistence)
 	}
-
+	q := answer.Question[0]
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
 
 	// One insecure RRset makes the whole answer insecure, but the others still
@@ -105,9 +105,55 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 			return err
 		}
 	}
+
+	// Without records of the type asked for, the answer is a denial even if
+	// there are others. It needs to be proven like one with no records at all.
+	name, found := followAliases(rrsets, q)
+	if !found && q.Qtype == dns.TypeRRSIG {
+		// There are no signatures of signatures
+		for key := range sigs {
+			found = found || key.name == name
+		}
+	}
+	if !found || answer.Rcode == dns.RcodeNameError {
+		if err := v.validateDenial(answer, name, q.Qtype); err != nil {
+			return err
+		}
+	}
 	return insecure
 }
 
+// followAliases follows the CNAME records of an answer from the name asked for
+// and returns the last, and whether there are records of the type asked for.
+func followAliases(rrsets map[rrsetKey][]dns.RR, q dns.Question) (string, bool) {
+	name := dns.CanonicalName(q.Name)
+	for range len(rrsets) + 1 {
+		if len(rrsets[rrsetKey{name, q.Qtype}]) > 0 {
+			return name, true
+		}
+		if q.Qtype == dns.TypeANY {
+			break
+		}
+		alias := rrsets[rrsetKey{name, dns.TypeCNAME}]
+		if len(alias) == 0 {
+			break
+		}
+		cname, ok := alias[0].(*dns.CNAME)
+		if !ok {
+			break
+		}
+		name = dns.CanonicalName(cname.Target)
+	}
+	if q.Qtype == dns.TypeANY {
+		for key := range rrsets {
+			if key.name == name {
+				return name, true
+			}
+		}
+	}
+	return name, false
+}
+
 // validateAnswerRRset validates an RRset of the answer section. It returns
 // ErrInsecureDelegation if it's from a zone that is provably unsigned.
 func (v *Validator) validateAnswerRRset(answer *dns.Msg, key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
-- 
2.43.0


From 1b7e7b191dc15eaf261202b3892ff9e3e4b4244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:27 +0000
Subject: [PATCH 40/67] fix: validate answers against the question of the
 client

The validator went by the question in the answer. With another one there,
proof that some other name does not exist was accepted for the name the
client asked for.
---
 dnssec.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dnssec.go b/dnssec.go
index 0e8dd5f..c075188 100644
--- a/dnssec.go
+++ b/dnssec.go
@@ -3,6 +3,7 @@ package rdns
 import (
 	"errors"
 	"expvar"
+	"strings"
 
 	"github.com/folbricht/routedns/dnssec"
 	"github.com/miekg/dns"
@@ -133,7 +134,7 @@ func (r *DNSSECValidator) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return answer, nil
 	}
 
-	if err := r.validator.Validate(answer); err != nil {
+	if err := r.validate(q, answer); err != nil {
 		if errors.Is(err, dnssec.ErrInsecureDelegation) {
 			log.Debug("insecure delegation, passing through", "error", err)
 			stripDNSSEC(answer, clientSetDo, clientHadEdns0, qtype)
@@ -154,6 +155,18 @@ func (r *DNSSECValidator) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	return answer, nil
 }
 
+// validate an answer to q. It has to be for the same question, the validator
+// goes by the one in the answer.
+func (r *DNSSECValidator) validate(q, answer *dns.Msg) error {
+	if len(answer.Question) != 1 ||
+		!strings.EqualFold(answer.Question[0].Name, q.Question[0].Name) ||
+		answer.Question[0].Qtype != q.Question[0].Qtype ||
+		answer.Question[0].Qclass != q.Question[0].Qclass {
+		return errors.New("answer is for a different question")
+	}
+	return r.validator.Validate(answer)
+}
+
 // stripDNSSEC removes DNSSEC records from the response if the client
 // did not set the DO bit. Per RFC 4035 Section 3.2.1.
 func stripDNSSEC(answer *dns.Msg, clientSetDo, clientHadEdns0 bool, qtype uint16) {
-- 
2.43.0


From 4194c67663d8a6248e2cb675591f0b7e9e79a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:22 +0000
Subject: [PATCH 41/67] fix: do not mark denials that rely on opt-out as
 authentic

An NSEC3 span with the opt-out flag leaves open if there are unsigned
delegations in it. The authenticated-data flag must not be set on answers
that rely on one (RFC 5155 section 9.2).
---
 dnssec/denial_existence.go | 50 +++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index e4cb8bb..d4a8123 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -26,7 +26,12 @@ func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16)
 	if nsecProvesDenial(nsecs, qname, qtype, answer.Rcode) {
 		return nil
 	}
-	if nsec3ProvesDenial(nsec3s, qname, qtype, answer.Rcode) {
+	if proven, optOut := nsec3ProvesDenial(nsec3s, qname, qtype, answer.Rcode); proven {
+		if optOut {
+			// There may be an unsigned delegation at the name
+			// (RFC 5155 §9.2)
+			return fmt.Errorf("%w: opt-out at %s", ErrInsecureDelegation, qname)
+		}
 		return nil
 	}
 
@@ -56,6 +61,9 @@ func (v *Validator) validateExpansion(answer *dns.Msg, sig *dns.RRSIG) error {
 	}
 	for _, r := range nsec3s {
 		if nsec3Zone(r) == dns.CanonicalName(sig.SignerName) && nsec3Covers(r, nextCloser) {
+			if r.Flags&1 == 1 {
+				return fmt.Errorf("%w: opt-out at %s", ErrInsecureDelegation, owner)
+			}
 			return nil
 		}
 	}
@@ -270,8 +278,9 @@ func nsecNextIsBelow(n *dns.NSEC, name string) bool {
 }
 
 // nsec3ProvesDenial reports whether the authenticated NSEC3 records prove the
-// denial for the given response code.
-func nsec3ProvesDenial(nsec3s []*dns.NSEC3, qname string, qtype uint16, rcode int) bool {
+// denial for the given response code, and whether that relies on an opt-out
+// span, which leaves open if there is an unsigned delegation.
+func nsec3ProvesDenial(nsec3s []*dns.NSEC3, qname string, qtype uint16, rcode int) (proven, optOut bool) {
 	// All records of a proof have to be from the same zone. A name that exists
 	// in one is covered by the records of the zones above.
 	zones := make(map[string][]*dns.NSEC3)
@@ -282,16 +291,15 @@ func nsec3ProvesDenial(nsec3s []*dns.NSEC3, qname string, qtype uint16, rcode in
 	for _, records := range zones {
 		switch rcode {
 		case dns.RcodeNameError:
-			if nsec3ProvesNXDOMAIN(records, qname) {
-				return true
-			}
+			proven, optOut = nsec3ProvesNXDOMAIN(records, qname)
 		case dns.RcodeSuccess:
-			if nsec3ProvesNODATA(records, qname, qtype) {
-				return true
-			}
+			proven, optOut = nsec3ProvesNODATA(records, qname, qtype)
+		}
+		if proven {
+			return proven, optOut
 		}
 	}
-	return false
+	return false, false
 }
 
 // nsec3Zone returns the zone an NSEC3 record belongs to, that is its owner name
@@ -301,20 +309,20 @@ func nsec3Zone(r *dns.NSEC3) string {
 }
 
 // nsec3ProvesNODATA proves that qname exists but the queried type does not.
-func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
+func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) (proven, optOut bool) {
 	qname = dns.CanonicalName(qname)
 
 	// Direct match with the type (and CNAME) absent.
 	for _, r := range nsec3s {
 		if r.Match(qname) {
-			return bitmapProvesNoType(r.TypeBitMap, qname, qtype)
+			return bitmapProvesNoType(r.TypeBitMap, qname, qtype), false
 		}
 	}
 
 	// DS NODATA via opt-out: the name is covered by an opt-out NSEC3, proving
 	// no signed DS exists (RFC 5155 §6).
 	if qtype == dns.TypeDS && nsec3OptOutCovers(nsec3s, qname) {
-		return true
+		return true, true
 	}
 
 	// Wildcard NODATA: closest encloser exists, next closer is covered, and the
@@ -324,11 +332,11 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 		wildcard := "*." + ce
 		for _, r := range nsec3s {
 			if r.Match(wildcard) {
-				return bitmapProvesNoType(r.TypeBitMap, wildcard, qtype)
+				return bitmapProvesNoType(r.TypeBitMap, wildcard, qtype), nsec3OptOutCovers(nsec3s, nextCloser)
 			}
 		}
 	}
-	return false
+	return false, false
 }
 
 // nsec3ProvesNXDOMAIN proves qname does not exist via the closest encloser
@@ -336,20 +344,18 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 // next closer name, and a covering NSEC3 for the wildcard at the closest
 // encloser. Opt-out on the next closer admits an (insecure) delegation.
 // RFC 5155 §8.4, §8.7.
-func nsec3ProvesNXDOMAIN(nsec3s []*dns.NSEC3, qname string) bool {
+func nsec3ProvesNXDOMAIN(nsec3s []*dns.NSEC3, qname string) (proven, optOut bool) {
 	ce, nextCloser, ok := nsec3ClosestEncloser(nsec3s, qname)
 	if !ok {
-		return false
+		return false, false
 	}
 	if !nsec3CoverAny(nsec3s, nextCloser) {
-		return false
-	}
-	if nsec3CoverAny(nsec3s, "*."+ce) {
-		return true
+		return false, false
 	}
 	// Opt-out: the next closer is covered by an opt-out NSEC3, so the name may
 	// be an unsigned delegation; the negative answer is acceptable.
-	return nsec3OptOutCovers(nsec3s, nextCloser)
+	optOut = nsec3OptOutCovers(nsec3s, nextCloser)
+	return optOut || nsec3CoverAny(nsec3s, "*."+ce), optOut
 }
 
 // nsec3ClosestEncloser finds the longest ancestor of qname matched by an NSEC3
-- 
2.43.0


From 791a7b9a5bed397baf222c2b55594cd97e753287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:31 +0000
Subject: [PATCH 42/67] fix: require the closest encloser in opt-out proofs for
 DS

Hashes of names in a signed zone can lie in an opt-out span of a zone further
up. A record of that zone was accepted as proof that a name has no DS.
---
 dnssec/denial_existence.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index d4a8123..70eaaf3 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -319,15 +319,17 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) (proven,
 		}
 	}
 
-	// DS NODATA via opt-out: the name is covered by an opt-out NSEC3, proving
-	// no signed DS exists (RFC 5155 §6).
-	if qtype == dns.TypeDS && nsec3OptOutCovers(nsec3s, qname) {
+	ce, nextCloser, ok := nsec3ClosestEncloser(nsec3s, qname)
+
+	// DS NODATA via opt-out: the next closer name is covered by an opt-out
+	// NSEC3, proving no signed DS exists (RFC 5155 §8.6). It isn't enough if
+	// qname is covered, it is also by records of zones further up.
+	if qtype == dns.TypeDS && ok && nsec3OptOutCovers(nsec3s, nextCloser) {
 		return true, true
 	}
 
 	// Wildcard NODATA: closest encloser exists, next closer is covered, and the
 	// wildcard matches with the type absent.
-	ce, nextCloser, ok := nsec3ClosestEncloser(nsec3s, qname)
 	if ok && nsec3CoverAny(nsec3s, nextCloser) {
 		wildcard := "*." + ce
 		for _, r := range nsec3s {
-- 
2.43.0


From daa2912287993da6b2d7e7e4bda54cb0039c6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:31 +0000
Subject: [PATCH 43/67] fix: look for DS records of insecure delegations in the
 parent zone

A delegation without DS makes the child zone insecure, not its DS records,
which are the parent's. Forged DS records, and forged denials of the name,
were passed on.
---
 dnssec/denial_existence.go |  2 +-
 dnssec/validator.go        | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 70eaaf3..66b0c07 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -39,7 +39,7 @@ func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16)
 	// signed zone at all: if a parent provably has no DS this is an insecure
 	// delegation and the unsigned negative answer may be passed through.
 	// Otherwise the unproven denial is bogus.
-	if err := v.checkInsecureDelegation(qname); err != nil {
+	if err := v.checkInsecureDelegation(zoneNameFor(qname, qtype)); err != nil {
 		return err
 	}
 	return fmt.Errorf("%w: %s/%s", ErrDenialOfExistence, qname, dns.TypeToString[qtype])
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 17a1946..1b0c716 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -159,7 +159,7 @@ func followAliases(rrsets map[rrsetKey][]dns.RR, q dns.Question) (string, bool)
 func (v *Validator) validateAnswerRRset(answer *dns.Msg, key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
 	if len(rrsigs) == 0 {
 		// Check if this is an insecure delegation by looking for DS in parent
-		zone := rrset[0].Header().Name
+		zone := zoneNameFor(key.name, key.rrtype)
 		if err := v.checkInsecureDelegation(zone); err != nil {
 			return err
 		}
@@ -454,6 +454,15 @@ func parentZone(name string) string {
 	return parent
 }
 
+// zoneNameFor returns the deepest name that can be the zone of records of a
+// type. That is the name itself except for DS, which is in the parent zone.
+func zoneNameFor(name string, rrtype uint16) string {
+	if rrtype == dns.TypeDS {
+		return parentZone(name)
+	}
+	return name
+}
+
 // findKeysByTag returns DNSKEY records matching the given key tag and algorithm.
 func findKeysByTag(keys []*dns.DNSKEY, tag uint16, alg uint8) []*dns.DNSKEY {
 	var result []*dns.DNSKEY
-- 
2.43.0


From 44464a45335b6e3a9e552e7d722bad55cb0c750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:10 +0000
Subject: [PATCH 44/67] fix: find zones that are delegated over more than one
 label

The parent of a zone was taken to be one label up. Names below one that is
not a zone cut, like most under co.jp or ip6.arpa, could neither be validated
nor recognized as insecure, and all queries for them failed.
---
 dnssec/denial.go    |  44 +++++++++++++++++++
 dnssec/validator.go | 100 ++++++++++++++++++++++----------------------
 2 files changed, 93 insertions(+), 51 deletions(-)

diff --git a/dnssec/denial.go b/dnssec/denial.go
index b75e65c..1c6e507 100644
--- a/dnssec/denial.go
+++ b/dnssec/denial.go
@@ -45,6 +45,50 @@ func verifyDSDenial(resp *dns.Msg, name string, parentKeys []*dns.DNSKEY, now ti
 	return fmt.Errorf("%w for %s", ErrBogusDenial, name)
 }
 
+// provesNoDelegation checks if resp, the response to a DS query, proves that
+// there's no zone cut at name, with records signed by one of the supplied keys
+// of the zone above. If so, it also returns whether the name exists, that is if
+// there can be names below it.
+func provesNoDelegation(resp *dns.Msg, name string, keys []*dns.DNSKEY, now time.Time) (proven, exists bool) {
+	name = dns.CanonicalName(name)
+
+	// An alias
+	answer, answerSigs := groupRRsByTypeAndName(resp.Answer)
+	cname := rrsetKey{name, dns.TypeCNAME}
+	if rrset := answer[cname]; len(rrset) > 0 && verifyAnyRRSIG(answerSigs[cname], keys, rrset, now) {
+		return true, true
+	}
+
+	var nsec3s []*dns.NSEC3
+	rrsets, sigs := groupRRsByTypeAndName(resp.Ns)
+	for key, rrset := range rrsets {
+		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
+			continue
+		}
+		if !verifyAnyRRSIG(sigs[key], keys, rrset, now) {
+			continue
+		}
+		for _, rr := range rrset {
+			switch r := rr.(type) {
+			case *dns.NSEC:
+				if dns.CanonicalName(r.Hdr.Name) == name {
+					return !slices.Contains(r.TypeBitMap, dns.TypeNS), true
+				}
+				if nsecCovers(r, name) {
+					return true, nsecNextIsBelow(r, name)
+				}
+			case *dns.NSEC3:
+				if r.Match(name) {
+					return !slices.Contains(r.TypeBitMap, dns.TypeNS), true
+				}
+				nsec3s = append(nsec3s, r)
+			}
+		}
+	}
+	_, nextCloser, ok := nsec3ClosestEncloser(nsec3s, name)
+	return ok && nsec3CoverAny(nsec3s, nextCloser), false
+}
+
 // nsecDeniesDS reports whether the NSEC record proves an insecure delegation
 // at name: the name exists as a delegation (NS bit set) in the parent zone
 // but carries no DS. RFC 6840 §4.4.
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 1b0c716..790f7d8 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -177,7 +177,8 @@ func (v *Validator) validateAnswerRRset(answer *dns.Msg, key rrsetKey, rrset []d
 
 // checkInsecureDelegation walks the delegation chain from the root toward
 // name, returning ErrInsecureDelegation at the first cut where the parent
-// authentically proves (via signed NSEC/NSEC3) that no DS record exists.
+// authentically proves (via signed NSEC/NSEC3) that no DS record exists. It
+// returns nil if there is none.
 // An empty DS response without such proof is bogus, not insecure
 // (RFC 4035 §5.2, RFC 6840 §5.2).
 func (v *Validator) checkInsecureDelegation(name string) error {
@@ -186,43 +187,37 @@ func (v *Validator) checkInsecureDelegation(name string) error {
 		return nil
 	}
 	labels := dns.SplitDomainName(name)
+	parent := "."
 	for i := len(labels) - 1; i >= 0; i-- {
 		zone := dns.Fqdn(strings.Join(labels[i:], "."))
-		insecure, err := v.proveNoDS(zone)
+		ds, _, resp, err := v.lookupDS(zone)
 		if err != nil {
 			return err
 		}
-		if insecure {
+		if len(ds) > 0 {
+			parent = zone
+			continue
+		}
+		zsk, ksk, err := v.buildChainOfTrust(parent)
+		if err != nil {
+			return err
+		}
+		keys := slices.Concat(zsk, ksk)
+		err = verifyDSDenial(resp, zone, keys, v.now())
+		if err == nil {
 			return fmt.Errorf("%w: %s", ErrInsecureDelegation, zone)
 		}
-	}
-	return nil
-}
-
-// proveNoDS returns true when zone has no DS RRset and that absence is
-// authenticated by the parent zone's signed NSEC/NSEC3. It returns false when
-// DS records are present, and an error when the absence cannot be
-// authenticated.
-func (v *Validator) proveNoDS(zone string) (bool, error) {
-	ds, _, resp, err := v.lookupDS(zone)
-	if err != nil {
-		return false, err
-	}
-	if len(ds) > 0 {
-		return false, nil
-	}
-	parent := parentZone(zone)
-	parentZSK, parentKSK, err := v.buildChainOfTrust(parent)
-	if err != nil {
-		if errors.Is(err, ErrInsecureDelegation) {
-			return true, nil
+		// Not every name is a delegation. One that isn't belongs to the same
+		// zone as the one above, and can have delegations below.
+		notCut, exists := provesNoDelegation(resp, zone, keys, v.now())
+		if !notCut {
+			return err
+		}
+		if !exists {
+			return nil
 		}
-		return false, err
-	}
-	if err := verifyDSDenial(resp, zone, slices.Concat(parentZSK, parentKSK), v.now()); err != nil {
-		return false, err
 	}
-	return true, nil
+	return nil
 }
 
 // validateRRset validates a set of RRs against the provided RRSIGs by building
@@ -304,27 +299,17 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 			return nil, nil, ErrNoTrustAnchor
 		}
 	} else {
-		var (
-			dsSigs []*dns.RRSIG
-			dsResp *dns.Msg
-		)
-		dsRecords, dsSigs, dsResp, err = v.lookupDS(zone)
+		var dsSigs []*dns.RRSIG
+		dsRecords, dsSigs, _, err = v.lookupDS(zone)
 		if err != nil {
 			return nil, nil, fmt.Errorf("failed to lookup DS for %s: %w", zone, err)
 		}
 
-		parent := parentZone(zone)
-		parentZSK, parentKSK, err := v.buildChainOfTrust(parent)
-		if err != nil {
-			return nil, nil, fmt.Errorf("failed to build chain of trust for parent %s: %w", parent, err)
-		}
-
-		parentKeys := slices.Concat(parentZSK, parentKSK)
 		if len(dsRecords) == 0 {
-			if err := verifyDSDenial(dsResp, zone, parentKeys, v.now()); err != nil {
+			if err := v.checkInsecureDelegation(zone); err != nil {
 				return nil, nil, err
 			}
-			return nil, nil, fmt.Errorf("%w: %s", ErrInsecureDelegation, zone)
+			return nil, nil, fmt.Errorf("%w for %s", ErrBogusDenial, zone)
 		}
 		if len(dsSigs) == 0 {
 			return nil, nil, fmt.Errorf("%w: DS for %s", ErrNoSignature, zone)
@@ -334,15 +319,27 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		for i, d := range dsRecords {
 			dsRRset[i] = d
 		}
+		// The parent is the zone that signed the DS records, which can be more
+		// than one label up.
 		var verified bool
+		lastErr := fmt.Errorf("%w: DS RRSIG for %s", ErrSignatureInvalid, zone)
 		for _, dsSig := range dsSigs {
-			if err := verifyRRSIG(dsSig, parentKeys, dsRRset, v.now()); err == nil {
+			parent := dns.CanonicalName(dsSig.SignerName)
+			if parent == zone || !dns.IsSubDomain(parent, zone) {
+				continue
+			}
+			parentZSK, parentKSK, err := v.buildChainOfTrust(parent)
+			if err != nil {
+				lastErr = fmt.Errorf("failed to build chain of trust for parent %s: %w", parent, err)
+				continue
+			}
+			if err := verifyRRSIG(dsSig, slices.Concat(parentZSK, parentKSK), dsRRset, v.now()); err == nil {
 				verified = true
 				break
 			}
 		}
 		if !verified {
-			return nil, nil, fmt.Errorf("%w: DS RRSIG for %s", ErrSignatureInvalid, zone)
+			return nil, nil, lastErr
 		}
 	}
 
@@ -410,8 +407,9 @@ func (v *Validator) lookupDNSKEY(name string) (keys []*dns.DNSKEY, sigs []*dns.R
 // records, their covering RRSIGs, and the full response so callers can
 // inspect the authority section for NSEC/NSEC3 denial.
 func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, error) {
+	name = dns.CanonicalName(name)
 	q := new(dns.Msg)
-	q.SetQuestion(dns.CanonicalName(name), dns.TypeDS)
+	q.SetQuestion(name, dns.TypeDS)
 	q.SetEdns0(4096, true)
 	q.MsgHdr.CheckingDisabled = true
 	a, err := v.resolver(q)
@@ -427,6 +425,10 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	)
 	if a.Rcode == dns.RcodeSuccess {
 		for _, rr := range a.Answer {
+			// Skip those of where name is an alias to
+			if dns.CanonicalName(rr.Header().Name) != name {
+				continue
+			}
 			switch r := rr.(type) {
 			case *dns.DS:
 				ds = append(ds, r)
@@ -447,11 +449,7 @@ func parentZone(name string) string {
 	if name == "." {
 		return "."
 	}
-	_, parent, found := strings.Cut(name, ".")
-	if !found || parent == "" {
-		return "."
-	}
-	return parent
+	return lastNLabels(name, dns.CountLabel(name)-1)
 }
 
 // zoneNameFor returns the deepest name that can be the zone of records of a
-- 
2.43.0


From feeabb44ce72994a6e5a67c9d52428884284f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:11 +0000
Subject: [PATCH 45/67] fix: accept denials of top-level names

The wildcard at the root was built with an empty label. Genuine answers that
a top-level name does not exist failed validation.
---
 dnssec/denial_existence.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 66b0c07..504e762 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -171,7 +171,7 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 		if !nsecCovers(cover, qname) {
 			continue
 		}
-		wildcard := dns.CanonicalName("*." + nsecClosestEncloser(qname, cover))
+		wildcard := wildcardAt(nsecClosestEncloser(qname, cover))
 		for _, w := range nsecs {
 			if dns.CanonicalName(w.Hdr.Name) != wildcard {
 				continue
@@ -227,7 +227,7 @@ func nsecProvesNXDOMAIN(nsecs []*dns.NSEC, qname string) bool {
 		return false
 	}
 
-	wildcard := dns.CanonicalName("*." + ce)
+	wildcard := wildcardAt(ce)
 	for _, n := range nsecs {
 		// An exact wildcard match contradicts NXDOMAIN; only a covering NSEC
 		// (proving the wildcard does not exist) completes the proof.
@@ -331,7 +331,7 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) (proven,
 	// Wildcard NODATA: closest encloser exists, next closer is covered, and the
 	// wildcard matches with the type absent.
 	if ok && nsec3CoverAny(nsec3s, nextCloser) {
-		wildcard := "*." + ce
+		wildcard := wildcardAt(ce)
 		for _, r := range nsec3s {
 			if r.Match(wildcard) {
 				return bitmapProvesNoType(r.TypeBitMap, wildcard, qtype), nsec3OptOutCovers(nsec3s, nextCloser)
@@ -357,7 +357,7 @@ func nsec3ProvesNXDOMAIN(nsec3s []*dns.NSEC3, qname string) (proven, optOut bool
 	// Opt-out: the next closer is covered by an opt-out NSEC3, so the name may
 	// be an unsigned delegation; the negative answer is acceptable.
 	optOut = nsec3OptOutCovers(nsec3s, nextCloser)
-	return optOut || nsec3CoverAny(nsec3s, "*."+ce), optOut
+	return optOut || nsec3CoverAny(nsec3s, wildcardAt(ce)), optOut
 }
 
 // nsec3ClosestEncloser finds the longest ancestor of qname matched by an NSEC3
@@ -406,6 +406,14 @@ func nsec3OptOutCovers(nsec3s []*dns.NSEC3, name string) bool {
 	return false
 }
 
+// wildcardAt returns the wildcard name at a closest encloser.
+func wildcardAt(ce string) string {
+	if ce == "." {
+		return "*."
+	}
+	return dns.CanonicalName("*." + ce)
+}
+
 // lastNLabels returns the rightmost n labels of name as a fully-qualified
 // name, or the root when n <= 0.
 func lastNLabels(name string, n int) string {
-- 
2.43.0


From 29359cd3590d6144601b6c341adc5eca9c00982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:44 +0000
Subject: [PATCH 46/67] fix: use trust anchors below the root

Trust anchors of other zones than the root could be configured, but had no
effect.
---
 dnssec/denial_existence.go | 17 +++++++++--------
 dnssec/validator.go        | 31 ++++++++++++++++++++-----------
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 504e762..1e7c979 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -21,7 +21,7 @@ import (
 // answer section to suppress a record (e.g. a DANE/CAA downgrade) and have it
 // accepted as authentic.
 func (v *Validator) validateDenial(answer *dns.Msg, qname string, qtype uint16) error {
-	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, qname)
+	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, qname, qtype)
 
 	if nsecProvesDenial(nsecs, qname, qtype, answer.Rcode) {
 		return nil
@@ -53,7 +53,7 @@ func (v *Validator) validateExpansion(answer *dns.Msg, sig *dns.RRSIG) error {
 	owner := dns.CanonicalName(sig.Hdr.Name)
 	nextCloser := lastNLabels(owner, int(sig.Labels)+1)
 
-	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, owner)
+	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, owner, sig.TypeCovered)
 	for _, n := range nsecs {
 		if nsecCovers(n, nextCloser) && !nsecNextIsBelow(n, nextCloser) {
 			return nil
@@ -74,13 +74,14 @@ func (v *Validator) validateExpansion(answer *dns.Msg, sig *dns.RRSIG) error {
 // authority section whose covering RRSIG is signed by a zone at or above qname
 // and chains to the trust anchor. Unsigned or unauthenticated records are
 // discarded so a forged proof cannot be used.
-func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string) (nsecs []*dns.NSEC, nsec3s []*dns.NSEC3) {
+func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string, qtype uint16) (nsecs []*dns.NSEC, nsec3s []*dns.NSEC3) {
+	anchor := v.closestAnchor(zoneNameFor(qname, qtype))
 	rrsets, sigs := groupRRsByTypeAndName(ns)
 	for key, rrset := range rrsets {
 		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
 			continue
 		}
-		if !v.rrsetSignedFromAncestor(rrset, sigs[key], qname) {
+		if !v.rrsetSignedFromAncestor(rrset, sigs[key], qname, anchor) {
 			continue
 		}
 		for _, rr := range rrset {
@@ -96,14 +97,14 @@ func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string) (nse
 }
 
 // rrsetSignedFromAncestor reports whether any of the supplied RRSIGs
-// authenticates rrset under a signer at or above qname that chains to the trust
-// anchor. An NSEC/NSEC3 from an unrelated zone proves nothing about qname, so
+// authenticates rrset under a signer at or above qname, but not above anchor,
+// that chains to the trust anchor. An NSEC/NSEC3 from an unrelated zone proves nothing about qname, so
 // the signer-bailiwick check is applied per signature; trying every RRSIG
 // tolerates a key rollover where the set carries more than one.
-func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, qname string) bool {
+func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, qname, anchor string) bool {
 	for _, sig := range sigs {
 		signer := dns.CanonicalName(sig.SignerName)
-		if !dns.IsSubDomain(signer, qname) {
+		if !dns.IsSubDomain(signer, qname) || !dns.IsSubDomain(anchor, signer) {
 			continue
 		}
 		// The owner name is what an NSEC is about. One that has been expanded
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 790f7d8..952cd1d 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -175,8 +175,8 @@ func (v *Validator) validateAnswerRRset(answer *dns.Msg, key rrsetKey, rrset []d
 	return nil
 }
 
-// checkInsecureDelegation walks the delegation chain from the root toward
-// name, returning ErrInsecureDelegation at the first cut where the parent
+// checkInsecureDelegation walks the delegation chain from the closest trust
+// anchor toward name, returning ErrInsecureDelegation at the first cut where the parent
 // authentically proves (via signed NSEC/NSEC3) that no DS record exists. It
 // returns nil if there is none.
 // An empty DS response without such proof is bogus, not insecure
@@ -187,8 +187,8 @@ func (v *Validator) checkInsecureDelegation(name string) error {
 		return nil
 	}
 	labels := dns.SplitDomainName(name)
-	parent := "."
-	for i := len(labels) - 1; i >= 0; i-- {
+	parent := v.closestAnchor(name)
+	for i := len(labels) - dns.CountLabel(parent) - 1; i >= 0; i-- {
 		zone := dns.Fqdn(strings.Join(labels[i:], "."))
 		ds, _, resp, err := v.lookupDS(zone)
 		if err != nil {
@@ -220,6 +220,17 @@ func (v *Validator) checkInsecureDelegation(name string) error {
 	return nil
 }
 
+// closestAnchor returns the deepest zone at or above name that has a trust
+// anchor. What the zones above that say has no meaning for name.
+func (v *Validator) closestAnchor(name string) string {
+	for name = dns.CanonicalName(name); name != "."; name = parentZone(name) {
+		if len(v.ks.getDS(name)) > 0 {
+			break
+		}
+	}
+	return name
+}
+
 // validateRRset validates a set of RRs against the provided RRSIGs by building
 // a chain of trust to each signer's DNSKEY. An RRset is accepted as soon as one
 // of its RRSIGs verifies; this tolerates ZSK rollovers, where the set carries
@@ -290,15 +301,13 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		return nil, nil, fmt.Errorf("%w: no zone key for %s", ErrNoKey, zone)
 	}
 
-	// Obtain authenticated DS records for this zone — from the configured
-	// trust anchor for the root, or by recursing into the parent otherwise.
-	var dsRecords []*dns.DS
-	if zone == "." {
-		dsRecords = v.ks.getDS(".")
-		if len(dsRecords) == 0 {
+	// Obtain authenticated DS records for this zone — from a configured
+	// trust anchor if there is one, or by recursing into the parent otherwise.
+	dsRecords := v.ks.getDS(zone)
+	if len(dsRecords) == 0 {
+		if zone == "." {
 			return nil, nil, ErrNoTrustAnchor
 		}
-	} else {
 		var dsSigs []*dns.RRSIG
 		dsRecords, dsSigs, _, err = v.lookupDS(zone)
 		if err != nil {
-- 
2.43.0


From 7dd5355a8294be9d4ddb6b89686d0e26bd3f9fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:52 +0000
Subject: [PATCH 47/67] fix: do not accept DS records signed by the child zone

---
 dnssec/validator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 952cd1d..2bac17f 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -246,8 +246,9 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) (*dns.RRSIG
 		// signer "tim." would be accepted for owner "victim." — enforce a
 		// label-aware comparison here before fetching keys for the signer.
 		signer := dns.CanonicalName(sig.SignerName)
+		// DS records belong to the parent zone, they can't be signed by the child.
 		// dns.IsSubDomain(parent, child): true when child is at or below parent.
-		if !dns.IsSubDomain(signer, owner) {
+		if !dns.IsSubDomain(signer, zoneNameFor(owner, rrset[0].Header().Rrtype)) {
 			lastErr = fmt.Errorf("%w: %s cannot sign %s", ErrSignerOutOfBailiwick, signer, owner)
 			continue
 		}
-- 
2.43.0


From 2f58fe263d0375b07616c25316496d9ad409c838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:55 +0000
Subject: [PATCH 48/67] fix: use the configured server-name for DoQ, DoH over
 QUIC and DoT with a bootstrap address

---
 dohclient.go | 4 +++-
 doqclient.go | 4 +++-
 dotclient.go | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/dohclient.go b/dohclient.go
index e6d5216..d5eadc0 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -401,7 +401,9 @@ func dohQuicTransport(endpoint string, opt DoHClientOptions) (http.RoundTripper,
 
 	// enable TLS session caching for session resumption and 0-RTT
 	tlsConfig.ClientSessionCache = tls.NewLRUClientSessionCache(100)
-	tlsConfig.ServerName = u.Hostname()
+	if tlsConfig.ServerName == "" {
+		tlsConfig.ServerName = u.Hostname()
+	}
 
 	quicConfig := &quic.Config{
 		TokenStore: quic.NewLRUTokenStore(10, 10),
diff --git a/doqclient.go b/doqclient.go
index 7b38464..d194462 100644
--- a/doqclient.go
+++ b/doqclient.go
@@ -82,7 +82,9 @@ func NewDoQClient(id, endpoint string, opt DoQClientOptions) (*DoQClient, error)
 	}
 
 	// quic-go requires the ServerName be set explicitly
-	tlsConfig.ServerName = host
+	if tlsConfig.ServerName == "" {
+		tlsConfig.ServerName = host
+	}
 
 	// enable TLS session caching for session resumption and 0-RTT
 	if opt.Use0RTT {
diff --git a/dotclient.go b/dotclient.go
index 1892a4c..068baab 100644
--- a/dotclient.go
+++ b/dotclient.go
@@ -69,7 +69,9 @@ func NewDoTClient(id, endpoint string, opt DoTClientOptions) (*DoTClient, error)
 		if err != nil {
 			return nil, errors.Wrapf(err, "failed to parse dot endpoint '%s'", endpoint)
 		}
-		client.TLSConfig.ServerName = host
+		if client.TLSConfig.ServerName == "" {
+			client.TLSConfig.ServerName = host
+		}
 		endpoint = net.JoinHostPort(opt.BootstrapAddr, port)
 	}
 	return &DoTClient{
-- 
2.43.0


From 450c443de633eac732d49be5d059027194121cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:54 +0000
Subject: [PATCH 49/67] fix: validate the name in server certificates of DTLS
 resolvers

---
 cmd/routedns/resolver.go |  1 +
 dtlsclient.go            | 37 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/cmd/routedns/resolver.go b/cmd/routedns/resolver.go
index 164240c..c8d918a 100644
--- a/cmd/routedns/resolver.go
+++ b/cmd/routedns/resolver.go
@@ -75,6 +75,7 @@ func instantiateResolver(id string, r resolver, resolvers map[string]rdns.Resolv
 		if err != nil {
 			return err
 		}
+		dtlsConfig.ServerName = r.ServerName
 		opt := rdns.DTLSClientOptions{
 			BootstrapAddr: r.BootstrapAddr,
 			LocalAddr:     net.ParseIP(r.LocalAddr),
diff --git a/dtlsclient.go b/dtlsclient.go
index 1cdee6c..65e9a1a 100644
--- a/dtlsclient.go
+++ b/dtlsclient.go
@@ -2,6 +2,8 @@ package rdns
 
 import (
 	"context"
+	"crypto/x509"
+	"errors"
 	"fmt"
 	"net"
 	"strconv"
@@ -60,11 +62,14 @@ func NewDTLSClient(id, endpoint string, opt DTLSClientOptions) (*DTLSClient, err
 	if err != nil {
 		return nil, err
 	}
+	// The server certificate has to be valid for the host in the endpoint unless another
+	// name is configured.
+	opt.DTLSConfig = withServerName(opt.DTLSConfig, host)
+
 	// If a bootstrap address was provided, we need to use the IP for the connection but the
 	// hostname in the TLS handshake.
 	var ip net.IP
 	if opt.BootstrapAddr != "" {
-		opt.DTLSConfig.ServerName = host
 		ip = net.ParseIP(opt.BootstrapAddr)
 		if ip == nil {
 			return nil, fmt.Errorf("failed to parse bootstrap address '%s'", opt.BootstrapAddr)
@@ -130,6 +135,36 @@ func (d *DTLSClient) String() string {
 	return d.id
 }
 
+// withServerName returns a copy of the config that validates the server certificate against
+// the given host if it doesn't have a server name already. The DTLS library ignores server
+// names that are IPs, those are validated here.
+func withServerName(config *dtls.Config, host string) *dtls.Config {
+	c := new(dtls.Config)
+	if config != nil {
+		*c = *config
+	}
+	if c.ServerName == "" {
+		c.ServerName = host
+	}
+	if net.ParseIP(c.ServerName) == nil || c.InsecureSkipVerify {
+		return c
+	}
+	name, verify := c.ServerName, c.VerifyPeerCertificate
+	c.VerifyPeerCertificate = func(rawCerts [][]byte, verifiedChains [][]*x509.Certificate) error {
+		if len(verifiedChains) == 0 || len(verifiedChains[0]) == 0 {
+			return errors.New("no verified server certificate")
+		}
+		if err := verifiedChains[0][0].VerifyHostname(name); err != nil {
+			return err
+		}
+		if verify != nil {
+			return verify(rawCerts, verifiedChains)
+		}
+		return nil
+	}
+	return c
+}
+
 type dtlsDialer struct {
 	raddr         *net.UDPAddr
 	laddr         *net.UDPAddr
-- 
2.43.0


From d14b806ec1e645402c2c2ae2e6d2fbab6b7d135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:56 +0000
Subject: [PATCH 50/67] fix: apply allowed-net to admin listeners

---
 adminlistener.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/adminlistener.go b/adminlistener.go
index 9460dde..a77cd7a 100644
--- a/adminlistener.go
+++ b/adminlistener.go
@@ -64,10 +64,21 @@ func NewAdminListener(id, addr string, opt AdminListenerOptions) (*AdminListener
 		mux:  http.NewServeMux(),
 	}
 	// Serve metrics.
-	l.mux.Handle("/routedns/vars", expvar.Handler())
+	l.mux.HandleFunc("/routedns/vars", l.varsHandler)
 	return l, nil
 }
 
+// Serve metrics to clients that are allowed to use the listener.
+func (s *AdminListener) varsHandler(w http.ResponseWriter, r *http.Request) {
+	host, _, _ := net.SplitHostPort(r.RemoteAddr)
+	if !isAllowed(s.opt.AllowedNet, net.ParseIP(host)) {
+		Log.Debug("refusing client ip", "id", s.id, "client", r.RemoteAddr)
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
+	expvar.Handler().ServeHTTP(w, r)
+}
+
 // Start the admin server.
 func (s *AdminListener) Start() error {
 	Log.Info("starting listener",
-- 
2.43.0


From 13f79f66562d2aa50689f23aae0a2adbe6472822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:24 +0000
Subject: [PATCH 51/67] fix: apply ip-version to all listeners

---
 adminlistener.go     |  6 +++---
 cmd/routedns/main.go |  1 +
 dnslistener.go       | 13 +++++++++++++
 dohlistener.go       |  6 +++---
 doqlistener.go       |  4 ++--
 dtlslistener.go      |  2 +-
 6 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/adminlistener.go b/adminlistener.go
index a77cd7a..faaa0ab 100644
--- a/adminlistener.go
+++ b/adminlistener.go
@@ -104,7 +104,7 @@ func (s *AdminListener) startTCP() error {
 	s.httpServer = httpServer
 	s.mu.Unlock()
 
-	ln, err := ListenInNetNS(context.Background(), s.opt.NetNS, "tcp", s.addr, s.opt.SocketOptions)
+	ln, err := ListenInNetNS(context.Background(), s.opt.NetNS, s.opt.network("tcp"), s.addr, s.opt.SocketOptions)
 	if err != nil {
 		return err
 	}
@@ -114,11 +114,11 @@ func (s *AdminListener) startTCP() error {
 
 // Start the admin server with QUIC transport.
 func (s *AdminListener) startQUIC() error {
-	udpAddr, err := net.ResolveUDPAddr("udp", s.addr)
+	udpAddr, err := net.ResolveUDPAddr(s.opt.network("udp"), s.addr)
 	if err != nil {
 		return err
 	}
-	udpConn, err := ListenUDPInNetNS(context.Background(), s.opt.NetNS, "udp", udpAddr, s.opt.SocketOptions)
+	udpConn, err := ListenUDPInNetNS(context.Background(), s.opt.NetNS, s.opt.network("udp"), udpAddr, s.opt.SocketOptions)
 	if err != nil {
 		return err
 	}
diff --git a/cmd/routedns/main.go b/cmd/routedns/main.go
index 1d8d8ad..448ff81 100644
--- a/cmd/routedns/main.go
+++ b/cmd/routedns/main.go
@@ -309,6 +309,7 @@ func start(opt options, args []string) error {
 
 		opt := rdns.ListenOptions{
 			AllowedNet:    allowedNet,
+			IPVersion:     l.IPVersion,
 			NetNS:         netns,
 			SocketOptions: rdns.SocketOptions{FWMark: l.FWMark, BindInterface: l.BindInterface},
 		}
diff --git a/dnslistener.go b/dnslistener.go
index 9603237..e89c8a6 100644
--- a/dnslistener.go
+++ b/dnslistener.go
@@ -5,6 +5,7 @@ import (
 	"crypto/tls"
 	"fmt"
 	"net"
+	"strconv"
 	"strings"
 
 	"github.com/miekg/dns"
@@ -23,6 +24,10 @@ type ListenOptions struct {
 	// Network allowed to query this listener.
 	AllowedNet []*net.IPNet
 
+	// IP version to use, 4 or 6. Both are used if 0. Only for listeners that don't
+	// take the network as argument.
+	IPVersion int
+
 	// Linux network namespace for the listening socket.
 	NetNS *NetNS
 
@@ -30,6 +35,14 @@ type ListenOptions struct {
 	SocketOptions SocketOptions
 }
 
+// network returns the name of the network to listen on, limited to the IP version.
+func (o ListenOptions) network(base string) string {
+	if o.IPVersion == 0 {
+		return base
+	}
+	return base + strconv.Itoa(o.IPVersion)
+}
+
 // NewDNSListener returns an instance of either a UDP or TCP DNS listener.
 func NewDNSListener(id, addr, net string, opt ListenOptions, resolver Resolver) *DNSListener {
 	return &DNSListener{
diff --git a/dohlistener.go b/dohlistener.go
index eb89737..3ab8316 100644
--- a/dohlistener.go
+++ b/dohlistener.go
@@ -138,7 +138,7 @@ func (s *DoHListener) startTCP() error {
 	s.httpServer = httpServer
 	s.mu.Unlock()
 
-	ln, err := ListenInNetNS(context.Background(), s.opt.NetNS, "tcp", s.addr, s.opt.SocketOptions)
+	ln, err := ListenInNetNS(context.Background(), s.opt.NetNS, s.opt.network("tcp"), s.addr, s.opt.SocketOptions)
 	if err != nil {
 		return err
 	}
@@ -151,11 +151,11 @@ func (s *DoHListener) startTCP() error {
 
 // Start the DoH server with QUIC transport.
 func (s *DoHListener) startQUIC() error {
-	udpAddr, err := net.ResolveUDPAddr("udp", s.addr)
+	udpAddr, err := net.ResolveUDPAddr(s.opt.network("udp"), s.addr)
 	if err != nil {
 		return err
 	}
-	udpConn, err := ListenUDPInNetNS(context.Background(), s.opt.NetNS, "udp", udpAddr, s.opt.SocketOptions)
+	udpConn, err := ListenUDPInNetNS(context.Background(), s.opt.NetNS, s.opt.network("udp"), udpAddr, s.opt.SocketOptions)
 	if err != nil {
 		return err
 	}
diff --git a/doqlistener.go b/doqlistener.go
index 66b5676..a4006ec 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -81,11 +81,11 @@ func NewQUICListener(id, addr string, opt DoQListenerOptions, resolver Resolver)
 
 // Start the QUIC server.
 func (s *DoQListener) Start() error {
-	udpAddr, err := net.ResolveUDPAddr("udp", s.addr)
+	udpAddr, err := net.ResolveUDPAddr(s.opt.network("udp"), s.addr)
 	if err != nil {
 		return err
 	}
-	udpConn, err := ListenUDPInNetNS(context.Background(), s.opt.NetNS, "udp", udpAddr, s.opt.SocketOptions)
+	udpConn, err := ListenUDPInNetNS(context.Background(), s.opt.NetNS, s.opt.network("udp"), udpAddr, s.opt.SocketOptions)
 	if err != nil {
 		return err
 	}
diff --git a/dtlslistener.go b/dtlslistener.go
index 48b17e3..d6f3484 100644
--- a/dtlslistener.go
+++ b/dtlslistener.go
@@ -65,7 +65,7 @@ func (s *DTLSListener) Start() error {
 	var listener net.Listener
 	err = RunInNetNS(s.opt.NetNS, func() error {
 		var e error
-		listener, e = dtls.Listen("udp", addr, s.opt.DTLSConfig)
+		listener, e = dtls.Listen(s.opt.network("udp"), addr, s.opt.DTLSConfig)
 		return e
 	})
 	if err != nil {
-- 
2.43.0


From 6e36a126794e16ee3dfe9bc8d9dc51765bd8fb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:24 +0000
Subject: [PATCH 52/67] fix: allow IPv6 addresses in ODoH targets

---
 odohclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/odohclient.go b/odohclient.go
index 25fd286..07342e1 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"net"
 	"net/http"
 	"net/url"
 	"time"
@@ -196,7 +197,7 @@ func (d *ODoHClient) getTargetConfig(ctx context.Context) (*odoh.ObliviousDoHCon
 }
 
 func (d *ODoHClient) refreshTargetKey(ctx context.Context) (*odoh.ObliviousDoHConfig, time.Time, error) {
-	var url string = "https://" + d.targetName + ":" + d.targetPort + ODOH_CONFIG_PATH
+	var url string = "https://" + net.JoinHostPort(d.targetName, d.targetPort) + ODOH_CONFIG_PATH
 	req, err := http.NewRequestWithContext(ctx, http.MethodGet, url, nil)
 	if err != nil {
 		return nil, time.Time{}, err
-- 
2.43.0


From 0c6b24b2cee1568058e7450253d82c403b07dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:42 +0000
Subject: [PATCH 53/67] fix: refuse groups without resolvers instead of
 crashing on queries

---
 cmd/routedns/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/routedns/main.go b/cmd/routedns/main.go
index 448ff81..b7a82b3 100644
--- a/cmd/routedns/main.go
+++ b/cmd/routedns/main.go
@@ -484,6 +484,12 @@ func instantiateGroup(id string, g group, resolvers map[string]rdns.Resolver) er
 		gr = append(gr, resolver)
 	}
 	switch g.Type {
+	case "round-robin", "fail-rotate", "fail-back", "fastest", "load-balance", "random":
+		if len(gr) < 1 {
+			return fmt.Errorf("type %s requires at least one resolver in '%s'", g.Type, id)
+		}
+	}
+	switch g.Type {
 	case "round-robin":
 		resolvers[id] = rdns.NewRoundRobin(id, gr...)
 	case "fail-rotate":
-- 
2.43.0


From f49ae85e1ba6018dbc66b3eab583c5748b15c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:44 +0000
Subject: [PATCH 54/67] fix: refuse unknown modes in ODoH listeners

---
 odohlistener.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/odohlistener.go b/odohlistener.go
index fa76706..6091054 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -85,6 +85,8 @@ func NewODoHListener(id, addr string, opt ODoHListenerOptions, resolver Resolver
 	case "target", "":
 		mux.HandleFunc(ODOH_QUERY_PATH, l.ODoHqueryHandler)
 		mux.HandleFunc(ODOH_CONFIG_PATH, l.configHandler)
+	default:
+		return nil, fmt.Errorf("unsupported odoh-mode '%s'", opt.OdohMode)
 	}
 
 	dohOpt := DoHListenerOptions{
-- 
2.43.0


From 3036d0a3aa4de448d8554498e6fdd327f42dfc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:46 +0000
Subject: [PATCH 55/67] fix: refuse invalid local addresses of resolvers

---
 cmd/routedns/resolver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/routedns/resolver.go b/cmd/routedns/resolver.go
index c8d918a..84e8fdd 100644
--- a/cmd/routedns/resolver.go
+++ b/cmd/routedns/resolver.go
@@ -17,6 +17,12 @@ func instantiateResolver(id string, r resolver, resolvers map[string]rdns.Resolv
 		return fmt.Errorf("resolver '%s': %w", id, err)
 	}
 
+	for _, addr := range []string{r.LocalAddr, r.LocalAddrV4, r.LocalAddrV6} {
+		if addr != "" && net.ParseIP(addr) == nil {
+			return fmt.Errorf("resolver '%s': invalid local address '%s'", id, addr)
+		}
+	}
+
 	sockOpts := rdns.SocketOptions{
 		FWMark:        r.FWMark,
 		BindInterface: r.BindInterface,
-- 
2.43.0


From f765f5b80b0c350ea866392540f4a417d4787820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:41 +0000
Subject: [PATCH 56/67] fix: pad queries and answers over DNS-over-QUIC

DoT, DoH and DTLS messages are padded, DoQ ones were not. Padding received
from the other hop was also passed on unchanged, even to clients without
EDNS0. RFC 9250 section 5.4 asks for padding as in RFC 8467.
---
 doqclient.go   | 3 +++
 doqlistener.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/doqclient.go b/doqclient.go
index d194462..d681342 100644
--- a/doqclient.go
+++ b/doqclient.go
@@ -172,6 +172,9 @@ func (d *DoQClient) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		edns0.Option = newOpt
 	}
 
+	// Add padding to the query before sending over QUIC
+	padQuery(qc)
+
 	deadlineTime := time.Now().Add(d.DoQClientOptions.QueryTimeout)
 
 	// Encode the query
diff --git a/doqlistener.go b/doqlistener.go
index a4006ec..d815978 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -274,6 +274,9 @@ func (s *DoQListener) handleStream(stream *quic.Stream, connection *quic.Conn, c
 		return
 	}
 
+	// Pad the packet according to rfc8467 and rfc7830
+	padAnswer(q, a)
+
 	p, err := a.Pack()
 	if err != nil {
 		log.Warn("failed to encode response", "error", err)
-- 
2.43.0


From bfe2bf4e93aa4927cd191356434266323fa4595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:59 +0000
Subject: [PATCH 57/67] fix: store prefetched answers under the question they
 were asked for

The background refresh of a cache entry handed its own copy of the query to
the upstream resolver and then used it as the cache key. A resolver that
changes the query, like a Lua script, made the answer end up under another
question. Pass on a copy instead.
---
 cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 0636ab9..b5cb356 100644
--- a/cache.go
+++ b/cache.go
@@ -243,7 +243,7 @@ func (r *Cache) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 					logger(r.id, prefetchQ, ci).Debug("prefetching record")
 
 					// Send the same query upstream
-					prefetchA, err := r.resolver.Resolve(prefetchQ, ci)
+					prefetchA, err := r.resolver.Resolve(prefetchQ.Copy(), ci)
 					if err != nil || prefetchA == nil {
 						return
 					}
-- 
2.43.0


From 460424cd6f31416d728f1ce810588248a03c2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:59 +0000
Subject: [PATCH 58/67] fix: take the Redis key prefix literally when flushing

The prefix was used as part of a pattern. With characters like * or [ in it,
a flush removed keys of others or left the cache's own keys in place.
---
 cache-redis.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cache-redis.go b/cache-redis.go
index b183347..711d2d7 100644
--- a/cache-redis.go
+++ b/cache-redis.go
@@ -34,6 +34,9 @@ type RedisBackendOptions struct {
 
 var _ CacheBackend = (*redisBackend)(nil)
 
+// Escapes the characters that have a meaning in Redis patterns.
+var redisGlobEscaper = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `]`, `\]`)
+
 const (
 	binaryFormatVersion = 1
 	headerSize          = 10
@@ -218,9 +221,11 @@ func (b *redisBackend) Flush() {
 	defer cancel()
 	// DEL takes literal key names, not glob patterns, so iterate with
 	// SCAN and delete the matches in batches.
+	// The prefix is taken literally.
+	pattern := redisGlobEscaper.Replace(b.opt.KeyPrefix) + "*"
 	var cursor uint64
 	for {
-		keys, next, err := b.client.Scan(ctx, cursor, b.opt.KeyPrefix+"*", 1000).Result()
+		keys, next, err := b.client.Scan(ctx, cursor, pattern, 1000).Result()
 		if err != nil {
 			Log.Error("failed to scan keys in redis", "error", err)
 			return
-- 
2.43.0


From 61973a56c98f40695ee7421102b247d99830f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:53 +0000
Subject: [PATCH 59/67] fix: refuse host names with empty labels

The check was inside of the loop over the characters of the label, which
never runs for an empty one.
---
 validate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/validate.go b/validate.go
index 37fd408..a187b43 100644
--- a/validate.go
+++ b/validate.go
@@ -36,10 +36,10 @@ func validHostname(name string) error {
 	name = strings.TrimSuffix(name, ".")
 	labels := strings.Split(name, ".")
 	for _, label := range labels {
+		if label == "" {
+			return fmt.Errorf("invalid hostname %q: empty label", name)
+		}
 		for _, c := range label {
-			if label == "" {
-				return fmt.Errorf("invalid hostname %q: empty label", name)
-			}
 			if strings.HasPrefix(label, "-") || strings.HasSuffix(label, "-") {
 				return fmt.Errorf("invalid hostname %q: label can not start or end with -", name)
 			}
-- 
2.43.0


From 8fc82bc6728e920f7d71ffc57a572f7ee85842ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:53 +0000
Subject: [PATCH 60/67] fix: close upstream connections when reading from them
 failed

The reader only told the writer to stop using the connection. A writer that
was stuck because the upstream no longer took any data never noticed, and no
query was sent to that upstream anymore.
---
 pipeline.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pipeline.go b/pipeline.go
index 75af06c..5e7fd9a 100644
--- a/pipeline.go
+++ b/pipeline.go
@@ -157,14 +157,16 @@ func (c *Pipeline) start() {
 							c.metrics.err.Add("server_term", 1)
 							log.Debug("connection terminated by server")
 						}
-						close(done) // tell the writer to not use this connection anymore
+						close(done)  // tell the writer to not use this connection anymore
+						conn.Close() // it may be stuck in a write
 						wg.Done()
 						return
 					default:
 						if err == io.EOF {
 							c.metrics.err.Add("server_eof", 1)
 							log.Debug("connection terminated by server")
-							close(done) // tell the writer to not use this connection anymore
+							close(done)  // tell the writer to not use this connection anymore
+							conn.Close() // it may be stuck in a write
 							wg.Done()
 							return
 						}
@@ -174,7 +176,8 @@ func (c *Pipeline) start() {
 						if a == nil {
 							c.metrics.err.Add("read", 1)
 							log.Warn("read failed", "error", err)
-							close(done) // tell the writer to not use this connection anymore
+							close(done)  // tell the writer to not use this connection anymore
+							conn.Close() // it may be stuck in a write
 							wg.Done()
 							return
 						}
-- 
2.43.0


From 6ca07fa701c94fab0756d51c4d838fc62e05a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:21 +0000
Subject: [PATCH 61/67] fix: match IPv4-mapped networks in IP lists like IPv4
 ones

A rule such as ::ffff:192.0.2.0/120 never matched the addresses it lists.
Without a mask it even covered others.
---
 cidr-db.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cidr-db.go b/cidr-db.go
index 611a9a0..4507947 100644
--- a/cidr-db.go
+++ b/cidr-db.go
@@ -35,21 +35,26 @@ func NewCidrDB(name string, loader BlocklistLoader) (*CidrDB, error) {
 		}
 		// Append a mask suffix if there isn't one already
 		if !strings.Contains(r, "/") {
-			if strings.Contains(r, ".") { // ip4
-				r += "/32"
-			} else if strings.Contains(r, ":") { // ip6
+			if strings.Contains(r, ":") { // ip6
 				r += "/128"
+			} else if strings.Contains(r, ".") { // ip4
+				r += "/32"
 			}
 		}
-		ip, n, err := net.ParseCIDR(r)
+		_, n, err := net.ParseCIDR(r)
 		if err != nil {
 			return nil, err
 		}
-		if addr := ip.To4(); addr == nil {
+		addr := n.IP.To4()
+		if addr == nil {
 			db.ip6.add(n)
-		} else {
-			db.ip4.add(n)
+			continue
+		}
+		// IPv4-mapped networks are matched like IPv4 ones
+		if ones, bits := n.Mask.Size(); bits == 128 {
+			n = &net.IPNet{IP: addr, Mask: net.CIDRMask(ones-96, 32)}
 		}
+		db.ip4.add(n)
 	}
 	return db, nil
 }
-- 
2.43.0


From 4c9efce23e428def127c174dd0e909023a9ffde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:21 +0000
Subject: [PATCH 62/67] fix: honour ip-version on DoT listeners with socket
 options

With an interface, mark or namespace configured the listener took
connections of both address families.
---
 dotlistener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dotlistener.go b/dotlistener.go
index 22dcb3f..5ff36d5 100644
--- a/dotlistener.go
+++ b/dotlistener.go
@@ -3,6 +3,7 @@ package rdns
 import (
 	"context"
 	"crypto/tls"
+	"strings"
 
 	"github.com/miekg/dns"
 )
@@ -52,7 +53,7 @@ func (s DoTListener) Start() error {
 		"protocol", "dot",
 		"addr", s.Addr)
 	if s.opt.NetNS.isSet() || s.opt.SocketOptions.active() {
-		ln, err := ListenInNetNS(context.Background(), s.opt.NetNS, "tcp", s.Addr, s.opt.SocketOptions)
+		ln, err := ListenInNetNS(context.Background(), s.opt.NetNS, strings.TrimSuffix(s.Net, "-tls"), s.Addr, s.opt.SocketOptions)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 1054ae6dbcaf63d7736b13430d74420b5741507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:21 +0000
Subject: [PATCH 63/67] fix: resolve host names in addresses of DTLS listeners

An address like localhost:853 made the listener serve all addresses.
---
 dtlslistener.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/dtlslistener.go b/dtlslistener.go
index d6f3484..e24ae35 100644
--- a/dtlslistener.go
+++ b/dtlslistener.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"errors"
 	"net"
-	"strconv"
 
 	"log/slog"
 
@@ -52,15 +51,10 @@ func (s *DTLSListener) Start() error {
 		Log.Warn("socket options (fwmark, bind-interface) are not supported for DTLS listeners", "id", s.id)
 	}
 
-	host, port, err := net.SplitHostPort(s.Server.Addr)
+	addr, err := net.ResolveUDPAddr(s.opt.network("udp"), s.Server.Addr)
 	if err != nil {
 		return err
 	}
-	p, err := strconv.Atoi(port)
-	if err != nil {
-		return err
-	}
-	addr := &net.UDPAddr{IP: net.ParseIP(host), Port: p}
 
 	var listener net.Listener
 	err = RunInNetNS(s.opt.NetNS, func() error {
-- 
2.43.0


From bad97d732307cbed3ed2921cb99d3ea940c7407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:21 +0000
Subject: [PATCH 64/67] fix: pad oblivious DNS messages

Queries and answers went out without padding, or with that of the
previous hop, unlike those of the other encrypted protocols.
---
 odohclient.go   | 4 ++++
 odohlistener.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/odohclient.go b/odohclient.go
index 07342e1..e4eea4d 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -158,6 +158,10 @@ func (d *ODoHClient) buildTargetQuery(ctx context.Context, q *dns.Msg) (odoh.Obl
 		return odoh.ObliviousDNSMessage{}, odoh.QueryContext{}, err
 	}
 	key := config.Contents
+
+	// Pad a copy of the query before sending it encrypted
+	q = q.Copy()
+	padQuery(q)
 	msg, err := q.Pack()
 	if err != nil {
 		return odoh.ObliviousDNSMessage{}, odoh.QueryContext{}, err
diff --git a/odohlistener.go b/odohlistener.go
index 6091054..43c2e3f 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -261,6 +261,9 @@ func (s *ODoHListener) ODoHqueryHandler(w http.ResponseWriter, r *http.Request)
 		return
 	}
 
+	// Pad the packet according to rfc8467 and rfc7830
+	padAnswer(q, a)
+
 	p, err := a.Pack()
 	if err != nil {
 		Log.Error("failed to encode response", "error", err)
-- 
2.43.0


From 6778b6778d5f5e617030b3ded3da8d8ccfee40f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:59 +0000
Subject: [PATCH 65/67] fix: use local-address of QUIC resolvers next to one
 for the other family

---
 dnsclient.go | 15 +++++++++++++++
 dohclient.go |  5 ++---
 doqclient.go |  5 ++---
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/dnsclient.go b/dnsclient.go
index 3686a39..05a8e53 100644
--- a/dnsclient.go
+++ b/dnsclient.go
@@ -254,3 +254,18 @@ func selectLocalAddr(target string, localAddr, localAddrV4, localAddrV6 net.IP)
 	}
 	return localAddr
 }
+
+// localAddrsByFamily returns the local addresses to use for IPv4 and IPv6 targets
+// where the socket is opened before the target is known. The generic address is used
+// for its own family unless there is a specific one for that.
+func localAddrsByFamily(localAddr, localAddrV4, localAddrV6 net.IP) (net.IP, net.IP) {
+	if localAddr != nil {
+		if localAddr.To4() != nil && localAddrV4 == nil {
+			localAddrV4 = localAddr
+		}
+		if localAddr.To4() == nil && localAddrV6 == nil {
+			localAddrV6 = localAddr
+		}
+	}
+	return localAddrV4, localAddrV6
+}
diff --git a/dohclient.go b/dohclient.go
index d5eadc0..1927e01 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -412,6 +412,8 @@ func dohQuicTransport(endpoint string, opt DoHClientOptions) (http.RoundTripper,
 		quicConfig.MaxIdleTimeout = opt.IdleTimeout
 	}
 
+	opt.LocalAddrV4, opt.LocalAddrV6 = localAddrsByFamily(opt.LocalAddr, opt.LocalAddrV4, opt.LocalAddrV6)
+
 	// When both V4 and V6 local addresses are specified, create two QUIC transports
 	// since a UDP socket bound to an IPv4 address cannot reach IPv6 endpoints and vice versa.
 	if opt.LocalAddrV4 != nil && opt.LocalAddrV6 != nil {
@@ -419,9 +421,6 @@ func dohQuicTransport(endpoint string, opt DoHClientOptions) (http.RoundTripper,
 	}
 
 	lAddr := net.IPv4zero
-	if opt.LocalAddr != nil {
-		lAddr = opt.LocalAddr
-	}
 	if opt.LocalAddrV4 != nil {
 		lAddr = opt.LocalAddrV4
 	}
diff --git a/doqclient.go b/doqclient.go
index d681342..80526fe 100644
--- a/doqclient.go
+++ b/doqclient.go
@@ -112,6 +112,8 @@ func NewDoQClient(id, endpoint string, opt DoQClientOptions) (*DoQClient, error)
 		metrics:          NewListenerMetrics("client", id),
 	}
 
+	opt.LocalAddrV4, opt.LocalAddrV6 = localAddrsByFamily(opt.LocalAddr, opt.LocalAddrV4, opt.LocalAddrV6)
+
 	// When both V4 and V6 local addresses are specified, create two QUIC connections
 	// since a UDP socket bound to an IPv4 address cannot reach IPv6 endpoints and vice versa.
 	if opt.LocalAddrV4 != nil && opt.LocalAddrV6 != nil {
@@ -127,9 +129,6 @@ func NewDoQClient(id, endpoint string, opt DoQClientOptions) (*DoQClient, error)
 		client.connectionV6 = qConn6
 	} else {
 		lAddr := net.IPv4zero
-		if opt.LocalAddr != nil {
-			lAddr = opt.LocalAddr
-		}
 		if opt.LocalAddrV4 != nil {
 			lAddr = opt.LocalAddrV4
 		}
-- 
2.43.0


From 0cd930da05e03fde3c9f8c16018e6659da733dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:12 +0000
Subject: [PATCH 66/67] fix: ask the next group member the original query

Fail-rotate, fail-back, random and truncate-retry passed the same message to
one resolver after the other. Elements like Lua scripts modify the query in
place, so the next resolver was asked something else.
---
 failback.go       | 4 +++-
 failrotate.go     | 4 +++-
 random.go         | 4 +++-
 truncate-retry.go | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/failback.go b/failback.go
index 8c1b73c..358d561 100644
--- a/failback.go
+++ b/failback.go
@@ -89,7 +89,9 @@ func (r *FailBack) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		resolver := r.resolvers[active]
 		log.With("resolver", resolver.String()).Debug("forwarding query to resolver")
 		r.metrics.route.Add(resolver.String(), 1)
-		a, err = resolver.Resolve(q, ci)
+		// Elements down the chain can modify the query in place, the next
+		// resolver has to get the original.
+		a, err = resolver.Resolve(q.Copy(), ci)
 		if err == nil && r.isSuccessResponse(a) { // Return immediately if successful
 			return a, err
 		}
diff --git a/failrotate.go b/failrotate.go
index ee76d4a..693bf6a 100644
--- a/failrotate.go
+++ b/failrotate.go
@@ -61,7 +61,9 @@ func (r *FailRotate) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		resolver := r.resolvers[active]
 		log.With("resolver", resolver.String()).Debug("forwarding query to resolver")
 		r.metrics.route.Add(resolver.String(), 1)
-		a, err = resolver.Resolve(q, ci)
+		// Elements down the chain can modify the query in place, the next
+		// resolver has to get the original.
+		a, err = resolver.Resolve(q.Copy(), ci)
 		if err == nil && r.isSuccessResponse(a) { // Return immediately if successful
 			return a, err
 		}
diff --git a/random.go b/random.go
index 2b24508..ed1df57 100644
--- a/random.go
+++ b/random.go
@@ -62,7 +62,9 @@ func (r *Random) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 
 		r.metrics.route.Add(resolver.String(), 1)
 		log.With("resolver", resolver.String()).Debug("forwarding query to resolver")
-		a, err := resolver.Resolve(q, ci)
+		// Elements down the chain can modify the query in place, the next
+		// resolver has to get the original.
+		a, err := resolver.Resolve(q.Copy(), ci)
 		if err == nil && r.isSuccessResponse(a) { // Return immediately if successful
 			return a, err
 		}
diff --git a/truncate-retry.go b/truncate-retry.go
index 92375db..02977c7 100644
--- a/truncate-retry.go
+++ b/truncate-retry.go
@@ -32,7 +32,9 @@ func NewTruncateRetry(id string, resolver, retryResolver Resolver, opt TruncateR
 // Resolve a DNS query by first resolving it upstream, if the response is truncated, the
 // retry resolver is used to resolve the same query again.
 func (r *TruncateRetry) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
-	a, err := r.resolver.Resolve(q, ci)
+	// Elements down the chain can modify the query in place, the retry has to
+	// be done with the original.
+	a, err := r.resolver.Resolve(q.Copy(), ci)
 	if err != nil || a == nil {
 		return a, err
 	}
-- 
2.43.0


From 7fd0ef4ecb83492767a8cca0b37e097eb50aff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:48:14 +0000
Subject: [PATCH 67/67] fix: do not let a zone deny its own DS records

---
 dnssec/denial_existence.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 1e7c979..f4705a5 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -75,13 +75,15 @@ func (v *Validator) validateExpansion(answer *dns.Msg, sig *dns.RRSIG) error {
 // and chains to the trust anchor. Unsigned or unauthenticated records are
 // discarded so a forged proof cannot be used.
 func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string, qtype uint16) (nsecs []*dns.NSEC, nsec3s []*dns.NSEC3) {
-	anchor := v.closestAnchor(zoneNameFor(qname, qtype))
+	// A zone has no say about its own DS records, those are in the parent.
+	zone := zoneNameFor(qname, qtype)
+	anchor := v.closestAnchor(zone)
 	rrsets, sigs := groupRRsByTypeAndName(ns)
 	for key, rrset := range rrsets {
 		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
 			continue
 		}
-		if !v.rrsetSignedFromAncestor(rrset, sigs[key], qname, anchor) {
+		if !v.rrsetSignedFromAncestor(rrset, sigs[key], zone, anchor) {
 			continue
 		}
 		for _, rr := range rrset {
-- 
2.43.0


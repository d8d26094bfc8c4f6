From d2228eabf5318408efd0af8cfffcaec97e23b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 01/11] fix: riblt: always advance the position of a symbol by
 a finite, positive step

The step is 0 for hash value 0 (and for generator states close to 0), so that
adding such a symbol to a sketch or recovering it never terminates, and +Inf,
converted to an implementation-defined position, for states close to 2^64.
---
 riblt/random.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riblt/random.go b/riblt/random.go
index c6f512d..531b453 100644
--- a/riblt/random.go
+++ b/riblt/random.go
@@ -36,6 +36,10 @@ func (s *randomMapping) nextIndex() uint64 {
 	// As an approximation, we can use
 	// x = (j+1.5)(1/sqrt(1-x/m) - 1)
 	xm := float64(r) / (1 << 64)
-	s.lastIdx += uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))
+	step := math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1))
+	// step is 0 when xm is (close to) 0, which is always the case for hash
+	// value 0, and infinite when xm rounds to 1. Always move forward, and by an
+	// amount that does not overflow.
+	s.lastIdx += uint64(math.Min(math.Max(step, 1), 1<<62))
 	return s.lastIdx
 }
-- 
2.43.0


From 087a969e2ce54b032c71989df9e7af51a34a0275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:51 +0000
Subject: [PATCH 02/11] fix: ldpc: let the reservoir sampling pick the
 transaction right after the first deg

Algorithm L starts from the last item of the initial reservoir, at index
deg-1. Starting from deg skipped the item at index deg: with 0 < deg <
len(window) it never was a member of a codeword (of a window of two, codewords
of degree 1 only ever contained the first).
---
 ldpc/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ldpc/encoder.go b/ldpc/encoder.go
index 7f6d3be..045bcc6 100644
--- a/ldpc/encoder.go
+++ b/ldpc/encoder.go
@@ -93,7 +93,7 @@ func (e *Encoder) produceCodeword(deg int) *Codeword {
 	d := float64(deg)
 	var W float64
 	W = math.Exp(math.Log(rand.Float64()) / d)
-	midx := deg
+	midx := deg - 1 // index of the last transaction considered so far
 	for midx < len(e.window) {
 		midx += (int)(math.Floor(math.Log(rand.Float64())/math.Log(1.0-W))) + 1
 		if midx < len(e.window) {
-- 
2.43.0


From b69748a1b29ecd1bb1cbdbc490d54bc9a0ae09b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:20 +0000
Subject: [PATCH 03/11] fix: simulator: visit peers in the order of connection,
 not of the handler map

Iterating over the map of handlers made the order of messages, and through
the shared random generator all results, differ from run to run.
---
 simulator/module.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/simulator/module.go b/simulator/module.go
index 20324fc..1f6f897 100644
--- a/simulator/module.go
+++ b/simulator/module.go
@@ -41,6 +41,7 @@ type peer struct {
 
 type server struct {
 	handlers map[des.Module]peer
+	peers []des.Module	// keys of handlers in the order of connection
 	decoder *lt.Decoder[transaction]
 
 	received map[transaction]struct{}
@@ -75,9 +76,16 @@ func (a *server) newHandler() *handler {
 	}
 }
 
-func connectServers(a, b *server, delay time.Duration) {
+func (a *server) addPeer(b *server, delay time.Duration) {
+	if _, there := a.handlers[b]; !there {
+		a.peers = append(a.peers, b)
+	}
 	a.handlers[b] = peer{a.newHandler(), delay}
-	b.handlers[a] = peer{b.newHandler(), delay}
+}
+
+func connectServers(a, b *server, delay time.Duration) {
+	a.addPeer(b, delay)
+	b.addPeer(a, delay)
 }
 
 func newServers(simulator *des.Simulator, n int, startingSeed int64, config serverConfig) []*server {
@@ -102,7 +110,8 @@ func newServers(simulator *des.Simulator, n int, startingSeed int64, config serv
 }
 
 func (s *server) collectOutgoingMessages(outbox []des.OutgoingMessage) []des.OutgoingMessage {
-	for peer, handler := range s.handlers {
+	for _, peer := range s.peers {
+		handler := s.handlers[peer]
 		for _, msg := range handler.sender.outbox {
 			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
 		}
@@ -130,7 +139,8 @@ func (s *server) scheduleForwardingTransactions(out []des.OutgoingMessage, txs [
 
 func (s *server) forwardTransaction(tx lt.Transaction[transaction]) {
 	canStartNewBlock := (s.forceSynchronize == 0)
-	for _, handler := range s.handlers {
+	for _, peer := range s.peers {
+		handler := s.handlers[peer]
 		handler.sender.onTransaction(tx, canStartNewBlock)
 	}
 }
@@ -166,7 +176,8 @@ func (s *server) HandleMessage(payload any, from des.Module, timestamp time.Dura
 	} else if lp, isLp := payload.(loopback); isLp {
 		s.forwardTransaction(lp.tx)
 	} else if _, isNb := payload.(createNewBlock); isNb {
-		for _, handler := range s.handlers {
+		for _, peer := range s.peers {
+			handler := s.handlers[peer]
 			handler.sender.tryFillSendWindow(true)
 		}
 		outbox = append(outbox, des.OutgoingMessage{createNewBlock{}, nil, s.forceSynchronize})
-- 
2.43.0


From 530ed27f4e67942933ba29584474bd74cddf29de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 04/11] fix: node: read the complete key of the peer

A single Read may return fewer bytes than the key has, in which case the
decoder would be keyed with a truncated key and the rest of the key would
be taken for the beginning of the codeword stream.
---
 node/controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/controller.go b/node/controller.go
index 05b7b47..0240719 100644
--- a/node/controller.go
+++ b/node/controller.go
@@ -177,7 +177,7 @@ func (c *controller) handleConn(id string, conn io.ReadWriter) error {
 	if err != nil {
 		return err
 	}
-	_, err = conn.Read(decoderKey[:])
+	_, err = io.ReadFull(conn, decoderKey[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2b3e362f4aca69b71e6ef6a89cd1d334930b5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 05/11] fix: node: take new transactions while delivering
 decoded ones

The controller blocks on a full newTransaction channel of a receiver while
the receiver blocks on a full decodedTransaction channel of the controller,
and both then wait for each other for ever.
---
 node/receiver.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/node/receiver.go b/node/receiver.go
index 7a1a888..cf5dabd 100644
--- a/node/receiver.go
+++ b/node/receiver.go
@@ -38,6 +38,21 @@ func (r *receiver) receive(cw chan<- Codeword) error {
 	}
 }
 
+// deliver passes the decoded transactions in buf to the controller. It keeps
+// taking new transactions from the controller meanwhile: the controller may be
+// waiting for room in newTransaction, and would then never empty
+// decodedTransaction.
+func (r *receiver) deliver(buf []ldpc.DecodedTransaction) {
+	for len(buf) > 0 {
+		select {
+		case r.decodedTransaction <- buf[0]:
+			buf = buf[1:]
+		case tx := <-r.newTransaction:
+			buf = append(buf, r.decoder.AddTransaction(tx)...)
+		}
+	}
+}
+
 func (r *receiver) decode(cwChan <-chan Codeword) error {
 	ticker := time.NewTicker(1 * time.Second)
 	cwcnt := 0
@@ -71,14 +86,10 @@ func (r *receiver) decode(cwChan <-chan Codeword) error {
 			// try to decode the new codeword
 			stub, buf := r.decoder.AddCodeword(cw.Codeword)
 			r.rxWindow = append(r.rxWindow, receivedCodeword{stub, now})
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			r.deliver(buf)
 		case tx := <-r.newTransaction:
 			buf := r.decoder.AddTransaction(tx)
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			r.deliver(buf)
 		case <-ticker.C:
 			qts, err := r.delaySketch.GetValuesAtQuantiles([]float64{0.50, 0.95})
 			if err != nil {
-- 
2.43.0


From e723aa8b4c9a7ae9d5dedd5ba3cd7b0ac996ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 06/11] fix: testbed: release the image list lock on errors

A failing download left the lock taken, and the workers of all other regions
waited for it for ever. The list is also read under the lock now.
---
 testbed/aws.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index 3258c5b..af6da60 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -23,27 +23,37 @@ import (
 var AWSImageListLock *sync.Mutex = &sync.Mutex{}
 var AWSImageList string
 
-func AWSGetImageID(region string) (string, error) {
+// awsImageList returns the list of images, and downloads it when it is called
+// for the first time.
+func awsImageList() (string, error) {
 	AWSImageListLock.Lock()
+	defer AWSImageListLock.Unlock()
 	if AWSImageList == "" {
 		resp, err := http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
 		if err != nil {
 			return "", err
 		}
+		defer resp.Body.Close()
 		body, err := ioutil.ReadAll(resp.Body)
 		if err != nil {
 			return "", err
 		}
 		AWSImageList = string(body)
-		defer resp.Body.Close()
 	}
-	AWSImageListLock.Unlock()
+	return AWSImageList, nil
+}
+
+func AWSGetImageID(region string) (string, error) {
+	list, err := awsImageList()
+	if err != nil {
+		return "", err
+	}
 
 	escaped := strings.ReplaceAll(region, "-", `\-`)
 	tr := escaped + `","focal","20\.04 LTS","amd64",".+","\d+","<.+>(ami\-.+)</a>`
 	r := regexp.MustCompile(tr)
 
-	s := bufio.NewScanner(strings.NewReader(AWSImageList))
+	s := bufio.NewScanner(strings.NewReader(list))
 	s.Buffer(nil, 8 * 1024 * 1024)
 	var res string
 	for s.Scan() {
-- 
2.43.0


From da58c1684f2089ec37b315f86e51ef957207c8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 07/11] fix: testbed: report an invalid private key

The signer is nil when the key cannot be parsed.
---
 testbed/sshutil.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/testbed/sshutil.go b/testbed/sshutil.go
index 5761257..1b7af15 100644
--- a/testbed/sshutil.go
+++ b/testbed/sshutil.go
@@ -13,7 +13,10 @@ func getPublicKey(path string) ([]byte, error) {
 	}
 
 	signer, err := ssh.ParsePrivateKey(key)
-	return ssh.MarshalAuthorizedKey(signer.PublicKey()), err
+	if err != nil {
+		return nil, err
+	}
+	return ssh.MarshalAuthorizedKey(signer.PublicKey()), nil
 }
 
 func loadSSHKey(path string) (ssh.AuthMethod, error) {
-- 
2.43.0


From 93f707c9b9a34c8d3ca64607bb831727f3a093e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 08/11] fix: testbed: check the error of opening an AWS session

The session is nil on errors.
---
 testbed/aws.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/testbed/aws.go b/testbed/aws.go
index af6da60..b66cebc 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -331,6 +331,9 @@ func AWSStartInstanceAtRegion(region string, count int, tag string) error {
 		Region: aws.String(region),
 		Credentials: credentials.NewSharedCredentials("", "pika"),
 	})
+	if err != nil {
+		return err
+	}
 
 	// get the AMI ID for ubuntu 20.04
 	ami, err := AWSGetImageID(region)
@@ -426,6 +429,9 @@ func AWSStopServersAtRegion(region string, tag string) error {
 		Region: aws.String(region),
 		Credentials: credentials.NewSharedCredentials("", "pika"),
 	})
+	if err != nil {
+		return err
+	}
 
 	sid := []*string{}
 	for _, s := range servers {
@@ -512,6 +518,9 @@ func AWSListServersAtRegion(region string, tag string) ([]AWSServer, error) {
 		Region: aws.String(region),
 		Credentials: credentials.NewSharedCredentials("", "pika"),
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	svc := ec2.New(sess)
 
-- 
2.43.0


From f8191feffdc4be8b312ef52ca20b86385adaaee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 09/11] fix: testbed: do not share the error between the
 rebooting workers

A worker could overwrite the error of another one before it was checked.
---
 testbed/vultr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testbed/vultr.go b/testbed/vultr.go
index 427debb..c94346c 100644
--- a/testbed/vultr.go
+++ b/testbed/vultr.go
@@ -295,7 +295,7 @@ func RestartServers(tag string) {
 				return
 			}
 			fmt.Println("Rebooting ", s.InstanceID)
-			err = c.Server.Reboot(context.Background(), s.InstanceID)
+			err := c.Server.Reboot(context.Background(), s.InstanceID)
 			if err != nil {
 				fmt.Println("error rebooting server: ", err)
 				os.Exit(1)
-- 
2.43.0


From 78ab6e2c37ae4113a9a0642b7f134aaa94becf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 10/11] fix: testbed: report a failure to write the server list

---
 testbed/aws.go   | 6 +++++-
 testbed/vultr.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index b66cebc..473fd5e 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -615,7 +615,11 @@ func AWSDumpServerInfo(path string, servers []AWSServer) {
 
 	enc := json.NewEncoder(f)
 	enc.SetIndent("", "    ")
-	enc.Encode(dt)
+	err = enc.Encode(dt)
+	if err != nil {
+		fmt.Println("error writing file: ", err)
+		os.Exit(1)
+	}
 }
 
 func AWSFilterRegionsByName(location string) ([]string, error) {
diff --git a/testbed/vultr.go b/testbed/vultr.go
index c94346c..cbe3024 100644
--- a/testbed/vultr.go
+++ b/testbed/vultr.go
@@ -46,7 +46,11 @@ func DumpServerInfo(path string, servers []govultr.Server) {
 
 	enc := json.NewEncoder(f)
 	enc.SetIndent("", "    ")
-	enc.Encode(dt)
+	err = enc.Encode(dt)
+	if err != nil {
+		fmt.Println("error writing file: ", err)
+		os.Exit(1)
+	}
 }
 
 func CheckServerStatus(tag string) []govultr.Server {
-- 
2.43.0


From db559140ff928826181d151d60af5d45538ec55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 11/11] fix: report rates over the time the counters ran, not
 since the warm-up

---
 newsim/main.go    | 6 ++++--
 simulator/main.go | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/newsim/main.go b/newsim/main.go
index 774d87b..81e1b7b 100644
--- a/newsim/main.go
+++ b/newsim/main.go
@@ -64,6 +64,7 @@ func main() {
 	fmt.Println("#", N, "nodes, node 0 num peers", len(servers[0].handlers))
 
 	warmed := false
+	measuredFrom := *warmupDuration	// when the counters were reset
 	numEvents := 0
 	lastSimTime := time.Duration(0)
 	lastRealTime := time.Now()
@@ -73,6 +74,7 @@ func main() {
 		if cur > *warmupDuration {
 			if warmed == false {
 				warmed = true
+				measuredFrom = s.Time()
 				for _, s := range servers {
 					s.resetMetric()
 				}
@@ -87,10 +89,10 @@ func main() {
 
 	fmt.Println("# moments: mean, stddev, p5, p25, p50, p75, p95")
 	fmt.Println("# received transaction rate", collectMoments(servers, func(srv *server) float64 {
-		return float64(srv.receivedTransactions) / (s.Time() - *warmupDuration).Seconds()
+		return float64(srv.receivedTransactions) / (s.Time() - measuredFrom).Seconds()
 	}))
 	fmt.Println("# duplicate transaction rate", collectMoments(servers, func(srv *server) float64 {
-		return float64(srv.duplicateTransactions) / (s.Time() - *warmupDuration).Seconds()
+		return float64(srv.duplicateTransactions) / (s.Time() - measuredFrom).Seconds()
 	}))
 	fmt.Println("# overhead", collectMoments(servers, func(s *server) float64 {
 		return float64(s.receivedBytes) / float64(s.decodedTransactions) / float64(TXSIZE)
diff --git a/simulator/main.go b/simulator/main.go
index 23942e5..4ecea35 100644
--- a/simulator/main.go
+++ b/simulator/main.go
@@ -62,11 +62,13 @@ func main() {
 
 	receivedCodewordRate := difference[int]{}
 	warmed := false
+	measuredFrom := *warmupDuration	// when the counters were reset
 	for cur := time.Duration(0); cur < *simDuration; cur += *reportInterval {
 		s.RunUntil(cur)
 		if cur > *warmupDuration {
 			if warmed == false {
 				warmed = true
+				measuredFrom = s.Time()
 				for _, s := range servers {
 					s.resetMetric()
 				}
@@ -80,7 +82,7 @@ func main() {
 
 	fmt.Println("# moments: mean, stddev, p5, p25, p50, p75, p95")
 	fmt.Println("# decoded transaction rate", collectMoments(servers, func(srv *server) float64 {
-		return float64(srv.decodedTransactions) / (s.Time() - *warmupDuration).Seconds()
+		return float64(srv.decodedTransactions) / (s.Time() - measuredFrom).Seconds()
 	}))
 	fmt.Println("# overhead", collectMoments(servers, func(s *server) float64 {
 		return float64(s.receivedCodewords) / float64(s.decodedTransactions)
-- 
2.43.0


From a191fd11b00f6a4e80f9e30631f04cd64b1938b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 01/28] fix: append the stack to an error text only when asked
 to

business errors are sent to remote nodes as KRPC error messages; every one
carried a full stack trace of this process.
---
 misc/errors.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/misc/errors.go b/misc/errors.go
index f7fe989..8361de7 100644
--- a/misc/errors.go
+++ b/misc/errors.go
@@ -30,7 +30,9 @@ func (d *Error) Error() string {
 			errString += ToString(val) + "|"
 		}
 	}
-	errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	if d.printStack {
+		errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	}
 	return errString
 }
 
-- 
2.43.0


From c7bbf4d58c25f1a3841cacf42ade994267816363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 02/28] fix: reject truncated bencode

unterminated lists and dicts were accepted as complete, so a datagram cut off
by the receive buffer was served as if it were whole; truncated integers and
huge string lengths indexed past the input; DecodeDict returned no error for
trailing data.
---
 misc/beancode.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 0e59064..5af0610 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -45,12 +45,12 @@ func innerDecodeInteger(src string, start int) (int, int, error) {
 		}
 
 		// pass 00 02
-		if src[i-1] == 'i' && src[i] == '0' && src[i+1] != 'e' {
+		if src[i-1] == 'i' && src[i] == '0' && i+1 < len(src) && src[i+1] != 'e' {
 			return 0, -1, WrongDecodeParamErr
 		}
 	}
 
-	if i > start && src[i] == 'e' {
+	if i < len(src) && src[i] == 'e' {
 		result, err := strconv.Atoi(src[start+1 : i])
 		if err != nil {
 			return 0, -1, WrongDecodeParamErr
@@ -98,11 +98,11 @@ func innerDecodeString(src string, start int) (string, int, error) {
 		return "", -1, err
 	}
 
-	start = idx + slen + 1
-
-	if start >= len(src) {
+	// an entry of a list or dict is always followed by something, at least its end
+	if slen >= len(src)-idx-1 {
 		return "", -1, WrongDecodeParamErr
 	}
+	start = idx + slen + 1
 	return src[idx+1 : start], start, nil
 }
 
@@ -187,6 +187,9 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 		result = append(result, tmp)
 		i = nextIdx
 	}
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 	return result, i + 1, nil
 }
 
@@ -239,10 +242,14 @@ func DecodeDict(src string) (Dict, error) {
 
 	result, next, err := innerDecodeDict(src, 0)
 
-	if next < len(src) || err != nil {
+	if err != nil {
 		return nil, err
 	}
 
+	if next < len(src) {
+		return nil, WrongDecodeParamErr
+	}
+
 	return result, nil
 }
 
@@ -294,6 +301,9 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 		result[key] = val
 		i = next
 	}
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 
 	return result, i + 1, nil
 }
-- 
2.43.0


From 700e812822b7d54cab8551f3468879b74fc3aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 03/28] fix: SyncMap.Del read the map without the lock

a concurrent Put makes the runtime kill the process (concurrent map read and
map write).
---
 misc/syncmap.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/misc/syncmap.go b/misc/syncmap.go
index 300cf07..2b90aa0 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,15 +24,8 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
-// double check delete
 func (m *SyncMap) Del(txId string) {
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	defer m.Unlock()
 	m.Lock()
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	delete(m.mapping, txId)
 }
-- 
2.43.0


From 6cecb911403454b6e0b0e87231eb75e3034a80c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 04/28] fix: the logger registry was read without its lock

---
 misc/logger.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 6a54e24..00a2342 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -58,9 +58,6 @@ var bufferedLoggers = &bufferLogger{
 var defaultLoggerFactory LoggerFactory = NewConsoleLoggerFactory()
 
 func (b *bufferLogger) mapLogger(name string) Logger {
-	if v, ok := b.bufferedLoggers[name]; ok {
-		return v
-	}
 	b.Lock()
 	defer b.Unlock()
 	if v, ok := b.bufferedLoggers[name]; ok {
@@ -72,6 +69,8 @@ func (b *bufferLogger) mapLogger(name string) Logger {
 }
 
 func (b *bufferLogger) flush() error {
+	b.Lock()
+	defer b.Unlock()
 	for _, v := range b.bufferedLoggers {
 		v.Flush()
 	}
-- 
2.43.0


From 039eb390d3b010aed4caf17c1272ae55768deb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 05/28] fix: WorkPool workers never noticed a shutdown

"break" left the select, not the loop, so Shutdown always ran into its timeout
and leaked every worker; two concurrent Shutdowns closed the channel twice; a
submitter blocked on a full queue stayed blocked for ever.
---
 misc/workpool.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 12b5d4d..4401a73 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -32,32 +32,42 @@ func (pool *WorkPool) init() {
 }
 
 func (pool *WorkPool) workerLoop() {
+	// not running exit
+	defer pool.wg.Done()
 	for {
 		select {
+		case worker := <-pool.queue:
+			worker()
 		case <-pool.shutdowned:
-			break
-		default:
+			// finish what was submitted before the shutdown
+			for {
+				select {
+				case worker := <-pool.queue:
+					worker()
+				default:
+					return
+				}
+			}
 		}
-		worker := <-pool.queue
-		worker()
 	}
-	// not running exit
-	pool.wg.Done()
 }
 
 func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
 	if pool.Status() != Running {
 		panic(pool.name + " is shutdowned")
 	}
-	pool.queue <- worker
+	select {
+	case pool.queue <- worker:
+	case <-pool.shutdowned:
+		panic(pool.name + " is shutdowned")
+	}
 }
 
 func (pool *WorkPool) Shutdown(timeout time.Duration) {
-	if Running != pool.Status() {
+	if !pool.status.CompareAndSwap(Running, Shutdowning) {
 		return
 	}
 	workPoolLogger.Trace("strating shutdown", Dict{"name": pool.name, "timeout": timeout.String()})
-	pool.status.Store(Shutdowning)
 	// broadcast shutdown
 	close(pool.shutdowned)
 	select {
-- 
2.43.0


From 1d28d14312e6dde73eec1d7164bd7ea17772ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 06/28] fix: a duplicated response ran its handler again

pending requests were never removed, so every copy of a response (and anything
later that reused the transaction id) was handled, and the table only grew.
---
 dht/krpc/server.go | 5 ++++-
 misc/syncmap.go    | 9 +++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index f5d0a9f..9668986 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -96,11 +96,13 @@ func (s *RpcServer) Query(raddr *net.UDPAddr, req Request) error {
 	s.requestMapping.Put(req.TxId(), req)
 	raw, err := misc.EncodeDict(req.RawData())
 	if err != nil {
+		s.requestMapping.Del(req.TxId())
 		serverLogger.Error("encode request err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})
 		return err
 	}
 	err = s.udpConn.SendPacket([]byte(raw), raddr)
 	if err != nil {
+		s.requestMapping.Del(req.TxId())
 		serverLogger.Error("send query packet err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})
 		return err
 	}
@@ -159,7 +161,8 @@ func (s *RpcServer) responseHandle(addr *net.UDPAddr, dict misc.Dict) {
 	body := dict.GetDict("r")
 	nodeId := body.GetString("id")
 	serverLogger.Info("response handle", misc.Dict{"txId": txId, "nodeId": hex.EncodeToString([]byte(nodeId))})
-	handler, exist := s.requestMapping.Get(txId)
+	// a request is answered once, duplicates do not match
+	handler, exist := s.requestMapping.Take(txId)
 
 	if !exist {
 		serverLogger.Error("cannot match request", misc.Dict{"txId": txId, "nodeId": nodeId})
diff --git a/misc/syncmap.go b/misc/syncmap.go
index 2b90aa0..126a890 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,6 +24,15 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
+// Take removes the value of a key and returns it
+func (m *SyncMap) Take(key string) (interface{}, bool) {
+	defer m.Unlock()
+	m.Lock()
+	val, ok := m.mapping[key]
+	delete(m.mapping, key)
+	return val, ok
+}
+
 func (m *SyncMap) Del(txId string) {
 	defer m.Unlock()
 	m.Lock()
-- 
2.43.0


From ce59115bdbb4e58cc3d7c9492335a66a0926e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 07/28] fix: RouteTable counted duplicates and reported dropped
 nodes as added

---
 dht/routetable.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 27613a1..b8d590e 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -165,7 +165,11 @@ func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 		return errors.New("the bucket is full")
 	}
 
-	if !bucket.Exist(node) && !bucket.Add(node) {
+	if bucket.Exist(node) {
+		return nil
+	}
+
+	if !bucket.Add(node) {
 		// full bucket just ignore
 		rtableLogger.Info("the bucket has full", misc.Dict{"tableSize": t.size, "preLen": preLen})
 		return errors.New("the bucket is full")
@@ -195,7 +199,9 @@ func (t *RouteTable) addNodeWithsplitBucket(node *NodeInfo) error {
 	for _, n := range snodes {
 		t.addNode(n, t.solveMaxPreLen(n.Id))
 	}
-	t.addNode(node, t.solveMaxPreLen(node.Id))
+	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil {
+		return err
+	}
 	if preSize+1 != t.nodeCount() {
 		rtableLogger.Error("the route table add fail", misc.Dict{"lastIndex": t.lastBucketIndex, "size": t.size})
 	}
-- 
2.43.0


From 17c6fd10ab47b77a73f91b535cd26c38896f7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 08/28] fix: compare node ids as bytes

strings.EqualFold folds ASCII case and treats all bytes that are not UTF-8 as
equal, so different 20-byte ids were taken for the same node.
---
 dht/node.go       | 2 +-
 dht/routetable.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dht/node.go b/dht/node.go
index 2380dfe..3eb0720 100644
--- a/dht/node.go
+++ b/dht/node.go
@@ -50,7 +50,7 @@ func (n *NodeInfo) Equals(node *NodeInfo) bool {
 	if node == nil {
 		return false
 	}
-	if strings.EqualFold(n.Id, node.Id) && strings.EqualFold(n.Addr.String(), node.Addr.String()) {
+	if n.Id == node.Id && n.Addr.String() == node.Addr.String() {
 		return true
 	}
 	return false
diff --git a/dht/routetable.go b/dht/routetable.go
index b8d590e..0409860 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"math/bits"
-	"strings"
 	"sync"
 )
 
@@ -116,7 +115,7 @@ func (t *RouteTable) Find(id string) *NodeInfo {
 	bucket := t.nodeMap[preLen]
 	nodes := bucket.All()
 	for _, n := range nodes {
-		if strings.EqualFold(n.Id, id) {
+		if n.Id == id {
 			return n
 		}
 	}
-- 
2.43.0


From e13fe35eb502239f2c6d7f119f42501d72ff2bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 09/28] fix: read whole peer wire messages

TCP delivers a byte stream: one Read may return part of a message or several
messages. Any segmentation other than one message per Read failed the fetch.
---
 dht/peerwire/bep3.go | 9 +++++----
 dht/peerwire/bep9.go | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dht/peerwire/bep3.go b/dht/peerwire/bep3.go
index 528b095..3f53e7a 100644
--- a/dht/peerwire/bep3.go
+++ b/dht/peerwire/bep3.go
@@ -136,7 +136,7 @@ func supportExterned(bytes []byte) []byte {
 // without prefix bytes
 func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	preLenbytes := peerBytesPool.GetBySize(PrefixLen)
-	_, err := reader.Read(preLenbytes)
+	_, err := io.ReadFull(reader, preLenbytes)
 	if err != nil {
 		return false, nil, err
 	}
@@ -150,10 +150,11 @@ func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	if preLen > maxReadLength {
 		return false, nil, errors.New("read input toolarge")
 	}
-	buf := peerBytesPool.GetBySize(maxReadLength)
-	n, err := reader.Read(buf)
+	buf := peerBytesPool.GetBySize(maxReadLength)[:preLen]
+	_, err = io.ReadFull(reader, buf)
 	if err != nil {
+		peerBytesPool.Put(buf)
 		return false, nil, err
 	}
-	return false, buf[:n], nil
+	return false, buf, nil
 }
diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 81e4fae..6dcf33e 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -6,6 +6,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io"
 	"net"
 	"strings"
 	"time"
@@ -270,7 +271,7 @@ func handshakePeer(peerId []byte, peerConn *PeerConn) {
 	}
 	// get handshake response
 	readBytes := make([]byte, handShakeLen)
-	_, err = peerConn.conn.Read(readBytes)
+	_, err = io.ReadFull(peerConn.conn, readBytes)
 	if err != nil {
 		fetchMetaLogger.Panic("get handshake response err", misc.Dict{"laddr": laddr, "err": err})
 	}
-- 
2.43.0


From d186bacd1f54f3863a74bd2f098f393366fec4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 10/28] fix: keep a copy of a metadata piece

the piece aliased a pooled buffer that the next message, of this or another
fetch, overwrites.
---
 dht/peerwire/bep9.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 6dcf33e..0dd0d59 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -241,7 +241,8 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			return
 		}
 		pieceNum := fetchMetaResp.PieceNum()
-		peerConn.metaData[pieceNum] = fetchMetaResp.Data()
+		// readBytes goes back to the pool, keep a copy
+		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)
 		peerConn.requestedMetaData[pieceNum] = true
 	//pexExtendedId
 	case 2:
-- 
2.43.0


From 4034da350715d98595552b2e07cdef73fe3e7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 11/28] fix: request pieces with the peer's ut_metadata id

BEP 10: an extension message carries the id its receiver advertised.
---
 dht/peerwire/bep9.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 0dd0d59..719ba29 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -213,6 +213,9 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			fetchMetaLogger.Panic("get extended handshake wrong format", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
 		}
 
+		// messages to the peer carry the id the peer chose
+		metadata := exHandShakeResp.Metadata()
+		utMetadataId := metadata.GetIntegerOrDefault("ut_metadata", 1)
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
 		peerConn.metaDataSize = metaSize
@@ -225,7 +228,7 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		for i := 0; i < pieceCount; i++ {
 			peerConn.requestedMetaData[i] = false
 			// request piece
-			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(1, ExRequest, i, 0))
+			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(utMetadataId, ExRequest, i, 0))
 			if err != nil {
 				fetchMetaLogger.Panic("write request piece err", misc.Dict{"laddr": laddr, "err": err})
 			}
-- 
2.43.0


From 605383f99c25d084bc8f600416e732201bf26d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 12/28] fix: a peer that stops reading blocked a fetch worker
 for ever

---
 dht/peerwire/bep9.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 719ba29..c3205fc 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -135,7 +135,7 @@ func FetchMetaData(laddr string, peerId, infoHash []byte) (ret []byte, retErr er
 		conn.Close()
 	}()
 	conn.SetReadDeadline(time.Now().Add(time.Second * 1))
-	conn.SetWriteDeadline(time.Time{})
+	conn.SetWriteDeadline(time.Now().Add(time.Second * 10))
 	peerConn := NewPeerConn(laddr, conn, infoHash, time.Second*10)
 	handshakePeer(peerId, peerConn)
 	initialMessages(peerConn)
-- 
2.43.0


From 8c01d728bf3477b6e4a306a67fcb734cd627f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 13/28] fix: bound the metadata size a peer may announce

the size was used unchecked to allocate, and to send one request per piece.
---
 dht/peerwire/bep9.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index c3205fc..a23e103 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -15,6 +15,9 @@ import (
 // refer http://www.bittorrent.org/beps/bep_0009.html
 const SizeOf16KB = 16 * 1024
 
+// refuse to allocate more for the metadata of one torrent
+const maxMetaDataSize = 32 * 1024 * 1024
+
 type ExFecthMetaType int
 
 const (
@@ -218,6 +221,9 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		utMetadataId := metadata.GetIntegerOrDefault("ut_metadata", 1)
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
+		if metaSize <= 0 || metaSize > maxMetaDataSize {
+			fetchMetaLogger.Panic("get extended handshake wrong metadata size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
+		}
 		peerConn.metaDataSize = metaSize
 		pieceCount := metaSize / SizeOf16KB
 		if metaSize%SizeOf16KB > 0 {
-- 
2.43.0


From d3fa1f7c9b5308fe9c6a8f75b21603d52aac735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 14/28] fix: store torrent files whole or not at all

the torrent directory was never created, so nothing was stored unless someone
made it by hand; a crash or a full disk left a partial file under the final
name, also over a complete one.
---
 dht/fetchtorrent.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index e60aad4..1edbc5a 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,6 +7,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io/ioutil"
 	"os"
 	"strconv"
 )
@@ -59,14 +60,31 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 }
 
 func flushTorrentFile(fileName string, data []byte) {
-	file, err := os.Create("torrent/" + fileName + ".torrent")
-	defer file.Close()
+	if err := os.MkdirAll("torrent", os.ModePerm); err != nil {
+		dhtLogger.Error("create dir err", misc.Dict{"err": err})
+		return
+	}
+	// write aside and rename, so that a reader or a crash never meets part of a file
+	file, err := ioutil.TempFile("torrent", fileName+".*.tmp")
 	if err != nil {
 		dhtLogger.Error("create file err", misc.Dict{"err": err})
 		return
 	}
 	_, err = file.Write(data)
+	if err == nil {
+		err = file.Chmod(0644)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), "torrent/"+fileName+".torrent")
+	}
 	if err != nil {
+		os.Remove(file.Name())
 		dhtLogger.Error("write file err", misc.Dict{"err": err})
 		return
 	}
-- 
2.43.0


From 4b8cee678aad55ea57f3b294f553ef7f481ec65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 15/28] fix: build a dialable address for announces over IPv6

---
 dht/fetchtorrent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index 1edbc5a..d967b1e 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -8,6 +8,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"io/ioutil"
+	"net"
 	"os"
 	"strconv"
 )
@@ -52,7 +53,7 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	if body.Exist("implied_port") && body.GetInteger("implied_port") > 0 {
 		useUdpPort = true
 	}
-	laddr := ctx.RemoteAddr().IP.String() + ":" + strconv.Itoa(port)
+	laddr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))
 	if useUdpPort {
 		laddr = ctx.RemoteAddr().String()
 	}
-- 
2.43.0


From f0558c640aa5622b99f4837b630c5b6f53f689ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 16/28] fix: a crash while writing the default config left a
 node that cannot start

---
 config/config.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index c151eb2..56d6318 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"github.com/spf13/viper"
+	"os"
 )
 
 const (
@@ -78,7 +79,12 @@ func ResetConfig() {
 		if !misc.IsExist(configPath) {
 			misc.Mkdir(configPath)
 		}
-		if err = viper.SafeWriteConfig(); err != nil {
+		// write aside and rename, a crash must not leave a config file that cannot be read
+		tmpPath := configPath + "/" + configName + ".tmp." + configType
+		if err = viper.WriteConfigAs(tmpPath); err != nil {
+			misc.PanicSysErr("init flush config err", err)
+		}
+		if err = os.Rename(tmpPath, FileAbsPath); err != nil {
 			misc.PanicSysErr("init flush config err", err)
 		}
 		configLogger.Trace("write default config success", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
-- 
2.43.0


From ec80434a16bada887c20fcdef661380d43831317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 17/28] fix: shutdown read the list of cleanups while others
 register

a signal during start-up races with RegisterShutDownClean; and when cleaning
timed out, the goroutine that waits for it stayed blocked for ever.
---
 misc/shutdown.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/misc/shutdown.go b/misc/shutdown.go
index b9e5f3e..1895dba 100644
--- a/misc/shutdown.go
+++ b/misc/shutdown.go
@@ -38,6 +38,7 @@ type shutdownContext struct {
 	sigChan  chan os.Signal
 	status   atomic.Value
 	innerCtx context.Context
+	lock     sync.Mutex
 	cleans   []CleanFunc
 }
 
@@ -72,15 +73,21 @@ func (ctx *shutdownContext) Status() ShutdownStatus {
 }
 
 func (ctx *shutdownContext) Clean(cleanHandler ...CleanFunc) {
+	ctx.lock.Lock()
+	defer ctx.lock.Unlock()
 	ctx.cleans = append(ctx.cleans, cleanHandler...)
 }
 
 func (ctx *shutdownContext) runCleans() chan bool {
-	finished := make(chan bool)
+	// buffered, nobody receives after a timeout
+	finished := make(chan bool, 1)
+	ctx.lock.Lock()
+	cleans := append([]CleanFunc(nil), ctx.cleans...)
+	ctx.lock.Unlock()
 	go func() {
 		wg := sync.WaitGroup{}
-		wg.Add(len(ctx.cleans))
-		for _, clean := range ctx.cleans {
+		wg.Add(len(cleans))
+		for _, clean := range cleans {
 			go func(callback CleanFunc) {
 				callback()
 				wg.Done()
-- 
2.43.0


From e2ce1b329ab14eca02abd7dfc9d7e3f81f9c8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 18/28] fix: concurrent UdpServer.Close closed the socket twice

---
 dht/krpc/udp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dht/krpc/udp.go b/dht/krpc/udp.go
index ef97185..1bc39f1 100644
--- a/dht/krpc/udp.go
+++ b/dht/krpc/udp.go
@@ -33,6 +33,9 @@ func (s *UdpServer) Close() error {
 	}
 	defer s.Unlock()
 	s.Lock()
+	if s.closed.Load().(bool) {
+		return nil
+	}
 	return s.close()
 }
 
-- 
2.43.0


From 11972fd3835379062273e1c54f2f16b764bf1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 19/28] fix: a second UdpServer.Close returned before the
 socket was closed

---
 dht/krpc/udp.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dht/krpc/udp.go b/dht/krpc/udp.go
index 1bc39f1..18677e5 100644
--- a/dht/krpc/udp.go
+++ b/dht/krpc/udp.go
@@ -28,9 +28,6 @@ type UdpServer struct {
 }
 
 func (s *UdpServer) Close() error {
-	if s.closed.Load().(bool) {
-		return nil
-	}
 	defer s.Unlock()
 	s.Lock()
 	if s.closed.Load().(bool) {
-- 
2.43.0


From db4dd9b3d3e2822fe832523fcbedb213df574970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 20/28] fix: a torn last line of a log swallowed the next
 record

---
 misc/zap.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/misc/zap.go b/misc/zap.go
index 2a90fec..b8efb98 100644
--- a/misc/zap.go
+++ b/misc/zap.go
@@ -1,10 +1,13 @@
 package misc
 
 import (
+	"bytes"
 	"fmt"
 	"go.uber.org/zap"
 	"go.uber.org/zap/zapcore"
 	"gopkg.in/natefinch/lumberjack.v2"
+	"io"
+	"os"
 )
 
 // user define level
@@ -72,10 +75,12 @@ func (l *zapLogger) SetPrefix(prefix string) Logger {
 }
 
 func NewZapLogger(name string, logLevel string) Logger {
+	filename := fmt.Sprintf("logs/%s.log", name)
+	dropTornLine(filename)
 	// lumberjack.Logger is already safe for concurrent use, so we don't need to
 	// lock it.
 	w := zapcore.AddSync(&lumberjack.Logger{
-		Filename:   fmt.Sprintf("logs/%s.log", name),
+		Filename:   filename,
 		MaxSize:    500, // megabytes
 		MaxBackups: 3,
 		MaxAge:     28, // days
@@ -91,6 +96,38 @@ func NewZapLogger(name string, logLevel string) Logger {
 	}
 }
 
+// dropTornLine cuts off an incomplete last line, which a process killed in the
+// middle of a write leaves behind: the next record would be appended to it.
+func dropTornLine(filename string) {
+	f, err := os.OpenFile(filename, os.O_RDWR, 0)
+	if err != nil {
+		return
+	}
+	defer f.Close()
+	size, err := f.Seek(0, io.SeekEnd)
+	if err != nil {
+		return
+	}
+	end, buf := size, make([]byte, 4096)
+	for end > 0 {
+		n := int64(len(buf))
+		if n > end {
+			n = end
+		}
+		if _, err := f.ReadAt(buf[:n], end-n); err != nil {
+			return
+		}
+		if i := bytes.LastIndexByte(buf[:n], '\n'); i >= 0 {
+			end -= n - int64(i) - 1
+			break
+		}
+		end -= n
+	}
+	if end < size {
+		f.Truncate(end)
+	}
+}
+
 func parseLogLevel(logLevel string) zapcore.Level {
 	switch logLevel {
 	case "DEBUG":
-- 
2.43.0


From 0b1cac0ba4947721c1564c731fd84d7557a09677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:45 +0000
Subject: [PATCH 21/28] fix: --config had no effect, and every command needed
 the node's port and logs

---
 config/config.go      |  2 ++
 dht/dht.go            | 22 +++++++++++++++++++---
 dht/fetchtorrent.go   |  2 +-
 dht/requesthandler.go |  2 +-
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/config/config.go b/config/config.go
index 56d6318..03c21b5 100644
--- a/config/config.go
+++ b/config/config.go
@@ -89,6 +89,8 @@ func ResetConfig() {
 		}
 		configLogger.Trace("write default config success", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
 	}
+	// forget what was read from another file
+	configMap = make(misc.Dict, 16)
 	configLogger.Trace("config values", viper.AllSettings())
 }
 
diff --git a/dht/dht.go b/dht/dht.go
index 2ca39d4..1a994ef 100644
--- a/dht/dht.go
+++ b/dht/dht.go
@@ -6,20 +6,35 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"net"
+	"sync"
 )
 
 var dhtLogger = misc.GetLogger().SetPrefix("dht")
-var localAddr = fmt.Sprintf(":%d", config.DhtConfig().Port)
 var localNodeId = generateNodeId("galaio.p2pclawer")
 
 const maxRouteTableSize int = 160
 const maxBucketLen int = 8
 
-var rtable = NewRouteTable(NewNodeInfoFromHost(localNodeId, localAddr), maxBucketLen, maxRouteTableSize)
-var rpcServer = krpc.NewRpcServer(localAddr)
+var rtable *RouteTable
+var rpcServer *krpc.RpcServer
 var txIdGenerator = NewTxIdGenerator(1000)
 
+var setupOnce sync.Once
+
+// setup runs when the node starts, not when the program does: the configuration
+// must have been read, and other commands need neither the port nor the logs
+func setup() {
+	setupOnce.Do(func() {
+		localAddr := fmt.Sprintf(":%d", config.DhtConfig().Port)
+		rtable = NewRouteTable(NewNodeInfoFromHost(localNodeId, localAddr), maxBucketLen, maxRouteTableSize)
+		rpcServer = krpc.NewRpcServer(localAddr)
+		recvInfoHash = make(chan *krpc.RpcContext, config.FetchTorrentConfig().InfoHashQueueSize)
+		infoHashLogger = misc.NewZapLogger("infohash", "info")
+	})
+}
+
 func Run() {
+	setup()
 	dhtLogger.Info("start run dht...", nil)
 
 	dhtLogger.Info("register middleware...", nil)
@@ -44,6 +59,7 @@ func Run() {
 
 // bootstrap find myself
 func BootStrap(host string) {
+	setup()
 	dhtLogger.Info("bootstrap dht...", misc.Dict{"host": host})
 	msg := WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)
 	raddr, err := net.ResolveUDPAddr("udp", host)
diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index d967b1e..87b4b51 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -13,7 +13,7 @@ import (
 	"strconv"
 )
 
-var recvInfoHash = make(chan *krpc.RpcContext, config.FetchTorrentConfig().InfoHashQueueSize)
+var recvInfoHash chan *krpc.RpcContext
 
 func fetchTorrent() {
 	// 开启线程池消费
diff --git a/dht/requesthandler.go b/dht/requesthandler.go
index 228bb71..46ba453 100644
--- a/dht/requesthandler.go
+++ b/dht/requesthandler.go
@@ -6,7 +6,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/misc"
 )
 
-var infoHashLogger = misc.NewZapLogger("infohash", "info")
+var infoHashLogger misc.Logger
 
 func pingHandler(ctx *krpc.RpcContext) {
 	req := ctx.Request()
-- 
2.43.0


From 7aaa8d0531c6ca7608650e3b4b5f6083d772bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:46 +0000
Subject: [PATCH 22/28] fix: one bad or vanished file ended the torrent
 listing, files stayed open

---
 cmd/torrent.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/cmd/torrent.go b/cmd/torrent.go
index 3bbdd7a..d527344 100644
--- a/cmd/torrent.go
+++ b/cmd/torrent.go
@@ -17,26 +17,38 @@ var torrent = &cobra.Command{
 	Run: func(cmd *cobra.Command, args []string) {
 		path := args[0]
 		if misc.IsDir(path) {
-			dirs, err := ioutil.ReadDir(path)
+			dirs, err := os.ReadDir(path)
 			misc.PanicSysErrNonNil(err, "open torrent dir err")
 			for _, item := range dirs {
 				if !item.IsDir() && strings.HasSuffix(item.Name(), ".torrent") {
-					printTorrentInfo(item.Name(), filepath.Join(path, item.Name()))
+					// anybody can have a file stored here, a bad one must not hide the others
+					if err := printTorrentInfo(item.Name(), filepath.Join(path, item.Name())); err != nil {
+						fmt.Fprintf(os.Stderr, "%s: %v\r\n", item.Name(), err)
+					}
 				}
 			}
 			return
 		}
-		printTorrentInfo(path, path)
+		err := printTorrentInfo(path, path)
+		misc.PanicSysErrNonNil(err, "read torrent file err", path)
 	},
 }
 
-func printTorrentInfo(filename, path string) {
+func printTorrentInfo(filename, path string) error {
 	file, err := os.Open(path)
-	misc.PanicSysErrNonNil(err, "open torrent file err", path)
+	if err != nil {
+		return err
+	}
+	defer file.Close()
 	bytes, err := ioutil.ReadAll(file)
-	misc.PanicSysErrNonNil(err, "read torrent file err", path)
+	if err != nil {
+		return err
+	}
 	dict, err := misc.DecodeDict(misc.Bytes2Str(bytes))
-	misc.PanicSysErrNonNil(err, "DecodeDict torrent file err", path)
+	if err != nil {
+		return err
+	}
 	fmt.Printf("%s||%s||%d||%d\r\n", dict.GetStringOrDefault("name", "name err"), filename,
 		dict.GetIntegerOrDefault("length", 0), dict.GetIntegerOrDefault("piece length", 0))
+	return nil
 }
-- 
2.43.0


From 3495b35d1a5698d41b4aac53ae7b3e0b1790c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:47 +0000
Subject: [PATCH 23/28] fix: deeply nested bencode overflowed the stack

---
 misc/beancode.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 5af0610..4df65f0 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -9,6 +9,9 @@ import (
 
 var WrongDecodeParamErr = errors.New("wrong benDecode param")
 
+// lists and dicts may nest this deep, the stack is not unlimited
+const maxDecodeDepth = 100000
+
 func EncodeInteger(src int) (string, error) {
 	return "i" + strconv.Itoa(src) + "e", nil
 }
@@ -160,7 +163,7 @@ func DecodeSlice(src string) (List, error) {
 		return nil, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeSlice(src, 0)
+	result, next, err := innerDecodeSlice(src, 0, 1)
 
 	if err != nil {
 		return nil, err
@@ -172,15 +175,15 @@ func DecodeSlice(src string) (List, error) {
 	return result, nil
 }
 
-func innerDecodeSlice(src string, start int) (List, int, error) {
-	if src[start] != 'l' {
+func innerDecodeSlice(src string, start, depth int) (List, int, error) {
+	if src[start] != 'l' || depth > maxDecodeDepth {
 		return nil, -1, WrongDecodeParamErr
 	}
 
 	result := make(List, 0, 16)
 	i := start + 1
 	for i < len(src) && src[i] != 'e' {
-		tmp, nextIdx, err := decodeItem(src, i)
+		tmp, nextIdx, err := decodeItem(src, i, depth)
 		if err != nil {
 			return nil, -1, err
 		}
@@ -193,13 +196,13 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 	return result, i + 1, nil
 }
 
-func decodeItem(src string, i int) (interface{}, int, error) {
+func decodeItem(src string, i, depth int) (interface{}, int, error) {
 	if src[i] == 'i' {
 		return innerDecodeInteger(src, i)
 	} else if src[i] == 'l' {
-		return innerDecodeSlice(src, i)
+		return innerDecodeSlice(src, i, depth+1)
 	} else if src[i] == 'd' {
-		return innerDecodeDict(src, i)
+		return innerDecodeDict(src, i, depth+1)
 	} else if src[i] >= '0' && src[i] <= '9' {
 		return innerDecodeString(src, i)
 	} else {
@@ -240,7 +243,7 @@ func DecodeDict(src string) (Dict, error) {
 		return nil, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeDict(src, 0)
+	result, next, err := innerDecodeDict(src, 0, 1)
 
 	if err != nil {
 		return nil, err
@@ -264,7 +267,7 @@ func DecodeDictNoLimit(src string) (Dict, int, error) {
 		return nil, -1, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeDict(src, 0)
+	result, next, err := innerDecodeDict(src, 0, 1)
 
 	if err != nil {
 		return nil, -1, err
@@ -273,9 +276,9 @@ func DecodeDictNoLimit(src string) (Dict, int, error) {
 	return result, next, nil
 }
 
-func innerDecodeDict(src string, start int) (Dict, int, error) {
+func innerDecodeDict(src string, start, depth int) (Dict, int, error) {
 
-	if src[start] != 'd' {
+	if src[start] != 'd' || depth > maxDecodeDepth {
 		return nil, -1, WrongDecodeParamErr
 	}
 
@@ -283,7 +286,7 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 
 	i := start + 1
 	for i < len(src) && src[i] != 'e' {
-		ktmp, next, err := decodeItem(src, i)
+		ktmp, next, err := decodeItem(src, i, depth)
 		if err != nil {
 			return nil, -1, err
 		}
@@ -293,7 +296,7 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 			return nil, -1, WrongDecodeParamErr
 		}
 
-		val, next, err := decodeItem(src, next)
+		val, next, err := decodeItem(src, next, depth)
 		if err != nil {
 			return nil, -1, err
 		}
-- 
2.43.0


From f4faa5e0ee61fa21e3bcadcea3f7ebeffea85b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 24/28] fix: settings left out of a section of the
 configuration became zero

---
 config/config.go | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/config/config.go b/config/config.go
index 03c21b5..b02368a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -48,24 +48,40 @@ func init() {
 	viper.AddConfigPath(configPath)
 	viper.SetConfigType(configType)
 	viper.SetConfigName(configName)
-	viper.SetDefault(dhtConfigKey, &dhtConfig{
+	viper.SetDefault(dhtConfigKey, defaultDhtConfig())
+	viper.SetDefault(fetchTorrentConfigKey, defaultFetchTorrentConfig())
+	viper.SetDefault(pprofConfigKey, defaultPProfConfig())
+	viper.SetDefault(loggerConfigKey, defaultLoggerConfig())
+	ResetConfig()
+}
+
+func defaultDhtConfig() *dhtConfig {
+	return &dhtConfig{
 		Port:         21000,
 		WorkPoolSize: 2000,
 		BootstrapNodes: []string{
 			"87.98.162.88:6881",
 		},
-	})
-	viper.SetDefault(fetchTorrentConfigKey, &fetchTorrentConfig{
+	}
+}
+
+func defaultFetchTorrentConfig() *fetchTorrentConfig {
+	return &fetchTorrentConfig{
 		InfoHashQueueSize: 300000,
 		WorkPoolSize:      500,
-	})
-	viper.SetDefault(pprofConfigKey, &pprofConfig{
+	}
+}
+
+func defaultPProfConfig() *pprofConfig {
+	return &pprofConfig{
 		NeedRun: true,
-	})
-	viper.SetDefault(loggerConfigKey, &loggerConfig{
+	}
+}
+
+func defaultLoggerConfig() *loggerConfig {
+	return &loggerConfig{
 		Level: "Info",
-	})
-	ResetConfig()
+	}
 }
 
 func ResetConfig() {
@@ -95,21 +111,27 @@ func ResetConfig() {
 }
 
 func DhtConfig() *dhtConfig {
-	return getSubConfig(dhtConfigKey, new(dhtConfig)).(*dhtConfig)
+	defVal := defaultDhtConfig()
+	if viper.IsSet(dhtConfigKey + ".BootstrapNodes") {
+		// a list is replaced, not merged
+		defVal.BootstrapNodes = nil
+	}
+	return getSubConfig(dhtConfigKey, defVal).(*dhtConfig)
 }
 
 func FetchTorrentConfig() *fetchTorrentConfig {
-	return getSubConfig(fetchTorrentConfigKey, new(fetchTorrentConfig)).(*fetchTorrentConfig)
+	return getSubConfig(fetchTorrentConfigKey, defaultFetchTorrentConfig()).(*fetchTorrentConfig)
 }
 
 func PProfConfig() *pprofConfig {
-	return getSubConfig(pprofConfigKey, new(pprofConfig)).(*pprofConfig)
+	return getSubConfig(pprofConfigKey, defaultPProfConfig()).(*pprofConfig)
 }
 
 func LoggerConfig() *loggerConfig {
-	return getSubConfig(loggerConfigKey, new(loggerConfig)).(*loggerConfig)
+	return getSubConfig(loggerConfigKey, defaultLoggerConfig()).(*loggerConfig)
 }
 
+// valPtr holds the defaults of what the config file leaves out
 func getSubConfig(key string, valPtr interface{}) interface{} {
 
 	if val, ok := configMap[key]; ok {
-- 
2.43.0


From 5a434ffbeefbd5a231f3de8ec570afcff484fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:12 +0000
Subject: [PATCH 25/28] fix: a further extended handshake of a peer ended the
 metadata fetch

---
 dht/peerwire/bep9.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index a23e103..29793f4 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -207,6 +207,11 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 	switch msgId {
 	//HandshakeExtendedID
 	case 0:
+		// a peer may send further handshakes which tell only what changed (BEP 10),
+		// the pieces are requested already
+		if peerConn.metaDataSize > 0 {
+			return
+		}
 		// get extended handshake response
 		exHandShakeResp := parseExtendedHandShake(readBytes)
 		fetchMetaLogger.Info("get extended handshake", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
-- 
2.43.0


From 811458052b7715ca558f6be3a79b6de689005e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:52 +0000
Subject: [PATCH 26/28] fix: the configured log level had no effect

Loggers exist before the configuration is read and kept the level they were
made with; that of a file named by --config was never looked at.
---
 cmd/root.go    |  1 +
 misc/logger.go | 35 ++++++++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 17e42eb..e83b5d6 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -38,6 +38,7 @@ func rootExectueFunc(cmd *cobra.Command, args []string) {
 	if len(cfgFile) > 0 {
 		viper.SetConfigFile(cfgFile)
 		config.ResetConfig()
+		misc.SetLevel(misc.TransLogLevel(config.LoggerConfig().Level))
 	}
 
 	if config.PProfConfig().NeedRun {
diff --git a/misc/logger.go b/misc/logger.go
index 00a2342..6611dae 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -81,6 +82,12 @@ func (b *bufferLogger) setLevel(level LogLevel) {
 	b.Lock()
 	defer b.Unlock()
 	b.level = level
+	// most loggers exist before the configuration is read
+	for _, v := range b.bufferedLoggers {
+		if l, ok := v.(interface{ setLevel(LogLevel) }); ok {
+			l.setLevel(level)
+		}
+	}
 }
 
 func TransLogLevel(name string) LogLevel {
@@ -124,15 +131,25 @@ func (f *consoleLoggerFactory) GetDefaultName() string {
 }
 
 func (f *consoleLoggerFactory) NewLogger(name string, level LogLevel) Logger {
-	return &consoleLogger{
+	l := &consoleLogger{
 		prefix: "",
-		level:  level,
+		level:  new(int32),
 	}
+	l.setLevel(level)
+	return l
 }
 
 type consoleLogger struct {
 	prefix string
-	level  LogLevel
+	level  *int32 // shared by the loggers SetPrefix makes of one
+}
+
+func (c *consoleLogger) setLevel(level LogLevel) {
+	atomic.StoreInt32(c.level, int32(level))
+}
+
+func (c *consoleLogger) getLevel() LogLevel {
+	return LogLevel(atomic.LoadInt32(c.level))
 }
 
 func (c *consoleLogger) SetPrefix(prefix string) Logger {
@@ -143,7 +160,7 @@ func (c *consoleLogger) SetPrefix(prefix string) Logger {
 }
 
 func (c *consoleLogger) Debug(msg string, ctx Dict) {
-	if c.level > DEBUG {
+	if c.getLevel() > DEBUG {
 		return
 	}
 	c.print("Debug", msg, ctx)
@@ -160,28 +177,28 @@ func (c *consoleLogger) print(level string, msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Info(msg string, ctx Dict) {
-	if c.level > INFO {
+	if c.getLevel() > INFO {
 		return
 	}
 	c.print("Info", msg, ctx)
 }
 
 func (c *consoleLogger) Warn(msg string, ctx Dict) {
-	if c.level > WARN {
+	if c.getLevel() > WARN {
 		return
 	}
 	c.print("Warn", msg, ctx)
 }
 
 func (c *consoleLogger) Error(msg string, ctx Dict) {
-	if c.level > ERROR {
+	if c.getLevel() > ERROR {
 		return
 	}
 	c.print("Error", msg, ctx)
 }
 
 func (c *consoleLogger) Panic(msg string, ctx Dict) {
-	if c.level > PANIC {
+	if c.getLevel() > PANIC {
 		return
 	}
 	c.print("Panic", msg, ctx)
@@ -189,7 +206,7 @@ func (c *consoleLogger) Panic(msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Trace(msg string, ctx Dict) {
-	if c.level > TRACE {
+	if c.getLevel() > TRACE {
 		return
 	}
 	c.print("Trace", msg, ctx)
-- 
2.43.0


From 2356be4518ec729dc9be1a7cf291ca36162ea6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:52 +0000
Subject: [PATCH 27/28] fix: file loggers took WARN, TRACE and level names not
 in capitals for INFO

---
 misc/zap.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/misc/zap.go b/misc/zap.go
index b8efb98..3e84619 100644
--- a/misc/zap.go
+++ b/misc/zap.go
@@ -8,6 +8,7 @@ import (
 	"gopkg.in/natefinch/lumberjack.v2"
 	"io"
 	"os"
+	"strings"
 )
 
 // user define level
@@ -129,15 +130,19 @@ func dropTornLine(filename string) {
 }
 
 func parseLogLevel(logLevel string) zapcore.Level {
-	switch logLevel {
+	switch strings.ToUpper(logLevel) {
 	case "DEBUG":
 		return zapcore.DebugLevel
 	case "INFO":
 		return zapcore.InfoLevel
+	case "WARN":
+		return zapcore.WarnLevel
 	case "ERROR":
 		return zapcore.ErrorLevel
 	case "PANIC":
 		return zapcore.PanicLevel
+	case "TRACE":
+		return traceLevel
 	default:
 		return zapcore.InfoLevel
 	}
-- 
2.43.0


From 267330bf4b5ffb4e8fe48f14330b36ece10ff959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:43 +0000
Subject: [PATCH 28/28] fix: at level Trace a console logger's Panic returned,
 so that checks which end with it were passed over

---
 misc/logger.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 6611dae..61e3f69 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -198,10 +198,10 @@ func (c *consoleLogger) Error(msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Panic(msg string, ctx Dict) {
-	if c.getLevel() > PANIC {
-		return
+	// the caller does not go on, printed or not
+	if c.getLevel() <= PANIC {
+		c.print("Panic", msg, ctx)
 	}
-	c.print("Panic", msg, ctx)
 	panic(msg)
 }
 
-- 
2.43.0


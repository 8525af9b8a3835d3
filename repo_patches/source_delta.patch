From 71169f426cf4731e63a44e5f58edf364f1c9c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:51 +0000
Subject: [PATCH 01/77] fix: common/codec: do not trust RLP item length for
 allocation

A length prefix with the top bit set made readBytes/ReadRaw call make()
with a negative size (panic), and any huge length reserved that much memory
before a single byte was read. Reject sizes that do not fit, and reserve
memory only as bytes arrive.
---
 common/codec/rlp.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index 8392c46..9995a7d 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -42,7 +42,11 @@ func (r *rlpReader) readSize(buffer []byte) (int, error) {
 	if err := r.readAll(buffer); err != nil {
 		return 0, err
 	}
-	return bytesToSize(buffer), nil
+	sz := bytesToSize(buffer)
+	if sz < 0 {
+		return 0, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(size=%#x)", buffer)
+	}
+	return sz, nil
 }
 
 func (r *rlpReader) readAll(buffer []byte) error {
@@ -155,12 +159,7 @@ func (r *rlpReader) readBytes() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		buffer := make([]byte, sz2)
-		if err := r.readAll(buffer); err != nil {
-			return nil, err
-		} else {
-			return buffer, nil
-		}
+		return r.readMore(nil, sz2)
 	case tag == 0xF8:
 		if sz2, err := r.readSize(header[1:2]); err != nil {
 			return nil, err
@@ -218,13 +217,28 @@ func (r *rlpReader) ReadBytes() ([]byte, error) {
 	return r.readBytes()
 }
 
+// readChunk is the maximum number of bytes reserved ahead of reading them.
+const readChunk = 4096
+
+// readMore reads size bytes and returns them after org. The size comes from
+// the input, so that memory is reserved only as the bytes really arrive.
 func (r *rlpReader) readMore(org []byte, size int) ([]byte, error) {
-	buffer := make([]byte, len(org)+size)
-	copy(buffer, org)
-	if err := r.readAll(buffer[len(org):]); err != nil {
-		return nil, err
+	if size <= readChunk {
+		buffer := make([]byte, len(org)+size)
+		copy(buffer, org)
+		if err := r.readAll(buffer[len(org):]); err != nil {
+			return nil, err
+		}
+		return buffer, nil
+	}
+	buffer := bytes.NewBuffer(append([]byte(nil), org...))
+	if n, err := io.CopyN(buffer, r.reader, int64(size)); err != nil {
+		if err == io.EOF {
+			return nil, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(sz=%d,read=%d)", size, n)
+		}
+		return nil, cerrors.WithStack(err)
 	}
-	return buffer, nil
+	return buffer.Bytes(), nil
 }
 
 func (r *rlpReader) ReadRaw() ([]byte, error) {
-- 
2.43.0


From d4637a6696e873485a45f8796a704350f59b1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:53 +0000
Subject: [PATCH 02/77] fix: common/mbt: incremental Add builds the same tree
 as the batch constructor

From the 8th content on, Add compared levels of unfinished subtrees and
produced a root no proof verifies against; compare leaf counts as lazyAdd does.
---
 common/mbt/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/mbt/tree.go b/common/mbt/tree.go
index 6cda2e1..d67512e 100644
--- a/common/mbt/tree.go
+++ b/common/mbt/tree.go
@@ -82,7 +82,7 @@ func (n *node) add(h []byte) *node {
 		n.h = h
 		n.numOfLeaf = 1
 	} else {
-		if n.l != nil && n.l.level != n.r.level {
+		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {
 			n.r = n.r.add(h)
 			n.numOfLeaf++
 			n.h = n.hashFunc(n.l.h, n.r.h)
-- 
2.43.0


From f401da65f890c38878c2bb018856c76dfd17814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:09 +0000
Subject: [PATCH 03/77] fix: common/mta: older accumulator accepts newer
 witnesses at every length

The depth loop counted empty roots as trees, so a valid witness was refused
whenever the length of the accumulator is not all ones in binary.
---
 common/mta/accumulator.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 6e9222d..aa29185 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -426,15 +426,7 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 		return a.Verify(nws, h)
 	} else {
 		// acc: old, wit: new
-		depth := 0
-		for i := len(a.roots) - 1; i > 0; i-- {
-			bitFlag := int64(1) << uint(i)
-			if height < bitFlag {
-				depth = i
-				break
-			}
-			height -= bitFlag
-		}
+		depth := GetDepthByHeightAndAccLength(height, a.length)
 		return a.Verify(ws[:depth], h)
 	}
 }
-- 
2.43.0


From 1e296906556125753a065ff5b042fa78d8caba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:59 +0000
Subject: [PATCH 04/77] fix: common/mta: refuse malformed witnesses and
 positions instead of crashing or accepting

Hashes that are not 32 bytes long were truncated or padded before comparison,
over-long or too short witnesses indexed out of range, and negative positions
were answered with the witness of position 0.
---
 common/mta/accumulator.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index aa29185..0157e16 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -347,7 +347,7 @@ func (a *Accumulator) AddData(d []byte) []Witness {
 }
 
 func (a *Accumulator) WitnessFor(idx int64) (w []Witness, err error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
@@ -371,6 +371,9 @@ func (a *Accumulator) WitnessFor(idx int64) (w []Witness, err error) {
 }
 
 func (a *Accumulator) WitnessForWithAccLength(idx, accLength int64) (w []Witness, err error) {
+	if idx >= accLength || accLength > a.length {
+		return nil, errors.ErrNotFound
+	}
 	if w, err = a.WitnessFor(idx); err != nil {
 		return nil, err
 	}
@@ -379,9 +382,15 @@ func (a *Accumulator) WitnessForWithAccLength(idx, accLength int64) (w []Witness
 }
 
 func (a *Accumulator) Verify(ws []Witness, h []byte) error {
+	if len(h) != HashSize {
+		return errors.IllegalArgumentError.New("InvalidHash length")
+	}
 	buf := make([]byte, HashSize*2)
 	height := 0
 	for _, w := range ws {
+		if len(w.HashValue) != HashSize {
+			return errors.IllegalArgumentError.New("InvalidWitness hash length")
+		}
 		if w.Direction == Left {
 			copy(buf, w.HashValue)
 			copy(buf[HashSize:], h)
@@ -420,6 +429,9 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 		if err != nil {
 			return err
 		}
+		if len(ws) > len(nws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too long")
+		}
 		for i, w := range ws {
 			nws[i] = w
 		}
@@ -427,12 +439,15 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 	} else {
 		// acc: old, wit: new
 		depth := GetDepthByHeightAndAccLength(height, a.length)
+		if depth > len(ws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too short")
+		}
 		return a.Verify(ws[:depth], h)
 	}
 }
 
 func (a *Accumulator) GetNode(idx int64) (Node, error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
-- 
2.43.0


From 3f44cf82f52a00aeceac658ceca9dca0535372d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:21 +0000
Subject: [PATCH 05/77] fix: common/db: badger bucket reports read errors and
 keeps empty values

A read error other than not-found dereferenced a nil item, and a key holding
an empty value was reported as absent, unlike the other backends.
---
 common/db/badger_db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/db/badger_db.go b/common/db/badger_db.go
index 77185c1..3056aa8 100644
--- a/common/db/badger_db.go
+++ b/common/db/badger_db.go
@@ -74,8 +74,11 @@ func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 			if err == badger.ErrKeyNotFound {
 				return nil
 			}
+			return err
+		}
+		if value, err = item.ValueCopy(nil); err == nil {
+			value = nonNilBytes(value)
 		}
-		value, err = item.ValueCopy(nil)
 		return err
 	})
 	return value, err
-- 
2.43.0


From 665f970087b46d1bc96208e09c32cf0332d0a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:29 +0000
Subject: [PATCH 06/77] fix: common/errors: no error and wrapped no error have
 no code

AsValue, CoderOf and CodeOf crashed on a nil error and on a chain ending in nil.
---
 common/errors/errors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/errors/errors.go b/common/errors/errors.go
index a0a8369..9c77319 100644
--- a/common/errors/errors.go
+++ b/common/errors/errors.go
@@ -314,7 +314,7 @@ func AsValue(ptr interface{}, err error) bool {
 	}
 	valueType := value.Type()
 
-	for {
+	for err != nil {
 		errValue := reflect.ValueOf(err)
 		if errValue.Type().AssignableTo(valueType) {
 			value.Set(errValue)
@@ -328,4 +328,5 @@ func AsValue(ptr interface{}, err error) bool {
 			return false
 		}
 	}
+	return false
 }
-- 
2.43.0


From e3745952fa75f464b92632d17cebc8064edc74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:29 +0000
Subject: [PATCH 07/77] fix: common: setting an address depends on its input
 only

SetBytes crashed on an empty slice, and a short id left bytes of the previous
address in place.
---
 common/address.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/address.go b/common/address.go
index 7ced1c8..042678b 100644
--- a/common/address.go
+++ b/common/address.go
@@ -79,7 +79,7 @@ func (a *Address) ID() []byte {
 }
 
 func (a *Address) SetBytes(b []byte) error {
-	if b == nil {
+	if len(b) == 0 {
 		return errors.ErrIllegalArgument
 	}
 	switch b[0] {
@@ -98,6 +98,7 @@ func (a *Address) SetTypeAndID(ic bool, id []byte) error {
 	}
 	switch {
 	case len(id) < AddressIDBytes:
+		*a = Address{}
 		copy(a[AddressIDBytes-len(id)+1:], id)
 	default:
 		copy(a[1:], id)
-- 
2.43.0


From ca4f17eb3bb3038f41c674300bdbda45ed08b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:28 +0000
Subject: [PATCH 08/77] fix: chain/icon/btp2: message proof tells the last
 sequence it carries

When the link status lies inside a block, the messages already relayed
were counted again, so the sequence moved past messages never proven.
---
 chain/icon/btp2/btp2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index abc253c..82ba610 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -207,7 +207,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 			}
 
 			if limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
-				mp := NewMessageProof(bls, bls.RxSeq+i, *p)
+				mp := NewMessageProof(bls, bls.RxSeq+i-offset, *p)
 				return mp, nil
 			}
 		}
@@ -217,7 +217,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 	if err != nil {
 		return nil, err
 	}
-	mp := NewMessageProof(bls, bls.RxSeq+messageCnt, *p)
+	mp := NewMessageProof(bls, bls.RxSeq+messageCnt-offset, *p)
 	return mp, nil
 }
 
-- 
2.43.0


From c185537a58e27e07db5404aad4025fd3022e8b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:41 +0000
Subject: [PATCH 09/77] fix: chain/icon/bridge: relay every message of a block

The receive status took the first sequence of a block for its last one:
of a block with several messages only the last was relayed, and a block
without messages crashed the relay.
---
 chain/icon/bridge/bridge.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 10735e3..d00f772 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -46,7 +46,6 @@ type bridge struct {
 
 func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.BtpAddress) (*receiveStatus, error) {
 	evts := make([]*Event, 0)
-	seq := sn
 	for _, msg := range msgs {
 		if sn > rxSeq {
 			evt, err := messageToEvent(next, msg, sn)
@@ -66,7 +65,7 @@ func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.B
 
 	return &receiveStatus{
 		height: height,
-		seq:    seq,
+		seq:    sn - 1,
 		rp:     rp,
 	}, nil
 }
@@ -159,15 +158,15 @@ func (b *bridge) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.
 
 	for i := offset; i < int64(messageCnt); i++ {
 		size := sizeOfEvent(rs.ReceiptProof().Events[i])
-		if limit < int64(rmSize+size) {
-			return NewMessageProof(bls, bls.RxSeq+i, trp)
+		if limit < int64(rmSize+size) && rmSize > 0 {
+			return NewMessageProof(bls, bls.RxSeq+i-offset, trp)
 		}
 		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])
 		rmSize += size
 	}
 
 	//last event
-	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt), trp)
+	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt)-offset, trp)
 
 }
 
@@ -272,7 +271,7 @@ func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
 
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq > rs.Seq()-int64(len(rs.ReceiptProof().Events)) {
 			return rs
 		}
 	}
-- 
2.43.0


From 5a627beb1f18e4143ef2954279556fe5b972e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:24 +0000
Subject: [PATCH 10/77] fix: chain/ethbr: relay every message of a block

Receipts were counted as if each held one event and only the last
sequence of a block was found, so a block with several messages crashed
the relay or moved the sequence past messages never relayed.
---
 chain/ethbr/receiver.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 1862fab..b2438f7 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -37,6 +37,15 @@ func (r *receiveStatus) Seq() int64 {
 	return r.seq
 }
 
+// firstSeq returns the sequence of the first event of the block
+func (r *receiveStatus) firstSeq() int64 {
+	cnt := 0
+	for _, rp := range r.rps {
+		cnt += len(rp.Events)
+	}
+	return r.seq - int64(cnt) + 1
+}
+
 func newReceiveStatus(height, seq int64, rps []*client.ReceiptProof) (*receiveStatus, error) {
 	return &receiveStatus{
 		height: height,
@@ -112,15 +121,14 @@ func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (lin
 	var seq int
 	rps := make([]*client.ReceiptProof, 0)
 	rs := e.GetReceiveHeightForSequence(bls.RxSeq + 1)
-	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 	if rs == nil {
 		return nil, nil
 	}
+	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 
 	rpsCnt := int64(len(rs.rps))
-	offset := bls.RxSeq - (rs.Seq() - rpsCnt)
 	if rpsCnt > 0 {
-		for i := offset; i < rpsCnt; i++ {
+		for i := int64(0); i < rpsCnt; i++ {
 			trp := &client.ReceiptProof{
 				Index:  rs.rps[i].Index,
 				Events: make([]*client.Event, 0),
@@ -129,10 +137,13 @@ func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (lin
 			rps = append(rps, trp)
 
 			for _, e := range rs.rps[i].Events {
+				if e.Sequence.Int64() <= bls.RxSeq {
+					continue
+				}
 				size := sizeOfEvent(e)
 
 				if (int(limit) < rmSize+size) && rmSize > 0 {
-					return NewMessageProof(bls, bls.RxSeq+i, rps)
+					return NewMessageProof(bls, bls.RxSeq+int64(seq), rps)
 				}
 				trp.Events = append(trp.Events, e)
 				seq += 1
@@ -141,7 +152,7 @@ func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (lin
 
 			//last event
 			if int(limit) < rmSize {
-				return NewMessageProof(bls, bls.RxSeq+i, rps)
+				return NewMessageProof(bls, bls.RxSeq+int64(seq), rps)
 			}
 
 			//remove last receipt if empty
@@ -301,7 +312,7 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range e.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq >= rs.firstSeq() {
 			return rs
 		}
 	}
-- 
2.43.0


From 87e4154e745b4a67b2d62cc3160b63ed72bda143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:24 +0000
Subject: [PATCH 11/77] fix: chain/ethbr: a malformed event log is an error,
 not a crash

---
 chain/ethbr/receiver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index b2438f7..495c6fe 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -225,11 +225,11 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 			EpLoop:
 				for _, el := range v.Logs {
 					evt, err := logToEvent(&el)
-					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
-						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if err != nil {
 						return err
 					}
+					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
+						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if evt.Sequence.Int64() <= e.seq {
 						continue EpLoop
 					}
-- 
2.43.0


From c5fecae9e337a425f1e19dff632faf049b1a8314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:24 +0000
Subject: [PATCH 12/77] fix: chain/icon/btp2: find the block of every message,
 not of its last only

---
 chain/icon/btp2/btp2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 82ba610..d6203a6 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -315,7 +315,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 
 func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq > rs.Seq()-int64(rs.MerkleBinaryTree().Len()) {
 			return rs
 		}
 	}
-- 
2.43.0


From b3f1af8f787b694b7a82444bebbba7b3918ecfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:27 +0000
Subject: [PATCH 13/77] fix: chain: a block update does not set the message
 sequence back

Block updates built together keep the sequence of that time; applying
the second one undid the messages relayed with the first.
---
 chain/ethbr/message.go       | 7 +++++++
 chain/icon/bridge/message.go | 7 +++++++
 chain/icon/btp2/message.go   | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index db27c9f..c19605f 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -48,6 +48,13 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+// UpdateBMCLinkStatus moves the height only: messages of blocks updated
+// before may have been added since the update was built
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 type blockProof struct {
 	relayMessageItem
 	ph int64
diff --git a/chain/icon/bridge/message.go b/chain/icon/bridge/message.go
index b277918..64c2a7b 100644
--- a/chain/icon/bridge/message.go
+++ b/chain/icon/bridge/message.go
@@ -67,6 +67,13 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+// UpdateBMCLinkStatus moves the height only: messages of blocks updated
+// before may have been added since the update was built
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 type blockProof struct {
 	relayMessageItem
 	ph int64
diff --git a/chain/icon/btp2/message.go b/chain/icon/btp2/message.go
index fbda82f..6fe262f 100644
--- a/chain/icon/btp2/message.go
+++ b/chain/icon/btp2/message.go
@@ -60,6 +60,13 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+// UpdateBMCLinkStatus moves the height only: messages of blocks updated
+// before may have been added since the update was built
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 func NewBlockUpdate(bs *types.BMCLinkStatus, targetHeight int64, v interface{}) *blockUpdate {
 	nextBls := &types.BMCLinkStatus{}
 	nextBls.Verifier.Height = targetHeight
-- 
2.43.0


From 8f40a05cc8fa7d638b9c1b1c58acbea6ec98dd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:57 +0000
Subject: [PATCH 14/77] fix: relay each block update once

When several blocks were relayed together, receivers forgot only the
first of them and built the updates of the others again. The link waited
in a busy loop for a block update even if there is none to relay.
---
 chain/ethbr/receiver.go     |  7 ++-----
 chain/icon/bridge/bridge.go |  7 ++-----
 chain/icon/btp2/btp2.go     |  7 ++-----
 common/link/link.go         | 10 +---------
 4 files changed, 7 insertions(+), 24 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 495c6fe..2832c3b 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -190,11 +190,8 @@ func (e *ethbr) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 }
 
 func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
-	for i, rs := range e.rss {
-		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
-			e.rss = e.rss[i+1:]
-			return
-		}
+	for len(e.rss) > 0 && e.rss[0].Height() <= bls.Verifier.Height && e.rss[0].Seq() <= bls.RxSeq {
+		e.rss = e.rss[1:]
 	}
 }
 
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index d00f772..6565c52 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -261,11 +261,8 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 }
 
 func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
-			return
-		}
+	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
+		b.rss = b.rss[1:]
 	}
 }
 
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index d6203a6..f299922 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -243,11 +243,8 @@ func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
 }
 
 func (b *btp2) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
-			return
-		}
+	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
+		b.rss = b.rss[1:]
 	}
 }
 
diff --git a/common/link/link.go b/common/link/link.go
index 122fe69..d37c1d8 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -244,15 +244,7 @@ func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
 }
 
 func (l *Link) getHeader(bs *types.BMCLinkStatus) ([]BlockUpdate, error) {
-	for {
-		bus, err := l.r.BuildBlockUpdate(bs, l.limitSize-l.rmi.size)
-		if err != nil {
-			return nil, err
-		}
-		if len(bus) != 0 {
-			return bus, nil
-		}
-	}
+	return l.r.BuildBlockUpdate(bs, l.limitSize-l.rmi.size)
 }
 
 func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
-- 
2.43.0


From 8eb11c6de53768adeb77a2972465c51d14f40da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:34 +0000
Subject: [PATCH 15/77] fix: common/link: release the lock after a relay result

The deferred call took the lock again, so the sender's goroutine hung on the first result.
---
 common/link/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index d37c1d8..a1aaa28 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -446,7 +446,7 @@ func (l *Link) createRelayMessageItem() {
 
 func (l *Link) result(rr *types.RelayResult) error {
 	l.rmsMtx.Lock()
-	defer l.rmsMtx.Lock()
+	defer l.rmsMtx.Unlock()
 
 	switch rr.Err {
 	case BMVUnknown:
-- 
2.43.0


From c0e3fccad8532f6a41edf59add874351d1da4f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:37 +0000
Subject: [PATCH 16/77] fix: common/link: go on collecting items after a relay
 message was sent

No item list was left, so the next proof of a block that takes several
relay messages crashed the relay; the list opened for it was sent empty.
---
 common/link/link.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index a1aaa28..9405b85 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -369,6 +369,9 @@ func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
 func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, error) {
 	rms := make([]*relayMessage, 0)
 	for _, rmi := range l.rmi.rmis {
+		if len(rmi) == 0 {
+			continue
+		}
 		m, err := l.r.BuildRelayMessage(rmi)
 		if err != nil {
 			return nil, err
@@ -384,7 +387,7 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 		rms = append(rms, rm)
 	}
 	l.rmi.rmis = l.rmi.rmis[:0]
-	l.rmi.size = 0
+	l.createRelayMessageItem()
 
 	return rms, nil
 }
-- 
2.43.0


From 594e1854ff8f6e310c6decafae5b7b1abf4b523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:39 +0000
Subject: [PATCH 17/77] fix: common/link: send nothing when there is nothing to
 relay

Receivers without block updates give no bytes for a block whose messages
were relayed already; it was sent as an empty relay message.
---
 common/link/link.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index 9405b85..dedaa30 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -376,6 +376,9 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 		if err != nil {
 			return nil, err
 		}
+		if len(m) == 0 {
+			continue
+		}
 
 		rm := &relayMessage{
 			id:       rand.Int(),
-- 
2.43.0


From a3853f3f1c044c82d095d51736c9ede187f319e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:42 +0000
Subject: [PATCH 18/77] fix: common/link: one message proof per relay message

When the messages of a block exceed the limit, the second proof was put
in the same relay message, where bridge receivers drop it, and a proof
without block update crashed. If a receiver has no proof, fail instead of
looping forever.
---
 common/link/link.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index dedaa30..a5ef27b 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -290,14 +290,18 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 		return nil
 	}
 	var mh int64
+	full := false
 	for {
 		//TODO refactoring
 		if rs.Seq() <= bls.RxSeq {
 			break
 		}
-		if l.isOverLimit(l.rmi.size) {
-			l.sendRelayMessage(bls)
-			if bu != nil || bu.ProofHeight() != 0 {
+		seq := bls.RxSeq
+		if l.isOverLimit(l.rmi.size) || full {
+			if err := l.sendRelayMessage(bls); err != nil {
+				return err
+			}
+			if bu == nil || bu.ProofHeight() != 0 {
 				h := l.r.GetHeightForSeq(bls.RxSeq)
 				mh = h
 				if err := l.buildBlockProof(bls, mh); err != nil {
@@ -321,6 +325,11 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 				return err
 			}
 		}
+		if bls.RxSeq <= seq {
+			return fmt.Errorf("no proof of the message after seq:%d height:%d", seq, bls.Verifier.Height)
+		}
+		//rest of messages was left out because of the limit
+		full = true
 	}
 	return nil
 }
-- 
2.43.0


From a9bc158b67ef254c74974420b1586243c6d7bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:44 +0000
Subject: [PATCH 19/77] fix: common/link: a relay message keeps the status it
 leads to

It held the running status, so confirmed messages were not forgotten
while newer ones were on the way.
---
 common/link/link.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index a5ef27b..51689c7 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -389,9 +389,10 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 			continue
 		}
 
+		rmBls := *bls
 		rm := &relayMessage{
 			id:       rand.Int(),
-			bls:      bls,
+			bls:      &rmBls,
 			bpHeight: l.r.GetHeightForSeq(bls.RxSeq),
 			message:  m,
 			rmis:     rmi,
-- 
2.43.0


From 2cdcf58ca76d41e01911fda4226edf6530ff0656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:48 +0000
Subject: [PATCH 20/77] fix: common/link: results of forgotten relay messages
 do not crash

An already verified relay message was kept instead of removed.
---
 common/link/link.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 51689c7..cbbf1e0 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -409,24 +409,25 @@ func (l *Link) removeRelayMessage(id int) {
 	l.mtx.Lock()
 	defer l.mtx.Unlock()
 
-	index := 0
 	for i, rm := range l.rms {
 		if rm.id == id {
-			index = i
+			l.l.Debugf("remove relay message h:%d seq:%d", rm.BMCLinkStatus().Verifier.Height,
+				rm.BMCLinkStatus().RxSeq)
+			l.rms = l.rms[i+1:]
+			return
 		}
 	}
-
-	l.l.Debugf("remove relay message h:%d seq:%d", l.rms[index].BMCLinkStatus().Verifier.Height,
-		l.rms[index].BMCLinkStatus().RxSeq)
-	l.rms = l.rms[index:]
-
 }
 
 func (l *Link) updateBlockProof(id int) error {
 	rm := l.searchRelayMessage(id)
-	l.buildProof(rm.bls, nil)
-	l.sendRelayMessage(rm.bls)
-	return nil
+	if rm == nil {
+		return nil
+	}
+	if err := l.buildProof(rm.bls, nil); err != nil {
+		return err
+	}
+	return l.sendRelayMessage(rm.bls)
 }
 
 func (l *Link) searchReceiveStatusForHeight(height int64) ReceiveStatus {
-- 
2.43.0


From 08f5ca1e7d6764bf45c3a0d7badd0be768cf5f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:50 +0000
Subject: [PATCH 21/77] fix: common/link: a status confirms everything before
 it

Only the first relay message and block were forgotten, however far the
confirmed status had got.
---
 common/link/link.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index cbbf1e0..463f9ac 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -176,20 +176,14 @@ func (l *Link) senderChannel(errCh chan error) {
 }
 
 func (l *Link) clearRelayMessage(bls *types.BMCLinkStatus) {
-	for i, rm := range l.rms {
-		if rm.bls.Verifier.Height <= bls.Verifier.Height && rm.bls.RxSeq <= bls.RxSeq {
-			l.rms = l.rms[i+1:]
-			break
-		}
+	for len(l.rms) > 0 && l.rms[0].bls.Verifier.Height <= bls.Verifier.Height && l.rms[0].bls.RxSeq <= bls.RxSeq {
+		l.rms = l.rms[1:]
 	}
 }
 
 func (l *Link) clearReceiveStatus(bls *types.BMCLinkStatus) {
-	for i, rs := range l.rss {
-		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
-			l.rss = l.rss[i+1:]
-			break
-		}
+	for len(l.rss) > 0 && l.rss[0].Height() <= bls.Verifier.Height && l.rss[0].Seq() <= bls.RxSeq {
+		l.rss = l.rss[1:]
 	}
 }
 
-- 
2.43.0


From 341015d3996aac03b749cbec8d0b8b28486c149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:53 +0000
Subject: [PATCH 22/77] fix: common/link: messages relayed at start are not
 relayed again

The status check at start did not move the sequence past the messages it
sent, and looped forever when a block had nothing more to prove.
---
 common/link/link.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index 463f9ac..107d0ba 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -261,6 +261,9 @@ func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
 			if mp.Len() != 0 || bls.RxSeq < mp.LastSeqNum() {
 				l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
 				l.rmi.size += mp.Len()
+				if err = mp.UpdateBMCLinkStatus(bls); err != nil {
+					return err
+				}
 			}
 			break
 		} else if h < bls.Verifier.Height {
@@ -268,12 +271,16 @@ func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
 			if err != nil {
 				return err
 			}
+			if bls.RxSeq <= lastSeq {
+				break
+			}
+			lastSeq = bls.RxSeq
 		} else {
 			break
 		}
 	}
 	if l.rmi.size > 0 {
-		l.sendRelayMessage(bls)
+		return l.sendRelayMessage(bls)
 	}
 	return nil
 }
-- 
2.43.0


From 6570fb3cd53d5bae098ce553e0aebef7543a0d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:48 +0000
Subject: [PATCH 23/77] fix: common/link: stop with the error instead of going
 on without it

A relay message the sender refused was skipped and everything after it
could not be verified any more; errors of the receiver's start were
dropped; after Stop the closed channels crashed the relay or kept it busy.
---
 common/link/link.go | 72 +++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 107d0ba..17110ab 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -128,20 +128,22 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 	once := new(sync.Once)
 	go func() {
 		rsc, err := l.r.Start(bls)
-		for {
-			select {
-			case rs := <-rsc:
-				once.Do(func() {
-					err = l.checkStatus(bls)
-				})
+		if err != nil {
+			errCh <- err
+			return
+		}
+		for rs := range rsc {
+			once.Do(func() {
+				err = l.checkStatus(bls)
+			})
+			if err == nil {
 				l.rss = append(l.rss, rs)
-				l.BuildRelayMessage(bls)
+				err = l.BuildRelayMessage(bls)
+			}
+			if err != nil {
+				errCh <- err
+				return
 			}
-		}
-
-		select {
-		case errCh <- err:
-		default:
 		}
 	}()
 }
@@ -150,26 +152,22 @@ func (l *Link) senderChannel(errCh chan error) {
 	go func() {
 		l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 		scc, err := l.s.Start()
-
-		for {
-			select {
-			case sc := <-scc:
-				switch t := sc.(type) {
-				case *types.RelayResult:
-					err := l.result(t)
-					errCh <- err
-				case *types.BMCLinkStatus:
-					l.clearRelayMessage(t)
-					l.clearReceiveStatus(t)
-				default:
-					//TODO exception
-				}
-			}
+		if err != nil {
+			errCh <- err
+			return
 		}
 
-		select {
-		case errCh <- err:
-		default:
+		for sc := range scc {
+			switch t := sc.(type) {
+			case *types.RelayResult:
+				err := l.result(t)
+				errCh <- err
+			case *types.BMCLinkStatus:
+				l.clearRelayMessage(t)
+				l.clearReceiveStatus(t)
+			default:
+				//TODO exception
+			}
 		}
 	}()
 
@@ -195,7 +193,9 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 	//Get Block
 	bus, err := l.getHeader(bls)
 	if err != nil {
-		return err
+		//nothing was consumed, the next block retries
+		l.l.Debugf("fail to build block update err:%+v", err)
+		return nil
 	}
 
 	if len(bus) != 0 {
@@ -218,7 +218,7 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 	}
 
 	if l.isOverLimit(l.rmi.size) {
-		l.sendRelayMessage(bls)
+		return l.sendRelayMessage(bls)
 	}
 
 	return nil
@@ -232,7 +232,9 @@ func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
 
 	for _, rm := range rms {
 		l.rms = append(l.rms, rm)
-		l.s.Relay(rm)
+		if _, err = l.s.Relay(rm); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -474,11 +476,11 @@ func (l *Link) result(rr *types.RelayResult) error {
 		if err != nil {
 			return err
 		}
-		l.BuildRelayMessage(bls)
+		return l.BuildRelayMessage(bls)
 	case BMVAlreadyVerified:
 		l.removeRelayMessage(rr.Id)
 	case BMVRevertInvalidBlockWitnessOld:
-		l.updateBlockProof(rr.Id)
+		return l.updateBlockProof(rr.Id)
 	default:
 		l.l.Panicf("fail to GetResult RelayMessage ID:%v ErrorCoder:%+v",
 			rr.Id, rr.Err)
-- 
2.43.0


From 93b95b71b0fb7dbb4db6f3ad6994214a866bd62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:17 +0000
Subject: [PATCH 24/77] fix: chain: no status is sent when it cannot be read

A nil status crashed the link.
---
 chain/ethbr/sender.go | 6 +++++-
 chain/icon/sender.go  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index 1fb9dbf..ba5e304 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -106,7 +106,11 @@ func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Debugf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index b68cebb..eed664c 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -145,7 +145,11 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Debugf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
-- 
2.43.0


From 623e901d6e67f0da563ca3bd7ee127ccf594c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:20 +0000
Subject: [PATCH 25/77] fix: chain: limit relay messages by the size of their
 events

The size of a pointer was counted for each event, so the limit of the
transaction size had no effect.
---
 chain/ethbr/receiver.go     | 7 +++++--
 chain/icon/bridge/bridge.go | 3 +--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 2832c3b..4c60d74 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -7,7 +7,6 @@ import (
 	"io"
 	"math/big"
 	"sort"
-	"unsafe"
 
 	"github.com/ethereum/go-ethereum"
 	"github.com/ethereum/go-ethereum/common"
@@ -363,5 +362,9 @@ func logToEvent(el *types.Log) (*client.Event, error) {
 }
 
 func sizeOfEvent(rp *client.Event) int {
-	return int(unsafe.Sizeof(rp))
+	b, err := rlp.EncodeToBytes(rp)
+	if err != nil {
+		return 0
+	}
+	return len(b)
 }
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 6565c52..63fff17 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -3,7 +3,6 @@ package bridge
 import (
 	"encoding/base64"
 	"fmt"
-	"unsafe"
 
 	"github.com/gorilla/websocket"
 
@@ -287,7 +286,7 @@ func (b *bridge) setStartHeight() error {
 }
 
 func sizeOfEvent(rp *Event) int {
-	return int(unsafe.Sizeof(rp))
+	return len(codec.RLP.MustMarshalToBytes(rp))
 }
 
 func messageToEvent(next types.BtpAddress, msg string, seq int64) (*Event, error) {
-- 
2.43.0


From 56d672c07d1029332ef28a3e3d71ca35fa12c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 26/77] fix: common/link: wait for the messages of a block
 before relaying it

When the receiver was ahead of the link, the next block was relayed
without its messages, and once more with them.
---
 common/link/link.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index 17110ab..bb1b45f 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -200,6 +200,10 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 
 	if len(bus) != 0 {
 		for _, bu := range bus {
+			if l.searchReceiveStatusForHeight(bu.TargetHeight()) == nil {
+				//its messages are not known yet, wait for the receiver's notice
+				break
+			}
 			l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bu)
 			l.rmi.size += bu.Len()
 			err := bu.UpdateBMCLinkStatus(bls)
-- 
2.43.0


From f4998871f06a1deb6af362f74e5d598c83146279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:08 +0000
Subject: [PATCH 27/77] fix: common/link: know the size limit before the first
 block arrives

The limit was set by the sender's goroutine; blocks handled before it ran
were not relayed because nothing fits in a limit of zero.
---
 common/link/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index bb1b45f..9a5a8f9 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -149,8 +149,8 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 }
 
 func (l *Link) senderChannel(errCh chan error) {
+	l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 	go func() {
-		l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 		scc, err := l.s.Start()
 		if err != nil {
 			errCh <- err
-- 
2.43.0


From 1fed9929e69107377343242040a5bbafd105a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:26 +0000
Subject: [PATCH 28/77] fix: common/link: a status does not lose the block
 received meanwhile

---
 common/link/link.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index 9a5a8f9..40bd2fb 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -133,6 +133,7 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 			return
 		}
 		for rs := range rsc {
+			l.rmsMtx.Lock()
 			once.Do(func() {
 				err = l.checkStatus(bls)
 			})
@@ -140,6 +141,7 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 				l.rss = append(l.rss, rs)
 				err = l.BuildRelayMessage(bls)
 			}
+			l.rmsMtx.Unlock()
 			if err != nil {
 				errCh <- err
 				return
@@ -163,8 +165,10 @@ func (l *Link) senderChannel(errCh chan error) {
 				err := l.result(t)
 				errCh <- err
 			case *types.BMCLinkStatus:
+				l.rmsMtx.Lock()
 				l.clearRelayMessage(t)
 				l.clearReceiveStatus(t)
+				l.rmsMtx.Unlock()
 			default:
 				//TODO exception
 			}
-- 
2.43.0


From d9c7c773bbfd0f7835e4d19d345486a49702e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:29 +0000
Subject: [PATCH 29/77] fix: chain: receivers do not lose blocks received while
 others are relayed

---
 chain/ethbr/receiver.go     | 34 ++++++++++++++++++++++++++++------
 chain/icon/bridge/bridge.go | 32 +++++++++++++++++++++++++++-----
 chain/icon/btp2/btp2.go     | 34 ++++++++++++++++++++++++++++------
 3 files changed, 83 insertions(+), 17 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 4c60d74..c067d5c 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"math/big"
 	"sort"
+	"sync"
 
 	"github.com/ethereum/go-ethereum"
 	"github.com/ethereum/go-ethereum/common"
@@ -68,6 +69,7 @@ type ethbr struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.RWMutex
 	rss         []*receiveStatus
 	seq         int64
 	startHeight int64
@@ -86,8 +88,10 @@ func NewEthBridge(src, dst btpTypes.BtpAddress, endpoint string, l log.Logger) *
 }
 
 func (e *ethbr) Start(bs *btpTypes.BMCLinkStatus) (<-chan link.ReceiveStatus, error) {
+	//the caller goes on with its status while this one is monitoring
+	mbs := *bs
 	go func() {
-		e.Monitoring(bs)
+		e.Monitoring(&mbs)
 	}()
 
 	return e.rsc, nil
@@ -98,13 +102,14 @@ func (e *ethbr) Stop() {
 }
 
 func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
-	return e.rss[len(e.rss)-1], nil
+	rss := e.receiveStatuses()
+	return rss[len(rss)-1], nil
 }
 
 func (e *ethbr) BuildBlockUpdate(bls *btpTypes.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	e.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -188,7 +193,24 @@ func (e *ethbr) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 	return nil, nil
 }
 
+func (e *ethbr) addReceiveStatus(rs *receiveStatus) {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
+
+	e.rss = append(e.rss, rs)
+}
+
+func (e *ethbr) receiveStatuses() []*receiveStatus {
+	e.rssMtx.RLock()
+	defer e.rssMtx.RUnlock()
+
+	return e.rss
+}
+
 func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
+
 	for len(e.rss) > 0 && e.rss[0].Height() <= bls.Verifier.Height && e.rss[0].Seq() <= bls.RxSeq {
 		e.rss = e.rss[1:]
 	}
@@ -258,7 +280,7 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 						return err
 					}
 
-					e.rss = append(e.rss, rs)
+					e.addReceiveStatus(rs)
 					e.l.Debugf("monitor info : Height:%d  EventCnt:%d LastSeq:%d ",
 						v.Height.Int64(), len(rps[len(rps)-1].Events), e.seq)
 
@@ -307,7 +329,7 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 }
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		if seq <= rs.Seq() && seq >= rs.firstSeq() {
 			return rs
 		}
@@ -316,7 +338,7 @@ func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (e *ethbr) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 63fff17..7f5d87a 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -3,6 +3,7 @@ package bridge
 import (
 	"encoding/base64"
 	"fmt"
+	"sync"
 
 	"github.com/gorilla/websocket"
 
@@ -39,6 +40,7 @@ type bridge struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.RWMutex
 	rss         []*receiveStatus
 	startHeight int64
 }
@@ -102,8 +104,10 @@ func (b *bridge) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, erro
 		return nil, err
 	}
 
+	//the caller goes on with its status while this one is monitoring
+	mbs := *bs
 	go func() {
-		b.Monitoring(bs)
+		b.Monitoring(&mbs)
 	}()
 
 	return b.rsc, nil
@@ -114,7 +118,8 @@ func (b *bridge) Stop() {
 }
 
 func (b *bridge) GetStatus() (link.ReceiveStatus, error) {
-	return b.rss[len(b.rss)-1], nil
+	rss := b.receiveStatuses()
+	return rss[len(rss)-1], nil
 }
 
 func (b *bridge) GetHeightForSeq(seq int64) int64 {
@@ -129,7 +134,7 @@ func (b *bridge) GetHeightForSeq(seq int64) int64 {
 func (b *bridge) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -250,7 +255,7 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 			if err != nil {
 				return err
 			}
-			b.rss = append(b.rss, rs)
+			b.addReceiveStatus(rs)
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 
 			b.rsc <- rs
@@ -259,14 +264,31 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 	}, scb, errCb)
 }
 
+func (b *bridge) addReceiveStatus(rs *receiveStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
+	b.rss = append(b.rss, rs)
+}
+
+func (b *bridge) receiveStatuses() []*receiveStatus {
+	b.rssMtx.RLock()
+	defer b.rssMtx.RUnlock()
+
+	return b.rss
+}
+
 func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
 	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
 		b.rss = b.rss[1:]
 	}
 }
 
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if seq <= rs.Seq() && seq > rs.Seq()-int64(len(rs.ReceiptProof().Events)) {
 			return rs
 		}
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index f299922..b2defc4 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -3,6 +3,7 @@ package btp2
 import (
 	"encoding/base64"
 	"fmt"
+	"sync"
 
 	"github.com/gorilla/websocket"
 
@@ -63,6 +64,7 @@ type btp2 struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.RWMutex
 	rss         []*receiveStatus
 	seq         int64
 	startHeight int64
@@ -134,8 +136,10 @@ func (b *btp2) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error)
 		return nil, err
 	}
 
+	//the caller goes on with its status while this one is monitoring
+	mbs := *bs
 	go func() {
-		b.Monitoring(bs)
+		b.Monitoring(&mbs)
 	}()
 
 	return b.rsc, nil
@@ -146,7 +150,8 @@ func (b *btp2) Stop() {
 }
 
 func (b *btp2) GetStatus() (link.ReceiveStatus, error) {
-	return b.rss[len(b.rss)-1], nil
+	rss := b.receiveStatuses()
+	return rss[len(rss)-1], nil
 }
 
 func (b *btp2) GetHeightForSeq(seq int64) int64 {
@@ -161,7 +166,7 @@ func (b *btp2) GetHeightForSeq(seq int64) int64 {
 func (b *btp2) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 
 		h, p, err := b.getBtpHeader(rs.Height())
 		if err != nil {
@@ -242,7 +247,24 @@ func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
 	return rb, nil
 }
 
+func (b *btp2) addReceiveStatus(rs *receiveStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
+	b.rss = append(b.rss, rs)
+}
+
+func (b *btp2) receiveStatuses() []*receiveStatus {
+	b.rssMtx.RLock()
+	defer b.rssMtx.RUnlock()
+
+	return b.rss
+}
+
 func (b *btp2) updateReceiveStatus(bs *types.BMCLinkStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
 	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
 		b.rss = b.rss[1:]
 	}
@@ -302,7 +324,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 				return err
 			}
 
-			b.rss = append(b.rss, rs)
+			b.addReceiveStatus(rs)
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 			b.rsc <- rs
 		}
@@ -311,7 +333,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 }
 
 func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if seq <= rs.Seq() && seq > rs.Seq()-int64(rs.MerkleBinaryTree().Len()) {
 			return rs
 		}
@@ -320,7 +342,7 @@ func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (b *btp2) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
-- 
2.43.0


From e73b71716bbbe456c3ef35f6aaf90eb0f13c3e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:47 +0000
Subject: [PATCH 30/77] fix: relay stops with an error when the source chain is
 no longer monitored

---
 chain/ethbr/receiver.go     | 11 +++++++++--
 chain/icon/bridge/bridge.go | 11 +++++++++--
 chain/icon/btp2/btp2.go     | 11 +++++++++--
 common/link/link.go         |  1 +
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index c067d5c..caf89e8 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -69,6 +69,7 @@ type ethbr struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rscOnce     sync.Once
 	rssMtx      sync.RWMutex
 	rss         []*receiveStatus
 	seq         int64
@@ -91,14 +92,20 @@ func (e *ethbr) Start(bs *btpTypes.BMCLinkStatus) (<-chan link.ReceiveStatus, er
 	//the caller goes on with its status while this one is monitoring
 	mbs := *bs
 	go func() {
-		e.Monitoring(&mbs)
+		err := e.Monitoring(&mbs)
+		e.l.Errorf("monitoring ended err:%+v", err)
+		e.close()
 	}()
 
 	return e.rsc, nil
 }
 
 func (e *ethbr) Stop() {
-	close(e.rsc)
+	e.close()
+}
+
+func (e *ethbr) close() {
+	e.rscOnce.Do(func() { close(e.rsc) })
 }
 
 func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 7f5d87a..566474e 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -40,6 +40,7 @@ type bridge struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rscOnce     sync.Once
 	rssMtx      sync.RWMutex
 	rss         []*receiveStatus
 	startHeight int64
@@ -107,14 +108,20 @@ func (b *bridge) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, erro
 	//the caller goes on with its status while this one is monitoring
 	mbs := *bs
 	go func() {
-		b.Monitoring(&mbs)
+		err := b.Monitoring(&mbs)
+		b.l.Errorf("monitoring ended err:%+v", err)
+		b.close()
 	}()
 
 	return b.rsc, nil
 }
 
 func (b *bridge) Stop() {
-	close(b.rsc)
+	b.close()
+}
+
+func (b *bridge) close() {
+	b.rscOnce.Do(func() { close(b.rsc) })
 }
 
 func (b *bridge) GetStatus() (link.ReceiveStatus, error) {
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index b2defc4..54bc988 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -64,6 +64,7 @@ type btp2 struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rscOnce     sync.Once
 	rssMtx      sync.RWMutex
 	rss         []*receiveStatus
 	seq         int64
@@ -139,14 +140,20 @@ func (b *btp2) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error)
 	//the caller goes on with its status while this one is monitoring
 	mbs := *bs
 	go func() {
-		b.Monitoring(&mbs)
+		err := b.Monitoring(&mbs)
+		b.l.Errorf("monitoring ended err:%+v", err)
+		b.close()
 	}()
 
 	return b.rsc, nil
 }
 
 func (b *btp2) Stop() {
-	close(b.rsc)
+	b.close()
+}
+
+func (b *btp2) close() {
+	b.rscOnce.Do(func() { close(b.rsc) })
 }
 
 func (b *btp2) GetStatus() (link.ReceiveStatus, error) {
diff --git a/common/link/link.go b/common/link/link.go
index 40bd2fb..955feda 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -147,6 +147,7 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 				return
 			}
 		}
+		errCh <- fmt.Errorf("receiver is closed")
 	}()
 }
 
-- 
2.43.0


From df1dc83e3cc3b64121c5409a27368637d7ef191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:49 +0000
Subject: [PATCH 31/77] fix: chain/icon: a BTP block that could not be received
 is not skipped

---
 chain/icon/client/client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index d68049d..bd8b407 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -320,6 +320,8 @@ func (c *Client) MonitorBTP(p *BTPRequest, cb func(conn *websocket.Conn, v *BTPN
 		case *BTPNotification:
 			if err := cb(conn, t); err != nil {
 				c.l.Debugf("MonitorBTP callback return err:%+v", err)
+				//the block was not taken, going on would skip it
+				errCb(conn, err)
 			}
 		case WSEvent:
 			c.l.Debugf("MonitorBTP WSEvent %s %+v", conn.LocalAddr().String(), t)
-- 
2.43.0


From 7d0b1939eab56406da9b14df4d68739f431c808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:52 +0000
Subject: [PATCH 32/77] fix: cmd/relay: an error of a link that stops early is
 not lost

---
 cmd/relay/linkfatory.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cmd/relay/linkfatory.go b/cmd/relay/linkfatory.go
index f5d80fd..6a3e0b9 100644
--- a/cmd/relay/linkfatory.go
+++ b/cmd/relay/linkfatory.go
@@ -89,10 +89,7 @@ func newLink(s string, cfg chain.Config, l log.Logger, w wallet.Wallet, linkErrC
 
 	go func() {
 		err := lk.Start(newSender(cfg.Dst.Address.BlockChain(), cfg.Src, cfg.Dst, w, l))
-		select {
-		case linkErrCh <- err:
-		default:
-		}
+		linkErrCh <- err
 	}()
 
 	return lk, nil
-- 
2.43.0


From 690791fd16c68bbc2425568a876abe68292f62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:40 +0000
Subject: [PATCH 33/77] fix: chain/icon: blocks buffered behind a block that
 was not received are not taken

---
 chain/icon/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index bd8b407..9fd2728 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -321,7 +321,7 @@ func (c *Client) MonitorBTP(p *BTPRequest, cb func(conn *websocket.Conn, v *BTPN
 			if err := cb(conn, t); err != nil {
 				c.l.Debugf("MonitorBTP callback return err:%+v", err)
 				//the block was not taken, going on would skip it
-				errCb(conn, err)
+				c.CloseMonitor(conn)
 			}
 		case WSEvent:
 			c.l.Debugf("MonitorBTP WSEvent %s %+v", conn.LocalAddr().String(), t)
-- 
2.43.0


From 47d70eb4bf7050d4c5b556ea610d2c5610089650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:12 +0000
Subject: [PATCH 34/77] fix: relay again what the destination could not verify

---
 chain/ethbr/receiver.go     |  8 +++++-
 chain/icon/bridge/bridge.go |  8 +++++-
 chain/icon/btp2/btp2.go     |  9 +++++--
 common/link/link.go         | 51 +++++++++----------------------------
 common/link/type.go         |  3 +++
 5 files changed, 36 insertions(+), 43 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index caf89e8..6c1cae9 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -114,9 +114,11 @@ func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
 }
 
 func (e *ethbr) BuildBlockUpdate(bls *btpTypes.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
-	e.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
 	for _, rs := range e.receiveStatuses() {
+		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
+			continue
+		}
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -214,6 +216,10 @@ func (e *ethbr) receiveStatuses() []*receiveStatus {
 	return e.rss
 }
 
+func (e *ethbr) Finalized(bls *btpTypes.BMCLinkStatus) {
+	e.updateReceiveStatus(bls)
+}
+
 func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
 	e.rssMtx.Lock()
 	defer e.rssMtx.Unlock()
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 566474e..0a175a6 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -139,9 +139,11 @@ func (b *bridge) GetHeightForSeq(seq int64) int64 {
 }
 
 func (b *bridge) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
-	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
 	for _, rs := range b.receiveStatuses() {
+		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
+			continue
+		}
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -285,6 +287,10 @@ func (b *bridge) receiveStatuses() []*receiveStatus {
 	return b.rss
 }
 
+func (b *bridge) Finalized(bls *types.BMCLinkStatus) {
+	b.updateReceiveStatus(bls)
+}
+
 func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
 	b.rssMtx.Lock()
 	defer b.rssMtx.Unlock()
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 54bc988..6784b0a 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -171,10 +171,11 @@ func (b *btp2) GetHeightForSeq(seq int64) int64 {
 }
 
 func (b *btp2) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
-	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
 	for _, rs := range b.receiveStatuses() {
-
+		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
+			continue
+		}
 		h, p, err := b.getBtpHeader(rs.Height())
 		if err != nil {
 			return nil, err
@@ -268,6 +269,10 @@ func (b *btp2) receiveStatuses() []*receiveStatus {
 	return b.rss
 }
 
+func (b *btp2) Finalized(bls *types.BMCLinkStatus) {
+	b.updateReceiveStatus(bls)
+}
+
 func (b *btp2) updateReceiveStatus(bs *types.BMCLinkStatus) {
 	b.rssMtx.Lock()
 	defer b.rssMtx.Unlock()
diff --git a/common/link/link.go b/common/link/link.go
index 955feda..4c3b221 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -169,6 +169,7 @@ func (l *Link) senderChannel(errCh chan error) {
 				l.rmsMtx.Lock()
 				l.clearRelayMessage(t)
 				l.clearReceiveStatus(t)
+				l.r.Finalized(t)
 				l.rmsMtx.Unlock()
 			default:
 				//TODO exception
@@ -252,48 +253,17 @@ func (l *Link) getHeader(bs *types.BMCLinkStatus) ([]BlockUpdate, error) {
 	return l.r.BuildBlockUpdate(bs, l.limitSize-l.rmi.size)
 }
 
+// checkStatus relays the rest of the messages of the block the destination
+// already knows
 func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
-	lastSeq := bls.RxSeq
-	for {
-		h := l.r.GetHeightForSeq(lastSeq)
-		if h == 0 {
-			break
-		}
-		if h == bls.Verifier.Height {
-			mp, err := l.r.BuildMessageProof(bls, l.limitSize-l.rmi.size)
-			if err != nil {
-				return err
-			}
-
-			if mp == nil {
-				break
-			}
-
-			if mp.Len() != 0 || bls.RxSeq < mp.LastSeqNum() {
-				l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
-				l.rmi.size += mp.Len()
-				if err = mp.UpdateBMCLinkStatus(bls); err != nil {
-					return err
-				}
-			}
-			break
-		} else if h < bls.Verifier.Height {
-			err := l.buildProof(bls, nil)
-			if err != nil {
-				return err
-			}
-			if bls.RxSeq <= lastSeq {
-				break
-			}
-			lastSeq = bls.RxSeq
-		} else {
-			break
-		}
+	h := l.r.GetHeightForSeq(bls.RxSeq + 1)
+	if h == 0 || h > bls.Verifier.Height {
+		return nil
 	}
-	if l.rmi.size > 0 {
-		return l.sendRelayMessage(bls)
+	if err := l.buildProof(bls, nil); err != nil {
+		return err
 	}
-	return nil
+	return l.sendRelayMessage(bls)
 }
 
 func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
@@ -485,6 +455,9 @@ func (l *Link) result(rr *types.RelayResult) error {
 		if err != nil {
 			return err
 		}
+		if err = l.checkStatus(bls); err != nil {
+			return err
+		}
 		return l.BuildRelayMessage(bls)
 	case BMVAlreadyVerified:
 		l.removeRelayMessage(rr.Id)
diff --git a/common/link/type.go b/common/link/type.go
index a939b20..9b0ab4e 100644
--- a/common/link/type.go
+++ b/common/link/type.go
@@ -65,4 +65,7 @@ type Receiver interface {
 	BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (MessageProof, error)
 	GetHeightForSeq(seq int64) int64
 	BuildRelayMessage(rmis []RelayMessageItem) ([]byte, error)
+	// Finalized tells the status the destination has reached, blocks before
+	// it are not asked for any more
+	Finalized(bls *types.BMCLinkStatus)
 }
-- 
2.43.0


From 7a7b8a521a0b4c3b21bc6d7667405c88af5ccbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:14 +0000
Subject: [PATCH 35/77] fix: common/link: go on after the destination when
 another relay is ahead

---
 common/link/link.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 4c3b221..ada833d 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -73,6 +73,7 @@ type Link struct {
 	rms       []*relayMessage
 	rss       []ReceiveStatus
 	rmi       *relayMessageItem
+	bls       *types.BMCLinkStatus //of what was relayed
 	limitSize int64
 	cfg       *chain.Config //TODO config refactoring
 
@@ -125,7 +126,7 @@ func (l *Link) Stop() {
 }
 
 func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
-	once := new(sync.Once)
+	l.bls = bls
 	go func() {
 		rsc, err := l.r.Start(bls)
 		if err != nil {
@@ -134,11 +135,8 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 		}
 		for rs := range rsc {
 			l.rmsMtx.Lock()
-			once.Do(func() {
-				err = l.checkStatus(bls)
-			})
-			if err == nil {
-				l.rss = append(l.rss, rs)
+			l.rss = append(l.rss, rs)
+			if err = l.checkStatus(bls); err == nil {
 				err = l.BuildRelayMessage(bls)
 			}
 			l.rmsMtx.Unlock()
@@ -170,6 +168,7 @@ func (l *Link) senderChannel(errCh chan error) {
 				l.clearRelayMessage(t)
 				l.clearReceiveStatus(t)
 				l.r.Finalized(t)
+				l.followStatus(t)
 				l.rmsMtx.Unlock()
 			default:
 				//TODO exception
@@ -179,6 +178,14 @@ func (l *Link) senderChannel(errCh chan error) {
 
 }
 
+// followStatus skips what the destination has got from another relay
+func (l *Link) followStatus(bls *types.BMCLinkStatus) {
+	if l.bls != nil && l.bls.Verifier.Height <= bls.Verifier.Height && l.bls.RxSeq <= bls.RxSeq {
+		l.bls.Verifier.Height = bls.Verifier.Height
+		l.bls.RxSeq = bls.RxSeq
+	}
+}
+
 func (l *Link) clearRelayMessage(bls *types.BMCLinkStatus) {
 	for len(l.rms) > 0 && l.rms[0].bls.Verifier.Height <= bls.Verifier.Height && l.rms[0].bls.RxSeq <= bls.RxSeq {
 		l.rms = l.rms[1:]
-- 
2.43.0


From cbf636973fff204f3f74d8ffb17382bf883c2204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:24 +0000
Subject: [PATCH 36/77] fix: common/link: guard the status against a concurrent
 one of the destination

---
 common/link/link.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index ada833d..2a20db8 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -126,9 +126,12 @@ func (l *Link) Stop() {
 }
 
 func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
+	start := *bls
+	l.rmsMtx.Lock()
 	l.bls = bls
+	l.rmsMtx.Unlock()
 	go func() {
-		rsc, err := l.r.Start(bls)
+		rsc, err := l.r.Start(&start)
 		if err != nil {
 			errCh <- err
 			return
-- 
2.43.0


From a44510fef3686ccb6b79fc11a4275004ea79e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:04 +0000
Subject: [PATCH 37/77] fix: chain/icon/btp2: relay the rest of the block the
 destination has got in part

A relay that starts while some messages of the last relayed block are
still missing at the destination monitored from the block after it, and
counted the sequences on from the destination's, so these messages were
never relayed. Start at that block and take the sequences from the
header, as bridge does.
---
 chain/icon/btp2/btp2.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 6784b0a..354c354 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -67,7 +67,6 @@ type btp2 struct {
 	rscOnce     sync.Once
 	rssMtx      sync.RWMutex
 	rss         []*receiveStatus
-	seq         int64
 	startHeight int64
 }
 
@@ -288,7 +287,7 @@ func (b *btp2) Monitoring(bs *types.BMCLinkStatus) error {
 	}
 
 	req := &client.BTPRequest{
-		Height:    client.NewHexInt(bs.Verifier.Height + 1),
+		Height:    client.NewHexInt(bs.Verifier.Height),
 		NetworkID: client.NewHexInt(b.nid),
 		ProofFlag: client.NewHexInt(0),
 	}
@@ -310,8 +309,9 @@ func (b *btp2) Monitoring(bs *types.BMCLinkStatus) error {
 }
 
 func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
-	if bs.RxSeq != 0 {
-		b.seq = bs.RxSeq
+	offset, err := b.c.GetBTPLinkOffset(b.src, b.dst)
+	if err != nil {
+		return err
 	}
 
 	return b.c.MonitorBTP(req, func(conn *websocket.Conn, v *client.BTPNotification) error {
@@ -330,8 +330,12 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 				return err
 			}
 
-			b.seq += int64(len(msgs))
-			rs, err := newReceiveStatus(bh.MainHeight, b.seq, msgs)
+			seq := offset + bh.UpdateNumber>>1 + int64(len(msgs))
+			if bh.MainHeight <= bs.Verifier.Height && seq <= bs.RxSeq {
+				//the destination has all of its messages
+				return nil
+			}
+			rs, err := newReceiveStatus(bh.MainHeight, seq, msgs)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 1057ff09643a0e96ec519f4b630b056678dacc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:35 +0000
Subject: [PATCH 38/77] fix: chain/icon: a system error with a short message is
 not a panic

---
 chain/icon/client/client.go | 13 +++++++++++--
 chain/icon/sender.go        |  3 +--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index 9fd2728..0b95b09 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -146,7 +146,7 @@ txLoop:
 				case *jsonrpc.Error:
 					switch re.Code {
 					case JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+						if subEc, err := SubErrorCodeOf(re); err == nil {
 							switch subEc {
 							case 2000: //DuplicateTransactionError
 								//Ignore
@@ -516,6 +516,15 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	}
 }
 
+// SubErrorCodeOf returns the code of the system error, which leads the message
+// as in "E2000:...".
+func SubErrorCodeOf(je *jsonrpc.Error) (int64, error) {
+	if len(je.Message) < 5 {
+		return 0, fmt.Errorf("no sub error code in message:%s", je.Message)
+	}
+	return strconv.ParseInt(je.Message[1:5], 0, 32)
+}
+
 func MapError(err error) error {
 	if err != nil {
 		switch re := err.(type) {
@@ -525,7 +534,7 @@ func MapError(err error) error {
 			case JsonrpcErrorCodeTxPoolOverflow:
 				return ErrSendFailByOverflow
 			case JsonrpcErrorCodeSystem:
-				if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+				if subEc, err := SubErrorCodeOf(re); err == nil {
 					//TODO return JsonRPC Error
 					switch subEc {
 					case ExpiredTransactionError:
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index eed664c..a64a495 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -21,7 +21,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
-	"strconv"
 	"time"
 
 	"github.com/icon-project/btp/chain/icon/client"
@@ -236,7 +235,7 @@ SignLoop:
 						<-time.After(DefaultRelayReSendInterval)
 						continue SendLoop
 					case client.JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(je.Message[1:5], 0, 32); err == nil {
+						if subEc, err := client.SubErrorCodeOf(je); err == nil {
 							switch subEc {
 							case client.DuplicateTransactionError:
 								s.l.Debugf("DuplicateTransactionError txh:%v", txh)
-- 
2.43.0


From faf55e7d695a80e05e95601cd87a9794f20e4e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 39/77] fix: chain/icon: wait for the result of a duplicate
 transaction by its hash

---
 chain/icon/client/client.go | 4 ++--
 chain/icon/sender.go        | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index 0b95b09..4d2dda3 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -150,8 +150,8 @@ txLoop:
 							switch subEc {
 							case 2000: //DuplicateTransactionError
 								//Ignore
-								c.l.Debugf("DuplicateTransactionError txh:%v", txh)
-								thp.Hash = *txh
+								c.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
+								thp.Hash = p.TxHash
 								break txLoop
 							}
 						}
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index a64a495..9c25825 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -238,7 +238,8 @@ SignLoop:
 						if subEc, err := client.SubErrorCodeOf(je); err == nil {
 							switch subEc {
 							case client.DuplicateTransactionError:
-								s.l.Debugf("DuplicateTransactionError txh:%v", txh)
+								s.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
+								thp.Hash = p.TxHash
 								return thp, nil
 							case client.ExpiredTransactionError:
 								continue SignLoop
-- 
2.43.0


From 9e0d2b2209dc5a26f81d841fc5ebbcbd5330b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:40 +0000
Subject: [PATCH 40/77] fix: chain/icon: a failed transaction without the
 failure is not a panic

---
 chain/icon/sender.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 9c25825..876e562 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -273,6 +273,9 @@ func (s *sender) GetResult(txh *client.TransactionHashParam) (*client.Transactio
 func mapErrorWithTransactionResult(txr *client.TransactionResult, err error) error {
 	err = client.MapError(err)
 	if err == nil && txr != nil && txr.Status != client.ResultStatusSuccess {
+		if txr.Failure == nil {
+			return fmt.Errorf("failure without code, status:%s", txr.Status)
+		}
 		fc, _ := txr.Failure.CodeValue.Value()
 		if fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd {
 			err = fmt.Errorf("failure with code:%s, message:%s",
-- 
2.43.0


From 7d7d892e85b722ab9bc9b103c48168f827ad54d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:16 +0000
Subject: [PATCH 41/77] fix: chain/ethbr: a reverted transaction that would
 succeed now is not a panic

---
 chain/ethbr/client/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index a39b547..8936e56 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -349,7 +349,9 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 		Data:     tx.Data(),
 	}
 
-	_, err = c.ethClient.CallContract(context.Background(), msg, nil)
+	if _, err = c.ethClient.CallContract(context.Background(), msg, nil); err == nil {
+		return "", fmt.Errorf("no revert message of the transaction:%s", hash)
+	}
 	return err.Error(), nil
 
 }
-- 
2.43.0


From 1744b8f071dd13faa6a73c2031efa6c45bfd655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:29 +0000
Subject: [PATCH 42/77] fix: common/mbt: a proof node without hash is refused,
 not a crash

---
 common/mbt/proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/mbt/proof.go b/common/mbt/proof.go
index 4616107..e87622c 100644
--- a/common/mbt/proof.go
+++ b/common/mbt/proof.go
@@ -137,6 +137,10 @@ func (m *MerkleBinaryTree) Proof(begin, end int) (*MerkleBinaryTreeProof, error)
 func (p *MerkleBinaryTreeProof) Root() (h []byte, left int, total int, err error) {
 	r := &node{hashFunc: p.hashFunc}
 	for _, n := range p.ProofInLeft {
+		if len(n.Value) == 0 {
+			err = fmt.Errorf("hash of proof node should not be empty")
+			return
+		}
 		r = r.lazyAdd(n.NumOfLeaf, n.Value)
 		left += n.NumOfLeaf
 	}
@@ -145,6 +149,10 @@ func (p *MerkleBinaryTreeProof) Root() (h []byte, left int, total int, err error
 		total++
 	}
 	for _, n := range p.ProofInRight {
+		if len(n.Value) == 0 {
+			err = fmt.Errorf("hash of proof node should not be empty")
+			return
+		}
 		r = r.lazyAdd(n.NumOfLeaf, n.Value)
 		total += n.NumOfLeaf
 	}
-- 
2.43.0


From 92edb64b39738f5bbfca7a5323620fe5c96da212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:34 +0000
Subject: [PATCH 43/77] fix: common/crypto: a signature in VRS form is parsed,
 not a crash

---
 common/crypto/signature.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/crypto/signature.go b/common/crypto/signature.go
index 09e91ed..67ac376 100644
--- a/common/crypto/signature.go
+++ b/common/crypto/signature.go
@@ -71,7 +71,8 @@ func ParseSignatureVRS(sig []byte) (*Signature, error) {
 	var s Signature
 	s.bytes = append(s.bytes, sig[1:33]...)
 	s.bytes = append(s.bytes, sig[33:]...)
-	s.bytes[64] = sig[0]
+	s.bytes = append(s.bytes, sig[0])
+	s.hasV = true
 	return &s, nil
 }
 
-- 
2.43.0


From 44cf900dc49c50fb01a8ebbd62427ed84eb2119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:37 +0000
Subject: [PATCH 44/77] fix: common/crypto: a number that is no private key is
 refused, not a later crash

---
 common/crypto/key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/crypto/key.go b/common/crypto/key.go
index 3a447f3..5fb9a1a 100644
--- a/common/crypto/key.go
+++ b/common/crypto/key.go
@@ -133,6 +133,9 @@ func ParsePrivateKey(b []byte) (*PrivateKey, error) {
 	if len(b) != PrivateKeyLen {
 		return nil, errors.New("InvalidKeyLength")
 	}
+	if secp256k1.VerifySeckey(b) != 1 {
+		return nil, errors.New("InvalidKey")
+	}
 	b2 := make([]byte, len(b))
 	copy(b2, b)
 	return &PrivateKey{b2}, nil
-- 
2.43.0


From fc1eb0ec52a58ce8a802cb7a1aecd123dda33350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:39 +0000
Subject: [PATCH 45/77] fix: common/wallet: a keystore with a short derived key
 is refused, not a crash

---
 common/wallet/keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index 118bb15..a58a6cf 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -198,6 +198,9 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 	if err != nil {
 		return nil, err
 	}
+	if len(key) < 32 {
+		return nil, errors.Errorf("InvalidKDFParams(dklen=%d)", kdfParams.DKLen)
+	}
 
 	cipheredBytes := ksData.Crypto.CipherText.Bytes()
 
-- 
2.43.0


From e3c17d6478827396a122d54f0c73e646fc537fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:42 +0000
Subject: [PATCH 46/77] fix: common/wallet: a keystore with an IV of wrong
 length is refused, not a crash

---
 common/wallet/keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index a58a6cf..60b0ca7 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -219,6 +219,9 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 
 	secretBytes := make([]byte, len(cipheredBytes))
 
+	if len(cipherParams.IV) != block.BlockSize() {
+		return nil, errors.Errorf("InvalidCipherParams(iv=%x)", cipherParams.IV.Bytes())
+	}
 	stream := cipher.NewCTR(block, cipherParams.IV.Bytes())
 	stream.XORKeyStream(secretBytes, cipheredBytes)
 
-- 
2.43.0


From de5798419bc8d9c0706e0a0d8090e79858fbd6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:44 +0000
Subject: [PATCH 47/77] fix: cmd/relay: an unreadable secret of the source is
 reported, not taken as no password

---
 cmd/relay/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 6ec705e..b4eddee 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -82,6 +82,9 @@ func (c *Config) resolvePassword(keySecret, keyStorePass string) ([]byte, error)
 
 func (c *Config) EnsureWallet() error {
 	srcPw, err := c.resolvePassword(c.Src.KeySecret, c.Src.KeyStorePass)
+	if err != nil {
+		return err
+	}
 	dstPw, err := c.resolvePassword(c.Dst.KeySecret, c.Dst.KeyStorePass)
 	if err != nil {
 		return err
-- 
2.43.0


From cdab62c2c8d3673563a9a5a11d3c120496900bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:41 +0000
Subject: [PATCH 48/77] fix: common/wallet: a keystore with a negative derived
 key length is refused, not a crash

---
 common/wallet/keystore.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index 60b0ca7..9d49975 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -194,13 +194,13 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 		return nil, err
 	}
 
+	if kdfParams.DKLen < 32 {
+		return nil, errors.Errorf("InvalidKDFParams(dklen=%d)", kdfParams.DKLen)
+	}
 	key, err := kdfParams.Key(pw)
 	if err != nil {
 		return nil, err
 	}
-	if len(key) < 32 {
-		return nil, errors.Errorf("InvalidKDFParams(dklen=%d)", kdfParams.DKLen)
-	}
 
 	cipheredBytes := ksData.Crypto.CipherText.Bytes()
 
-- 
2.43.0


From 881db87a4e5f607ba368139d85b9ff9ed9e3786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 49/77] fix: common/jsonrpc: an answer without error or result
 is an error, not a crash

---
 common/jsonrpc/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/jsonrpc/client.go b/common/jsonrpc/client.go
index d6f4d3b..89270ea 100644
--- a/common/jsonrpc/client.go
+++ b/common/jsonrpc/client.go
@@ -78,7 +78,7 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 				if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr != nil {
 					err = fmt.Errorf("fail to decode response body err:%+v, httpErr:%+v, httpResp:%+v, responseBody:%s",
 						dErr, err, resp, string(hErr.Response()))
-				} else {
+				} else if jrResp != nil && jrResp.Error != nil {
 					err = jrResp.Error
 					//fmt.Printf("jrResp.Error:%+v in HttpError", err)
 				}
@@ -93,6 +93,10 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 			err, resp)
 		return
 	}
+	if jrResp == nil {
+		err = fmt.Errorf("empty response body, jsonrpcResp:%+v", resp)
+		return
+	}
 	if jrResp.Error != nil {
 		err = jrResp.Error
 		return
-- 
2.43.0


From 8ffb04bf60144516ddada38056efb15d76cbc4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:29 +0000
Subject: [PATCH 50/77] fix: common/mpt: a node with an empty header is
 refused, not a crash

---
 common/mpt/mpt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/mpt/mpt.go b/common/mpt/mpt.go
index 635d91f..11d55d4 100644
--- a/common/mpt/mpt.go
+++ b/common/mpt/mpt.go
@@ -39,6 +39,9 @@ func (n *MptNode) RLPDecodeSelf(d codec.Decoder) error {
 	}
 	switch len(bl) {
 	case 2:
+		if len(bl[0]) == 0 {
+			return fmt.Errorf("empty header")
+		}
 		n.Header = &MptHeader{bl[0][0], bl[0][1:]}
 		if n.Header.IsLeaf() {
 			n.Data = bl[1]
-- 
2.43.0


From cdb873ee205b4847821db0efddb5c3e0a1f31e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:32 +0000
Subject: [PATCH 51/77] fix: common/mpt: a proof that does not end with a leaf
 is refused, not a crash

---
 common/mpt/mpt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/mpt/mpt.go b/common/mpt/mpt.go
index 11d55d4..90fcec2 100644
--- a/common/mpt/mpt.go
+++ b/common/mpt/mpt.go
@@ -71,6 +71,9 @@ func (mp *MptProof) Leaf() *MptNode {
 }
 
 func NewMptProof(bl [][]byte) (*MptProof, error) {
+	if len(bl) == 0 {
+		return nil, fmt.Errorf("empty proof")
+	}
 	mp := &MptProof{
 		Nodes:  make([]MptNode, len(bl)),
 		Hashes: make([][]byte, len(bl)),
@@ -85,6 +88,9 @@ func NewMptProof(bl [][]byte) (*MptProof, error) {
 Loop:
 	for i := 0; i < len(bl); i++ {
 		mn := mp.Nodes[i]
+		if i == len(bl)-1 && (mn.Header == nil || !mn.Header.IsLeaf()) {
+			return nil, fmt.Errorf("invalid node[%d], last one is not leaf", i)
+		}
 		if mn.Header != nil {
 			if !mn.Header.IsLeaf() {
 				ml := mn.Link[0]
-- 
2.43.0


From 7371eb9efd07332ef6db92785f0eea31c014ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:35 +0000
Subject: [PATCH 52/77] fix: common/mpt: nodes after the leaf, which nothing
 links to, are refused

---
 common/mpt/mpt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/mpt/mpt.go b/common/mpt/mpt.go
index 90fcec2..bea644e 100644
--- a/common/mpt/mpt.go
+++ b/common/mpt/mpt.go
@@ -98,6 +98,8 @@ Loop:
 					return nil, fmt.Errorf("invalid link[%d] hash[%d]", i, i+1)
 				}
 				ml.ptr = &mp.Nodes[i+1]
+			} else if i < len(bl)-1 {
+				return nil, fmt.Errorf("invalid leaf[%d], not linked node hash:%x", i, mp.Hashes[i+1])
 			}
 		} else {
 			for _, ml := range mn.Link {
-- 
2.43.0


From 397f8cd42ed38053f65746e1ab9d67f8167d891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:03 +0000
Subject: [PATCH 53/77] fix: chain/icon: a hex text without 0x is refused, not
 a crash or cut

---
 chain/icon/client/type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chain/icon/client/type.go b/chain/icon/client/type.go
index d260e31..4e89e59 100644
--- a/chain/icon/client/type.go
+++ b/chain/icon/client/type.go
@@ -21,6 +21,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math/big"
+	"strings"
 
 	"github.com/icon-project/btp/common/intconv"
 	"github.com/icon-project/btp/common/jsonrpc"
@@ -294,6 +295,9 @@ func (hs HexBytes) Value() ([]byte, error) {
 	if hs == "" {
 		return nil, nil
 	}
+	if !strings.HasPrefix(string(hs), "0x") {
+		return nil, fmt.Errorf("invalid prefix %s", string(hs))
+	}
 	return hex.DecodeString(string(hs[2:]))
 }
 func NewHexBytes(b []byte) HexBytes {
-- 
2.43.0


From 6f79db15a9cb7c135f33005a7d7ddd91bd2a4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:06 +0000
Subject: [PATCH 54/77] fix: chain/icon: an address text of wrong length is
 refused, not a crash

---
 chain/icon/client/type.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chain/icon/client/type.go b/chain/icon/client/type.go
index 4e89e59..8424b1c 100644
--- a/chain/icon/client/type.go
+++ b/chain/icon/client/type.go
@@ -330,6 +330,9 @@ func NewHexInt(v int64) HexInt {
 type Address string
 
 func (a Address) Value() ([]byte, error) {
+	if len(a) != 42 {
+		return nil, fmt.Errorf("invalid length %d", len(a))
+	}
 	var b [21]byte
 	switch a[:2] {
 	case "cx":
-- 
2.43.0


From 8e3edf1b37010974571268ff1cdf24c7d98e8b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:09 +0000
Subject: [PATCH 55/77] fix: chain/ethbr: a hex text without 0x is refused, not
 a crash or cut

---
 chain/ethbr/client/type.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chain/ethbr/client/type.go b/chain/ethbr/client/type.go
index b5dc8b9..97e083d 100644
--- a/chain/ethbr/client/type.go
+++ b/chain/ethbr/client/type.go
@@ -302,6 +302,9 @@ func (hs HexBytes) Value() ([]byte, error) {
 	if hs == "" {
 		return nil, nil
 	}
+	if !strings.HasPrefix(string(hs), "0x") {
+		return nil, fmt.Errorf("invalid prefix %s", string(hs))
+	}
 	return hex.DecodeString(string(hs[2:]))
 }
 
-- 
2.43.0


From 7e5de6eb4bbb9125aa71111e6c4377a8d9aebd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:11 +0000
Subject: [PATCH 56/77] fix: chain/ethbr: an address text of wrong length is
 refused, not a crash

---
 chain/ethbr/client/type.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chain/ethbr/client/type.go b/chain/ethbr/client/type.go
index 97e083d..1087196 100644
--- a/chain/ethbr/client/type.go
+++ b/chain/ethbr/client/type.go
@@ -332,6 +332,9 @@ func (i HexInt) Int() (int, error) {
 type Address string
 
 func (a Address) Value() ([]byte, error) {
+	if len(a) != 42 {
+		return nil, fmt.Errorf("invalid length %d", len(a))
+	}
 	var b [21]byte
 	switch a[:2] {
 	case "cx":
-- 
2.43.0


From 13e72abfdaa1ed737869045b5c92a8c90c2deb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:10 +0000
Subject: [PATCH 57/77] fix: pyscore/mta: a hash is verified at its own height
 only

---
 pyscore/lib/icon/mta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyscore/lib/icon/mta.py b/pyscore/lib/icon/mta.py
index 6f84f9a..62f2196 100644
--- a/pyscore/lib/icon/mta.py
+++ b/pyscore/lib/icon/mta.py
@@ -171,6 +171,8 @@ class MerkleTreeAccumulator(Serializable):
                 root_idx = i
                 break
             idx -= bit_flag
+        else:
+            raise MTAException("given height is out of range")
         return root_idx
 
     @staticmethod
@@ -187,6 +189,8 @@ class MerkleTreeAccumulator(Serializable):
 
     def verify(self, witness: list, _hash: bytes, height: int, at: int):
         if self.__height == at:
+            if self.get_root_idx_by_height(height) != len(witness):
+                raise MTAException("invalid witness length")
             root = self.get_root(len(witness))
             self._verify(witness, root, _hash, height - 1 - self.__offset)
         elif self.__height < at:
-- 
2.43.0


From 132df5fa97020f610b97cc997e6906e095018feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:13 +0000
Subject: [PATCH 58/77] fix: pyscore/mta: a newer witness is verified at the
 position of the height

---
 pyscore/lib/icon/mta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/mta.py b/pyscore/lib/icon/mta.py
index 62f2196..578c782 100644
--- a/pyscore/lib/icon/mta.py
+++ b/pyscore/lib/icon/mta.py
@@ -203,7 +203,7 @@ class MerkleTreeAccumulator(Serializable):
 
             root_idx = self.get_root_idx_by_height(height)
             root = self.get_root(root_idx)
-            MerkleTreeAccumulator._verify(witness[:root_idx], root, _hash, height)
+            MerkleTreeAccumulator._verify(witness[:root_idx], root, _hash, height - 1 - self.__offset)
         else:
             # acc: new, wit: old
             # rebuild witness is not supported, but able to verify by cache if enabled
-- 
2.43.0


From 3f1fedacc1b50b9b3767a829dd491279fc046f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:15 +0000
Subject: [PATCH 59/77] fix: pyscore/mta: a newer witness that is too short is
 refused

---
 pyscore/lib/icon/mta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyscore/lib/icon/mta.py b/pyscore/lib/icon/mta.py
index 578c782..c13ec81 100644
--- a/pyscore/lib/icon/mta.py
+++ b/pyscore/lib/icon/mta.py
@@ -202,6 +202,8 @@ class MerkleTreeAccumulator(Serializable):
                 raise MTAException("given witness for newer node")
 
             root_idx = self.get_root_idx_by_height(height)
+            if len(witness) < root_idx:
+                raise MTAException("invalid witness length")
             root = self.get_root(root_idx)
             MerkleTreeAccumulator._verify(witness[:root_idx], root, _hash, height - 1 - self.__offset)
         else:
-- 
2.43.0


From 628a7a4e372b838ea853a5c8f92b3fe1275b7ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:14 +0000
Subject: [PATCH 60/77] fix: pyscore/mpt: a leaf with a longer path than the
 key is refused

---
 pyscore/lib/icon/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/mpt.py b/pyscore/lib/icon/mpt.py
index 9682e2f..ba602be 100644
--- a/pyscore/lib/icon/mpt.py
+++ b/pyscore/lib/icon/mpt.py
@@ -96,7 +96,7 @@ class MerklePatriciaTree(object):
                     return node.prove(nibbles[1:], proofs)
             else:
                 cnt = MerklePatriciaTree.match_nibbles(self.__nibbles, nibbles)
-                if cnt < len(nibbles):
+                if cnt < len(nibbles) or cnt < len(self.__nibbles):
                     raise MPTException("mismatch nibbles on leaf")
                 return self.__data
 
-- 
2.43.0


From e1b15e2c4b1ac791cd4baf102560d486727fff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:16 +0000
Subject: [PATCH 61/77] fix: pyscore/mpt: the value of a branch is told
 decoded, and none is refused

---
 pyscore/lib/icon/mpt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/mpt.py b/pyscore/lib/icon/mpt.py
index ba602be..0259c8b 100644
--- a/pyscore/lib/icon/mpt.py
+++ b/pyscore/lib/icon/mpt.py
@@ -62,7 +62,7 @@ class MerklePatriciaTree(object):
                             else:
                                 node = None
                         self.__children.append(node)
-                    self.__data = unpacked[16]
+                    self.__data = rlp_decode(unpacked[16])
                 else:
                     raise MPTException("invalid list length")
 
@@ -90,6 +90,8 @@ class MerklePatriciaTree(object):
                 return self.__children[0].prove(nibbles[cnt:], proofs)
             elif self.is_branch():
                 if len(nibbles) == 0:
+                    if len(self.__data) == 0:
+                        raise MPTException("no value on branch")
                     return self.__data
                 else:
                     node = self.__children[nibbles[0]]
-- 
2.43.0


From 32db80e0b35799dc118b511ed16b1e4c98161712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:19 +0000
Subject: [PATCH 62/77] fix: pyscore/mpt: an extension may hold its branch
 itself

---
 pyscore/lib/icon/mpt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyscore/lib/icon/mpt.py b/pyscore/lib/icon/mpt.py
index 0259c8b..478051c 100644
--- a/pyscore/lib/icon/mpt.py
+++ b/pyscore/lib/icon/mpt.py
@@ -48,8 +48,11 @@ class MerklePatriciaTree(object):
                     if (self.__prefix & 0x20) != 0:
                         self.__data = rlp_decode(unpacked[1])
                     else:
-                        _hash = rlp_decode(unpacked[1])
-                        node = MerklePatriciaTree.Node(_hash)
+                        if unpacked[1][0] >= 0xC0:
+                            node = MerklePatriciaTree.Node(bytes(0), unpacked[1])
+                        else:
+                            _hash = rlp_decode(unpacked[1])
+                            node = MerklePatriciaTree.Node(_hash)
                         self.__children.append(node)
                 elif len(unpacked) == 17:
                     for i in range(16):
-- 
2.43.0


From 941a52a5e7fa9c3c67bf702e1cd4f4397c6f505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:19 +0000
Subject: [PATCH 63/77] fix: pyscore/bmc: an error is not answered with another
 message

---
 pyscore/bmc/bmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index 27e7ef4..3ff781a 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -563,7 +563,7 @@ class BTPMessageCenter(IconScoreBase):
         self.Message(str(to), link.tx_seq, serialized_msg)
 
     def _send_error(self, prev: BTPAddress, msg: BTPMessage, e: BTPException):
-        if msg.sn != 0:
+        if msg.sn > 0:
             err_msg = ErrorMessage(e.code, e.message)
             msg = BTPMessage(self._props.btp_addr, msg.src, msg.svc, msg.sn * -1,
                              err_msg.to_bytes())
-- 
2.43.0


From 81171356ccc7a7d7bc04d14f02c815f0a648d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:21 +0000
Subject: [PATCH 64/77] fix: pyscore/bmc: a failing service is answered and
 does not block the link

---
 pyscore/bmc/bmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index 3ff781a..9abf893 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -547,6 +547,8 @@ class BTPMessageCenter(IconScoreBase):
                     service.handleBTPMessage(msg.src.net, msg.svc, msg.sn, msg.payload)
                 except BTPException as e:
                     self._send_error(prev, msg, e)
+                except BaseException as e:
+                    self._send_error(prev, msg, BTPException(e.__repr__()))
             elif msg.sn < 0:
                 err_msg = ErrorMessage.from_bytes(msg.payload)
                 try:
-- 
2.43.0


From f84595ce180de00102a1afb76c633e2eca13bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:06 +0000
Subject: [PATCH 65/77] fix: pyscore/bmc: a route over a removed link is an
 error, not a crash

---
 pyscore/bmc/bmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index 9abf893..155cedf 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -518,7 +518,7 @@ class BTPMessageCenter(IconScoreBase):
                         return link, link.addr
             raise BMCException(f"unreachable {dst_net}", BMCExceptionCode.UNREACHABLE)
         else:
-            return self._links[route], route
+            return self._get_link(route), route
 
     # ================================================
     #  BTP Relay
-- 
2.43.0


From 878ce500f709bca646c11d6e5eba8bbfddcde391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:09 +0000
Subject: [PATCH 66/77] fix: pyscore/bmc: a message over other centers is
 addressed to its destination

---
 pyscore/bmc/bmc.py   |  6 +++---
 pyscore/bmc/route.py | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index 155cedf..31dba94 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -503,7 +503,7 @@ class BTPMessageCenter(IconScoreBase):
 
     def _resolve_route(self, dst_net: str) -> tuple:
         # dst_net is BTPAddress.net
-        route = self._routes.resolve(dst_net)
+        route, dst = self._routes.resolve(dst_net)
         if route is None:
             keys = self._links.keys()
             for key in keys:
@@ -515,10 +515,10 @@ class BTPMessageCenter(IconScoreBase):
                 for reachable in link.reachable:
                     addr = BTPAddress.from_string(reachable)
                     if addr.net == dst_net:
-                        return link, link.addr
+                        return link, addr
             raise BMCException(f"unreachable {dst_net}", BMCExceptionCode.UNREACHABLE)
         else:
-            return self._get_link(route), route
+            return self._get_link(route), dst
 
     # ================================================
     #  BTP Relay
diff --git a/pyscore/bmc/route.py b/pyscore/bmc/route.py
index bcccc18..66fffa6 100644
--- a/pyscore/bmc/route.py
+++ b/pyscore/bmc/route.py
@@ -22,12 +22,14 @@ class BTPRoutes(StringDictDB):
     def str_to_object(self, s: str):
         return BTPAddress.from_string(s)
 
-    def resolve(self, dst_net: str) -> BTPAddress:
+    def resolve(self, dst_net: str) -> tuple:
+        # next BMC and destination BMC
         if self.__contains__(dst_net):
-            return self.__getitem__(dst_net)
+            route = self.__getitem__(dst_net)
+            return route, route
         else:
             for key in self.keys():
                 dst = BTPAddress.from_string(key)
                 if dst is not None and dst.net == dst_net:
-                    return self.__getitem__(key)
-            return None
+                    return self.__getitem__(key), dst
+            return None, None
-- 
2.43.0


From a8c7d1c9cb0c7b8f71d236414c7c80b8f6cea074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:11 +0000
Subject: [PATCH 67/77] fix: pyscore/bmc: a malformed internal or error message
 does not block the link

---
 pyscore/bmc/bmc.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index 31dba94..b5fbb74 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -523,7 +523,7 @@ class BTPMessageCenter(IconScoreBase):
     # ================================================
     #  BTP Relay
     # ================================================
-    def _handle_msg(self, prev: BTPAddress, msg: BTPMessage) -> list:
+    def _handle_internal_msg(self, prev: BTPAddress, msg: BTPMessage):
         svc = msg.svc
         if svc == "_event":
             evt_msg = EventMessage.from_bytes(msg.payload)
@@ -540,6 +540,14 @@ class BTPMessageCenter(IconScoreBase):
             link = self._links[prev]
             link.sack_height = sack.height
             link.sack_seq = sack.seq
+
+    def _handle_msg(self, prev: BTPAddress, msg: BTPMessage) -> list:
+        svc = msg.svc
+        if svc == "_event" or svc == "_sack":
+            try:
+                self._handle_internal_msg(prev, msg)
+            except BaseException as e:
+                Logger.warning(f"fail to handle {svc} err:{e}", TAG)
         else:
             if msg.sn >= 0:
                 try:
@@ -550,7 +558,11 @@ class BTPMessageCenter(IconScoreBase):
                 except BaseException as e:
                     self._send_error(prev, msg, BTPException(e.__repr__()))
             elif msg.sn < 0:
-                err_msg = ErrorMessage.from_bytes(msg.payload)
+                try:
+                    err_msg = ErrorMessage.from_bytes(msg.payload)
+                except BaseException as e:
+                    Logger.warning(f"fail to parse ErrorMessage err:{e}", TAG)
+                    return
                 try:
                     service = self._get_service(msg.svc)
                     service.handleBTPError(str(msg.src), msg.svc, msg.sn * -1, err_msg.code, err_msg.msg)
-- 
2.43.0


From cb22e52247b0fb68f9239ca91f0710797c2627c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:06 +0000
Subject: [PATCH 68/77] fix: pyscore/lib: a single key of one character is not
 lost

---
 pyscore/lib/icon/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/db.py b/pyscore/lib/icon/db.py
index ca323bc..635eb65 100644
--- a/pyscore/lib/icon/db.py
+++ b/pyscore/lib/icon/db.py
@@ -94,7 +94,7 @@ class IterableDictDB(ABC):
     def _load_keys(self) -> list:
         if not self.__is_loaded_keys:
             serialized = self.__db_keys.get()
-            if len(serialized) > 1:
+            if len(serialized) > 0:
                 self.__keys = serialized.split(",")
             self.__is_loaded_keys = True
         return self.__keys
-- 
2.43.0


From 087a28fba3ef7d9e2bda28fba1d143fd71a8befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:08 +0000
Subject: [PATCH 69/77] fix: pyscore/lib: remove_all removes every entry

---
 pyscore/lib/icon/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/db.py b/pyscore/lib/icon/db.py
index 635eb65..15caaf5 100644
--- a/pyscore/lib/icon/db.py
+++ b/pyscore/lib/icon/db.py
@@ -212,7 +212,7 @@ class IterableDictDB(ABC):
                 self.__db.remove(key)
 
     def remove_all(self):
-        for k in self.keys():
+        for k in list(self.keys()):
             self.remove(k)
 
     def _contains(self, key: str) -> bool:
-- 
2.43.0


From d4806c538cb0535cfd6c2f24284d1ba8bfce72f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:11 +0000
Subject: [PATCH 70/77] fix: pyscore/lib: an entry that was just added can be
 removed

---
 pyscore/lib/icon/db.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/db.py b/pyscore/lib/icon/db.py
index 15caaf5..00f64fb 100644
--- a/pyscore/lib/icon/db.py
+++ b/pyscore/lib/icon/db.py
@@ -190,7 +190,12 @@ class IterableDictDB(ABC):
     def remove(self, key) -> None:
         key = str(key)
         if key in self.__add:
-            self.__add.pop(key)
+            v = self.__add.pop(key)
+            self._remove_key(key)
+            if isinstance(v, IterableDictDB) or isinstance(v, PropertiesDB):
+                v.remove_all()
+            elif not self.__with_flush:
+                self.__db.remove(key)
             return
         elif key in self.__remove:
             return
-- 
2.43.0


From a05348c6a17b9340a37be853372ffebbe16e0186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:36 +0000
Subject: [PATCH 71/77] fix: pyscore/bmc: an address whose permissions were all
 removed can get new ones

---
 pyscore/bmc/permission.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyscore/bmc/permission.py b/pyscore/bmc/permission.py
index 65af29a..d25d404 100644
--- a/pyscore/bmc/permission.py
+++ b/pyscore/bmc/permission.py
@@ -87,4 +87,7 @@ class Permissions(StringDictDB):
         return super().__getitem__(key)
 
     def str_to_object(self, s: str):
+        if len(s) == 0:
+            # all permissions were removed
+            return Permission()
         return Permission.from_string(s)
\ No newline at end of file
-- 
2.43.0


From 91928b1e1b02e0a4d0401bb0a8c429856d128ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:39 +0000
Subject: [PATCH 72/77] fix: pyscore/bmc: setLink and nextRelays can be
 permitted

---
 pyscore/bmc/permission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyscore/bmc/permission.py b/pyscore/bmc/permission.py
index d25d404..f2516a7 100644
--- a/pyscore/bmc/permission.py
+++ b/pyscore/bmc/permission.py
@@ -21,11 +21,11 @@ class Permission(object):
         "addPermission", "removePermission",
         "addService", "removeService",
         "addVerifier", "removeVerifier",
-        "addLink", "removeLink",
+        "addLink", "removeLink", "setLink",
         "addRoute", "removeRoute",
         "addRelayer", "removeRelayer",
         "addRelay", "removeRelay",
-        "renewRelay",
+        "renewRelay", "nextRelays",
         "sendMessage"
     ]
 
-- 
2.43.0


From 78027dd34218053e2e0a627b7b5c41cbe465206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:16 +0000
Subject: [PATCH 73/77] fix: pyscore/bmc: a relay can be removed

---
 pyscore/bmc/bmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index b5fbb74..7bbf765 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -773,7 +773,7 @@ class BTPMessageCenter(IconScoreBase):
             raise UnauthorizedException("not registered relayer")
         target = BTPAddress.from_string_with_validation(_link)
         relayer = self._relayers[self.tx.origin]
-        relayer.remove_relay(target)
+        relayer.remove_relay(target, _addr)
         link = self._get_link(target)
         link.remove_relay(_addr, self.block_height)
 
-- 
2.43.0


From b4c3a1f1d513bde145ab3d7e90cf1b198189cd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:29 +0000
Subject: [PATCH 74/77] fix: pyscore/bmc: the next relays are told without the
 ones that leave

---
 pyscore/bmc/link.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyscore/bmc/link.py b/pyscore/bmc/link.py
index d2c7abb..9717997 100644
--- a/pyscore/bmc/link.py
+++ b/pyscore/bmc/link.py
@@ -138,12 +138,12 @@ class BTPLink(PropertiesDB):
         relays = []
         remove_relays = []
         for relay in self.next_relays_remove:
-            remove_relays.append(relay)
+            remove_relays.append(str(relay))
         for relay in self.relays.keys():
             if relay not in remove_relays:
                 relays.append(relay)
         for relay in self.next_relays_add:
-            relays.append(relay)
+            relays.append(str(relay))
         return relays
 
     def next_relays(self, current_height: int):
-- 
2.43.0


From c13a18cd6c27d583c339edcf2db6ec4b95a00548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:00 +0000
Subject: [PATCH 75/77] fix: pyscore/lib: a text that is no address is refused
 with its error

---
 pyscore/lib/btp_address.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyscore/lib/btp_address.py b/pyscore/lib/btp_address.py
index 689994f..3846cbe 100644
--- a/pyscore/lib/btp_address.py
+++ b/pyscore/lib/btp_address.py
@@ -116,6 +116,8 @@ class BTPAddress(object):
         if address is None:
             return None
         split = address.split("://")
+        if len(split) < 2:
+            raise BTPException("fail to parse, address")
         protocol = split[0]
         split = split[1].split("/")
         net = split[0]
-- 
2.43.0


From 6faec05a414489fcd1874e8d843cec55817b2df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:00 +0000
Subject: [PATCH 76/77] fix: pyscore/token: a transfer of a negative amount is
 refused

---
 pyscore/token/token_bsh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyscore/token/token_bsh.py b/pyscore/token/token_bsh.py
index 7db1caa..8f561ba 100644
--- a/pyscore/token/token_bsh.py
+++ b/pyscore/token/token_bsh.py
@@ -247,6 +247,8 @@ class TokenBSH(IconScoreBase):
             user = Address.from_string(req['to'])
             value = int(req['args']['value'], 16)
             token_name = req['args']['name']
+            if value < 0:
+                raise InvalidValueAmountException("Not allowed value amount")
             Logger.info(f'user:{user}:{isinstance(user,Address)}, value:{value}, name:{token_name}', TAG)
 
             if self._token_addr_db[token_name] is not None:
-- 
2.43.0


From d049ac7dd51132f2a30ebf5fc80ea279d7ce8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:00 +0000
Subject: [PATCH 77/77] fix: pyscore/token: a transfer the other side does not
 know is returned, and not answered again

---
 pyscore/token/token_bsh.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyscore/token/token_bsh.py b/pyscore/token/token_bsh.py
index 8f561ba..c5775c8 100644
--- a/pyscore/token/token_bsh.py
+++ b/pyscore/token/token_bsh.py
@@ -277,6 +277,11 @@ class TokenBSH(IconScoreBase):
             self._del_pending(_sn)
             self.TransferEnd(_sn, req['code'], _msg)
 
+        elif req['type'] == self.RES_UNKNOWN_TYPE:
+            # the other side doesn't know what was requested, and is not answered again
+            if self._has_pending(_sn):
+                self._rollback_pending(_sn)
+
         else:
             res = TokenBSH._create_message(self.RES_UNKNOWN_TYPE)
             self._send_message(_sn, _from, res)
@@ -288,6 +293,9 @@ class TokenBSH(IconScoreBase):
         if self._has_pending(_sn) is False:
             raise NoSuchItemException("No pending message")
 
+        self._rollback_pending(_sn)
+
+    def _rollback_pending(self, _sn: int):
         # rollback `token transfer`
         pmsg = self._get_pending(_sn)
         if pmsg['type'] == self.REQ_TOKEN_TRANSFER:
-- 
2.43.0


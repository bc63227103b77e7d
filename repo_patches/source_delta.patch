From 796778fd2c46860af2636ad7a2370125982405f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:20 +0000
Subject: [PATCH 01/29] fix: icon: use the hash of the signed transaction when
 the node reports a duplicate

---
 chain/icon/client/client.go | 2 +-
 chain/icon/sender.go        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index d68049d..f1b27c3 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -151,7 +151,7 @@ txLoop:
 							case 2000: //DuplicateTransactionError
 								//Ignore
 								c.l.Debugf("DuplicateTransactionError txh:%v", txh)
-								thp.Hash = *txh
+								thp.Hash = p.TxHash
 								break txLoop
 							}
 						}
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index b68cebb..0bd8318 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -235,7 +235,8 @@ SignLoop:
 						if subEc, err := strconv.ParseInt(je.Message[1:5], 0, 32); err == nil {
 							switch subEc {
 							case client.DuplicateTransactionError:
-								s.l.Debugf("DuplicateTransactionError txh:%v", txh)
+								s.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
+								thp.Hash = p.TxHash
 								return thp, nil
 							case client.ExpiredTransactionError:
 								continue SignLoop
-- 
2.43.0


From 8b6220bc568466522051f49c3a0f6d22e597a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:23 +0000
Subject: [PATCH 02/29] fix: icon: do not panic on a system error with a short
 message

---
 chain/icon/client/client.go | 12 ++++++++++--
 chain/icon/sender.go        |  3 +--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index f1b27c3..9b87426 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -146,7 +146,7 @@ txLoop:
 				case *jsonrpc.Error:
 					switch re.Code {
 					case JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+						if subEc, err := SystemErrorCode(re.Message); err == nil {
 							switch subEc {
 							case 2000: //DuplicateTransactionError
 								//Ignore
@@ -514,6 +514,14 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	}
 }
 
+// SystemErrorCode returns the code in the message of a JsonrpcErrorCodeSystem error, which is formatted as 'E1234:...'
+func SystemErrorCode(message string) (int64, error) {
+	if len(message) < 5 {
+		return 0, fmt.Errorf("no code in system error message:%q", message)
+	}
+	return strconv.ParseInt(message[1:5], 0, 32)
+}
+
 func MapError(err error) error {
 	if err != nil {
 		switch re := err.(type) {
@@ -523,7 +531,7 @@ func MapError(err error) error {
 			case JsonrpcErrorCodeTxPoolOverflow:
 				return ErrSendFailByOverflow
 			case JsonrpcErrorCodeSystem:
-				if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+				if subEc, err := SystemErrorCode(re.Message); err == nil {
 					//TODO return JsonRPC Error
 					switch subEc {
 					case ExpiredTransactionError:
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 0bd8318..047e24c 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -21,7 +21,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
-	"strconv"
 	"time"
 
 	"github.com/icon-project/btp/chain/icon/client"
@@ -232,7 +231,7 @@ SignLoop:
 						<-time.After(DefaultRelayReSendInterval)
 						continue SendLoop
 					case client.JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(je.Message[1:5], 0, 32); err == nil {
+						if subEc, err := client.SystemErrorCode(je.Message); err == nil {
 							switch subEc {
 							case client.DuplicateTransactionError:
 								s.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
-- 
2.43.0


From c69986f1f64bf21e2115087bc2f0ce6610da7dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:38 +0000
Subject: [PATCH 03/29] fix: jsonrpc: keep the HTTP error when the response
 carries no error object

---
 common/jsonrpc/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/jsonrpc/client.go b/common/jsonrpc/client.go
index d6f4d3b..89270ea 100644
--- a/common/jsonrpc/client.go
+++ b/common/jsonrpc/client.go
@@ -78,7 +78,7 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 				if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr != nil {
 					err = fmt.Errorf("fail to decode response body err:%+v, httpErr:%+v, httpResp:%+v, responseBody:%s",
 						dErr, err, resp, string(hErr.Response()))
-				} else {
+				} else if jrResp != nil && jrResp.Error != nil {
 					err = jrResp.Error
 					//fmt.Printf("jrResp.Error:%+v in HttpError", err)
 				}
@@ -93,6 +93,10 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 			err, resp)
 		return
 	}
+	if jrResp == nil {
+		err = fmt.Errorf("empty response body, jsonrpcResp:%+v", resp)
+		return
+	}
 	if jrResp.Error != nil {
 		err = jrResp.Error
 		return
-- 
2.43.0


From 9827db380e7155f2a050acec221a375f83335e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:40 +0000
Subject: [PATCH 04/29] fix: icon: report a failed transaction that has no
 failure object

---
 chain/icon/sender.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 047e24c..f5b89be 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -269,6 +269,9 @@ func (s *sender) GetResult(txh *client.TransactionHashParam) (*client.Transactio
 func mapErrorWithTransactionResult(txr *client.TransactionResult, err error) error {
 	err = client.MapError(err)
 	if err == nil && txr != nil && txr.Status != client.ResultStatusSuccess {
+		if txr.Failure == nil {
+			return fmt.Errorf("failure with status:%s", txr.Status)
+		}
 		fc, _ := txr.Failure.CodeValue.Value()
 		if fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd {
 			err = fmt.Errorf("failure with code:%s, message:%s",
-- 
2.43.0


From e6bf2d6e29675164dc836f3ac8e22ffe9b5cc4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:13 +0000
Subject: [PATCH 05/29] fix: mbt: Add fills the right subtree before it grows
 the tree

---
 common/mbt/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/mbt/tree.go b/common/mbt/tree.go
index 6cda2e1..d67512e 100644
--- a/common/mbt/tree.go
+++ b/common/mbt/tree.go
@@ -82,7 +82,7 @@ func (n *node) add(h []byte) *node {
 		n.h = h
 		n.numOfLeaf = 1
 	} else {
-		if n.l != nil && n.l.level != n.r.level {
+		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {
 			n.r = n.r.add(h)
 			n.numOfLeaf++
 			n.h = n.hashFunc(n.l.h, n.r.h)
-- 
2.43.0


From 316bea36f24099637a8a9798e2017e1b41145ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:13 +0000
Subject: [PATCH 06/29] fix: mbt: reject proof nodes that stand for no leaf

---
 common/mbt/proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/mbt/proof.go b/common/mbt/proof.go
index 4616107..873903d 100644
--- a/common/mbt/proof.go
+++ b/common/mbt/proof.go
@@ -136,6 +136,14 @@ func (m *MerkleBinaryTree) Proof(begin, end int) (*MerkleBinaryTreeProof, error)
 
 func (p *MerkleBinaryTreeProof) Root() (h []byte, left int, total int, err error) {
 	r := &node{hashFunc: p.hashFunc}
+	for _, l := range [][]ProofNode{p.ProofInLeft, p.ProofInRight} {
+		for _, n := range l {
+			if n.NumOfLeaf < 1 {
+				err = fmt.Errorf("invalid numOfLeaf in proof, value: %d", n.NumOfLeaf)
+				return
+			}
+		}
+	}
 	for _, n := range p.ProofInLeft {
 		r = r.lazyAdd(n.NumOfLeaf, n.Value)
 		left += n.NumOfLeaf
-- 
2.43.0


From e27ef015dbb3c053cb2f4dcadde2fcc289aa6d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:41 +0000
Subject: [PATCH 07/29] fix: mbt: reject proof nodes without a value instead of
 panicking

---
 common/mbt/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/mbt/proof.go b/common/mbt/proof.go
index 873903d..f82ea0e 100644
--- a/common/mbt/proof.go
+++ b/common/mbt/proof.go
@@ -142,6 +142,10 @@ func (p *MerkleBinaryTreeProof) Root() (h []byte, left int, total int, err error
 				err = fmt.Errorf("invalid numOfLeaf in proof, value: %d", n.NumOfLeaf)
 				return
 			}
+			if len(n.Value) == 0 {
+				err = fmt.Errorf("empty value in proof, numOfLeaf: %d", n.NumOfLeaf)
+				return
+			}
 		}
 	}
 	for _, n := range p.ProofInLeft {
-- 
2.43.0


From e0fafe1eee66576b48dda40688f1798f601e7c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:18 +0000
Subject: [PATCH 08/29] fix: codec: refuse malformed RLP sizes and truncated
 lists

A size with the top bit set made make() panic, a large size allocated
memory for content that never arrives, and a list cut short was decoded
as a shorter list.
---
 common/codec/rlp.go | 76 +++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index 8392c46..78c6703 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -42,7 +42,11 @@ func (r *rlpReader) readSize(buffer []byte) (int, error) {
 	if err := r.readAll(buffer); err != nil {
 		return 0, err
 	}
-	return bytesToSize(buffer), nil
+	sz := bytesToSize(buffer)
+	if sz < 0 {
+		return 0, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(size=%#x)", buffer)
+	}
+	return sz, nil
 }
 
 func (r *rlpReader) readAll(buffer []byte) error {
@@ -55,6 +59,47 @@ func (r *rlpReader) readAll(buffer []byte) error {
 	return nil
 }
 
+// maxPrealloc is the largest buffer allocated before its content has arrived.
+const maxPrealloc = 1 << 16
+
+func (r *rlpReader) readN(size int) ([]byte, error) {
+	if size <= maxPrealloc {
+		buffer := make([]byte, size)
+		if err := r.readAll(buffer); err != nil {
+			return nil, err
+		}
+		return buffer, nil
+	}
+	buffer, err := ioutil.ReadAll(io.LimitReader(r.reader, int64(size)))
+	if err != nil {
+		return nil, cerrors.WithStack(err)
+	}
+	if len(buffer) < size {
+		return nil, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(sz=%d,expect=%d)", len(buffer), size)
+	}
+	return buffer, nil
+}
+
+// listReader reads the content of a list.
+// It fails if the content ends before the announced size.
+type listReader struct {
+	io.LimitedReader
+}
+
+func (l *listReader) Read(p []byte) (int, error) {
+	n, err := l.LimitedReader.Read(p)
+	if err == io.EOF && l.N > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
+func newListReader(r io.Reader, size int) *rlpReader {
+	return &rlpReader{
+		reader: &listReader{io.LimitedReader{R: r, N: int64(size)}},
+	}
+}
+
 func (r *rlpReader) skipOne() error {
 	var header [9]byte
 	if _, err := io.ReadFull(r.reader, header[0:1]); err != nil {
@@ -107,9 +152,7 @@ func (r *rlpReader) readList() (Reader, error) {
 		return nil, cerrors.Wrap(ErrInvalidFormat, "InvalidFormat(RLPBytes)")
 	case tag <= 0xF7:
 		size := tag - 0xC0
-		return &rlpReader{
-			reader: io.LimitReader(r.reader, int64(size)),
-		}, nil
+		return newListReader(r.reader, size), nil
 	default:
 		sz := tag - 0xF7
 		sz2, err := r.readSize(header[1 : 1+sz])
@@ -119,9 +162,7 @@ func (r *rlpReader) readList() (Reader, error) {
 		if sz == 1 && sz2 == 0 {
 			return nil, ErrNilValue
 		}
-		return &rlpReader{
-			reader: io.LimitReader(r.reader, int64(sz2)),
-		}, nil
+		return newListReader(r.reader, sz2), nil
 	}
 }
 
@@ -143,24 +184,14 @@ func (r *rlpReader) readBytes() ([]byte, error) {
 	case tag < 0x80:
 		return []byte{header[0]}, nil
 	case tag <= 0xB7:
-		buffer := make([]byte, int(header[0])-0x80)
-		if err := r.readAll(buffer); err != nil {
-			return nil, err
-		} else {
-			return buffer, nil
-		}
+		return r.readN(tag - 0x80)
 	case tag < 0xC0:
 		sz := int(header[0]) - 0xB7
 		sz2, err := r.readSize(header[1 : 1+sz])
 		if err != nil {
 			return nil, err
 		}
-		buffer := make([]byte, sz2)
-		if err := r.readAll(buffer); err != nil {
-			return nil, err
-		} else {
-			return buffer, nil
-		}
+		return r.readN(sz2)
 	case tag == 0xF8:
 		if sz2, err := r.readSize(header[1:2]); err != nil {
 			return nil, err
@@ -219,12 +250,11 @@ func (r *rlpReader) ReadBytes() ([]byte, error) {
 }
 
 func (r *rlpReader) readMore(org []byte, size int) ([]byte, error) {
-	buffer := make([]byte, len(org)+size)
-	copy(buffer, org)
-	if err := r.readAll(buffer[len(org):]); err != nil {
+	buffer, err := r.readN(size)
+	if err != nil {
 		return nil, err
 	}
-	return buffer, nil
+	return append(org[:len(org):len(org)], buffer...), nil
 }
 
 func (r *rlpReader) ReadRaw() ([]byte, error) {
-- 
2.43.0


From 32cf233e345f05de1347511d36d227a4e84759c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:00 +0000
Subject: [PATCH 09/29] fix: crypto: ParseSignatureVRS panicked on every
 signature

---
 common/crypto/signature.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/crypto/signature.go b/common/crypto/signature.go
index 09e91ed..67ac376 100644
--- a/common/crypto/signature.go
+++ b/common/crypto/signature.go
@@ -71,7 +71,8 @@ func ParseSignatureVRS(sig []byte) (*Signature, error) {
 	var s Signature
 	s.bytes = append(s.bytes, sig[1:33]...)
 	s.bytes = append(s.bytes, sig[33:]...)
-	s.bytes[64] = sig[0]
+	s.bytes = append(s.bytes, sig[0])
+	s.hasV = true
 	return &s, nil
 }
 
-- 
2.43.0


From 1adf7d2f11708c162365753845ad4386c9010386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:51 +0000
Subject: [PATCH 10/29] fix: addresses: no panic on empty, short or over-long
 input, no stale bytes

SetBytes(empty), Address.Value and HexBytes.Value indexed past the input;
SetTypeAndID kept bytes of the previous address before a short id.
---
 chain/ethbr/client/type.go | 6 ++++++
 chain/icon/client/type.go  | 7 +++++++
 common/address.go          | 5 +++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/client/type.go b/chain/ethbr/client/type.go
index b5dc8b9..7021aba 100644
--- a/chain/ethbr/client/type.go
+++ b/chain/ethbr/client/type.go
@@ -302,6 +302,9 @@ func (hs HexBytes) Value() ([]byte, error) {
 	if hs == "" {
 		return nil, nil
 	}
+	if !strings.HasPrefix(string(hs), "0x") {
+		return nil, fmt.Errorf("invalid prefix %s", string(hs))
+	}
 	return hex.DecodeString(string(hs[2:]))
 }
 
@@ -330,6 +333,9 @@ type Address string
 
 func (a Address) Value() ([]byte, error) {
 	var b [21]byte
+	if len(a) != 2+2*20 {
+		return nil, fmt.Errorf("invalid length %d", len(a))
+	}
 	switch a[:2] {
 	case "cx":
 		b[0] = 1
diff --git a/chain/icon/client/type.go b/chain/icon/client/type.go
index d260e31..d234184 100644
--- a/chain/icon/client/type.go
+++ b/chain/icon/client/type.go
@@ -21,6 +21,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math/big"
+	"strings"
 
 	"github.com/icon-project/btp/common/intconv"
 	"github.com/icon-project/btp/common/jsonrpc"
@@ -294,6 +295,9 @@ func (hs HexBytes) Value() ([]byte, error) {
 	if hs == "" {
 		return nil, nil
 	}
+	if !strings.HasPrefix(string(hs), "0x") {
+		return nil, fmt.Errorf("invalid prefix %s", string(hs))
+	}
 	return hex.DecodeString(string(hs[2:]))
 }
 func NewHexBytes(b []byte) HexBytes {
@@ -327,6 +331,9 @@ type Address string
 
 func (a Address) Value() ([]byte, error) {
 	var b [21]byte
+	if len(a) != 2+2*20 {
+		return nil, fmt.Errorf("invalid length %d", len(a))
+	}
 	switch a[:2] {
 	case "cx":
 		b[0] = 1
diff --git a/common/address.go b/common/address.go
index 7ced1c8..6cd1f87 100644
--- a/common/address.go
+++ b/common/address.go
@@ -79,7 +79,7 @@ func (a *Address) ID() []byte {
 }
 
 func (a *Address) SetBytes(b []byte) error {
-	if b == nil {
+	if len(b) == 0 {
 		return errors.ErrIllegalArgument
 	}
 	switch b[0] {
@@ -98,7 +98,8 @@ func (a *Address) SetTypeAndID(ic bool, id []byte) error {
 	}
 	switch {
 	case len(id) < AddressIDBytes:
-		copy(a[AddressIDBytes-len(id)+1:], id)
+		n := copy(a[1:], make([]byte, AddressIDBytes-len(id)))
+		copy(a[1+n:], id)
 	default:
 		copy(a[1:], id)
 	}
-- 
2.43.0


From a9fbe84ffc2546d68ee3112e829a59ea6c0ef8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:54 +0000
Subject: [PATCH 11/29] fix: btp2 message proof of a partly delivered block
 reports its last sequence, covered blocks are dropped

---
 chain/icon/btp2/btp2.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index abc253c..e149429 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -207,7 +207,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 			}
 
 			if limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
-				mp := NewMessageProof(bls, bls.RxSeq+i, *p)
+				mp := NewMessageProof(bls, bls.RxSeq+i-offset, *p)
 				return mp, nil
 			}
 		}
@@ -217,7 +217,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 	if err != nil {
 		return nil, err
 	}
-	mp := NewMessageProof(bls, bls.RxSeq+messageCnt, *p)
+	mp := NewMessageProof(bls, rs.Seq(), *p)
 	return mp, nil
 }
 
@@ -243,7 +243,8 @@ func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
 }
 
 func (b *btp2) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
+	for i := len(b.rss) - 1; i >= 0; i-- {
+		rs := b.rss[i]
 		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
 			b.rss = b.rss[i+1:]
 			return
-- 
2.43.0


From c6de10acf2771a05b571bed0ce6db69347b89afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:54 +0000
Subject: [PATCH 12/29] fix: bridge relays every message of a block with more
 than one message

---
 chain/icon/bridge/bridge.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 10735e3..3945911 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -46,7 +46,6 @@ type bridge struct {
 
 func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.BtpAddress) (*receiveStatus, error) {
 	evts := make([]*Event, 0)
-	seq := sn
 	for _, msg := range msgs {
 		if sn > rxSeq {
 			evt, err := messageToEvent(next, msg, sn)
@@ -66,7 +65,7 @@ func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.B
 
 	return &receiveStatus{
 		height: height,
-		seq:    seq,
+		seq:    sn - 1,
 		rp:     rp,
 	}, nil
 }
@@ -159,15 +158,15 @@ func (b *bridge) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.
 
 	for i := offset; i < int64(messageCnt); i++ {
 		size := sizeOfEvent(rs.ReceiptProof().Events[i])
-		if limit < int64(rmSize+size) {
-			return NewMessageProof(bls, bls.RxSeq+i, trp)
+		if limit < int64(rmSize+size) && rmSize > 0 {
+			return NewMessageProof(bls, bls.RxSeq+i-offset, trp)
 		}
 		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])
 		rmSize += size
 	}
 
 	//last event
-	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt), trp)
+	return NewMessageProof(bls, rs.Seq(), trp)
 
 }
 
@@ -262,7 +261,8 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 }
 
 func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
+	for i := len(b.rss) - 1; i >= 0; i-- {
+		rs := b.rss[i]
 		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
 			b.rss = b.rss[i+1:]
 			return
@@ -272,7 +272,7 @@ func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
 
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq > rs.Seq()-int64(len(rs.ReceiptProof().Events)) {
 			return rs
 		}
 	}
-- 
2.43.0


From abc92179666d94b390d7085811775eabd108ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:54 +0000
Subject: [PATCH 13/29] fix: ethbr relays every message of a block with more
 than one message, and does not crash on it

---
 chain/ethbr/message.go  |  3 +-
 chain/ethbr/receiver.go | 74 ++++++++++++++++++++++-------------------
 2 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index db27c9f..336a765 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -133,7 +133,8 @@ func NewMessageProof(bs *types.BMCLinkStatus, ls int64, rps []*client.ReceiptPro
 	}
 
 	return &MessageProof{
-		lastSeq: ls,
+		startSeq: bs.RxSeq,
+		lastSeq:  ls,
 		relayMessageItem: relayMessageItem{
 			it:      link.TypeMessageProof,
 			payload: b,
diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 1862fab..48d92bc 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -37,6 +37,15 @@ func (r *receiveStatus) Seq() int64 {
 	return r.seq
 }
 
+// numOfEvents returns the number of the events, they have consecutive sequence numbers up to Seq
+func (r *receiveStatus) numOfEvents() int64 {
+	n := 0
+	for _, rp := range r.rps {
+		n += len(rp.Events)
+	}
+	return int64(n)
+}
+
 func newReceiveStatus(height, seq int64, rps []*client.ReceiptProof) (*receiveStatus, error) {
 	return &receiveStatus{
 		height: height,
@@ -109,50 +118,44 @@ func (e *ethbr) BuildBlockProof(bls *btpTypes.BMCLinkStatus, height int64) (link
 
 func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (link.MessageProof, error) {
 	var rmSize int
-	var seq int
 	rps := make([]*client.ReceiptProof, 0)
 	rs := e.GetReceiveHeightForSequence(bls.RxSeq + 1)
-	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 	if rs == nil {
 		return nil, nil
 	}
+	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 
-	rpsCnt := int64(len(rs.rps))
-	offset := bls.RxSeq - (rs.Seq() - rpsCnt)
-	if rpsCnt > 0 {
-		for i := offset; i < rpsCnt; i++ {
-			trp := &client.ReceiptProof{
-				Index:  rs.rps[i].Index,
-				Events: make([]*client.Event, 0),
-				Height: rs.rps[i].Height,
-			}
-			rps = append(rps, trp)
-
-			for _, e := range rs.rps[i].Events {
-				size := sizeOfEvent(e)
-
-				if (int(limit) < rmSize+size) && rmSize > 0 {
-					return NewMessageProof(bls, bls.RxSeq+i, rps)
-				}
-				trp.Events = append(trp.Events, e)
-				seq += 1
-				rmSize += size
-			}
+	lastSeq := bls.RxSeq
+	overLimit := false
+	for i := 0; i < len(rs.rps) && !overLimit; i++ {
+		trp := &client.ReceiptProof{
+			Index:  rs.rps[i].Index,
+			Events: make([]*client.Event, 0),
+			Height: rs.rps[i].Height,
+		}
 
-			//last event
-			if int(limit) < rmSize {
-				return NewMessageProof(bls, bls.RxSeq+i, rps)
+		for _, e := range rs.rps[i].Events {
+			//skip the events which are already delivered
+			if e.Sequence.Int64() <= bls.RxSeq {
+				continue
 			}
+			size := sizeOfEvent(e)
 
-			//remove last receipt if empty
-			if len(trp.Events) == 0 {
-				rps = rps[:len(rps)-1]
+			if (int(limit) < rmSize+size) && rmSize > 0 {
+				overLimit = true
+				break
 			}
+			trp.Events = append(trp.Events, e)
+			lastSeq = e.Sequence.Int64()
+			rmSize += size
 		}
 
-		return NewMessageProof(bls, bls.RxSeq+int64(seq), rps)
+		//ignore receipt if empty
+		if len(trp.Events) > 0 {
+			rps = append(rps, trp)
+		}
 	}
-	return nil, nil
+	return NewMessageProof(bls, lastSeq, rps)
 }
 
 func (e *ethbr) GetHeightForSeq(seq int64) int64 {
@@ -179,7 +182,8 @@ func (e *ethbr) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 }
 
 func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
-	for i, rs := range e.rss {
+	for i := len(e.rss) - 1; i >= 0; i-- {
+		rs := e.rss[i]
 		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
 			e.rss = e.rss[i+1:]
 			return
@@ -214,11 +218,11 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 			EpLoop:
 				for _, el := range v.Logs {
 					evt, err := logToEvent(&el)
-					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
-						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if err != nil {
 						return err
 					}
+					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
+						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if evt.Sequence.Int64() <= e.seq {
 						continue EpLoop
 					}
@@ -301,7 +305,7 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range e.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq > rs.Seq()-rs.numOfEvents() {
 			return rs
 		}
 	}
-- 
2.43.0


From fb7213bf97a1682886db4fba699d55ce4ae03a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:57 +0000
Subject: [PATCH 14/29] fix: link sends every queued item once, without
 crashing after the first message, and keeps its queues in step with the
 status

---
 common/link/link.go | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 122fe69..ad62e51 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -176,7 +176,8 @@ func (l *Link) senderChannel(errCh chan error) {
 }
 
 func (l *Link) clearRelayMessage(bls *types.BMCLinkStatus) {
-	for i, rm := range l.rms {
+	for i := len(l.rms) - 1; i >= 0; i-- {
+		rm := l.rms[i]
 		if rm.bls.Verifier.Height <= bls.Verifier.Height && rm.bls.RxSeq <= bls.RxSeq {
 			l.rms = l.rms[i+1:]
 			break
@@ -185,7 +186,8 @@ func (l *Link) clearRelayMessage(bls *types.BMCLinkStatus) {
 }
 
 func (l *Link) clearReceiveStatus(bls *types.BMCLinkStatus) {
-	for i, rs := range l.rss {
+	for i := len(l.rss) - 1; i >= 0; i-- {
+		rs := l.rss[i]
 		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
 			l.rss = l.rss[i+1:]
 			break
@@ -263,19 +265,9 @@ func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
 			break
 		}
 		if h == bls.Verifier.Height {
-			mp, err := l.r.BuildMessageProof(bls, l.limitSize-l.rmi.size)
-			if err != nil {
+			if err := l.buildMessageProof(bls); err != nil {
 				return err
 			}
-
-			if mp == nil {
-				break
-			}
-
-			if mp.Len() != 0 || bls.RxSeq < mp.LastSeqNum() {
-				l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
-				l.rmi.size += mp.Len()
-			}
 			break
 		} else if h < bls.Verifier.Height {
 			err := l.buildProof(bls, nil)
@@ -305,7 +297,7 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 		}
 		if l.isOverLimit(l.rmi.size) {
 			l.sendRelayMessage(bls)
-			if bu != nil || bu.ProofHeight() != 0 {
+			if bu == nil || bu.ProofHeight() != 0 {
 				h := l.r.GetHeightForSeq(bls.RxSeq)
 				mh = h
 				if err := l.buildBlockProof(bls, mh); err != nil {
@@ -377,14 +369,19 @@ func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
 func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, error) {
 	rms := make([]*relayMessage, 0)
 	for _, rmi := range l.rmi.rmis {
+		if len(rmi) == 0 {
+			continue
+		}
 		m, err := l.r.BuildRelayMessage(rmi)
 		if err != nil {
 			return nil, err
 		}
 
+		//keep the status of now, bls is updated for following messages
+		nextBls := *bls
 		rm := &relayMessage{
 			id:       rand.Int(),
-			bls:      bls,
+			bls:      &nextBls,
 			bpHeight: l.r.GetHeightForSeq(bls.RxSeq),
 			message:  m,
 			rmis:     rmi,
@@ -392,7 +389,7 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 		rms = append(rms, rm)
 	}
 	l.rmi.rmis = l.rmi.rmis[:0]
-	l.rmi.size = 0
+	l.createRelayMessageItem()
 
 	return rms, nil
 }
@@ -401,21 +398,21 @@ func (l *Link) removeRelayMessage(id int) {
 	l.mtx.Lock()
 	defer l.mtx.Unlock()
 
-	index := 0
 	for i, rm := range l.rms {
 		if rm.id == id {
-			index = i
+			l.l.Debugf("remove relay message h:%d seq:%d", rm.BMCLinkStatus().Verifier.Height,
+				rm.BMCLinkStatus().RxSeq)
+			l.rms = l.rms[i+1:]
+			return
 		}
 	}
-
-	l.l.Debugf("remove relay message h:%d seq:%d", l.rms[index].BMCLinkStatus().Verifier.Height,
-		l.rms[index].BMCLinkStatus().RxSeq)
-	l.rms = l.rms[index:]
-
 }
 
 func (l *Link) updateBlockProof(id int) error {
 	rm := l.searchRelayMessage(id)
+	if rm == nil {
+		return nil
+	}
 	l.buildProof(rm.bls, nil)
 	l.sendRelayMessage(rm.bls)
 	return nil
@@ -454,7 +451,7 @@ func (l *Link) createRelayMessageItem() {
 
 func (l *Link) result(rr *types.RelayResult) error {
 	l.rmsMtx.Lock()
-	defer l.rmsMtx.Lock()
+	defer l.rmsMtx.Unlock()
 
 	switch rr.Err {
 	case BMVUnknown:
-- 
2.43.0


From 9a526cbe2c4a0e4ebad608c1f52a877df8747ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:27 +0000
Subject: [PATCH 15/29] fix: ethbr client reports a failed send and does not
 crash when a reverted call succeeds on replay

---
 chain/ethbr/client/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index a39b547..b674a7c 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -119,7 +119,7 @@ func (c *Client) SendTransaction(tx *types.Transaction) error {
 
 	if err != nil {
 		c.log.Errorf("could not send tx: %v", err)
-		return nil
+		return err
 	}
 
 	return nil
@@ -350,6 +350,9 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 	}
 
 	_, err = c.ethClient.CallContract(context.Background(), msg, nil)
+	if err == nil {
+		return "", fmt.Errorf("no revert message of tx:%s", hash)
+	}
 	return err.Error(), nil
 
 }
-- 
2.43.0


From 870c4a4636c1d5187080f6f108a5bd852b138ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:27 +0000
Subject: [PATCH 16/29] fix: looking up the code of a nil error does not crash

---
 common/errors/errors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/errors/errors.go b/common/errors/errors.go
index a0a8369..9c77319 100644
--- a/common/errors/errors.go
+++ b/common/errors/errors.go
@@ -314,7 +314,7 @@ func AsValue(ptr interface{}, err error) bool {
 	}
 	valueType := value.Type()
 
-	for {
+	for err != nil {
 		errValue := reflect.ValueOf(err)
 		if errValue.Type().AssignableTo(valueType) {
 			value.Set(errValue)
@@ -328,4 +328,5 @@ func AsValue(ptr interface{}, err error) bool {
 			return false
 		}
 	}
+	return false
 }
-- 
2.43.0


From 21adef1906eff5d6df1c6f28be3a28dd9faf12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:27 +0000
Subject: [PATCH 17/29] fix: senders do not send a nil status to the link when
 it cannot be read

---
 chain/ethbr/sender.go | 6 +++++-
 chain/icon/sender.go  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index 1fb9dbf..4f235d2 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -106,7 +106,11 @@ func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Debugf("fail to get status err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index f5b89be..4fd683e 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -144,7 +144,11 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Debugf("fail to get status err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
-- 
2.43.0


From cbbac70dd7abdbd0b32dff312eac59349fdd84ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:27 +0000
Subject: [PATCH 18/29] fix: a revert with a negative code is not reported as
 success

---
 chain/ethbr/sender.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index 4f235d2..966e65c 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -171,6 +171,9 @@ func (s *sender) GetResult(txh *client.TransactionHashParam) (*types.Receipt, er
 				if err != nil {
 					return nil, err
 				}
+				if code < 0 {
+					return nil, errors.Errorf("invalid revert code:%d, message:%s", code, revertMsg)
+				}
 				return tx, client.NewRevertError(code)
 			} else {
 				return nil, client.NewRevertError(25)
-- 
2.43.0


From b5585d9d6b41b99c0087fd761afb6333e7e4e576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:10 +0000
Subject: [PATCH 19/29] fix: refuse an MPT node with an empty header instead of
 crashing

---
 common/mpt/mpt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/mpt/mpt.go b/common/mpt/mpt.go
index 635d91f..11d55d4 100644
--- a/common/mpt/mpt.go
+++ b/common/mpt/mpt.go
@@ -39,6 +39,9 @@ func (n *MptNode) RLPDecodeSelf(d codec.Decoder) error {
 	}
 	switch len(bl) {
 	case 2:
+		if len(bl[0]) == 0 {
+			return fmt.Errorf("empty header")
+		}
 		n.Header = &MptHeader{bl[0][0], bl[0][1:]}
 		if n.Header.IsLeaf() {
 			n.Data = bl[1]
-- 
2.43.0


From a4bab8b6d1291beb265639c8477c77a0c810deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:10 +0000
Subject: [PATCH 20/29] fix: an MPT proof ends with its only leaf

A proof with nodes after the leaf was accepted although nothing links to
them, and Leaf() returned such a node; a proof without a leaf at the end or
without nodes crashed.
---
 common/mpt/mpt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/mpt/mpt.go b/common/mpt/mpt.go
index 11d55d4..07799ab 100644
--- a/common/mpt/mpt.go
+++ b/common/mpt/mpt.go
@@ -71,6 +71,9 @@ func (mp *MptProof) Leaf() *MptNode {
 }
 
 func NewMptProof(bl [][]byte) (*MptProof, error) {
+	if len(bl) == 0 {
+		return nil, fmt.Errorf("empty proof")
+	}
 	mp := &MptProof{
 		Nodes:  make([]MptNode, len(bl)),
 		Hashes: make([][]byte, len(bl)),
@@ -85,6 +88,9 @@ func NewMptProof(bl [][]byte) (*MptProof, error) {
 Loop:
 	for i := 0; i < len(bl); i++ {
 		mn := mp.Nodes[i]
+		if isLeaf := mn.Header != nil && mn.Header.IsLeaf(); isLeaf != (i == len(bl)-1) {
+			return nil, fmt.Errorf("invalid node[%d] of %d, leaf:%v", i, len(bl), isLeaf)
+		}
 		if mn.Header != nil {
 			if !mn.Header.IsLeaf() {
 				ml := mn.Link[0]
-- 
2.43.0


From 087c2db94def338bd8ea600bb856c260e647b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:48 +0000
Subject: [PATCH 21/29] fix: keystore with non-positive scrypt parameters
 crashes DecryptKeyStore

scrypt.Key divides by r and p, and key[16:32] needs a derived key of 32
bytes: a keystore with dklen, r or p missing or not positive ended the
process. It is refused with an error.
---
 common/wallet/keystore.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index 118bb15..7efd27a 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -51,6 +51,12 @@ func (p *ScryptParams) Init() error {
 }
 
 func (p *ScryptParams) Key(pw []byte) ([]byte, error) {
+	// scrypt.Key() panics on non-positive parameters, and AES key and MAC key
+	// take 32 bytes of the derived key
+	if p.DKLen < 32 || p.R < 1 || p.P < 1 {
+		return nil, errors.Errorf("InvalidScryptParams(dklen=%d,r=%d,p=%d)",
+			p.DKLen, p.R, p.P)
+	}
 	return scrypt.Key(pw, p.Salt.Bytes(), p.N, p.R, p.P, p.DKLen)
 }
 
-- 
2.43.0


From 7771caf397beaa5aea5033c22aaa5288c58b872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:48 +0000
Subject: [PATCH 22/29] fix: keystore with an IV of other length than 16 bytes
 crashes DecryptKeyStore

cipher.NewCTR panics unless the IV has the block size. Such a keystore is
refused with an error.
---
 common/wallet/keystore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index 7efd27a..968cd3e 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -192,6 +192,10 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 		return nil, err
 	}
 
+	if len(cipherParams.IV) != aes.BlockSize {
+		return nil, errors.Errorf("InvalidIVLength(len=%d)", len(cipherParams.IV))
+	}
+
 	if ksData.Crypto.KDF != kdfScrypt {
 		return nil, errors.Errorf("UnsupportedKDF(kdf=%s)", ksData.Crypto.KDF)
 	}
-- 
2.43.0


From de35e7af028fe306535c411c5897ee2e89291f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:48 +0000
Subject: [PATCH 23/29] fix: data encrypted for an uncompressed public key
 can't be decrypted

NewEncrypted copied the sender's public key over the receiver's, which left
the tail of a 65 byte key behind it: the receiver could not parse it.
---
 common/wallet/encrypted.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/wallet/encrypted.go b/common/wallet/encrypted.go
index 1a87ed4..ec12df4 100644
--- a/common/wallet/encrypted.go
+++ b/common/wallet/encrypted.go
@@ -76,7 +76,7 @@ func NewEncrypted(w Wallet, pubKey, b []byte) (*Encrypted, error) {
 		return nil, err
 	}
 	s.XORKeyStream(e.CipherText, b)
-	copy(e.Param[EncryptSaltSize:], w.PublicKey())
+	e.Param = append(e.Param[:EncryptSaltSize], w.PublicKey()...)
 	return e, nil
 }
 
-- 
2.43.0


From 68709a5745de8dc468010f9e9d68de08721e895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:15 +0000
Subject: [PATCH 24/29] fix: accumulator gives the witness and node of the
 first leaf for a negative index

A height before the first leaf of an ExtAccumulator is a negative index:
it is not found, rather than taken for the first leaf.
---
 common/mta/accumulator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 6e9222d..733a579 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -347,7 +347,7 @@ func (a *Accumulator) AddData(d []byte) []Witness {
 }
 
 func (a *Accumulator) WitnessFor(idx int64) (w []Witness, err error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
@@ -440,7 +440,7 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 }
 
 func (a *Accumulator) GetNode(idx int64) (Node, error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
-- 
2.43.0


From 66271bf6bf49b1c281cbbd3d923dd63cc2fd4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:15 +0000
Subject: [PATCH 25/29] fix: accumulator refuses a newer witness of a leaf that
 is not in its biggest tree

Looking for the tree of the leaf, VerifyWithAccLength took absent roots for
trees, so valid witnesses were checked against the wrong root.
---
 common/mta/accumulator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 733a579..9e730a7 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -428,6 +428,9 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 		// acc: old, wit: new
 		depth := 0
 		for i := len(a.roots) - 1; i > 0; i-- {
+			if a.roots[i] == nil {
+				continue
+			}
 			bitFlag := int64(1) << uint(i)
 			if height < bitFlag {
 				depth = i
-- 
2.43.0


From 9f6762288c69be461bcbf41eafdcd760852c1f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:15 +0000
Subject: [PATCH 26/29] fix: accumulator crashes on a witness of impossible
 length

VerifyWithAccLength indexed the witness, or its own, by the length the
other one has: a forged witness ended the process. It is refused.
---
 common/mta/accumulator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 9e730a7..7b88183 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -411,6 +411,9 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 	}
 
 	height := GetHeightFromWitness(ws, accLength)
+	if height < 0 {
+		return errors.IllegalArgumentError.New("InvalidWitness too long")
+	}
 	if height >= a.length {
 		return errors.IllegalArgumentError.New("InvalidWitness newer node")
 	}
@@ -420,6 +423,9 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 		if err != nil {
 			return err
 		}
+		if len(ws) > len(nws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too long")
+		}
 		for i, w := range ws {
 			nws[i] = w
 		}
@@ -438,6 +444,9 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 			}
 			height -= bitFlag
 		}
+		if depth > len(ws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too short")
+		}
 		return a.Verify(ws[:depth], h)
 	}
 }
-- 
2.43.0


From cd9f68312c15ad76d641c6b75a79386ae2766a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:11 +0000
Subject: [PATCH 27/29] fix: badger bucket crashes when reading a key fails

---
 common/db/badger_db.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/db/badger_db.go b/common/db/badger_db.go
index 77185c1..f2f5c00 100644
--- a/common/db/badger_db.go
+++ b/common/db/badger_db.go
@@ -74,6 +74,7 @@ func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 			if err == badger.ErrKeyNotFound {
 				return nil
 			}
+			return err
 		}
 		value, err = item.ValueCopy(nil)
 		return err
-- 
2.43.0


From e945e142fef00a3c92bc8cbb6cbda1735ee860dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:11 +0000
Subject: [PATCH 28/29] fix: badger bucket doesn't have a key whose value is
 empty

---
 common/db/badger_db.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/db/badger_db.go b/common/db/badger_db.go
index f2f5c00..b99c8d1 100644
--- a/common/db/badger_db.go
+++ b/common/db/badger_db.go
@@ -76,7 +76,7 @@ func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 			}
 			return err
 		}
-		value, err = item.ValueCopy(nil)
+		value, err = item.ValueCopy([]byte{})
 		return err
 	})
 	return value, err
-- 
2.43.0


From d024b551548528a45e7c859b40cfb1c40fe2234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:11 +0000
Subject: [PATCH 29/29] fix: changing the value got from a layer bucket changes
 what is stored

---
 common/db/layer_db.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/db/layer_db.go b/common/db/layer_db.go
index da137a5..8452ab2 100644
--- a/common/db/layer_db.go
+++ b/common/db/layer_db.go
@@ -18,7 +18,12 @@ func (bk *layerBucket) Get(key []byte) ([]byte, error) {
 
 	if bk.data != nil {
 		if value, ok := bk.data[string(key)]; ok {
-			return value, nil
+			if value == nil {
+				return nil, nil
+			}
+			v2 := make([]byte, len(value))
+			copy(v2, value)
+			return v2, nil
 		}
 	}
 	return bk.real.Get(key)
-- 
2.43.0


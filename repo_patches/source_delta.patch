From cb6336b2a824bbfff440268a48297dc9270caf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 01/44] fix: place offset and length behind the index in
 request and cancel messages

All three values were written to the first four payload bytes, so every
request carried the block length as piece index and zeros behind it.
---
 pkg/util/peer_message.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 4cdf1de..44313b5 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -187,8 +187,8 @@ func createHaveMessage(index uint32) *PeerMessage {
 func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
 	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+	binary.BigEndian.PutUint32(payload[8:], blockLength)
 
 	msg := &PeerMessage{
 		len:         13,
@@ -205,8 +205,8 @@ func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 func CreatePieceMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
 	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+	binary.BigEndian.PutUint32(payload[8:], blockLength)
 
 	msg := PeerMessage{
 		len:         13,
-- 
2.43.0


From 5af9675e2eeec589981f71ef113a288ea3a08ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:56 +0000
Subject: [PATCH 02/44] fix: do not crash on peer messages with a truncated
 payload

A have, request, cancel or piece message shorter than its fixed fields made
NewPeerMessage slice out of range. Such messages are now marked malformed,
which the peer reports and ignores like an unknown type.
---
 pkg/util/peer_message.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 44313b5..90fd09d 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -24,8 +24,20 @@ const (
 	// KeepaliveMessageType has only length without type.
 	// This is fake type which is never actually used.
 	KeepaliveMessageType MessageType = 99
+
+	// MalformedMessageType marks a received message whose payload is too
+	// short for the type it claims. It is never sent.
+	MalformedMessageType MessageType = 100
 )
 
+// minPayload is the shortest legal payload of messages with fixed fields.
+var minPayload = map[MessageType]int{
+	HaveMessageType:    4,
+	RequestMessageType: 12,
+	PieceMessageType:   8,
+	CancelMessageType:  12,
+}
+
 type PeerMessage struct {
 	len     uint32
 	Type    MessageType
@@ -61,6 +73,10 @@ func NewPeerMessage(data []byte) *PeerMessage {
 		payload: data[1:],
 	}
 	data = msg.payload
+	if len(data) < minPayload[msg.Type] {
+		msg.Type = MalformedMessageType
+		return msg
+	}
 
 	// set additional message data for these message types
 	switch msg.Type {
-- 
2.43.0


From 532e7fdf35146f32a48759b34d85500e26432f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:38 +0000
Subject: [PATCH 03/44] fix: reject bencode numbers without digits or out of
 range

The accumulation multiplied by ten once too often, so large integers were
silently corrupted, and a number without any digits was read as zero.
---
 pkg/bencode/parse.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index f6a6ec3..a1b1223 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -2,6 +2,7 @@ package bencode
 
 import (
 	"errors"
+	"math"
 	"unsafe"
 )
 
@@ -9,6 +10,7 @@ var (
 	ErrElementEnd   = errors.New("element not ended with 'e'")
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
+	ErrNumber       = errors.New("number missing or out of range")
 )
 
 func Parse(data []byte) (Bencode, error) {
@@ -90,14 +92,19 @@ func (s scanner) isDigit() bool {
 }
 
 func (s *scanner) number() (int, error) {
-	n := 0
+	n, digits := 0, 0
 	for s.isDigit() {
 		d := int(s.peek() - '0')
-		n += d
-		n *= 10
+		if n > (math.MaxInt-d)/10 {
+			return 0, ErrNumber
+		}
+		n = n*10 + d
+		digits++
 		s.advance()
 	}
-	n /= 10
+	if digits == 0 {
+		return 0, ErrNumber
+	}
 
 	s.position()
 	return n, nil
-- 
2.43.0


From 46bce58d79db73654d79246e02adebd60d4f2667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:39 +0000
Subject: [PATCH 04/44] fix: do not crash on huge bencode string lengths

Adding the length to the position overflowed and passed the bounds check, and
slicing then panicked.
---
 pkg/bencode/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index a1b1223..ea7f7e2 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -134,11 +134,11 @@ func (s *scanner) readString() (string, error) {
 	if !s.match(':') {
 		return "", ErrColonMissing
 	}
-	s.current += length
 	// we need to check if we are trying to read beyond string length.
-	if s.current > len(s.bencode) {
+	if length > len(s.bencode)-s.current {
 		return "", ErrStringLength
 	}
+	s.current += length
 
 	strElement := b2s(s.read())
 	s.position()
-- 
2.43.0


From 9a06a5ec35b18bd7c471d34fc58878f2cc3578a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:40 +0000
Subject: [PATCH 05/44] fix: decode negative bencode integers

Every integer with a minus sign was rejected.
---
 pkg/bencode/parse.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index ea7f7e2..0ed201b 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -91,14 +91,15 @@ func (s scanner) isDigit() bool {
 	return s.peek() >= '0' && s.peek() <= '9'
 }
 
-func (s *scanner) number() (int, error) {
+func (s *scanner) number(negative bool) (int, error) {
 	n, digits := 0, 0
 	for s.isDigit() {
 		d := int(s.peek() - '0')
-		if n > (math.MaxInt-d)/10 {
+		// negative, as the most negative number has no positive counterpart
+		if n < (math.MinInt+d)/10 {
 			return 0, ErrNumber
 		}
-		n = n*10 + d
+		n = n*10 - d
 		digits++
 		s.advance()
 	}
@@ -107,6 +108,12 @@ func (s *scanner) number() (int, error) {
 	}
 
 	s.position()
+	if !negative {
+		if n == math.MinInt {
+			return 0, ErrNumber
+		}
+		n = -n
+	}
 	return n, nil
 }
 
@@ -114,7 +121,7 @@ func (s *scanner) readInt() (IntElement, error) {
 	s.advance()
 	s.position()
 
-	n, err := s.number()
+	n, err := s.number(s.match('-'))
 	if err != nil {
 		return 0, err
 	}
@@ -126,7 +133,7 @@ func (s *scanner) readInt() (IntElement, error) {
 }
 
 func (s *scanner) readString() (string, error) {
-	length, err := s.number()
+	length, err := s.number(false)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 2c9875def81e0e0ac65df0893a6e3adae7fcbafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:08 +0000
Subject: [PATCH 06/44] fix: limit the nesting depth of bencode documents

A few megabytes of opening list markers exhausted the goroutine stack, which
ends the process and cannot be recovered from.
---
 pkg/bencode/parse.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index 0ed201b..1e6bbb9 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -11,6 +11,7 @@ var (
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
 	ErrNumber       = errors.New("number missing or out of range")
+	ErrDepth        = errors.New("elements nested too deep")
 )
 
 func Parse(data []byte) (Bencode, error) {
@@ -18,9 +19,13 @@ func Parse(data []byte) (Bencode, error) {
 	return sc.Parse()
 }
 
+// maxDepth limits the nesting of lists and dictionaries, as parsing recurses.
+const maxDepth = 512
+
 type scanner struct {
 	start   int
 	current int
+	depth   int
 	bencode []byte
 }
 
@@ -40,6 +45,12 @@ func (s *scanner) Parse() (Bencode, error) {
 }
 
 func (s *scanner) Next() (Bencode, error) {
+	s.depth++
+	defer func() { s.depth-- }()
+	if s.depth > maxDepth {
+		return nil, ErrDepth
+	}
+
 	switch s.peek() {
 	case 'l':
 		return s.readList()
-- 
2.43.0


From db544559e51fbf4e0511bb9147f21fa5beb888d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:09 +0000
Subject: [PATCH 07/44] fix: report an error when the document to unmarshal is
 not a dictionary

Unmarshal panicked on well-formed documents such as "i1e", which a tracker or
a torrent file can contain.
---
 pkg/bencode/tag_parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 412f82b..3c4bf60 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -71,7 +71,11 @@ func processTarget(target interface{}, bencode Bencode) error {
 
 		dict, ok := bencode.(*DictElement)
 		if !ok {
-			panic("bencode internal: bencode element not *DictElement")
+			return &TypeError{
+				ElementName: ftype.Name,
+				FieldType:   val.Type().String(),
+				BencodeType: reflect.TypeOf(bencode).String(),
+			}
 		}
 		value := dict.Value(tagName)
 		if value == nil && !optional {
-- 
2.43.0


From bc9a39168f62e1a943dd7026e50f86b82fb4228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:10 +0000
Subject: [PATCH 08/44] fix: do not store pretty-printed lists and dictionaries
 in string fields

A list or dictionary where a string is expected is a type error, as it is for
every other kind of field.
---
 pkg/bencode/tag_parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 3c4bf60..76a9515 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -106,6 +106,14 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 
 	switch ftype.Kind() {
 	case reflect.String:
+		switch value.(type) {
+		case *ListElement, *DictElement:
+			return &TypeError{
+				ElementName: fieldName,
+				FieldType:   f.Type().String(),
+				BencodeType: reflect.TypeOf(value).String(),
+			}
+		}
 		f.SetString(value.String())
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		vali, err := strconv.ParseInt(value.String(), 0, ftype.Bits())
-- 
2.43.0


From cf611fd106cac2091ba06cc9c0c8ce220f7eb896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:11 +0000
Subject: [PATCH 09/44] fix: encode dictionary keys in sorted order

Map iteration order showed in the encoding, so the same value had many
encodings, most of them not valid bencode.
---
 pkg/bencode/elements.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/bencode/elements.go b/pkg/bencode/elements.go
index d271592..b0cdc9d 100644
--- a/pkg/bencode/elements.go
+++ b/pkg/bencode/elements.go
@@ -1,6 +1,7 @@
 package bencode
 
 import (
+	"sort"
 	"strconv"
 )
 
@@ -72,7 +73,8 @@ func (bencode DictElement) String() string {
 
 func (bencode DictElement) Encode() string {
 	encoded := "d"
-	for k, v := range bencode.value {
+	for _, k := range bencode.keys() {
+		v := bencode.value[k]
 		if v == nil {
 			continue
 		}
@@ -83,6 +85,16 @@ func (bencode DictElement) Encode() string {
 	return encoded + "e"
 }
 
+// keys returns the keys in the order the specification requires.
+func (bencode DictElement) keys() []string {
+	keys := make([]string, 0, len(bencode.value))
+	for k := range bencode.value {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func (bencode DictElement) Value(key string) Bencode {
 	return bencode.value[key]
 }
@@ -97,7 +109,8 @@ func prettyPrint(bencode Bencode, tabs string) string {
 		tabs = addTab(tabs)
 		data := "{" + newLine(tabs)
 
-		for k, v := range value.value {
+		for _, k := range value.keys() {
+			v := value.value[k]
 			if v == nil {
 				continue
 			}
-- 
2.43.0


From c829cf6304a5c2a8d8c6cc768421c690c4024a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 10/44] fix: refuse peer messages with an absurd declared
 length

The length a peer declares was allocated before anything of the message was
read, up to four gigabytes per message.
---
 pkg/gotitnet/connection.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 2c31b3c..064f721 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -16,6 +16,10 @@ const (
 	DialTimeout    = time.Second * 2
 )
 
+// maxMessageSize is more than any legal peer message: a block, or the
+// bitfield of a torrent with eight million pieces.
+const maxMessageSize = 1 << 20
+
 type TimeoutConn struct {
 	// Underlying TCP/UDP connection.
 	c net.Conn
@@ -47,6 +51,9 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if size > maxMessageSize {
+		return nil, fmt.Errorf("peer message of %d bytes refused", size)
+	}
 
 	return c.readExactly(size)
 }
-- 
2.43.0


From 2385141c8defb29d6689de900b8b43a31608b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 11/44] fix: ignore have messages for pieces the torrent does
 not have

Setting the bit grew the piece set to the announced index, half a gigabyte for
the largest one.
---
 pkg/peer/peer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index fa27faf..b50e857 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -335,6 +335,10 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 		p.Bitset = message.Bitfield()
 	case util.HaveMessageType:
 		p.logger.Debug("Peer sent have message", zap.Int("peerId", p.Id))
+		if uint(message.Index()) >= p.piecesNum() {
+			p.logger.Warn("Peer has a piece the torrent does not", zap.Uint32("index", message.Index()))
+			return
+		}
 		p.Bitset.Set(uint(message.Index()))
 	case util.InterestedMessageType:
 		p.logger.Debug("Peer sent interested message", zap.Int("peerId", p.Id))
@@ -364,6 +368,13 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 	}
 }
 
+func (p *Peer) piecesNum() uint {
+	if p.torrent == nil {
+		return p.Bitset.Len()
+	}
+	return uint(p.torrent.PiecesNum)
+}
+
 func (p *Peer) sendMessage(msg *util.PeerMessage) (int, error) {
 	return p.conn.WriteMsg(msg)
 }
-- 
2.43.0


From 0cae45bd1f5ab2800c303f9e6d36ea65906e4d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:39 +0000
Subject: [PATCH 12/44] fix: do not crash on data for a piece the torrent does
 not have

A peer could end the process with a single piece message.
---
 pkg/torrent/torrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 6d13ff5..f149d1b 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -166,6 +166,10 @@ func (t *Torrent) initDownloadDir(root string) error {
 }
 
 func (t *Torrent) CheckPiece(data []byte, index int) bool {
+	if index < 0 || index >= len(t.Pieces) {
+		return false
+	}
+
 	hasher := sha1.New()
 	hasher.Write(data)
 	hash := hasher.Sum(nil)
-- 
2.43.0


From a2673f3323af68acec04f1b386dc9bb6f7439a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:40 +0000
Subject: [PATCH 13/44] fix: drop piece data that matches the hash but claims
 another offset

The hash covers a whole piece. Data accepted with an offset other than zero
was written over the following pieces.
---
 pkg/peer/peer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index b50e857..ab43c3c 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -402,7 +402,8 @@ func (p *Peer) SendInterested() error {
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
-	if !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
+	// the hash is that of a whole piece, which starts at offset 0
+	if message.Offset() != 0 || !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
 		p.logger.Warn("Discarding corrupted piece. Sha1 check failed.",
 			zap.Uint32("index", message.Index()))
 		return
-- 
2.43.0


From d9bb481770b73bd907f2f51eb74594d7d1671a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:42 +0000
Subject: [PATCH 14/44] fix: refuse torrents with inconsistent lengths or piece
 hashes

A zero piece length divided by zero, negative lengths sized the piece sets
with huge values, and a wrong number of hashes crashed or stalled the download
later. The number of pieces is also no longer rounded through a float.
---
 pkg/torrent/torrent.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index f149d1b..103b7ab 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/sha1"
 	"errors"
+	"fmt"
 	"math"
 	"os"
 	"path/filepath"
@@ -88,18 +89,33 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 	t.IsDirectory = metainfo.Info.Length == 0
 
 	if !t.IsDirectory {
+		if metainfo.Info.Length < 0 {
+			return nil, errors.New("torrent length negative")
+		}
 		t.Length = int(metainfo.Info.Length)
 	} else {
 		files := metainfo.Info.Files
 
 		var completeLength = 0
 		for _, file := range files {
+			if file.Length < 0 || file.Length > math.MaxInt-completeLength {
+				return nil, errors.New("torrent file length invalid")
+			}
 			completeLength += file.Length
 		}
 		t.TorrentFiles = metainfo.Info.Files
 		t.Length = completeLength
 	}
-	t.PiecesNum = int(math.Ceil(float64(t.Length) / float64(t.PieceLength)))
+	if t.PieceLength <= 0 {
+		return nil, errors.New("torrent piece length not positive")
+	}
+	t.PiecesNum = t.Length / t.PieceLength
+	if t.Length%t.PieceLength != 0 {
+		t.PiecesNum++
+	}
+	if t.PiecesNum != len(t.Pieces) {
+		return nil, fmt.Errorf("torrent of %d pieces has %d piece hashes", t.PiecesNum, len(t.Pieces))
+	}
 	t.requested = bitset.New(uint(t.PiecesNum))
 	t.downloaded = bitset.New(uint(t.PiecesNum))
 
-- 
2.43.0


From 198db5618b5c7d6ab1262df0cc5a29ce7ea57334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:43 +0000
Subject: [PATCH 15/44] fix: keep the files of a torrent inside its download
 directory

Names and paths were joined as they are, so ".." or an absolute name led
anywhere on the file system, only the first path element was used, so files in
different directories shared one file, and a file without path crashed.
---
 pkg/torrent/torrent.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 103b7ab..0f925e2 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -155,16 +155,43 @@ func (t *Torrent) Done() bool {
 	return t.downloaded.All()
 }
 
+// isPathElement reports whether name names an entry of its own directory.
+func isPathElement(name string) bool {
+	return name != "." && filepath.IsLocal(name) && filepath.Base(name) == name
+}
+
 func (t *Torrent) initDownloadDir(root string) error {
+	if !isPathElement(t.Name) {
+		return fmt.Errorf("torrent name %q invalid", t.Name)
+	}
 	path := filepath.Join(root, t.Name)
 	var filePaths []string
 	if t.IsDirectory {
-		if err := os.Mkdir(path, os.ModePerm); err != nil && os.IsNotExist(err) {
-			return err
+		seen := make(map[string]bool, len(t.TorrentFiles))
+		for _, tf := range t.TorrentFiles {
+			if len(tf.Path) == 0 {
+				return errors.New("torrent file without path")
+			}
+			for _, element := range tf.Path {
+				if !isPathElement(element) {
+					return fmt.Errorf("torrent file path %q invalid", tf.Path)
+				}
+			}
+			filePath := filepath.Join(append([]string{path}, tf.Path...)...)
+			if seen[filePath] {
+				return fmt.Errorf("torrent file path %q listed twice", tf.Path)
+			}
+			seen[filePath] = true
+			filePaths = append(filePaths, filePath)
 		}
 
-		for _, tf := range t.TorrentFiles {
-			filePaths = append(filePaths, filepath.Join(path, tf.Path[0]))
+		if err := os.Mkdir(path, os.ModePerm); err != nil && !os.IsExist(err) {
+			return err
+		}
+		for _, filePath := range filePaths {
+			if err := os.MkdirAll(filepath.Dir(filePath), os.ModePerm); err != nil {
+				return err
+			}
 		}
 	} else {
 		filePaths = append(filePaths, path)
-- 
2.43.0


From a9f596dcad676ca07011f5d0a0867d081d5e7afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:44 +0000
Subject: [PATCH 16/44] fix: never write beyond the end of the torrent

A block past the end of a single-file torrent grew the file, and one past the
end of the last of several files was written in part before it was refused.
---
 pkg/torrent/torrent.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 0f925e2..29307fa 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -244,6 +244,16 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 // writePieceData writes data at the given absolute torrent byte position,
 // spanning across multiple files as needed.
 func (t *Torrent) writePieceData(data []byte, piecePoss int) error {
+	length := t.Length
+	if length == 0 {
+		for _, file := range t.TorrentFiles {
+			length += file.Length
+		}
+	}
+	if piecePoss < 0 || (length > 0 && len(data) > length-piecePoss) {
+		return errors.New("data extends beyond torrent files")
+	}
+
 	if !t.IsDirectory {
 		_, err := t.OsFiles[0].WriteAt(data, int64(piecePoss))
 		return err
-- 
2.43.0


From 9767589e0e67a9635cc98e2e1366df90bb183e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:45 +0000
Subject: [PATCH 17/44] fix: refuse block positions that overflow

The position of a block wrapped around and could land inside the torrent.
---
 pkg/torrent/torrent.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 29307fa..e2bdc48 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -222,7 +222,10 @@ func (t *Torrent) CheckPiece(data []byte, index int) bool {
 
 func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Stats) {
 	for msg := range piecesCh {
-		piecePoss := int(msg.Index())*t.PieceLength + int(msg.Offset())
+		piecePoss := -1
+		if int(msg.Index()) <= (math.MaxInt-int(msg.Offset()))/t.PieceLength {
+			piecePoss = int(msg.Index())*t.PieceLength + int(msg.Offset())
+		}
 		stats.AddDownload(uint64(len(msg.Data())))
 
 		if err := t.writePieceData(msg.Data(), piecePoss); err != nil {
-- 
2.43.0


From 23410094e9d29d1c2e21329981b0ecaf1fe31b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:46 +0000
Subject: [PATCH 18/44] fix: count a shorter last piece as downloaded

The end of a piece was only recognised at the full piece length, so a torrent
whose length is no multiple of it never completed.
---
 pkg/torrent/torrent.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index e2bdc48..866cd0b 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -236,7 +236,7 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 			continue
 		}
 
-		if int(msg.Offset())+len(msg.Data()) == t.PieceLength {
+		if int(msg.Offset())+len(msg.Data()) == t.PieceSize(uint(msg.Index())) {
 			t.SetDownloaded(uint(msg.Index()))
 		}
 	}
@@ -304,6 +304,14 @@ func (t *Torrent) writePieceData(data []byte, piecePoss int) error {
 	return nil
 }
 
+// PieceSize returns the length of a piece; the last one may be shorter.
+func (t *Torrent) PieceSize(index uint) int {
+	if t.Length > 0 && int(index) == t.Length/t.PieceLength {
+		return t.Length % t.PieceLength
+	}
+	return t.PieceLength
+}
+
 func (t *Torrent) BlockNum() int {
 	return t.numOfBlocks
 }
-- 
2.43.0


From aec4b550a0827593ec1913d7d1a172fa54b90bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:47 +0000
Subject: [PATCH 19/44] fix: do not request piece 0 from every new peer

A new peer started with the blocks of piece 0 without asking which piece it
should work on, whether the remote peer has it or not.
---
 pkg/peer/peer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index ab43c3c..5b41ee5 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -282,7 +282,8 @@ func (p *Peer) Run(ctx context.Context) {
 }
 
 func (p *Peer) nextRequestMessage() *util.PeerMessage {
-	if p.blockIdx >= p.blockNum {
+	// no piece is assigned before the first block
+	if p.blockIdx == 0 || p.blockIdx >= p.blockNum {
 		// when finished with piece download check if we have failed
 		// piece requests
 		if req := p.piecesQueue.FailedPieceMessage(); req != nil {
-- 
2.43.0


From e6c0c7e88e25740323ab9689ceaf9190aa8b35cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:48 +0000
Subject: [PATCH 20/44] fix: request pieces exactly to their end

The last block of a piece that is no multiple of the block length was never
requested, and the shorter last piece of a torrent was requested beyond its
end, which makes peers close the connection.
---
 pkg/peer/peer.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 5b41ee5..66afdf2 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -77,18 +77,27 @@ func isHandshakeValid(handshake, hash, peerId []byte) bool {
 
 func (p *Peer) createPieceMessage() *util.PeerMessage {
 	beginOffset := p.blockIdx * torrent.BlockLength
-	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(torrent.BlockLength))
+	length := torrent.BlockLength
+	if p.torrent != nil {
+		length = min(length, uint(p.torrent.PieceSize(p.pieceIdx))-beginOffset)
+	}
+	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(length))
 
 	p.logger.Debug("created piece request",
 		zap.Uint("piece", p.pieceIdx),
 		zap.Uint("offset", beginOffset),
-		zap.Uint("length", torrent.BlockLength),
+		zap.Uint("length", length),
 	)
 
 	p.blockIdx++
 	return msg
 }
 
+// blocks returns the number of requests a piece takes.
+func blocks(pieceSize int) uint {
+	return (uint(pieceSize) + torrent.BlockLength - 1) / torrent.BlockLength
+}
+
 func newPeerStatus() *Status {
 	return &Status{true, false, true}
 }
@@ -109,7 +118,7 @@ func NewPeer(
 		lastMsgSent:  time.Now(),
 		logger:       logger.With(zap.String("ip", ip.String())),
 		blockIdx:     uint(0),
-		blockNum:     uint(t.PieceLength) / torrent.BlockLength,
+		blockNum:     blocks(t.PieceLength),
 		piecesQueue:  piecesQueue,
 		writeCh:      writeCh,
 		piecesSource: t,
@@ -298,6 +307,9 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 
 		p.blockIdx = 0
 		p.pieceIdx = indx
+		if p.torrent != nil {
+			p.blockNum = blocks(p.torrent.PieceSize(indx))
+		}
 	}
 
 	return p.createPieceMessage()
-- 
2.43.0


From a42c39e7936dfb72612a778b452dc161b8687274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:49 +0000
Subject: [PATCH 21/44] fix: remember that interest was declared to a peer

The flag was never set, and without it no block is ever requested.
---
 pkg/peer/peer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 66afdf2..b3370c5 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -410,8 +410,12 @@ func (p *Peer) SendUnchoke() error {
 }
 
 func (p *Peer) SendInterested() error {
-	_, err := p.sendMessage(util.CreateInterestedMessage())
-	return err
+	if _, err := p.sendMessage(util.CreateInterestedMessage()); err != nil {
+		return err
+	}
+
+	p.ClientStatus.Interested = true
+	return nil
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
-- 
2.43.0


From 9f0a0b37f320e92719d982b46ae257ea54653016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:50 +0000
Subject: [PATCH 22/44] fix: request the next block once one is received

The outstanding request was never cleared, so a session stopped after its
first block, and a request dropped by a choke or the end of the session was
lost for good.
---
 pkg/peer/peer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index b3370c5..31a2ccb 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -221,6 +221,11 @@ func wait(ctx context.Context, sleepDuration time.Duration) error {
 func (p *Peer) Run(ctx context.Context) {
 	var requestMsg *util.PeerMessage
 	sentPieceMsg := false
+	defer func() {
+		if sentPieceMsg {
+			p.piecesQueue.RequestFailed(requestMsg)
+		}
+	}()
 
 	for {
 		// check if canceled
@@ -286,7 +291,20 @@ func (p *Peer) Run(ctx context.Context) {
 		}
 		b.Reset()
 
-		p.handlePeerMessage(util.NewPeerMessage(response))
+		msg := util.NewPeerMessage(response)
+		p.handlePeerMessage(msg)
+		if !sentPieceMsg {
+			continue
+		}
+		if msg.Type == util.PieceMessageType &&
+			msg.Index() == requestMsg.Index() &&
+			msg.Offset() == requestMsg.Offset() {
+			sentPieceMsg = false
+		} else if p.ClientStatus.Choked {
+			// a choking peer discards the requests it has not answered
+			p.piecesQueue.RequestFailed(requestMsg)
+			sentPieceMsg = false
+		}
 	}
 }
 
-- 
2.43.0


From 7b50d4670cf735b94077a9c952dcb0f0b437f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:51 +0000
Subject: [PATCH 23/44] fix: send keep-alives only on idle connections

Only keep-alives themselves counted as traffic, so one went out every two
minutes no matter how busy the connection was.
---
 pkg/peer/peer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 31a2ccb..2edb65b 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -343,7 +343,6 @@ func (p *Peer) checkKeepAlive() error {
 		if _, err := p.sendMessage(util.KeepalivePeerMessage); err != nil {
 			return err
 		}
-		p.updateLastMsgSent()
 	}
 
 	return nil
@@ -407,7 +406,11 @@ func (p *Peer) piecesNum() uint {
 }
 
 func (p *Peer) sendMessage(msg *util.PeerMessage) (int, error) {
-	return p.conn.WriteMsg(msg)
+	n, err := p.conn.WriteMsg(msg)
+	if err == nil {
+		p.updateLastMsgSent()
+	}
+	return n, err
 }
 
 func (p *Peer) send(data []byte) (int, error) {
-- 
2.43.0


From 676aac9623533495185fef6fa2875d8285077a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:26 +0000
Subject: [PATCH 24/44] fix: keep amount left and percentage within range

---
 pkg/stats/stats.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/stats/stats.go b/pkg/stats/stats.go
index 8a599b8..362dfe2 100644
--- a/pkg/stats/stats.go
+++ b/pkg/stats/stats.go
@@ -14,7 +14,6 @@ type Stats struct {
 
 	download   uint64
 	upload     uint64
-	left       uint64
 	peerNum    uint64
 	trackerNum uint64
 }
@@ -25,7 +24,6 @@ func NewStats(torrentSize uint64) *Stats {
 		torrentSize: torrentSize,
 		download:    0,
 		upload:      0,
-		left:        torrentSize,
 		peerNum:     0,
 		trackerNum:  0,
 	}
@@ -33,7 +31,6 @@ func NewStats(torrentSize uint64) *Stats {
 
 func (ts *Stats) AddDownload(size uint64) {
 	atomic.AddUint64(&ts.download, size)
-	atomic.AddUint64(&ts.left, -size)
 }
 
 func (ts *Stats) AddUpload(size uint64) {
@@ -49,7 +46,11 @@ func (ts *Stats) Upload() uint64 {
 }
 
 func (ts *Stats) Left() uint64 {
-	return atomic.LoadUint64(&ts.left)
+	download := ts.Download()
+	if download >= ts.torrentSize {
+		return 0
+	}
+	return ts.torrentSize - download
 }
 
 func (ts *Stats) Speed() float64 {
@@ -86,5 +87,6 @@ func (ts *Stats) PercentCompleted() int {
 		return 0
 	}
 
-	return int(math.Round((float64(ts.Download()) / float64(ts.torrentSize)) * 100.0))
+	// data received more than once counts as downloaded every time
+	return int(math.Min(100, math.Round((float64(ts.Download())/float64(ts.torrentSize))*100.0)))
 }
-- 
2.43.0


From f9bbce1ca54247106b01bf113b1548970e34437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:07 +0000
Subject: [PATCH 25/44] fix: send info-hash and two byte port in udp announces

---
 pkg/tracker/udp_tracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index ed84ae7..7a6da1d 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -136,7 +136,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, connId)
 	binary.Write(request, binary.BigEndian, uint32(announce))
 	binary.Write(request, binary.BigEndian, transactionId)
-	binary.Write(request, binary.BigEndian, torrentHash)
+	binary.Write(request, binary.BigEndian, []byte(torrentHash))
 	binary.Write(request, binary.BigEndian, peer.ClientId)
 	binary.Write(request, binary.BigEndian, data.Downloaded)
 	binary.Write(request, binary.BigEndian, data.Left)
@@ -145,7 +145,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, uint32(0))
 	binary.Write(request, binary.BigEndian, rand.Int31())
 	binary.Write(request, binary.BigEndian, int32(-1))
-	binary.Write(request, binary.BigEndian, int32(data.Port))
+	binary.Write(request, binary.BigEndian, uint16(data.Port))
 	return request.Bytes()
 }
 
-- 
2.43.0


From a5fe82a4369d1ac1cc63fbbceecd4a65b18ac75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:08 +0000
Subject: [PATCH 26/44] fix: read one datagram per udp tracker reply

---
 pkg/gotitnet/connection.go | 17 +++++++++++++++++
 pkg/tracker/udp_tracker.go |  8 +++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 064f721..b4ae924 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -20,6 +20,9 @@ const (
 // bitfield of a torrent with eight million pieces.
 const maxMessageSize = 1 << 20
 
+// maxDatagramSize is more than any datagram carries.
+const maxDatagramSize = 1 << 16
+
 type TimeoutConn struct {
 	// Underlying TCP/UDP connection.
 	c net.Conn
@@ -101,6 +104,20 @@ func (c *TimeoutConn) ReadAll() ([]byte, error) {
 	return io.ReadAll(c.c)
 }
 
+// ReadDatagram reads a single datagram, of any size, from socket.
+// Read deadline is set to timeoutConn.timeout
+func (c *TimeoutConn) ReadDatagram() ([]byte, error) {
+	if err := c.setReadDeadline(); err != nil {
+		return nil, err
+	}
+	buf := make([]byte, maxDatagramSize)
+	n, err := c.c.Read(buf)
+	if err != nil {
+		return nil, err
+	}
+	return buf[:n], nil
+}
+
 // ReadUdpHandshake reads udp tracker handshake from socket.
 // Read deadline is set to timeoutConn.timeout
 func (c *TimeoutConn) ReadUdpHandshake() ([]byte, error) {
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 7a6da1d..10a7b21 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -78,9 +78,11 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 	transactionId := createTransactionId()
 	// TODO propagate download stats
 	request := createAnnounce(connId, transactionId, torrentHash, data)
-	t.conn.Write(request)
+	if _, err := t.conn.Write(request); err != nil {
+		return nil, err
+	}
 	t.log.Info("Announce sent to tracker", zap.String("ip", t.Url()))
-	response, err := t.conn.ReadAll()
+	response, err := t.conn.ReadDatagram()
 	if err != nil {
 		return nil, err
 	}
@@ -102,7 +104,7 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	}
 	t.log.Info("Sent handshake to tracker")
 
-	response, err := t.conn.ReadUdpHandshake()
+	response, err := t.conn.ReadDatagram()
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From c3d215aa1b5907870079e44798cb380d994577e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 27/44] fix: believe udp tracker replies only if they answer
 the request

---
 pkg/tracker/udp_tracker.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 10a7b21..1b791ac 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -87,8 +87,10 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 		return nil, err
 	}
 
-	err = t.parseTrackerResponse(response, transactionId)
-	return t.ips, err
+	if err := t.parseTrackerResponse(response, announce, transactionId); err != nil {
+		return nil, err
+	}
+	return t.ips, nil
 }
 
 func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
@@ -108,15 +110,21 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	if err := t.parseTrackerResponse(response, transactionId); err != nil {
+	if err := t.parseTrackerResponse(response, connect, transactionId); err != nil {
 		return 0, err
 	}
 
 	return t.connectionId, nil
 }
 
-func (t *udpTracker) parseTrackerResponse(response []byte, transactionId uint32) error {
+func (t *udpTracker) parseTrackerResponse(response []byte, wantAction int, transactionId uint32) error {
+	if len(response) < 8 {
+		return errors.New("udp tracker response size less then 8")
+	}
 	actionCode := int(binary.BigEndian.Uint32(response[:4]))
+	if actionCode != wantAction && actionCode != conError {
+		return fmt.Errorf("unexpected udp tracker response action code: %d", actionCode)
+	}
 	var err error
 
 	switch actionCode {
-- 
2.43.0


From 81ebd6b7a4a1c8c88cb1e8907ecf1803f41d6f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:10 +0000
Subject: [PATCH 28/44] fix: never announce without pause when a tracker sends
 no interval

---
 pkg/tracker/http_tracker.go | 2 +-
 pkg/tracker/tracker.go      | 9 +++++++++
 pkg/tracker/udp_tracker.go  | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 0715fcb..1c812c0 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -119,7 +119,7 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	if announceResponse.Failure != "" {
 		return nil, fmt.Errorf("tracker failure: %s", announceResponse.Failure)
 	}
-	t.interval = time.Duration(announceResponse.Interval) * time.Second
+	t.setInterval(announceResponse.Interval)
 
 	if announceResponse.Peers != nil {
 		p := t.parseBencodePeers(announceResponse.Peers)
diff --git a/pkg/tracker/tracker.go b/pkg/tracker/tracker.go
index 993fa45..b5b1218 100644
--- a/pkg/tracker/tracker.go
+++ b/pkg/tracker/tracker.go
@@ -3,6 +3,7 @@ package tracker
 import (
 	"context"
 	"fmt"
+	"math"
 	"net/http"
 	"net/url"
 	"time"
@@ -16,6 +17,14 @@ type waitInterval struct {
 	interval time.Duration
 }
 
+// setInterval keeps the current interval if the tracker sent none, or one
+// that is not a positive duration.
+func (t *waitInterval) setInterval(seconds int) {
+	if seconds > 0 && seconds <= int(math.MaxInt64/time.Second) {
+		t.interval = time.Duration(seconds) * time.Second
+	}
+}
+
 func (t waitInterval) WaitInterval(ctx context.Context) error {
 	select {
 	case <-time.After(t.interval):
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 1b791ac..0da929f 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -179,7 +179,7 @@ func (t *udpTracker) readAnnounce(response []byte, transactionId uint32) ([]neti
 		return nil, err
 	}
 
-	t.interval = time.Duration(binary.BigEndian.Uint32(response[8:12])) * time.Second
+	t.setInterval(int(binary.BigEndian.Uint32(response[8:12])))
 	leechers := binary.BigEndian.Uint32(response[12:16])
 	seeders := binary.BigEndian.Uint32(response[16:20])
 
-- 
2.43.0


From 19be2db465c1e2f49b1186e73215ed2db4862e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:11 +0000
Subject: [PATCH 29/44] fix: leave unusable peers out of tracker responses

---
 pkg/tracker/http_tracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 1c812c0..e56dde8 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -137,8 +137,8 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 }
 
 func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.AddrPort {
-	ips := make([]netip.AddrPort, len(peers))
-	for i, p := range peers {
+	ips := make([]netip.AddrPort, 0, len(peers))
+	for _, p := range peers {
 		t.logger.Debug("got ip", zap.String("ip", p.Ip))
 		ip, err := netip.ParseAddr(p.Ip)
 		if err != nil {
@@ -166,7 +166,7 @@ func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.Addr
 			t.logger.Warn("invalid ip address", zap.String("ip", p.Ip))
 			continue
 		}
-		ips[i] = ipAddr
+		ips = append(ips, ipAddr)
 	}
 
 	return ips
-- 
2.43.0


From 26068bfe1d7539b17b0fb1f177db63380c9433c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:12 +0000
Subject: [PATCH 30/44] fix: keep query parameters of http tracker urls

---
 pkg/tracker/http_tracker.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index e56dde8..63ec811 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -62,7 +62,17 @@ func (t *httpTracker) Close() error { return nil }
 
 func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *gotit.AnnounceData) ([]netip.AddrPort, error) {
 	q := t.buildQuery(torrentHash, data)
-	r, err := http.NewRequestWithContext(ctx, http.MethodGet, fmt.Sprintf("%s?%s", t.addr, q.Encode()), nil)
+	u, err := url.Parse(t.addr)
+	if err != nil {
+		return nil, err
+	}
+	// keep the query parameters of the tracker, a passkey for example
+	if u.RawQuery != "" {
+		u.RawQuery += "&"
+	}
+	u.RawQuery += q.Encode()
+
+	r, err := http.NewRequestWithContext(ctx, http.MethodGet, u.String(), nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d42f969f1e120290a46feba6c595b7e9e11a0263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:13 +0000
Subject: [PATCH 31/44] fix: accept tracker responses with compact peers

---
 gotit.go                  |  4 ++--
 pkg/bencode/tag_parser.go | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/gotit.go b/gotit.go
index 1e60291..5a603f3 100644
--- a/gotit.go
+++ b/gotit.go
@@ -24,8 +24,8 @@ type (
 	AnnounceResponse struct {
 		Failure      string         `ben:"failure reason,optional"`
 		Interval     int            `ben:"interval,optional"`
-		Peers        []AnnouncePeer `ben:"peers,optional"`
-		PeersCompact []byte         `ben:"peers,optional"`
+		Peers        []AnnouncePeer `ben:"peers,optional,list"`
+		PeersCompact []byte         `ben:"peers,optional,string"`
 		PeersIpv6    []byte         `ben:"peers6,optional"`
 	}
 
diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 76a9515..943025b 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -61,11 +61,15 @@ func processTarget(target interface{}, bencode Bencode) error {
 			continue
 		}
 		optional := false
+		kind := ""
 		splits := strings.Split(tagName, ",")
 		tagName = splits[0]
 		for _, opt := range splits[1:] {
-			if opt == "optional" {
+			switch opt {
+			case "optional":
 				optional = true
+			case "list", "string":
+				kind = opt
 			}
 		}
 
@@ -78,6 +82,10 @@ func processTarget(target interface{}, bencode Bencode) error {
 			}
 		}
 		value := dict.Value(tagName)
+		// a value of another kind belongs to another field of the same name
+		if kind != "" && !isKind(value, kind) {
+			value = nil
+		}
 		if value == nil && !optional {
 			return fmt.Errorf("Required ben field %q not found", tagName)
 		}
@@ -92,6 +100,17 @@ func processTarget(target interface{}, bencode Bencode) error {
 	return nil
 }
 
+func isKind(value Bencode, kind string) bool {
+	switch value.(type) {
+	case StringElement:
+		return kind == "string"
+	case *ListElement:
+		return kind == "list"
+	default:
+		return false
+	}
+}
+
 func setField(f reflect.Value, value Bencode, fieldName string) error {
 	ftype := f.Type()
 
-- 
2.43.0


From a525bfe6aea1c1bef35e7b1da52282c7e57047ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:43 +0000
Subject: [PATCH 32/44] fix: limit the peer pool and remove unreachable peers
 from it

---
 pkg/download/manager.go | 22 +++++++++++++++++++++-
 pkg/peer/peer.go        |  3 +++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 2bf5576..9332142 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -167,13 +167,14 @@ func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
 		m.logger.Error("error announcing to peer",
 			zap.Stringer("ip", peer.AddrPort),
 			zap.Error(err))
-		m.torrentStatus.RemovePeer()
+		m.removePeer(peer)
 		return
 	}
 
 	m.wg.Add(1)
 	go func() {
 		peer.Run(ctx)
+		m.removePeer(peer)
 		m.wg.Done()
 	}()
 }
@@ -217,6 +218,10 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
 
+	// no pool is left after stopping
+	if m.peerPool == nil || len(m.peerPool) >= m.peerNum {
+		return false
+	}
 	if m.peerPool[peer.AddrPort.String()] != nil {
 		return false
 	}
@@ -226,6 +231,21 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	return true
 }
 
+// removePeer disconnects a peer and makes room for another in the pool.
+func (m *Manager) removePeer(peer *peer.Peer) {
+	if err := peer.Close(); err != nil {
+		m.logger.Error("closing peer", zap.Error(err))
+	}
+
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
+	if m.peerPool[peer.AddrPort.String()] == peer {
+		delete(m.peerPool, peer.AddrPort.String())
+		m.torrentStatus.RemovePeer()
+	}
+}
+
 func (m *Manager) UpdateStatus(downloaded, uploaded uint64) {
 	m.torrentStatus.AddDownload(downloaded)
 	m.torrentStatus.AddUpload(uploaded)
diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 2edb65b..32a89ef 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -334,6 +334,9 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 }
 
 func (p *Peer) Close() error {
+	if p.conn == nil {
+		return nil
+	}
 	return p.conn.Close()
 }
 
-- 
2.43.0


From db41477a336b2a042cd7e159955348367e289fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:43 +0000
Subject: [PATCH 33/44] fix: shut a download down without crashes and lost
 pieces

---
 pkg/download/manager.go | 52 ++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 9332142..5b84a89 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -32,6 +32,7 @@ type Manager struct {
 	peerPool map[string]*peer.Peer
 
 	cancelCtx context.CancelFunc
+	finished  chan struct{}
 	wg        *sync.WaitGroup
 }
 
@@ -52,18 +53,35 @@ func NewMng(torrent *torrent.Torrent, logger *zap.Logger, peerNum, listenPort in
 }
 
 func (m *Manager) Download(ctx context.Context) error {
-	ctx, m.cancelCtx = context.WithCancel(ctx)
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	finished := make(chan struct{})
+	defer close(finished)
+
+	m.poolMu.Lock()
+	stopped := m.peerPool == nil
+	m.cancelCtx, m.finished = cancel, finished
+	m.poolMu.Unlock()
+	if stopped {
+		return nil
+	}
 
 	pieceCh := make(chan *util.PeerMessage, 1024)
 
 	m.initStatisticsPrinting(ctx)
 	m.getIps(ctx, pieceCh)
 
-	go m.torrent.WritePiece(pieceCh, m.torrentStatus)
+	written := make(chan struct{})
+	go func() {
+		m.torrent.WritePiece(pieceCh, m.torrentStatus)
+		close(written)
+	}()
 
-	m.waitPeers()
 	<-ctx.Done()
+	// nobody sends on the channel any more once all are finished
+	m.waitPeers()
 	close(pieceCh)
+	<-written
 	return nil // TODO: propagate errors
 }
 
@@ -73,7 +91,11 @@ func (m *Manager) getIps(ctx context.Context, pieceCh chan *util.PeerMessage) {
 	m.logger.Info("trackers", zap.Any("urls", m.torrent.Trackers))
 
 	for url := range m.torrent.Trackers {
-		go m.runTracker(ctx, url, pieceCh)
+		m.wg.Add(1)
+		go func(url string) {
+			defer m.wg.Done()
+			m.runTracker(ctx, url, pieceCh)
+		}(url)
 	}
 }
 
@@ -180,7 +202,9 @@ func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
 }
 
 func (m *Manager) initStatisticsPrinting(ctx context.Context) {
+	m.wg.Add(1)
 	go func() {
+		defer m.wg.Done()
 		for {
 			select {
 			case <-ctx.Done():
@@ -193,20 +217,26 @@ func (m *Manager) initStatisticsPrinting(ctx context.Context) {
 }
 
 func (m *Manager) Stop() {
-	if m.peerPool == nil {
+	m.poolMu.Lock()
+	pool := m.peerPool
+	m.peerPool = nil
+	cancel, finished := m.cancelCtx, m.finished
+	m.poolMu.Unlock()
+
+	if pool == nil {
 		return
 	}
-	m.cancelCtx()
-
-	m.poolMu.Lock()
-	defer m.poolMu.Unlock()
+	if cancel != nil {
+		cancel()
+		<-finished
+	}
 
-	for _, p := range m.peerPool {
+	for _, p := range pool {
 		if err := p.Close(); err != nil {
 			m.logger.Error("closing peer", zap.Error(err))
 		}
+		m.torrentStatus.RemovePeer()
 	}
-	m.peerPool = nil
 	m.progressPrinter.Close()
 }
 
-- 
2.43.0


From efc6ce3e1a1a159c9cc98b1932501888fc2dfcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:44 +0000
Subject: [PATCH 34/44] fix: end the download once the torrent is complete

---
 pkg/download/manager.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 5b84a89..9da8534 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -77,7 +77,8 @@ func (m *Manager) Download(ctx context.Context) error {
 		close(written)
 	}()
 
-	<-ctx.Done()
+	m.waitDone(ctx)
+	cancel()
 	// nobody sends on the channel any more once all are finished
 	m.waitPeers()
 	close(pieceCh)
@@ -240,6 +241,17 @@ func (m *Manager) Stop() {
 	m.progressPrinter.Close()
 }
 
+// waitDone waits until the torrent is complete or the download canceled.
+func (m *Manager) waitDone(ctx context.Context) {
+	for !m.torrent.Done() {
+		select {
+		case <-ctx.Done():
+			return
+		case <-time.After(time.Second):
+		}
+	}
+}
+
 func (m *Manager) waitPeers() {
 	m.wg.Wait()
 }
-- 
2.43.0


From 36d60cf2a03cf959b7a937d81505f60fa62ef262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:20 +0000
Subject: [PATCH 35/44] fix: close a failed connection to a peer before
 connecting again

---
 pkg/peer/peer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 32a89ef..0bc36f8 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -129,6 +129,11 @@ func NewPeer(
 }
 
 func (p *Peer) connect() error {
+	// an attempt that failed leaves its connection behind
+	if err := p.Close(); err != nil {
+		p.logger.Debug("closing failed connection", zap.Error(err))
+	}
+
 	var err error
 	p.conn, err = gotitnet.NewTimeoutConn("tcp", p.AddrPort.String(), gotitnet.PeerTimeout)
 	if err != nil {
-- 
2.43.0


From e10238636e516189d7a98c1d1cb66bf6790039c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:03 +0000
Subject: [PATCH 36/44] fix: read on with a peer message that did not arrive in
 time

---
 pkg/gotitnet/connection.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index b4ae924..b4447da 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -29,6 +29,8 @@ type TimeoutConn struct {
 	// Timeout used when reading or writing on
 	// this connection.
 	timeout time.Duration
+	// What was read of a peer message before the read failed.
+	partial []byte
 }
 
 func NewTimeoutConn(network, address string, timeout time.Duration) (*TimeoutConn, error) {
@@ -45,7 +47,8 @@ func NewTimeoutConn(network, address string, timeout time.Duration) (*TimeoutCon
 }
 
 // ReadPeerMessage reads whole peer message from socket.
-// Read deadline is set to timeoutConn.timeout
+// Read deadline is set to timeoutConn.timeout. A message that did not arrive
+// in time is read on by the next call.
 func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 	if err := c.setReadDeadline(); err != nil {
 		return nil, err
@@ -58,18 +61,33 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 		return nil, fmt.Errorf("peer message of %d bytes refused", size)
 	}
 
-	return c.readExactly(size)
+	if err := c.readPartial(4 + size); err != nil {
+		return nil, err
+	}
+	msg := c.partial[4:]
+	c.partial = nil
+	return msg, nil
 }
 
 // readPeerMessageSize returns next peer message size by reading first 4
 // bytes from socket.
 func (c *TimeoutConn) readPeerMessageSize() (int, error) {
-	buf, err := c.readExactly(4)
-	if err != nil {
+	if err := c.readPartial(4); err != nil {
 		return 0, err
 	}
 
-	return int(binary.BigEndian.Uint32(buf)), nil
+	return int(binary.BigEndian.Uint32(c.partial)), nil
+}
+
+// readPartial reads until n bytes of a peer message are there.
+func (c *TimeoutConn) readPartial(n int) error {
+	if len(c.partial) >= n {
+		return nil
+	}
+	buf := make([]byte, n-len(c.partial))
+	read, err := io.ReadFull(c.c, buf)
+	c.partial = append(c.partial, buf[:read]...)
+	return err
 }
 
 // ReadPeerHandshake reads peer handshake message from socket.
-- 
2.43.0


From 54d593d47b03a0598f8550032df6f35a67b952f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:24 +0000
Subject: [PATCH 37/44] fix: end the session with a peer when its connection is
 lost

---
 pkg/peer/peer.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 0bc36f8..dffc812 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"math/rand"
+	"net"
 	"net/netip"
 	"time"
 
@@ -184,6 +185,9 @@ func (p *Peer) unchoke(ctx context.Context) error {
 		}
 
 		if err := p.SendInterested(); err != nil {
+			if !isTimeout(err) {
+				return err
+			}
 			d := b.Duration()
 			p.logger.Warn("peer: failed to send interested message. retrying",
 				zap.Duration("backoff", d),
@@ -196,6 +200,9 @@ func (p *Peer) unchoke(ctx context.Context) error {
 
 		message, err := p.conn.ReadPeerMessage()
 		if err != nil {
+			if !isTimeout(err) {
+				return err
+			}
 			d := b.Duration()
 			p.logger.Warn("peer: error reading peer message. retrying",
 				zap.Duration("backoff", d),
@@ -222,6 +229,12 @@ func wait(ctx context.Context, sleepDuration time.Duration) error {
 	}
 }
 
+// isTimeout tells whether the connection can still be used after err.
+func isTimeout(err error) bool {
+	var netErr net.Error
+	return errors.As(err, &netErr) && netErr.Timeout()
+}
+
 // Run communicates with remote peer and downloads torrent pieces.
 func (p *Peer) Run(ctx context.Context) {
 	var requestMsg *util.PeerMessage
@@ -268,6 +281,10 @@ func (p *Peer) Run(ctx context.Context) {
 
 			if _, err := p.sendMessage(requestMsg); err != nil {
 				p.piecesQueue.RequestFailed(requestMsg)
+				if !isTimeout(err) {
+					p.logger.Debug("peer: connection lost", zap.Error(err))
+					return
+				}
 				d := b.Duration()
 				p.logger.Warn("Error requesting piece. Retrying",
 					zap.Duration("backoff", d),
@@ -288,6 +305,10 @@ func (p *Peer) Run(ctx context.Context) {
 				p.piecesQueue.RequestFailed(requestMsg)
 				sentPieceMsg = false
 			}
+			if !isTimeout(err) {
+				p.logger.Debug("peer: connection lost", zap.Error(err))
+				return
+			}
 			d := b.Duration()
 			if err := wait(ctx, d); err != nil {
 				return
@@ -417,6 +438,10 @@ func (p *Peer) sendMessage(msg *util.PeerMessage) (int, error) {
 	n, err := p.conn.WriteMsg(msg)
 	if err == nil {
 		p.updateLastMsgSent()
+	} else if n > 0 {
+		// the rest would be taken for another message, so this is not
+		// to be retried like a timeout
+		err = fmt.Errorf("message sent in part: %v", err)
 	}
 	return n, err
 }
-- 
2.43.0


From fcd934edc3a6fcfcab328a01d53c1a405a66328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:38 +0000
Subject: [PATCH 38/44] fix: let every peer of a torrent retry its failed
 requests

---
 pkg/download/manager.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 9da8534..426d432 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -27,6 +27,8 @@ type Manager struct {
 	torrent         *torrent.Torrent
 	torrentStatus   *stats.Stats
 	progressPrinter *stats.ProgressPrinter
+	// failed requests, for any peer to retry
+	piecesQueue *torrent.PiecesQueue
 
 	poolMu   sync.Mutex
 	peerPool map[string]*peer.Peer
@@ -36,12 +38,13 @@ type Manager struct {
 	wg        *sync.WaitGroup
 }
 
-func NewMng(torrent *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *Manager {
-	s := stats.NewStats(uint64(torrent.Length))
+func NewMng(t *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *Manager {
+	s := stats.NewStats(uint64(t.Length))
 	pp := stats.NewProgressPrinter(s)
 	return &Manager{
 		logger:          logger,
-		torrent:         torrent,
+		torrent:         t,
+		piecesQueue:     torrent.NewPiecesQueue(),
 		peerPool:        make(map[string]*peer.Peer, 100),
 		peerNum:         peerNum,
 		listenPort:      listenPort,
@@ -130,9 +133,8 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 }
 
 func (m *Manager) initPeers(ctx context.Context, ips []netip.AddrPort, pieceCh chan *util.PeerMessage) {
-	pq := torrent.NewPiecesQueue()
 	for _, ip := range ips {
-		p := peer.NewPeer(ip, m.torrent, pq, pieceCh, m.logger)
+		p := peer.NewPeer(ip, m.torrent, m.piecesQueue, pieceCh, m.logger)
 		if m.AddPeer(p) {
 			m.startPeerDownload(ctx, p)
 		}
-- 
2.43.0


From f6cea4e85b6f9605c961cd4f2893f8f342fa664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:54 +0000
Subject: [PATCH 39/44] fix: leave out late udp tracker responses to earlier
 requests

---
 pkg/tracker/udp_tracker.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 0da929f..d595f30 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -20,6 +20,9 @@ import (
 
 const protocolId uint64 = 0x41727101980
 
+// maxLateResponses is more than there can be of the attempts of an announce.
+const maxLateResponses = 16
+
 const (
 	connect = iota
 	announce
@@ -82,7 +85,7 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 		return nil, err
 	}
 	t.log.Info("Announce sent to tracker", zap.String("ip", t.Url()))
-	response, err := t.conn.ReadDatagram()
+	response, err := t.readResponse(transactionId)
 	if err != nil {
 		return nil, err
 	}
@@ -106,7 +109,7 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	}
 	t.log.Info("Sent handshake to tracker")
 
-	response, err := t.conn.ReadDatagram()
+	response, err := t.readResponse(transactionId)
 	if err != nil {
 		return 0, err
 	}
@@ -117,6 +120,21 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	return t.connectionId, nil
 }
 
+// readResponse reads the response to a request. Late responses to earlier
+// requests are left out, or each would be taken for that to the next request.
+func (t *udpTracker) readResponse(transactionId uint32) ([]byte, error) {
+	for i := 0; i < maxLateResponses; i++ {
+		response, err := t.conn.ReadDatagram()
+		if err != nil {
+			return nil, err
+		}
+		if len(response) >= 8 && checkResponseTransactionId(response, transactionId) == nil {
+			return response, nil
+		}
+	}
+	return nil, errors.New("no udp tracker response to the request")
+}
+
 func (t *udpTracker) parseTrackerResponse(response []byte, wantAction int, transactionId uint32) error {
 	if len(response) < 8 {
 		return errors.New("udp tracker response size less then 8")
-- 
2.43.0


From 2786b25108c5398b7cf8439007bbb3e555cb108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:12 +0000
Subject: [PATCH 40/44] fix: close the connection to a tracker at the end

---
 pkg/download/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 426d432..8cc6aff 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -108,6 +108,7 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 	if err != nil {
 		return err
 	}
+	defer tracker.Close()
 
 	for {
 		m.logger.Info("Sending announce to tracker", zap.String("url", url))
-- 
2.43.0


From 44d76906310c89d8fa22348a75b5cdc578228c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:12 +0000
Subject: [PATCH 41/44] fix: try again to connect to a tracker

---
 pkg/download/manager.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 8cc6aff..aa65eca 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -3,6 +3,7 @@ package download
 import (
 	"context"
 	"errors"
+	"net"
 	"net/netip"
 	"sync"
 	"time"
@@ -104,7 +105,7 @@ func (m *Manager) getIps(ctx context.Context, pieceCh chan *util.PeerMessage) {
 }
 
 func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util.PeerMessage) error {
-	tracker, err := tracker.New(url, m.logger)
+	tracker, err := m.newTracker(ctx, url)
 	if err != nil {
 		return err
 	}
@@ -133,6 +134,28 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 	}
 }
 
+// newTracker tries again as long as the tracker cannot be connected to, its
+// host not be resolved for example.
+func (m *Manager) newTracker(ctx context.Context, url string) (gotit.Tracker, error) {
+	for {
+		t, err := tracker.New(url, m.logger)
+		if err == nil {
+			return t, nil
+		}
+		m.logger.Error("tracker unusable", zap.String("url", url), zap.Error(err))
+		var opErr *net.OpError
+		if !errors.As(err, &opErr) {
+			return nil, err
+		}
+
+		select {
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		case <-time.After(time.Minute):
+		}
+	}
+}
+
 func (m *Manager) initPeers(ctx context.Context, ips []netip.AddrPort, pieceCh chan *util.PeerMessage) {
 	for _, ip := range ips {
 		p := peer.NewPeer(ip, m.torrent, m.piecesQueue, pieceCh, m.logger)
-- 
2.43.0


From 8377f2acb99ef9c5ee338d5b397deb7fa84d847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:04 +0000
Subject: [PATCH 42/44] fix: accept the documented log levels warning and trace

---
 pkg/logger/logger.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/logger/logger.go b/pkg/logger/logger.go
index 10496d3..b67aa61 100644
--- a/pkg/logger/logger.go
+++ b/pkg/logger/logger.go
@@ -12,16 +12,16 @@ import (
 func getZapLevel(level string) (zapcore.Level, error) {
 	level = strings.TrimSpace(strings.ToLower(level))
 	switch level {
-	case "debug":
+	case "debug", "trace":
 		return zapcore.DebugLevel, nil
 	case "info", "":
 		return zapcore.InfoLevel, nil
-	case "warn":
+	case "warn", "warning":
 		return zapcore.WarnLevel, nil
 	case "error":
 		return zapcore.ErrorLevel, nil
 	default:
-		return 0, fmt.Errorf("unknown log level [debug,info,warn,error]: %q", level)
+		return 0, fmt.Errorf("unknown log level [info,debug,trace,warning,error,silent]: %q", level)
 	}
 }
 
-- 
2.43.0


From 7f6a5df7af9c66d47a5799f15b509dfe6dd79b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:05 +0000
Subject: [PATCH 43/44] fix: read the log and config options once they are
 parsed, refuse bad ones

---
 pkg/cmd/app.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pkg/cmd/app.go b/pkg/cmd/app.go
index 72cdb93..a6de509 100644
--- a/pkg/cmd/app.go
+++ b/pkg/cmd/app.go
@@ -95,22 +95,23 @@ func initConfig(cfgPath string) error {
 func (a App) NewCmdRun(
 	fn func(ctx context.Context, appCtx AppContext, args []string) error,
 ) func(cmd *cobra.Command, args []string) {
-	ctx := context.Background()
-	ctx, stop := signal.NotifyContext(ctx, syscall.SIGTERM, syscall.SIGINT)
-
-	if err := initConfig(a.appCfg.CfgPath); err != nil {
-		fmt.Println("could not resolve configuration", err)
-		os.Exit(1)
-	}
-
-	logCfg := a.appCfg.Log
-	l, err := logger.NewCommandLine(logCfg.Level, logCfg.Format)
-	if err != nil {
-		_, _ = fmt.Fprint(os.Stderr, "")
-	}
-	appCtx := AppContext{log: l, printer: printer.NewConsole()}
 	return func(_ *cobra.Command, args []string) {
+		ctx, stop := signal.NotifyContext(context.Background(), syscall.SIGTERM, syscall.SIGINT)
 		defer stop()
+
+		// flags have values only once the command runs
+		if err := initConfig(a.appCfg.CfgPath); err != nil {
+			fmt.Println("could not resolve configuration", err)
+			os.Exit(1)
+		}
+
+		logCfg := a.appCfg.Log
+		l, err := logger.NewCommandLine(logCfg.Level, logCfg.Format)
+		if err != nil {
+			_, _ = fmt.Fprintln(os.Stderr, "could not set up logging:", err)
+			os.Exit(1)
+		}
+		appCtx := AppContext{log: l, printer: printer.NewConsole()}
 		if err := fn(ctx, appCtx, args); err != nil {
 			appCtx.printer.Fatal(1, "error with the app")
 		}
-- 
2.43.0


From 5dd2f0ce7d617016adcba537bc1c548e8f7fd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:53 +0000
Subject: [PATCH 44/44] fix: keep a session alive while it waits to be unchoked

---
 pkg/peer/peer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index dffc812..be4e6ad 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -184,6 +184,10 @@ func (p *Peer) unchoke(ctx context.Context) error {
 			return ctx.Err()
 		}
 
+		if err := p.checkKeepAlive(); err != nil {
+			return err
+		}
+
 		if err := p.SendInterested(); err != nil {
 			if !isTimeout(err) {
 				return err
-- 
2.43.0


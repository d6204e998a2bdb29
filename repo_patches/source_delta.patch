From 7cf2cce79a79df733160d3b7a5d796a7349a4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 01/15] fix: bitbucket: refuse serialized headers with an
 unsupported width or impossible count

WithBytes and ReadFrom trusted the count in the header: a count that
overflows int when converted or multiplied by the width panicked in slice
or allocation, ReadFrom accepted any width, and a zero width gave buckets
that panic on access.
---
 internal/bitbucket/bitbucket.go | 39 ++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 80969ad..eb82dd1 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -8,11 +8,14 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"io/ioutil"
 )
 
 const (
 	Version = 1
 	hdrLen  = 10 // number of bytes needed for header data when serializing (version, n and w)
+
+	maxCount = int(^uint(0)>>1)/8 - 1 // largest number of buckets of any width whose length in bits fits an int
 )
 
 var ErrIncompatibleVersion = errors.New("bitbucket: incompatible version")
@@ -54,12 +57,16 @@ func WithBytes(buf []byte) (BitBucket, error) {
 	}
 
 	w := buf[1]
-	if w > 8 {
+	if w == 0 || w > 8 {
 		return BitBucket{}, ErrUnsupportedWidth
 	}
 
-	n := int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
+	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
+	if count > uint64(maxCount) {
+		return BitBucket{}, io.ErrShortBuffer
+	}
 
+	n := int(count)
 	buflen := length(n, w)
 	if len(buf) < hdrLen+buflen {
 		return BitBucket{}, io.ErrShortBuffer
@@ -196,18 +203,30 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	b.w = buf[1]
-	b.n = int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
-	b.data = make([]byte, length(b.n, b.w))
+	w := buf[1]
+	if w == 0 || w > 8 {
+		return int64(n), ErrUnsupportedWidth
+	}
 
-	n0, err := io.ReadFull(r, b.data)
-	n += n0
+	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
+	if count > uint64(maxCount) {
+		return int64(n), io.ErrUnexpectedEOF
+	}
+
+	// The claimed length may exceed what r holds so the buffer grows with the data actually read.
+	buflen := length(int(count), w)
+	data, err := ioutil.ReadAll(io.LimitReader(r, int64(buflen)))
+	n += len(data)
 	if err != nil {
-		if err == io.EOF {
-			return int64(n), io.ErrUnexpectedEOF
-		}
 		return int64(n), err
 	}
+	if len(data) < buflen {
+		return int64(n), io.ErrUnexpectedEOF
+	}
+
+	b.w = w
+	b.n = int(count)
+	b.data = data
 
 	n1, err := r.Read(buf[:])
 	n += n1
-- 
2.43.0


From 16077e82834748e3553910cf6abdfe883a84ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 02/15] fix: sketches: detect trailing data however the reader
 delivers it

ReadFrom accepted a stream with up to 10 (2) extra bytes when the reader
returned them together with io.EOF, refused a complete stream when a
reader returned 0, nil before io.EOF, and replaced read errors by
io.ErrShortBuffer.
---
 internal/bitbucket/bitbucket.go | 7 +++++--
 internal/summary/bloom/bloom.go | 7 +++++--
 internal/summary/hll/hll.go     | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index eb82dd1..b066dc9 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -228,12 +228,15 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 	b.n = int(count)
 	b.data = data
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-	if err != io.EOF {
+	if err == nil {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
+	if err != io.EOF {
+		return int64(n), err
+	}
 
 	return int64(n), nil
 }
diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 762843a..b4fe583 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -179,12 +179,15 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 	}
 	b.m = b.bits.Count()
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-	if err != io.EOF {
+	if err == nil {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
+	if err != io.EOF {
+		return int64(n), err
+	}
 
 	return int64(n), nil
 }
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index d2b299d..6afff9e 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -298,12 +298,15 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-	if err != io.EOF {
+	if err == nil {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
+	if err != io.EOF {
+		return int64(n), err
+	}
 
 	return int64(n), nil
 }
-- 
2.43.0


From 903835138dc1ad6945ac5ec8cb7ff294828ecc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 03/15] fix: bloom, hll: refuse serialized headers that do not
 describe a valid sketch

---
 internal/summary/bloom/bloom.go | 22 ++++++++++++++++++----
 internal/summary/hll/hll.go     | 26 +++++++++++++++++++++++---
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index b4fe583..7c651e8 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -19,6 +19,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("bloom: incompatible version")
+var ErrInvalidHeader = errors.New("bloom: invalid header")
 
 // Bloom is a bloom filter which can be used to probabilisticly test whether an item is a
 // member of a set. False positives are possible but false negatives are not.
@@ -40,6 +41,10 @@ func New(n int, p float64) Bloom {
 // the bloom filter will mutate buf. The layout of the byte buffer must match
 // the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Bloom, error) {
+	if len(buf) < hdrLen {
+		return Bloom{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Bloom{}, ErrIncompatibleVersion
@@ -50,6 +55,9 @@ func WithBytes(buf []byte) (Bloom, error) {
 	if err != nil {
 		return Bloom{}, err
 	}
+	if bits.Count() < 1 || bits.Width() != 1 {
+		return Bloom{}, ErrInvalidHeader
+	}
 
 	return Bloom{
 		m:    bits.Count(),
@@ -166,10 +174,10 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	b.k = buf[1]
-	b.bits = bitbucket.BitBucket{}
+	k := buf[1]
+	var bits bitbucket.BitBucket
 
-	n0, err := b.bits.ReadFrom(r)
+	n0, err := bits.ReadFrom(r)
 	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
@@ -177,7 +185,9 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
-	b.m = b.bits.Count()
+	if bits.Count() < 1 || bits.Width() != 1 {
+		return int64(n), ErrInvalidHeader
+	}
 
 	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
@@ -189,6 +199,10 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
+	b.k = k
+	b.m = bits.Count()
+	b.bits = bits
+
 	return int64(n), nil
 }
 
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index 6afff9e..5499911 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -20,6 +20,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("hll: incompatible version")
+var ErrInvalidHeader = errors.New("hll: invalid header")
 
 // New creates a new hyperloglog counter with the specified precision. p must be in the range [4,18]
 func New(p uint8) Counter {
@@ -41,6 +42,10 @@ func New(p uint8) Counter {
 // writes to the counter will mutate buf. The layout of the byte buffer
 // must match the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Counter, error) {
+	if len(buf) < hdrLen {
+		return Counter{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Counter{}, ErrIncompatibleVersion
@@ -51,6 +56,9 @@ func WithBytes(buf []byte) (Counter, error) {
 	if err != nil {
 		return Counter{}, err
 	}
+	if !validHeader(p, &bits) {
+		return Counter{}, ErrInvalidHeader
+	}
 
 	c := Counter{
 		p:    p,
@@ -60,6 +68,11 @@ func WithBytes(buf []byte) (Counter, error) {
 	return c, nil
 }
 
+// validHeader reports whether bits holds the registers of a counter with precision p.
+func validHeader(p uint8, bits *bitbucket.BitBucket) bool {
+	return p >= 4 && p <= 18 && bits.Width() == 6 && bits.Count() == 1<<p
+}
+
 func (c *Counter) initParams() {
 	m := int(1 << uint(c.p))
 
@@ -286,10 +299,10 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	c.p = buf[1]
-	c.initParams()
+	p := buf[1]
+	var bits bitbucket.BitBucket
 
-	n0, err := c.bits.ReadFrom(r)
+	n0, err := bits.ReadFrom(r)
 	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
@@ -297,6 +310,9 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
+	if !validHeader(p, &bits) {
+		return int64(n), ErrInvalidHeader
+	}
 
 	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
@@ -308,6 +324,10 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
+	c.p = p
+	c.bits = bits
+	c.initParams()
+
 	return int64(n), nil
 }
 
-- 
2.43.0


From ade25788441c705f722a64ecbca0a1ea4be7bf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 04/15] fix: bufmap: Get copies the whole of the key's own slot

values[x*s : x*(s+1)] has length x, not s, so reads returned a truncated
buffer or bytes of following slots.
---
 internal/bufmap/bufmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 080c5fd..4dffa9c 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -73,7 +73,7 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 
 		// Get a copy of the data
-		copy(buf, m.values[x*m.s:x*(m.s+1)])
+		copy(buf, m.values[x*m.s:(x+1)*m.s])
 
 		// Check that the data was not updated during the copy
 		seq2 := atomic.LoadUint32(&s.seq)
-- 
2.43.0


From b7ff1103760f2984b368653cf29012b94b0dd020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 05/15] fix: bufmap: tell updates that a buffer is new until
 one has succeeded

Whether the buffer is new was decided while probing, so every update of a
key that is not in its first slot was told the buffer is new, two racing
first updates both were, and a failed first update was not repeated.
---
 internal/bufmap/bufmap.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 4dffa9c..ea9e333 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -38,6 +38,7 @@ func New(l, s int) *Map {
 type slot struct {
 	key uint64 // key occupying this slot
 	seq uint32 // monotonically increasing write counter
+	set uint32 // 1 once an update of the key has succeeded
 	mu  sync.Mutex
 }
 
@@ -63,8 +64,13 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 	}
 
-	// Read the buffer from the slot using the seqlock
 	s := &m.keys[x]
+	if atomic.LoadUint32(&s.set) == 0 {
+		// the slot is claimed but no update has succeeded yet
+		return false
+	}
+
+	// Read the buffer from the slot using the seqlock
 	for {
 		seq1 := atomic.LoadUint32(&s.seq)
 		// Is a writer currently writing?
@@ -100,7 +106,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	}
 	x := -1
 	i := 0
-	init := false
 	for {
 		x = m.pos(k, i)
 
@@ -109,9 +114,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 		if kexist == k {
 			break
 		}
-		// Signal that the is a new value
-		init = true
-
 		// Is it an empty slot?
 		if kexist == 0 {
 			// Try and store key into slot
@@ -143,7 +145,11 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
-	err := fn(m.values[x*m.s:(x+1)*m.s], init)
+	// The buffer is new until an update of it has succeeded
+	err := fn(m.values[x*m.s:(x+1)*m.s], atomic.LoadUint32(&s.set) == 0)
+	if err == nil {
+		atomic.StoreUint32(&s.set, 1)
+	}
 
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
-- 
2.43.0


From ef5329718c0cb7a2395acdaed985587c31732f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 06/15] fix: bufmap: a failed update leaves the stored buffer
 as it was

---
 internal/bufmap/bufmap.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index ea9e333..8004168 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -146,8 +146,12 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	atomic.AddUint32(&s.seq, 1)
 
 	// The buffer is new until an update of it has succeeded
-	err := fn(m.values[x*m.s:(x+1)*m.s], atomic.LoadUint32(&s.set) == 0)
+	// and is only replaced by what a successful update makes of it
+	data := make([]byte, m.s)
+	copy(data, m.values[x*m.s:(x+1)*m.s])
+	err := fn(data, atomic.LoadUint32(&s.set) == 0)
 	if err == nil {
+		copy(m.values[x*m.s:(x+1)*m.s], data)
 		atomic.StoreUint32(&s.set, 1)
 	}
 
-- 
2.43.0


From bea5d2ff634e484886dca5a7f08a8d1e983403cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 07/15] fix: bufmap: key 0 is never found

---
 internal/bufmap/bufmap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 8004168..75e9e8f 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -48,6 +48,11 @@ const maxReprobe = 10
 // Get atomically reads a buffer value stored against key k into buffer buf.
 // The return value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64, buf []byte) bool {
+	// 0 marks empty slots and is never a key
+	if k == 0 {
+		return false
+	}
+
 	// Locate the correct slot
 	x := -1
 	i := 0
-- 
2.43.0


From 507306b3e836ca673e537e415190c45e50d53451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 08/15] fix: incmap: key 0 is never found

---
 internal/incmap/incmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/incmap/incmap.go b/internal/incmap/incmap.go
index 1244064..3975257 100644
--- a/internal/incmap/incmap.go
+++ b/internal/incmap/incmap.go
@@ -74,6 +74,10 @@ func (m *Map) Inc(k uint64, d uint64) bool {
 // Get retrieves the value stored against key k. The second return
 // value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64) (uint64, bool) {
+	// 0 marks empty slots and is never a key
+	if k == 0 {
+		return 0, false
+	}
 
 	x := -1
 	i := 0
-- 
2.43.0


From 3b8cd523eca75d48b1c026f22ab5f15a9f42a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 09/15] fix: query: keep the fields of a query in order of
 first mention

---
 internal/query/rough.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index c98b613..8d4f9b8 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -22,18 +22,20 @@ func RoughParse(in string) (collation.Query, error) {
 		return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 	}
 
-	fields := map[string][][]byte{}
+	fields := map[string]int{} // index of each field in q.FieldMeasures
 
 	selections := selectRe.FindAllStringSubmatch(parts[1], -1)
 	for _, s := range selections {
 		if len(s) != 3 {
 			return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 		}
-		fields[string(s[2])] = append(fields[string(s[2])], []byte(s[1]))
-	}
-
-	for f, vs := range fields {
-		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f), M: vs})
+		i, found := fields[s[2]]
+		if !found {
+			i = len(q.FieldMeasures)
+			fields[s[2]] = i
+			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
+		}
+		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))
 	}
 
 	wheres := whereRe.FindAllStringSubmatch(parts[2], -1)
-- 
2.43.0


From 907fef3ba9634ad0325681a428b817cb9ddea82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 10/15] fix: server: timestamps beyond the year 2262 keep their
 value

Converting to nanoseconds overflowed for timestamps over 2^63/1000.
---
 internal/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index a4c386f..7a71cd5 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -232,7 +232,7 @@ func parseRow(data []byte) (collation.Row, error) {
 		return row, err
 	}
 
-	row.DataTime = time.Unix(0, int64(ts)*1000)
+	row.DataTime = time.Unix(int64(ts/1e6), int64(ts%1e6)*1000)
 
 	if p == len(data) {
 		// No fields or values
-- 
2.43.0


From fdc84614d02fde8b127bac8341ebf413a65a26b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 11/15] fix: server: a cancelled request is not answered as if
 all its lines were stored

---
 internal/server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/server/server.go b/internal/server/server.go
index 7a71cd5..f71420b 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -172,6 +172,7 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 		// Check whether context has been cancelled
 		select {
 		case <-ctx.Done():
+			http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)
 			return
 		default:
 		}
-- 
2.43.0


From 3dc737fd922d2ca06121f7b19f2c474966779b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 12/15] fix: collation: an observation that is not a number
 does not replace the extreme

No number compares to NaN, so observing NaN discarded the maximum and
minimum of everything seen before.
---
 internal/collation/measure.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index 030ac8e..aec859e 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -151,7 +151,7 @@ func (Max) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
 			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
-			if c >= v {
+			if c >= v || math.IsNaN(v) {
 				return nil
 			}
 		}
@@ -180,7 +180,7 @@ func (Min) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
 			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
-			if c <= v {
+			if c <= v || math.IsNaN(v) {
 				return nil
 			}
 		}
-- 
2.43.0


From 15f46bbbba174985a2f1b19de7f05856bf274804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 13/15] fix: collation: a count of a field is compiled like its
 sum, mean and variance

Count had no way of taking field values, so a schema asking for it was
compiled without it and queries for it returned nothing.
---
 internal/collation/compile.go |  3 +++
 internal/collation/measure.go | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index d07f67f..94cf762 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -68,6 +68,9 @@ func (s *Schema) Compile() (Collator, error) {
 			if cm, ok := m.(ContinuousInput); ok {
 				switch m.(type) {
 				case Count, Sum, Mean, Variance:
+					// They need a whole summary, which Count alone does not
+					size = Sum{}.Size()
+					hi = pos + size
 					if stat64 {
 						// We already have a stat64 measure, so reuse it for writing
 						low, hi = stat64Low, stat64Hi
diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index aec859e..cef46b2 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -46,6 +46,7 @@ type DiscReaderFunc func(buf []byte) ([]byte, error)
 type Count struct{}
 
 var _ RowMeasure = Count{}
+var _ ContinuousInput = Count{}
 
 func (Count) Size() int { return 8 }
 
@@ -60,6 +61,16 @@ func (Count) RowWriter() RowWriterFunc {
 	}
 }
 
+// ContWriter counts the observations of a field in the summary that holds its
+// sum, mean and variance, which begins with the count.
+func (Count) ContWriter() ContWriterFunc {
+	return func(buf []byte, init bool, v float64) error {
+		s := stat64.WithBytes(buf)
+		s.Update(v)
+		return nil
+	}
+}
+
 func (Count) ContReader() ContReaderFunc {
 	return func(buf []byte) (float64, error) {
 		c := binary.LittleEndian.Uint64(buf)
-- 
2.43.0


From e88476bc7f3c93ca4d30004c6d6c44cee5245965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 14/15] fix: collation: initialise every measure of a new
 record

Only the measures of fields in a record's first row were initialised, so a
field first seen in a later row had its extremes compared with 0 and its
unique count fail on an empty buffer for good.
---
 internal/collation/compile.go | 12 ++++++++++++
 internal/collation/measure.go | 28 ++++++++++++++++++++++++++++
 internal/collation/schema.go  | 28 ++++++++++++++++++++++++++++
 3 files changed, 68 insertions(+)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index 94cf762..17d0e80 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -24,6 +24,7 @@ func (s *Schema) Compile() (Collator, error) {
 			High: pos + size,
 			Fn:   m.RowWriter(),
 		})
+		coll.addInit(m, pos, pos+size)
 
 		if cm, ok := m.(ContinuousOutput); ok {
 			crs, found := coll.contReaders[RowPseudoField]
@@ -90,6 +91,7 @@ func (s *Schema) Compile() (Collator, error) {
 						Fn:   cm.ContWriter(),
 					})
 					coll.contWriters[ms.Field.Pattern] = ws
+					coll.addInit(m, low, hi)
 				}
 
 				if cm, ok := m.(ContinuousOutput); ok {
@@ -130,6 +132,7 @@ func (s *Schema) Compile() (Collator, error) {
 					Fn:   dm.DiscWriter(),
 				})
 				coll.discWriters[ms.Field.Pattern] = ws
+				coll.addInit(m, pos, pos+size)
 
 				if cm, ok := m.(ContinuousOutput); ok {
 					crs, found := coll.contReaders[ms.Field.Pattern]
@@ -166,3 +169,12 @@ func (s *Schema) Compile() (Collator, error) {
 
 	return coll, nil
 }
+
+// addInit arranges for the state of m to be initialised when a new record is created.
+func (c *Collator) addInit(m Measure, low, high int) {
+	in := initializer{Low: low, High: high}
+	if im, ok := m.(Initializer); ok {
+		in.Fn = im.Initializer()
+	}
+	c.inits = append(c.inits, in)
+}
diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index cef46b2..1474596 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -14,6 +14,11 @@ type Measure interface {
 	Name() string
 }
 
+// An Initializer is a measure whose state before any observation is not all zero bytes.
+type Initializer interface {
+	Initializer() InitFunc
+}
+
 type RowMeasure interface {
 	Measure
 	RowWriter() RowWriterFunc
@@ -33,6 +38,7 @@ type DiscreteOutput interface {
 	DiscReader() DiscReaderFunc
 }
 
+type InitFunc func(buf []byte) error
 type RowWriterFunc func(buf []byte, init bool) error
 type ContWriterFunc func(buf []byte, init bool, v float64) error
 type DiscWriterFunc func(buf []byte, init bool, v []byte) error
@@ -171,6 +177,9 @@ func (Max) ContWriter() ContWriterFunc {
 	}
 }
 
+// Initializer makes the maximum of no observations NaN, which any observation replaces.
+func (Max) Initializer() InitFunc { return initNaN }
+
 func (Max) ContReader() ContReaderFunc {
 	return func(buf []byte) (float64, error) {
 		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
@@ -200,6 +209,9 @@ func (Min) ContWriter() ContWriterFunc {
 	}
 }
 
+// Initializer makes the minimum of no observations NaN, which any observation replaces.
+func (Min) Initializer() InitFunc { return initNaN }
+
 func (Min) ContReader() ContReaderFunc {
 	return func(buf []byte) (float64, error) {
 		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
@@ -207,6 +219,11 @@ func (Min) ContReader() ContReaderFunc {
 	}
 }
 
+func initNaN(buf []byte) error {
+	binary.LittleEndian.PutUint64(buf, math.Float64bits(math.NaN()))
+	return nil
+}
+
 // Approximate measures
 
 // TODO
@@ -264,6 +281,17 @@ func (c Cardinality) DiscWriter() DiscWriterFunc {
 	}
 }
 
+// Initializer makes the state before any observation an empty counter.
+func (c Cardinality) Initializer() InitFunc {
+	return func(buf []byte) error {
+		s := hll.New(uint8(c.Precision))
+		var b bytes.Buffer
+		_, err := s.WriteTo(&b)
+		copy(buf, b.Bytes())
+		return err
+	}
+}
+
 func (c Cardinality) ContReader() ContReaderFunc {
 	return func(buf []byte) (float64, error) {
 		s, err := hll.WithBytes(buf)
diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index a7f6caf..c1e06d7 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -145,6 +145,7 @@ type Result struct {
 type Collator struct {
 	name        string
 	keys        [][]byte
+	inits       []initializer
 	writers     []anyWriter
 	contWriters map[string][]contWriter
 	discWriters map[string][]discWriter
@@ -160,6 +161,17 @@ type Collator struct {
 // their state. If an error is returned then the buffer may be in an
 // inconsistent state and should not be used further.
 func (c Collator) Update(r Row, buf []byte, init bool) error {
+	// Initialise all measures before any of them is updated since the first
+	// row of a record need not contain every field
+	if init {
+		for _, in := range c.inits {
+			if err := in.Init(buf); err != nil {
+				return err
+			}
+		}
+		init = false
+	}
+
 	// Update measures that operate on the row
 	for _, w := range c.writers {
 		if err := w.Update(buf, init); err != nil {
@@ -248,6 +260,22 @@ func (c Collator) Name() string {
 	return c.name
 }
 
+type initializer struct {
+	Low, High int // index range of data within buffer
+	Fn        InitFunc
+}
+
+func (i initializer) Init(buf []byte) error {
+	buf = buf[i.Low:i.High]
+	for j := range buf {
+		buf[j] = 0
+	}
+	if i.Fn == nil {
+		return nil
+	}
+	return i.Fn(buf)
+}
+
 type anyWriter struct {
 	Low, High int // index range of data within buffer
 	Fn        RowWriterFunc
-- 
2.43.0


From 4f8850f08c019c25852ae1267f8e3f453a7fe14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:53 +0000
Subject: [PATCH 15/15] fix: return query results in the order of the request

Read returned all the numeric measures requested of a field before any of
its discrete ones.
---
 internal/collation/schema.go | 45 ++++++++++++++----------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index c1e06d7..ae5e8e2 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -212,36 +212,25 @@ func (c Collator) Read(fml []FM, buf []byte) (Result, error) {
 	for _, fm := range fml {
 		field := string(fm.F)
 
-		if rs, exists := c.contReaders[field]; exists {
-			for _, measure := range fm.M {
-				if r, exists := rs[string(measure)]; exists {
-					v, err := r.ReadFloat64(buf)
-					if err != nil {
-						return res, err
-					}
-					res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{
-						F: fm.F,
-						M: measure,
-						V: v,
-					})
-				}
+		crs, drs := c.contReaders[field], c.discReaders[field]
+		for _, measure := range fm.M {
+			var v interface{}
+			var err error
+			if r, exists := crs[string(measure)]; exists {
+				v, err = r.ReadFloat64(buf)
+			} else if r, exists := drs[string(measure)]; exists {
+				v, err = r.ReadItem(buf)
+			} else {
+				continue
 			}
-		}
-
-		if rs, exists := c.discReaders[field]; exists {
-			for _, measure := range fm.M {
-				if r, exists := rs[string(measure)]; exists {
-					v, err := r.ReadItem(buf)
-					if err != nil {
-						return res, err
-					}
-					res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{
-						F: fm.F,
-						M: measure,
-						V: v,
-					})
-				}
+			if err != nil {
+				return res, err
 			}
+			res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{
+				F: fm.F,
+				M: measure,
+				V: v,
+			})
 		}
 	}
 
-- 
2.43.0


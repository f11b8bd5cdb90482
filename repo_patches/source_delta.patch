From 18d09bb58b0b61792a377727d8a74b10d13e6d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 01/12] fix: FromJSON returned an empty body

---
 body/body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/body/body.go b/body/body.go
index 1c84c41..74d454a 100644
--- a/body/body.go
+++ b/body/body.go
@@ -202,6 +202,7 @@ func fromJSONImpl(v interface{}, isPretty bool) Body {
 			}
 		}
 	} else {
+		dst = make([]byte, len(src))
 		copy(dst, src)
 	}
 
-- 
2.43.0


From 21a77499f2dfad7690e1e9e5c52211a9fc52be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 02/12] fix: WriteTo on an empty body must not return io.EOF

---
 body/empty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/empty.go b/body/empty.go
index 94e752b..822e88e 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -96,7 +96,7 @@ func (body *emptyBody) WriteTo(w io.Writer) (int64, error) {
 		return 0, fs.ErrClosed
 	}
 
-	return 0, io.EOF
+	return 0, nil
 }
 
 func (body *emptyBody) Copy() (Body, error) {
-- 
2.43.0


From d07b42ce3f2eb604b157ae00a1df9c13cefa14dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 03/12] fix: a short or failed WriteTo must not discard the
 unwritten bytes

---
 body/bytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/body/bytes.go b/body/bytes.go
index d7b14f8..6b23a1e 100644
--- a/body/bytes.go
+++ b/body/bytes.go
@@ -160,7 +160,10 @@ func (body *bytesBody) WriteTo(w io.Writer) (int64, error) {
 	assert.Assertf(n >= 0, "Write must return %d >= 0", n)
 	assert.Assertf(n <= avail, "Write must return %d <= %d", n, avail)
 	body.offset += int(n)
-	body.eof = true
+	body.eof = (n == avail)
+	if n < avail && err == nil {
+		err = io.ErrShortWrite
+	}
 	return int64(n), err
 }
 
-- 
2.43.0


From da40fdc86d159fef9ced19cea9497d635640a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 04/12] fix: Seek far past the end must stop at the end, not
 overflow

---
 body/bytes.go    | 12 ++++++++++--
 body/readerat.go | 12 ++++++++++--
 body/seeker.go   | 12 ++++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/body/bytes.go b/body/bytes.go
index 6b23a1e..163288e 100644
--- a/body/bytes.go
+++ b/body/bytes.go
@@ -89,9 +89,17 @@ func (body *bytesBody) Seek(offset int64, whence int) (int64, error) {
 			return -1, NegativeStartOffsetSeekError{offset}
 		}
 	case io.SeekCurrent:
-		offset += int64(body.offset)
+		if offset > bodyLen-int64(body.offset) {
+			offset = bodyLen
+		} else {
+			offset += int64(body.offset)
+		}
 	case io.SeekEnd:
-		offset += bodyLen
+		if offset > 0 {
+			offset = bodyLen
+		} else {
+			offset += bodyLen
+		}
 	default:
 		return -1, UnknownWhenceSeekError{whence}
 	}
diff --git a/body/readerat.go b/body/readerat.go
index 41e392a..beef037 100644
--- a/body/readerat.go
+++ b/body/readerat.go
@@ -173,9 +173,17 @@ func (body *readerAtBody) Seek(offset int64, whence int) (int64, error) {
 			return -1, NegativeStartOffsetSeekError{offset}
 		}
 	case io.SeekCurrent:
-		offset += body.offset
+		if offset > length-body.offset {
+			offset = length
+		} else {
+			offset += body.offset
+		}
 	case io.SeekEnd:
-		offset += length
+		if offset > 0 {
+			offset = length
+		} else {
+			offset += length
+		}
 	default:
 		return -1, UnknownWhenceSeekError{whence}
 	}
diff --git a/body/seeker.go b/body/seeker.go
index 34ac623..1909048 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -173,9 +173,17 @@ func (body *seekerBody) Seek(offset int64, whence int) (int64, error) {
 			return -1, NegativeStartOffsetSeekError{offset}
 		}
 	case io.SeekCurrent:
-		offset += body.offset
+		if offset > length-body.offset {
+			offset = length
+		} else {
+			offset += body.offset
+		}
 	case io.SeekEnd:
-		offset += length
+		if offset > 0 {
+			offset = length
+		} else {
+			offset += length
+		}
 	default:
 		return -1, UnknownWhenceSeekError{whence}
 	}
-- 
2.43.0


From bf0a7161b9b705fd93fce30cbb0d855cb9135251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 05/12] fix: BytesRemaining on a seeker body raced and could go
 negative

---
 body/seeker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index 1909048..b47f24e 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -81,7 +81,12 @@ func (body *seekerBody) BytesRemaining() int64 {
 		return 0
 	}
 
-	return (body.common.length - body.offset)
+	length := body.common.BytesRemaining()
+	offset := body.offset
+	if offset >= length {
+		return 0
+	}
+	return (length - offset)
 }
 
 func (body *seekerBody) Read(p []byte) (int, error) {
-- 
2.43.0


From 93b4bd3441673ad9fdd60ea8187bd36405f15ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 06/12] fix: a short read from a seeker must not be reported as
 EOF

---
 body/seeker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index b47f24e..7d2bbbe 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -126,7 +126,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 	if avail > 0 {
 		n, err = common.readAt(p[0:x], offset)
 	}
-	if eof && err == nil {
+	if eof && err == nil && int64(n) == x {
 		err = io.EOF
 	}
 
-- 
2.43.0


From ff271daaf8a5e652ecffc65159e9690c2dc9ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 07/12] fix: a read error on one copy must not truncate the
 other copies

---
 body/readerat.go | 2 +-
 body/seeker.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/body/readerat.go b/body/readerat.go
index beef037..d610ef5 100644
--- a/body/readerat.go
+++ b/body/readerat.go
@@ -132,7 +132,7 @@ func (body *readerAtBody) Read(p []byte) (int, error) {
 		body.err = err
 
 		length = offset
-		if length < common.length {
+		if err == io.EOF && length < common.length {
 			common.length = length
 		}
 	}
diff --git a/body/seeker.go b/body/seeker.go
index 7d2bbbe..1098ebd 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -137,7 +137,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 		body.err = err
 
 		length = offset
-		if length < common.length {
+		if err == io.EOF && length < common.length {
 			common.length = length
 		}
 	}
-- 
2.43.0


From cfc1561ab1219bea51a1f9ffc5f92fae8065359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 08/12] fix: ReadAt on a seeker body must not return a short
 read without error

---
 body/seeker.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/body/seeker.go b/body/seeker.go
index 1098ebd..e968278 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -241,6 +241,11 @@ func (body *seekerBody) ReadAt(p []byte, offset int64) (int, error) {
 	)
 	if avail > 0 {
 		n, err = common.readAt(p[0:x], offset)
+		for err == nil && int64(n) < x {
+			var m int
+			m, err = common.readAt(p[n:x], offset+int64(n))
+			n += m
+		}
 	}
 	if eof && err == nil {
 		err = io.EOF
-- 
2.43.0


From 9bafcee587ebf538721d29930800317ac481c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 09/12] fix: Serve must close the body when a server push fails

---
 response/response.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/response/response.go b/response/response.go
index 9edc07f..8e28a12 100644
--- a/response/response.go
+++ b/response/response.go
@@ -80,6 +80,7 @@ func (resp *Response) Serve(w http.ResponseWriter) error {
 		for _, url := range vlist {
 			err := x.Push(url, &http.PushOptions{})
 			if err != nil && !errors.Is(err, http.ErrNotSupported) {
+				_ = resp.body.Close()
 				return err
 			}
 		}
-- 
2.43.0


From 8e510f570792ccde3f57b240b66cc6536ee47bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 10/12] fix: ReadFrom must record errors in SawError like Write
 does

---
 response/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/writer.go b/response/writer.go
index a4241e4..3570701 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -148,6 +148,9 @@ func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
 	assert.Assertf(n >= 0, "%d >= 0", n)
 	w.bytes += n
+	if err != nil {
+		w.sawError = true
+	}
 	return n, err
 }
 
-- 
2.43.0


From 2ebb4d3452d35019cd40e4e577a5cc39b5d95d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 11/12] fix: metrics must use the status code that was actually
 sent

---
 handler/adaptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler/adaptor.go b/handler/adaptor.go
index cd3ae56..005c35e 100644
--- a/handler/adaptor.go
+++ b/handler/adaptor.go
@@ -79,6 +79,7 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 
 	defer func() {
 		panicValue := recover()
+		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		code := strconv.Itoa(ww.Status())
 		elapsedDuration := time.Since(startTime)
 		elapsed := float64(elapsedDuration) / float64(time.Second)
@@ -86,7 +87,6 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		sendBytes := float64(ww.BytesWritten())
 		labels := prometheus.Labels{"code": code}
 
-		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		if panicValue != nil {
 			PromPanicsTotal.Inc()
 		}
-- 
2.43.0


From 7d01a0d8682a569543faf8806ec801dcbb60af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:46 +0000
Subject: [PATCH 12/12] fix: a buffered body must be closed even if its
 reader's Close panics

---
 body/buffered.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/body/buffered.go b/body/buffered.go
index 0800f81..be8852a 100644
--- a/body/buffered.go
+++ b/body/buffered.go
@@ -236,11 +236,13 @@ func (body *bufferedBody) Close() error {
 		return fs.ErrClosed
 	}
 
-	err := body.common.unref(body)
+	common := body.common
 	body.common = nil
+	body.closed = true
+
+	err := common.unref(body)
 	body.offset = 0
 	body.eof = false
-	body.closed = true
 	return err
 }
 
-- 
2.43.0


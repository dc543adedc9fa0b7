From 11342fbd87a2790c0eb1f296e74686c88b6c5350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 01/19] fix: do not panic on a gzip extra field whose last
 record is truncated

---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index cc12f7b..97442ea 100644
--- a/header.go
+++ b/header.go
@@ -41,6 +41,9 @@ func (xd *ExtraData) Parse(raw []byte) {
 		rec.ID[1] = raw[index+1]
 		recLen := uint(binary.LittleEndian.Uint16(raw[index+2 : index+4]))
 		index += 4
+		if recLen > length-index {
+			break
+		}
 		rec.Bytes = raw[index : index+recLen]
 		index += recLen
 		xd.Records = append(xd.Records, rec)
-- 
2.43.0


From 829ff4fd2a301c6727b3a6be9267485eeb21ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 02/19] fix: look at two bytes when auto-detecting the format
 of a concatenated stream

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 52b638c..42eaf6c 100644
--- a/reader.go
+++ b/reader.go
@@ -450,6 +450,10 @@ func (fr *Reader) readFooter() bool {
 }
 
 func (fr *Reader) readHeaderAuto() bool {
+	if fr.inputBuffer.Len() < 2 {
+		fr.inputBufferFill()
+	}
+
 	p := fr.inputBuffer.PrepareBulkRead(2)
 	if len(p) < 2 {
 		return fr.readHeaderRaw()
-- 
2.43.0


From 061e12258319b107d9a1b9cbb690e3d92ce1d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 03/19] fix: do not drop concatenated streams which are already
 buffered

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 42eaf6c..be2b8f3 100644
--- a/reader.go
+++ b/reader.go
@@ -328,7 +328,7 @@ func (fr *Reader) readThread() {
 	fr.mu1.Lock()
 
 	fr.numStreams = 0
-	for fr.inputError == nil {
+	for fr.inputError == nil || !fr.inputBuffer.IsEmpty() {
 		if !fr.readHeader() {
 			break
 		}
-- 
2.43.0


From b4f883c8f771dad5fdeb7962eb8869b1afd863cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 04/19] fix: stop decoding when HLIT or HDIST is out of range

---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index be2b8f3..ac30761 100644
--- a/reader.go
+++ b/reader.go
@@ -980,9 +980,11 @@ func (fr *Reader) readDynamicTrees(isFinal bool) bool {
 
 	if numLL > logicalNumLLCodes {
 		fr.corruptf("HLIT %d > %d", numLL, logicalNumLLCodes)
+		return false
 	}
 	if numD > logicalNumDCodes {
 		fr.corruptf("HDIST %d > %d", numD, logicalNumDCodes)
+		return false
 	}
 
 	const numCodes = 19
-- 
2.43.0


From 5e03c54309f8a30ad3467464bf39dd5ec27551b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 05/19] fix: deliver decoded bytes before the error, and stop
 at the first error

---
 reader.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/reader.go b/reader.go
index ac30761..04e767c 100644
--- a/reader.go
+++ b/reader.go
@@ -210,6 +210,7 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.readThreadWasStopped = false
 	fr.outputErrorWasSet = false
 	fr.stopIsForced = false
+	fr.inputBitsDiscard()
 
 	fr.inputBuffer.Clear()
 	fr.decodeBuffer.Clear()
@@ -342,6 +343,10 @@ func (fr *Reader) readThread() {
 
 		fr.decodeBufferMustFlush()
 
+		if fr.outputErrorWasSet {
+			break
+		}
+
 		if !fr.readFooter() {
 			break
 		}
@@ -1376,6 +1381,12 @@ func (fr *Reader) corruptf(format string, v ...interface{}) {
 }
 
 func (fr *Reader) closeWithError(err error) {
+	// Deliver the bytes which were decoded before the error.  This can
+	// release mu1 while it waits for room in outputBuffer.
+	if !fr.outputErrorWasSet {
+		fr.decodeBufferMustFlush()
+	}
+
 	if fr.outputErrorWasSet {
 		return
 	}
-- 
2.43.0


From 5ffb1cb5858e5553742065cc21b029c1e8e06229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 06/19] fix: report an input error in the middle of a Huffman
 code as such, not as corruption

---
 reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reader.go b/reader.go
index 04e767c..cfa7a05 100644
--- a/reader.go
+++ b/reader.go
@@ -1137,6 +1137,7 @@ func (fr *Reader) readSymbol(hdec *huffman.Decoder) (symbol huffman.Symbol, ok b
 	numBits := min
 	for numBits <= max {
 		if ok := fr.inputBitsFill(numBits); !ok {
+			fr.propagateError(true)
 			return huffman.InvalidSymbol, false
 		}
 
-- 
2.43.0


From 1b965ba2b001dd10dc55564e2d95129ef5bdcb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 07/19] fix: accept a zlib pre-set dictionary which ends in a
 window of zero bytes

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index cfa7a05..ff8bcd4 100644
--- a/reader.go
+++ b/reader.go
@@ -523,7 +523,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 
-		if fr.window.IsZero() {
+		if fr.dict == nil {
 			fr.corruptf("zlib stream was compressed with a pre-set dictionary -- Adler-32 checksum of the dictionary required to decompress this stream is %#08x", expectedAdler32)
 			return false
 		}
@@ -534,7 +534,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 	} else {
-		if !fr.window.IsZero() {
+		if fr.dict != nil {
 			computedAdler32 := adler32.Checksum(fr.dict)
 			fr.corruptf("zlib stream was not compressed with a pre-set dictionary -- Adler-32 checksum of the supplied dictionary is %#08x", computedAdler32)
 			return false
-- 
2.43.0


From c622ea659ed05a16cdddb3fb964bb6ecc990a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 08/19] fix: reject copies from before the start of the stream
 and its dictionary

---
 reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reader.go b/reader.go
index ff8bcd4..1b3443b 100644
--- a/reader.go
+++ b/reader.go
@@ -857,6 +857,12 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 		length := uint(t.literalOrLength)
 		distance := uint(t.distance)
 
+		history := fr.outputBytesStream + uint64(fr.decodeBuffer.Len()) + uint64(len(fr.dict))
+		if uint64(distance) > history {
+			fr.corruptf("distance %d > available history %d", distance, history)
+			return false
+		}
+
 		p, err := fr.window.LookupSlice(distance, length)
 		if err != nil {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
-- 
2.43.0


From fbbabdbaafe6344774287148343d7f2cf2b0998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 09/19] fix: do not deadlock when a Reader is Reset in the
 middle of a stream

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 1b3443b..0f99b3f 100644
--- a/reader.go
+++ b/reader.go
@@ -199,11 +199,11 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.mu1.Lock()
 	defer fr.mu1.Unlock()
 
+	fr.stopReadThreadLocked()
+
 	fr.mu2.Lock()
 	defer fr.mu2.Unlock()
 
-	fr.stopReadThreadLocked()
-
 	fr.r = r
 	fr.inputError = nil
 	fr.readThreadWasStarted = false
-- 
2.43.0


From 8331f1d5fc096aa5b1aabf00c7129d9909be4313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 10/19] fix: split incompressible data which is too long for
 one stored block

---
 writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/writer.go b/writer.go
index c268002..175e334 100644
--- a/writer.go
+++ b/writer.go
@@ -1010,6 +1010,12 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 
 	storedLength := (uint64(len(data)) << 3) + 35
 	if storedLength < dynamicCounter.length() {
+		for len(data) > math.MaxUint16 {
+			if !writeStoredBlock(bw, data[:math.MaxUint16], false) {
+				return false
+			}
+			data = data[math.MaxUint16:]
+		}
 		return writeStoredBlock(bw, data, isFinal)
 	}
 	if staticCounter.length() <= dynamicCounter.length() {
-- 
2.43.0


From dbf7f2355d0277e10d5b5c7f6d6aa3f6edd16bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 11/19] fix: limit Huffman codes to the sizes which DEFLATE can
 represent

---
 huffman.go | 16 ++++++++++++++++
 writer.go  |  6 +++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/huffman.go b/huffman.go
index e920bc7..0eea198 100644
--- a/huffman.go
+++ b/huffman.go
@@ -14,6 +14,8 @@ const (
 	physicalNumLLCodes = 288
 	physicalNumDCodes  = 32
 	physicalNumXCodes  = 19
+	maxBitsLLDCode     = 15
+	maxBitsXCode       = 7
 )
 
 var scramble = [physicalNumXCodes]byte{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
@@ -67,6 +69,20 @@ func getFixedHuffEncoders() (*huffman.Encoder, *huffman.Encoder) {
 	return &gFixedHuffmanEncoderLL, &gFixedHuffmanEncoderD
 }
 
+// initHuffEncoder initializes the given Encoder from the given frequencies,
+// flattening the frequencies as needed to limit the size of the longest code.
+func initHuffEncoder(h *huffman.Encoder, numSymbols int, frequencies []uint32, maxSize byte) {
+	h.Init(numSymbols, frequencies)
+	for h.MaxSize() > maxSize {
+		flattened := make([]uint32, len(frequencies))
+		for i, freq := range frequencies {
+			flattened[i] = (freq / 2) + (freq % 2)
+		}
+		frequencies = flattened
+		h.Init(numSymbols, frequencies)
+	}
+}
+
 // SizeList represents a list of symbol sizes in a Canonical Huffman Code.
 type SizeList []byte
 
diff --git a/writer.go b/writer.go
index 175e334..8fe86a1 100644
--- a/writer.go
+++ b/writer.go
@@ -997,10 +997,10 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 	freqLL, freqD := studyFrequenciesLLD(tokens)
 
 	var hLL huffman.Encoder
-	hLL.Init(physicalNumLLCodes, freqLL)
+	initHuffEncoder(&hLL, physicalNumLLCodes, freqLL, maxBitsLLDCode)
 
 	var hD huffman.Encoder
-	hD.Init(physicalNumDCodes, freqD)
+	initHuffEncoder(&hD, physicalNumDCodes, freqD, maxBitsLLDCode)
 
 	var dynamicCounter bitcounter
 	writeDynamicBlock(&dynamicCounter, &hLL, &hD, tokens, isFinal)
@@ -1162,7 +1162,7 @@ func writeDynamicBlock(bw bitwriter, hLL *huffman.Encoder, hD *huffman.Encoder,
 	freqX := studyFrequenciesX(*xtokens)
 
 	var hX huffman.Encoder
-	hX.Init(physicalNumXCodes, freqX)
+	initHuffEncoder(&hX, physicalNumXCodes, freqX, maxBitsXCode)
 
 	sX := hX.SizeBySymbol()
 	numX := uint(physicalNumXCodes)
-- 
2.43.0


From 89ae1de6da4ab5f679ae2cd54052772ee6dd119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 12/19] fix: forget pending bits when a Writer is Reset

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index 8fe86a1..7544d38 100644
--- a/writer.go
+++ b/writer.go
@@ -237,6 +237,8 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 	fw.w = w
 	fw.err = nil
 	fw.state = noStreamWriterState
+	fw.obBlock = 0
+	fw.obLen = 0
 
 	fw.hybrid.Clear()
 	fw.output.Clear()
-- 
2.43.0


From bf66011ef99ced031757d0daedc59634a51451df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 13/19] fix: make PartialFlush deliver every bit of the current
 block

---
 writer.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/writer.go b/writer.go
index 7544d38..cf53641 100644
--- a/writer.go
+++ b/writer.go
@@ -531,6 +531,9 @@ func (fw *Writer) flushGuts(flushType FlushType) bool {
 		if !writeStaticBlock(fw, tokens, false) {
 			return false
 		}
+		if !fw.outputBitsFlushBytes() {
+			return false
+		}
 
 	case SyncFlush:
 		if !writeStoredBlock(fw, nil, false) {
@@ -914,6 +917,29 @@ func (fw *Writer) outputBitsFlush() bool {
 	return fw.outputBufferWrite(tmp[:n])
 }
 
+func (fw *Writer) outputBitsFlushBytes() bool {
+	n := (fw.obLen / bitsPerByte)
+	if n == 0 {
+		return true
+	}
+
+	var tmp [bytesPerBlock]byte
+	bytesFromBlock(binary.LittleEndian, tmp[:], fw.obBlock)
+	if n == bytesPerBlock {
+		return fw.outputBitsFlush()
+	}
+
+	// outputBufferWrite needs an empty obBlock
+	restBlock := fw.obBlock >> (n * bitsPerByte)
+	restLen := fw.obLen - (n * bitsPerByte)
+	fw.obBlock = 0
+	fw.obLen = 0
+	ok := fw.outputBufferWrite(tmp[:n])
+	fw.obBlock = restBlock
+	fw.obLen = restLen
+	return ok
+}
+
 func (fw *Writer) sendEvent(event Event) {
 	event.InputBytesTotal = fw.inputBytesTotal
 	event.InputBytesStream = fw.inputBytesStream
-- 
2.43.0


From 573e121b2bed2eb9f4bafa4358c8be41f44f41ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 14/19] fix: do not write the rest of the gzip footer after a
 write error

---
 writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index cf53641..066174e 100644
--- a/writer.go
+++ b/writer.go
@@ -789,9 +789,9 @@ func writeHeaderGZIPComment(header Header) (byte, func(*Writer) bool) {
 }
 
 func (fw *Writer) writeFooterGZIP(c32 uint32) bool {
-	ok1 := fw.outputBufferWriteU32(binary.LittleEndian, c32)
-	ok2 := fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
-	return ok1 && ok2
+	ok := fw.outputBufferWriteU32(binary.LittleEndian, c32)
+	ok = ok && fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
+	return ok
 }
 
 func (fw *Writer) inputBufferRead(buf []byte) []byte {
-- 
2.43.0


From 7f021b012b0ab506be5b0788c7850582195b126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 15/19] fix: autodetect the data type of each stream afresh

---
 writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/writer.go b/writer.go
index 066174e..21fdc23 100644
--- a/writer.go
+++ b/writer.go
@@ -570,6 +570,11 @@ func (fw *Writer) writeHeader() bool {
 		Type: StreamBeginEvent,
 	})
 
+	// restore the fields which are filled in below, as they were computed
+	// for this one stream
+	header := fw.header
+	defer func() { fw.header = header }()
+
 	if fw.header.DataType == UnknownData {
 		fw.header.DataType = BinaryData
 		if buf := fw.hybrid.PrepareBulkRead(4096); isText(buf) {
-- 
2.43.0


From 9a5e316648adff8bb47d51bd21852dce2cb8fc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 16/19] fix: never use dynamic Huffman codes with FixedStrategy

---
 writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/writer.go b/writer.go
index 21fdc23..a1afe44 100644
--- a/writer.go
+++ b/writer.go
@@ -1023,6 +1023,9 @@ func compressSlow(fw *Writer, consumeAll bool, good, lazy, nice, chain uint) boo
 
 	data := bb.Bytes()
 	*tokens = append(*tokens, makeStopToken())
+	if fw.strategy == FixedStrategy {
+		return writeStaticBlock(fw, *tokens, false)
+	}
 	return compressTokens(fw, data, *tokens, false)
 }
 
-- 
2.43.0


From fa1be0a80e66e9a9fded98b180c915dd1f44b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 17/19] fix: accept the last second of an unsigned 32-bit
 time_t in SetHeader

---
 writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index a1afe44..cd3ac54 100644
--- a/writer.go
+++ b/writer.go
@@ -337,7 +337,7 @@ func checkHeaderComment(header Header, errlist []error) []error {
 func checkHeaderLastModified(header Header, errlist []error) []error {
 	if !header.LastModified.IsZero() {
 		s64 := header.LastModified.Unix()
-		if s64 < 0 || (s64 >= 0 && uint64(s64) >= uint64(math.MaxUint32)) {
+		if s64 < 0 || (s64 >= 0 && uint64(s64) > uint64(math.MaxUint32)) {
 			errlist = append(errlist, errors.New("Header.LastModified is out of range for unsigned 32-bit time_t"))
 		}
 	}
-- 
2.43.0


From 026bcc9c9026da302266928321f5b801dc95808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 18/19] fix: start counting anew when a Reader or Writer is
 Reset

---
 reader.go | 2 ++
 writer.go | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 0f99b3f..1a7d553 100644
--- a/reader.go
+++ b/reader.go
@@ -211,6 +211,8 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.outputErrorWasSet = false
 	fr.stopIsForced = false
 	fr.inputBitsDiscard()
+	fr.inputBytesTotal = 0
+	fr.outputBytesTotal = 0
 
 	fr.inputBuffer.Clear()
 	fr.decodeBuffer.Clear()
diff --git a/writer.go b/writer.go
index cd3ac54..db9e338 100644
--- a/writer.go
+++ b/writer.go
@@ -239,6 +239,9 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 	fw.state = noStreamWriterState
 	fw.obBlock = 0
 	fw.obLen = 0
+	fw.inputBytesTotal = 0
+	fw.outputBytesTotal = 0
+	fw.numStreams = 0
 
 	fw.hybrid.Clear()
 	fw.output.Clear()
-- 
2.43.0


From e33643b6c2fa9a8a0d6b523c03fd986f04543dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 19/19] fix: copy a match out of the window before writing it
 back

---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 1a7d553..462d26c 100644
--- a/reader.go
+++ b/reader.go
@@ -870,6 +870,11 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
 			return false
 		}
+
+		// Writing to the window can overwrite the slice which it returned.
+		var scratch [258]byte
+		p = scratch[:copy(scratch[:], p)]
+
 		fr.decodeBufferWrite(p)
 		length -= uint(len(p))
 
-- 
2.43.0


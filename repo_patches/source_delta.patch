From e114c27f9e46773fb67a0fbb34332ee6c330dc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 001/101] fix: truncate encodings that carry no word indices

---
 encoding.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index 341bc7f..675384b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -365,8 +365,12 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 	oSpeToks := e.SpecialTokenMask[maxLen:len(e.SpecialTokenMask)]
 	newAttent := e.AttentionMask[0:maxLen]
 	oAttent := e.AttentionMask[maxLen:len(e.AttentionMask)]
-	newWords := e.Words[0:maxLen]
-	oWords := e.Words[maxLen:len(e.Words)]
+	// `Words` is optional
+	var newWords, oWords []int
+	if len(e.Words) > maxLen {
+		newWords = e.Words[0:maxLen]
+		oWords = e.Words[maxLen:len(e.Words)]
+	}
 
 	e.Ids = newIds
 	e.TypeIds = newTypeIds
-- 
2.43.0


From 2fedab1e301cb6a17265b47c09c77440b1d3c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 002/101] fix: give every truncation window its own memory

---
 encoding.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 675384b..0f7c51a 100644
--- a/encoding.go
+++ b/encoding.go
@@ -694,5 +694,6 @@ func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
 	curr := current[start:end]
 	prev := previous[len(previous)-stride:]
 
-	return append(prev, curr...)
+	// NOTE. every part owns its memory: `append(prev, ...)` would write into the array shared by all parts.
+	return util.Merge(prev, curr)
 }
-- 
2.43.0


From b4901f2fe145003dabf070e71829b10f8c509e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 003/101] fix: left padding of type ids and offsets

---
 encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index 0f7c51a..e04f190 100644
--- a/encoding.go
+++ b/encoding.go
@@ -590,7 +590,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		for i := 0; i < len(newTypeIds); i++ {
 			newTypeIds[i] = padTypeId
 		}
-		newTypeIds = append(newTypeIds, e.Ids...)
+		newTypeIds = append(newTypeIds, e.TypeIds...)
 		e.TypeIds = newTypeIds
 
 		newTokens := make([]string, padLength)
@@ -615,7 +615,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		e.AttentionMask = newAttentionMask
 
 		newOffsets := make([][]int, padLength)
-		for i := 0; i < len(newIds); i++ {
+		for i := 0; i < len(newOffsets); i++ {
 			newOffsets[i] = []int{0, 0}
 		}
 		newOffsets = append(newOffsets, e.Offsets...)
-- 
2.43.0


From 8956d7244660eb619c404fcb3a6dc9e7ca5455c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 004/101] fix: leave overflowing encodings alone that are
 longer than the padding length

---
 encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index e04f190..cd49322 100644
--- a/encoding.go
+++ b/encoding.go
@@ -559,7 +559,7 @@ func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, dire
 	// 1. Overflowing
 	var overflowing []Encoding
 	for _, o := range e.Overflowing {
-		padded := o.pad(targetLength, padId, padTypeId, padToken, direction)
+		padded := o.Pad(targetLength, padId, padTypeId, padToken, direction)
 		overflowing = append(overflowing, *padded)
 	}
 	e.Overflowing = overflowing
-- 
2.43.0


From bce4d3c76d001231e83b9265b9ff6ace7ff84c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 005/101] fix: token index bounds of Token2Chars and
 Token2Sequence

---
 encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index cd49322..ebfbf41 100644
--- a/encoding.go
+++ b/encoding.go
@@ -301,7 +301,7 @@ func (e *Encoding) Word2Chars(word int) (retVal []int, ok bool) {
 
 // Token2Chars get the offsets of the token at the given index
 func (e *Encoding) Token2Chars(tokenIdx int) (retVal []int, ok bool) {
-	if tokenIdx < 0 || tokenIdx > len(e.Offsets) {
+	if tokenIdx < 0 || tokenIdx >= len(e.Offsets) {
 		return retVal, false
 	} else {
 		return e.Offsets[tokenIdx], true
@@ -645,7 +645,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 
 // Token2Sequence returns the index of the sequence containing the given token.
 func (e *Encoding) Token2Sequence(token int) (int, bool) {
-	if token > e.Len() {
+	if token >= e.Len() {
 		return -1, false
 	} else if len(e.SequenceRanges) == 0 {
 		return 0, true
-- 
2.43.0


From c665318b23d13290dabbed84154dbd5ce36db964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:13 +0000
Subject: [PATCH 006/101] fix: Word2Tokens and Word2Chars on encodings with
 special tokens or unknown words

---
 encoding.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/encoding.go b/encoding.go
index ebfbf41..ba16731 100644
--- a/encoding.go
+++ b/encoding.go
@@ -265,20 +265,18 @@ func (e *Encoding) Word2Tokens(word int) (startTok, endTok int, ok bool) {
 
 	var start, end int = -1, -1
 
-	var inRangeWords []int
-	for _, w := range e.Words {
-		if w <= word {
-			inRangeWords = append(inRangeWords, w)
-		}
-	}
-	for i, w := range inRangeWords {
-		if w == word && start < 0 {
-			start = i
+	// NOTE. `e.Words` is not sorted: special and padding tokens are -1, and indices start again in a second sequence.
+	for i, w := range e.Words {
+		if w == word {
+			if start < 0 {
+				start = i
+			}
+			end = i + 1
+		} else if start >= 0 {
+			break
 		}
 	}
 
-	end = len(inRangeWords)
-
 	if start != -1 && end != -1 {
 		return start, end, true
 	} else {
@@ -290,12 +288,12 @@ func (e *Encoding) Word2Tokens(word int) (startTok, endTok int, ok bool) {
 // the input sequence
 func (e *Encoding) Word2Chars(word int) (retVal []int, ok bool) {
 	start, end, ok := e.Word2Tokens(word)
-	if end == 0 {
+	if !ok {
 		return retVal, false
 	} else {
 		oStart := e.Offsets[start][0]
 		oEnd := e.Offsets[end-1][1]
-		return []int{oStart, oEnd}, true // Should we check whether `ok`?
+		return []int{oStart, oEnd}, true
 	}
 }
 
-- 
2.43.0


From d147bc7c0f7ec83f447075240dbdf824182b6dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 007/101] fix: GetSequenceIds and SequenceRange of encodings
 without or with shifted ranges

---
 encoding.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/encoding.go b/encoding.go
index ba16731..2a9e97e 100644
--- a/encoding.go
+++ b/encoding.go
@@ -191,19 +191,12 @@ func (e *Encoding) SetSequenceIds(sequenceId int) {
 func (e *Encoding) GetSequenceIds() []int {
 	sequences := make([]int, e.Len())
 	for seqId := 0; seqId < e.NSequences(); seqId++ {
-		r := e.SequenceRanges[seqId]
-		seqLen := r.Len()
-		var a []int
-		for i := 0; i < seqLen; i++ {
-			a = append(a, seqId)
-		}
 		// replace items in Range r with seqId
-		start := r[0]
-		end := r[len(r)-1]
-		before := sequences[:start]
-		after := sequences[end:]
-		sequences = append(before, a...)
-		sequences = append(sequences, after...)
+		for _, i := range e.SequenceRanges[seqId] {
+			if i < len(sequences) {
+				sequences[i] = seqId
+			}
+		}
 	}
 
 	return sequences
@@ -667,7 +660,7 @@ func (e *Encoding) SequenceRange(sequencId int) (Range, error) {
 		return nil, err
 	}
 
-	return r[0:e.Len()], nil
+	return r, nil
 }
 
 func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
-- 
2.43.0


From 130c5a23435d8303e184b82fe3c2b4c582085c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 008/101] fix: merging into an encoding that has no sequence
 ranges

---
 encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding.go b/encoding.go
index 2a9e97e..0745d10 100644
--- a/encoding.go
+++ b/encoding.go
@@ -450,6 +450,9 @@ func (e *Encoding) MergeWith(pair *Encoding, growingOffsets bool) (retVal *Encod
 	// Merging others
 	originalLen := e.Len()
 	if len(pair.SequenceRanges) > 0 {
+		if e.SequenceRanges == nil {
+			e.SequenceRanges = make(map[int]Range)
+		}
 		for seqId, r := range pair.SequenceRanges {
 			start := originalLen + r[0]
 			end := originalLen + r[r.Len()-1] + 1
-- 
2.43.0


From 2e06be83f5590c7b1ceec8cd5bcbe03d427fa820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 009/101] fix: longest-first truncation takes each token from
 one sequence only

---
 util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 1e5d49c..65cf0d6 100644
--- a/util.go
+++ b/util.go
@@ -113,8 +113,9 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 		for i := 0; i < toRemove; i++ {
 			if nFirst > nSecond {
 				nFirst -= 1
+			} else {
+				nSecond -= 1
 			}
-			nSecond -= 1
 		}
 
 		encoding.Truncate(nFirst, params.Stride)
-- 
2.43.0


From 9d0a78f2be01529daaa5fec32dd53c52f58e1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 010/101] fix: do not truncate encodings of exactly the maximum
 length

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 65cf0d6..81c3da1 100644
--- a/util.go
+++ b/util.go
@@ -96,7 +96,7 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 		totalLength = len(encoding.GetIds()) + len(pairEncoding.GetIds())
 	}
 
-	if totalLength < params.MaxLength {
+	if totalLength <= params.MaxLength {
 		return encoding, pairEncoding
 	}
 
-- 
2.43.0


From 7f66f35d72cc50d1b998d85f35fa543da8fd950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 011/101] fix: RobertaProcessing without offset trimming

---
 processor/roberta.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/processor/roberta.go b/processor/roberta.go
index 1c921b0..b0dbb44 100644
--- a/processor/roberta.go
+++ b/processor/roberta.go
@@ -86,6 +86,8 @@ func (rp *RobertaProcessing) Process(encoding, pairEncoding *tokenizer.Encoding,
 			newPairEncoding.Overflowing = newOverflowPairEncoding
 		}
 
+	} else {
+		newEncoding, newPairEncoding = encoding, pairEncoding
 	}
 
 	if !addSpecialTokens {
-- 
2.43.0


From 26e3813935d137d0b78f0b0dd94ca2ce98029176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 012/101] fix: word indices of the special tokens added by
 TemplateProcessing

---
 processor/template.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/processor/template.go b/processor/template.go
index a94e1f7..0599c1e 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -504,6 +504,11 @@ func (tp *TemplateProcessingBuilder) Build() *TemplateProcessing {
 func (tp *TemplateProcessing) ApplyTemplate(template []Piece, encodings []tokenizer.Encoding, addSpecialTokens bool) []tokenizer.Encoding {
 	var finalEncodings []tokenizer.Encoding
 
+	var hasWords bool
+	for _, encoding := range encodings {
+		hasWords = hasWords || len(encoding.Words) > 0
+	}
+
 	for _, piece := range template {
 		typ := getType(piece)
 
@@ -542,7 +547,11 @@ func (tp *TemplateProcessing) ApplyTemplate(template []Piece, encodings []tokeni
 				specialTokenMask := util.Repeat(1, length)
 				attentionMask := util.Repeat(1, length)
 				var overflowing []tokenizer.Encoding = nil
-				encoding := tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokenMask, attentionMask, overflowing)
+				var words []int // optional, see `Encoding.Words`
+				if hasWords {
+					words = util.Repeat(-1, length)
+				}
+				encoding := tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokenMask, attentionMask, overflowing, tokenizer.WithWordsEncodingOpt(words))
 
 				finalEncodings = append(finalEncodings, *encoding)
 			}
-- 
2.43.0


From d9e178f139408f0bf00eac388a2ae8bb7b17d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 013/101] fix: word indices stay aligned when padding an
 encoding that has none

---
 encoding.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding.go b/encoding.go
index 0745d10..798ff9b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -571,6 +571,11 @@ func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, dire
 func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, direction PaddingDirection) *Encoding {
 	padLength := targetLength - len(e.Ids)
 
+	// `Words` is optional: tokens without word index have none (-1)
+	for len(e.Words) < len(e.Ids) {
+		e.Words = append(e.Words, -1)
+	}
+
 	switch direction {
 	case Left:
 		newIds := make([]int, padLength)
-- 
2.43.0


From a8a575d2a9e46eae5097d51ca62da1c690067338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 014/101] fix: alignments when characters are removed from a
 normalized string

---
 normalizer/normalized.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index e1a4212..a5fb334 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -524,13 +524,14 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 					endShiftStart = offsets[1]
 				}
 
-				offsets[1] = applySign(offsets[1], -(oShift))
+				// NOTE. the bytes of a char may share `offsets`: don't update it in place
+				newOffsets := []int{offsets[0], applySign(offsets[1], -(oShift))}
 				// Make sure the starting offset is always smaller or equal to the end
-				if offsets[0] > offsets[1] {
-					offsets[0] = offsets[1]
+				if newOffsets[0] > newOffsets[1] {
+					newOffsets[0] = newOffsets[1]
 				}
 
-				newAlignments = append(newAlignments, offsets)
+				newAlignments = append(newAlignments, newOffsets)
 			}
 			// 2. Update alignmentOriginal with new alignments in `removedORange` range
 			var aligns [][]int = append(n.alignmentsOriginal[:removedORange[0]], newAlignments...)
@@ -558,7 +559,6 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		normalizedRunes []rune
 	)
 
-	replacedNormalized.Reset() // make sure iterating from begining
 	for _, item := range changeMap {
 		/*
 		 *     var changeType string
@@ -644,7 +644,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		if totalBytesToRemove > 0 && idx < len(n.alignments) {
 			start := n.alignments[idx][1]
 			// Bounds check to prevent index out of range panic
-			endIdx := idx + totalBytesToRemove
+			endIdx := idx + replacedCharSize + totalBytesToRemove - 1
 			if endIdx >= len(n.alignments) {
 				endIdx = len(n.alignments) - 1
 			}
@@ -724,7 +724,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		// If some were removed, we need to zero them out in the original alignments
 		if removingFromOriginal > 0 {
 			start := n.alignments[idx][1]
-			end := n.alignments[idx+totalBytesToRemove][1]
+			end := n.alignments[idx+replacedCharSize+totalBytesToRemove-1][1]
 			// They should use the original alignment of the current character
 			newIdx := n.alignmentsOriginal[align[0]][1]
 			alignments := n.alignmentsOriginal[start:end]
-- 
2.43.0


From 0fb43150cec65cf9ea9c70c1a68538b89992041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 015/101] fix: keep the alignments of the original string exact
 over chains of transformations

---
 normalizer/normalized.go | 254 ++++++---------------------------------
 1 file changed, 40 insertions(+), 214 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index a5fb334..1b268f3 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -442,8 +442,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 	// fmt.Printf("normalized: %+v\n", n)
 	// fmt.Printf("inputRange: %v\n", inputRange)
 
-	// I. Update `original` alignments based on `initialOffset`.
-	// If `initialOffset` > 0, there are some chars being replaced.
+	// I. If `initialOffset` > 0, there are some chars being removed at the beginning.
 
 	// I.1. Determine range on `original` string and `normalized` string
 	// based on `inputRange`
@@ -462,8 +461,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 
 	// fmt.Printf("nRange: %v\n", nRange)
 
-	// I.2. Get removed chars to a slice (`removedChars`); number of removed
-	// bytes (`initialRemoved`); and update original alignments (`n.alignmensOriginal`)
+	// I.2. Get number of removed bytes (`initialRemoved`)
 
 	// log.Printf("===== TransformRange call (initial offset: %v) ====\n", initialOffset)
 	// Retrieve the original characters that are being replaced. This let us
@@ -486,71 +484,24 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 	 *  */
 	replacedNormalized.Reset()
 
-	// Handle the initial offset in the original alignment. All the characters
-	// that were removed from the normalized one should have their width reduced
-	// by the number of bytes we remove
-	endShiftStart := nRange.end
+	// Skip the characters that are removed at the very beginning
 	initialRemoved := 0
-	if initialOffset > 0 {
-		// log.Printf("=> Clearing alignment for %v chars\n", initialOffset)
-		removedBytes := 0
-		var removedChars []rune
-		for i := 0; i < initialOffset; i++ {
-			c, ok := replacedNormalized.Next()
-			if !ok {
-				// We want to panic here, because the NormalizedString is in
-				// a bad state if this happens. We already modified a lot of things
-				log.Fatalf("1. Expected to remove %v characters but couldn't find them ...\n", initialOffset)
-			}
-			removedBytes += len([]byte(string(c)))
-			removedChars = append(removedChars, c)
+	for i := 0; i < initialOffset; i++ {
+		c, ok := replacedNormalized.Next()
+		if !ok {
+			// We want to panic here, because the NormalizedString is in
+			// a bad state if this happens. We already modified a lot of things
+			log.Fatalf("1. Expected to remove %v characters but couldn't find them ...\n", initialOffset)
 		}
-		initialRemoved = removedBytes
-		offset := nRange.start
-		oShift := 0
-		// Then we remove all these chars, updating the alignments along the way
-		for _, c := range removedChars {
-			removedORange := expandAlignments(n.alignments[offset : offset+len(string(c))])
-			offset += len(string(c))
-			oShift += len(string(c))
-			alignments := n.alignmentsOriginal[removedORange[0]:removedORange[1]]
-			// log.Printf("Clearing alignments for char: %q - alignments: %+v\n", c, alignments)
-			// 1. Get new alignments
-			var newAlignments [][]int
-			for _, offsets := range alignments {
-				// At the very end we will apply the global shift to the remaining
-				// original offsets. We should start after these to avoid doing it twice
-				if offsets[1] > endShiftStart {
-					endShiftStart = offsets[1]
-				}
-
-				// NOTE. the bytes of a char may share `offsets`: don't update it in place
-				newOffsets := []int{offsets[0], applySign(offsets[1], -(oShift))}
-				// Make sure the starting offset is always smaller or equal to the end
-				if newOffsets[0] > newOffsets[1] {
-					newOffsets[0] = newOffsets[1]
-				}
-
-				newAlignments = append(newAlignments, newOffsets)
-			}
-			// 2. Update alignmentOriginal with new alignments in `removedORange` range
-			var aligns [][]int = append(n.alignmentsOriginal[:removedORange[0]], newAlignments...)
-			aligns = append(aligns, n.alignmentsOriginal[removedORange[1]:]...)
-			n.alignmentsOriginal = aligns
-
-			// log.Printf("Cleared: %+v\n", alignments)
-		}
-	} // end `If` block
+		initialRemoved += len(string(c))
+	}
 
 	// II.	Do the transformation based on input `changeMap`.
-	// 1. 	Update alignments on normalized string(`n.alignments`) and original
-	// 			string (`n.alignmentsOriginal`);
+	// 1. 	Update alignments on normalized string(`n.alignments`), which determine
+	// 			those on original string (`n.alignmentsOriginal`);
 	// 2. 	collect transformed `chars` to a string
 	// 			variable (`normalized`)
 
-	// oShift is the shift to be applied to all original alignments along the way
-	// NOTE. `oShift` and `offset` here are different from ones inside previous block
-	oShift := -(initialRemoved)
 	offset := initialRemoved + nRange.start
 	var normalizedAlignments [][]int
 
@@ -606,10 +557,6 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		if replacedChar > 0 {
 			replacedCharSize = len([]byte(string(replacedChar)))
 		}
-		replacedCharSizeChange := len(item.RuneVal) - replacedCharSize
-		if replacedChar > 0 {
-			// log.Printf("Replacing char: '%v' - with a change in size: %v", string(replacedChar), replacedCharSizeChange)
-		}
 
 		// If we are removing some characters, find them too
 		var nChanges int = 0
@@ -617,10 +564,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 			nChanges = -item.Changes
 		}
 
-		var (
-			removedChars       []rune
-			totalBytesToRemove int
-		)
+		var totalBytesToRemove int
 		for i := 0; i < nChanges; i++ {
 			c, ok := replacedNormalized.Next()
 			if !ok {
@@ -628,127 +572,13 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 				// a bad state if this happens. We already modified a lot of things
 				// log.Fatalf("2. Expected to remove %v characters but couldn't find them ...\n", nChanges)
 			}
-			removedChars = append(removedChars, c)
 			totalBytesToRemove += len(string(c))
 		}
-		// fmt.Printf("removedChars: %+q\n", string(removedChars))
 		// log.Printf("Total bytes to remove: %v\n", totalBytesToRemove)
 
-		// If we are removing characters, there are two possible scenarios:
-		//   1. We remove characters that are part of the original string (most likely)
-		//   2. We remove characters that were previously added (with NFD for example)
-		//      and are just part of the normalized string
-
-		var removingFromOriginal, removingFromNormalized int = 0, 0
-		// Guard: idx may equal len(n.alignments) when removals fall at the very end of the string.
-		if totalBytesToRemove > 0 && idx < len(n.alignments) {
-			start := n.alignments[idx][1]
-			// Bounds check to prevent index out of range panic
-			endIdx := idx + replacedCharSize + totalBytesToRemove - 1
-			if endIdx >= len(n.alignments) {
-				endIdx = len(n.alignments) - 1
-			}
-			end := n.alignments[endIdx][1]
-			originalRange := util.MakeRange(start, end)
-			// fmt.Printf("start: %v - end: %v; range: (%+v)\n", start, end, originalRange)
-			removingFromOriginal = len(originalRange)
-			removingFromNormalized = totalBytesToRemove - len(originalRange)
-
-			// log.Printf("Bytes to remove from original alignments: %v\n", removingFromOriginal)
-			// log.Printf("Bytes to remove from normalized alignments: %v\n", removingFromNormalized)
-		}
-
-		// Update the original alignments for the **current** `char`
-		// fmt.Printf("align: %v\n", align)
-		// fmt.Printf("current alignmentsOriginal: %+v\n", n.alignmentsOriginal)
-		alignments := n.alignmentsOriginal[align[0]:align[1]]
-		// fmt.Printf("alignments: %+v\n", alignments)
-		if len(alignments) > 0 {
-			// log.Printf("Updating original alignments: %+v\n", alignments)
-
-			// Let's compute the actual change in size for the original alignment.
-			// This value may be different than `replacedCharSizeChange` because the
-			// char might not exist in the original string. It might have been added.
-			originalRange := expandAlignments(alignments)
-
-			replacedCharSizeChangeOriginal := len(item.RuneVal) - (originalRange[1] - originalRange[0])
-			// log.Printf("Change in size for the current char: %v\n", replacedCharSizeChange)
-			// log.Printf("Change in size in the original alignment for the current char: %v\n", replacedCharSizeChangeOriginal)
-
-			var newAlignments [][]int
-			for _, offsets := range alignments {
-				var newAlign []int = make([]int, 2)
-
-				// A new char is being added, we need to extend the current
-				// alignment. No need to apply the shift in this case as it
-				// should have been applied already (with a previous changes == 0).
-				if item.Changes > 0 {
-					newAlign[0] = offsets[0]
-					newAlign[1] = offsets[1] + len(item.RuneVal)
-				} else {
-					// Otherwise we just apply the shift
-					newAlign[0] = offsets[0]
-					newAlign[1] = applySign(offsets[1], replacedCharSizeChange)
-					newAlign[1] = applySign(newAlign[1], -(removingFromNormalized))
-
-					// NOTE: We only apply oShift if we are:
-					// - Removing characters
-					// - Replacing one, that has the same size in both normalized and
-					//   original alignments.
-					// Otherwise it means we are modifying multiple times the same
-					// original character. This happens when normalized characters
-					// are added (not part of the original), and then replaced.
-					if item.Changes < 0 || replacedCharSizeChange == replacedCharSizeChangeOriginal {
-						newAlign[0] = applySign(newAlign[0], oShift)
-						newAlign[1] = applySign(newAlign[1], oShift)
-					}
-				}
-
-				newAlignments = append(newAlignments, newAlign)
-			}
-
-			// Now, update original alignments for current `char` with new alignments
-			// fmt.Printf("newAlignments: %+v\n", newAlignments)
-			var aligns [][]int
-			if align[0] == 0 {
-				aligns = append(newAlignments, n.alignmentsOriginal[align[1]:]...)
-			} else {
-				aligns = append(n.alignmentsOriginal[:align[0]], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[align[1]:]...)
-			}
-			n.alignmentsOriginal = aligns
-			// log.Printf("Updated to: %+v\n", newAlignments)
-			// fmt.Printf("current n.alignmentsOriginal: %+v\n", n.alignmentsOriginal)
-		}
-
-		// If some were removed, we need to zero them out in the original alignments
-		if removingFromOriginal > 0 {
-			start := n.alignments[idx][1]
-			end := n.alignments[idx+replacedCharSize+totalBytesToRemove-1][1]
-			// They should use the original alignment of the current character
-			newIdx := n.alignmentsOriginal[align[0]][1]
-			alignments := n.alignmentsOriginal[start:end]
-			var newAlignments [][]int
-			if len(alignments) > 0 {
-				// log.Printf("Removing original alignments: %v\n", alignments)
-				for _, offsets := range alignments {
-					offsets[0] = newIdx
-					offsets[1] = newIdx
-					newAlignments = append(newAlignments, offsets)
-				}
-
-				aligns := append(n.alignmentsOriginal[:start], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[end:]...)
-				n.alignmentsOriginal = aligns
-			}
-		}
-
 		// Keep track of the changes for next offsets
 		offset += replacedCharSize
 		offset += totalBytesToRemove
-		// For the original only the real modifications count
-		oShift += replacedCharSizeChange
-		oShift -= totalBytesToRemove
 		// log.Printf("New normalized alignment: %vx %v\n", len(item.RuneVal), align)
 
 		for i := 0; i < len(item.RuneVal); i++ {
@@ -764,36 +594,6 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 
 	} // End of `For` block
 
-	// Apply the changes to the remaining original alignments
-	if oShift != 0 {
-		// log.Printf("Shifting the end  from %v using shift: %v\n", endShiftStart, oShift)
-
-		var endShift [][]int
-		for _, item := range n.alignments[endShiftStart:] {
-			endShift = append(endShift, item)
-		}
-		endRange := expandAlignments(endShift)
-
-		// log.Printf("End range: %+v\n", endRange)
-
-		if endRange != nil {
-			alignments := n.alignmentsOriginal[endRange[0]:endRange[1]]
-			var newAlignments [][]int
-			if len(alignments) > 0 {
-				// log.Printf("Alignments before shifting: %+v\n", alignments)
-				for _, offsets := range alignments {
-					newOffset0 := applySign(offsets[0], oShift)
-					newOffset1 := applySign(offsets[1], oShift)
-					newAlignments = append(newAlignments, []int{newOffset0, newOffset1})
-				}
-				aligns := append(n.alignmentsOriginal[:endRange[0]], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[endRange[1]:]...)
-				n.alignmentsOriginal = aligns
-				// log.Printf("After: %+v\n", newAlignments)
-			}
-		}
-	}
-
 	// replace alignments with new ones in range
 	var newAlignments [][]int
 	// fmt.Printf("nRange: %v\n", nRange)
@@ -816,6 +616,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		newAlignments = append(newAlignments, afterAligns...)
 	}
 	n.alignments = newAlignments
+	n.alignmentsOriginal = alignOriginal(n.alignments, len(n.original))
 
 	// Finally, change the `normalized` string
 	newNormalized := n.normalized[:nRange.start] + string(normalizedRunes) + n.normalized[nRange.end:]
@@ -1418,6 +1219,31 @@ func expandAlignments(alignments [][]int) (retVal []int) {
 	return []int{start, end}
 }
 
+// alignOriginal returns the mapping from original string to normalized one: (start, end)
+// for each byte of the original string, given the mapping from normalized string to
+// original one. A byte that no byte of the normalized string maps to has an empty range.
+func alignOriginal(alignments [][]int, lenOriginal int) (retVal [][]int) {
+	retVal = make([][]int, lenOriginal)
+	for i, a := range alignments {
+		for k := a[0]; k < a[1] && k < lenOriginal; k++ {
+			if retVal[k] == nil {
+				retVal[k] = []int{i, i}
+			}
+			retVal[k][1] = i + 1
+		}
+	}
+
+	end := 0
+	for k := range retVal {
+		if retVal[k] == nil {
+			retVal[k] = []int{end, end}
+		}
+		end = retVal[k][1]
+	}
+
+	return retVal
+}
+
 // applySign adds or substracts a signed value on a origin value. Makes sure of avoiding
 // any substraction overflow, flooring at 0.
 func applySign(origin int, signed int) int {
-- 
2.43.0


From e7ac371abc9f81a60e1504c755955733d8d3deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 016/101] fix: transform normalized strings that contain NUL
 characters

---
 normalizer/normalized.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 1b268f3..7c7d376 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -546,16 +546,12 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 			}
 		}
 
-		// If we are replacing a character, find it and compute the change in size
-		var replacedChar rune
-		if item.Changes <= 0 {
-			replacedChar, _ = replacedNormalized.Next()
-		} else {
-			replacedChar = 0 // nil rune value
-		}
+		// If we are replacing a character, find it and its size
 		replacedCharSize := 0
-		if replacedChar > 0 {
-			replacedCharSize = len([]byte(string(replacedChar)))
+		if item.Changes <= 0 {
+			if replacedChar, ok := replacedNormalized.Next(); ok {
+				replacedCharSize = len(string(replacedChar))
+			}
 		}
 
 		// If we are removing some characters, find them too
-- 
2.43.0


From 356cf16881a6d8f223d07b64e0bed273121a0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 017/101] fix: Transform applies to the whole normalized string

---
 normalizer/normalized.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 7c7d376..8c35632 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -654,9 +654,8 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 // {5, 6},
 // {6, 7},
 func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *NormalizedString) {
-	start := 0
-	end := len(n.original)
-	wholeRange := NewRange(start, end, OriginalTarget)
+	// NOTE. `m` covers the whole normalized string, including what does not stem from the original one
+	wholeRange := NewRange(0, n.Len(), NormalizedTarget)
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
-- 
2.43.0


From 8cd0cfb9f27a8cc773c1f51703a5156fa9532feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 018/101] fix: Map applies its function, ForEach keeps the
 alignments

---
 normalizer/normalized.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 8c35632..0782636 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -920,7 +920,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 	s := n.normalized
 	var changeMap []ChangeMap
 	for _, r := range []rune(s) {
-		changeMap = append(changeMap, ChangeMap{string(r), 0})
+		changeMap = append(changeMap, ChangeMap{string(nfn(r)), 0})
 	}
 
 	return n.Transform(changeMap, 0)
@@ -929,14 +929,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 // ForEach applies function on each `char` of normalized string
 // Similar to Map???
 func (n *NormalizedString) ForEach(nfn NormFn) (retVal *NormalizedString) {
-	s := n.normalized
-	var runes []rune
-	for _, r := range []rune(s) {
-		runes = append(runes, nfn(r))
-	}
-	n.normalized = string(runes)
-
-	return n
+	return n.Map(nfn)
 }
 
 // RemoveAccents removes all Unicode Mn group (M non-spacing)
-- 
2.43.0


From a6d6591af70ae076ab2314e9f454ff23754007e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 019/101] fix: changing case keeps the alignments of chars that
 change their length

---
 normalizer/normalized.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 0782636..e66ab48 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -3,7 +3,6 @@ package normalizer
 import (
 	"bytes"
 	"log"
-	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -941,16 +940,12 @@ func (n *NormalizedString) RemoveAccents() (retVal *NormalizedString) {
 
 // Lowercase transforms string to lowercase
 func (n *NormalizedString) Lowercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToLower(n.normalized)
-
-	return n
+	return n.Map(unicode.ToLower)
 }
 
 // Uppercase transforms string to uppercase
 func (n *NormalizedString) Uppercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToUpper(n.normalized)
-
-	return n
+	return n.Map(unicode.ToUpper)
 }
 
 // Clear clears the normalized part of the string
-- 
2.43.0


From 9ccb116a81462c6bcea41f045f7f0bdefed0d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 020/101] fix: clear normalized strings with multi-byte chars

---
 normalizer/normalized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index e66ab48..663f66d 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -950,7 +950,7 @@ func (n *NormalizedString) Uppercase() (retVal *NormalizedString) {
 
 // Clear clears the normalized part of the string
 func (n *NormalizedString) Clear() {
-	length := n.Len()
+	length := utf8.RuneCountInString(n.normalized)
 	n.Transform([]ChangeMap{}, length)
 }
 
-- 
2.43.0


From 5900c4278378be5b9b0f94bc30528a7ff9430e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 021/101] fix: unicode normalization forms compose, return the
 string and align decomposed chars

---
 normalizer/normalized.go | 164 +++++++--------------------------------
 1 file changed, 30 insertions(+), 134 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 663f66d..d3866fc 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -659,97 +659,26 @@ func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *
 }
 
 func (n *NormalizedString) NFD() (retVal *NormalizedString) {
-
-	s := n.normalized
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-	// Create slice of (char, changes) to map changing
-	// if added (inserted) rune, changes = 1; `-N` if char
-	// right before N removed chars
-	// changes = 0 if this represents the old one (even if changed)
-
-	// Iterating over string and apply tranformer (NFD). One character at a time
-	// A `character` is defined as:
-	// - a sequence of runes that starts with a starter,
-	// - a rune that does not modify or combine backwards with any other rune,
-	// - followed by possibly empty sequence of non-starters, that is, runes that do (typically accents).
-	// We will iterate over string and apply transformer to each char
-	// If a char composes of one rune, there no changes
-	// If more than one rune, first is no change, the rest is 1 changes
-	it.InitString(norm.NFD, s)
-	for !it.Done() {
-		// runes := []rune(string(it.Next()))
-		runes := bytes.Runes(it.Next())
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
-
-	// for i, c := range changeMap {
-	// fmt.Printf("%v - Char: %+q - changes: %v\n", i, c.RuneVal, c.Changes)
-	// }
-
-	return n.Transform(changeMap, 0)
+	return n.normalizeForm(norm.NFD)
 }
 
 func (n *NormalizedString) NFC() (retVal *NormalizedString) {
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	s := n.normalized
-
-	isNFC := norm.Form.IsNormalString(norm.NFC, s)
-	if isNFC {
-		return n
-	}
-
-	it.InitString(norm.NFD, s)
-
-	for !it.Done() {
-		// runes := []rune(string(it.Next()))
-		runes := bytes.Runes(it.Next())
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
-
-	return n.Transform(changeMap, 0)
+	return n.normalizeForm(norm.NFC)
 }
 
 func (n *NormalizedString) NFKD() (retVal *NormalizedString) {
+	return n.normalizeForm(norm.NFKD)
+}
+
+func (n *NormalizedString) NFKC() (retVal *NormalizedString) {
+	return n.normalizeForm(norm.NFKC)
+}
 
+// normalizeForm applies an unicode normalization form.
+func (n *NormalizedString) normalizeForm(form norm.Form) (retVal *NormalizedString) {
 	s := n.normalized
-	isNFKD := norm.Form.IsNormalString(norm.NFKD, s)
-	if isNFKD {
-		return
+	if form.IsNormalString(s) {
+		return n
 	}
 
 	var (
@@ -757,59 +686,26 @@ func (n *NormalizedString) NFKD() (retVal *NormalizedString) {
 		it        norm.Iter
 	)
 
-	it.InitString(norm.NFKD, s)
+	// Iterating over string and apply transformer. One `character` at a time
+	// A `character` is defined as:
+	// - a sequence of runes that starts with a starter,
+	// - a rune that does not modify or combine backwards with any other rune,
+	// - followed by possibly empty sequence of non-starters, that is, runes that do (typically accents).
+	it.InitString(form, s)
 	for !it.Done() {
-		runes := []rune(string(it.Next()))
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
+		start := it.Pos()
+		newRunes := bytes.Runes(it.Next())
+		removed := utf8.RuneCountInString(s[start:it.Pos()])
+
+		for i, r := range newRunes {
+			change := ChangeMap{RuneVal: string(r), Changes: 0}
+			switch {
+			case i >= removed: // there are more runes than before
+				change.Changes = 1
+			case i == len(newRunes)-1: // the remaining runes are removed
+				change.Changes = i + 1 - removed
 			}
-		}
-	}
-
-	return n.Transform(changeMap, 0)
-}
-
-func (n *NormalizedString) NFKC() (retVal *NormalizedString) {
-
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	s := n.normalized
-
-	isNFKC := norm.Form.IsNormalString(norm.NFKC, s)
-
-	if isNFKC {
-		return n
-	}
-
-	it.InitString(norm.NFKD, n.normalized)
-
-	for !it.Done() {
-		runes := []rune(string(it.Next()))
-
-		if len(runes) == 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: 0,
-			})
-		} else if len(runes) > 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: -1,
-			})
+			changeMap = append(changeMap, change)
 		}
 	}
 
-- 
2.43.0


From c08c6484fee08716e970149f5676b02f057e4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 022/101] fix: Prepend normalizer on empty strings

---
 normalizer/prepend.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/prepend.go b/normalizer/prepend.go
index 9fef305..88dc61a 100644
--- a/normalizer/prepend.go
+++ b/normalizer/prepend.go
@@ -12,7 +12,7 @@ func NewPrepend(prepend string) *Prepend {
 // Implement Normalizer for Prepend
 func (p *Prepend) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	if normalized.IsEmpty() {
-		return nil, nil
+		return normalized, nil
 	}
 
 	return normalized.Prepend(p.Prepend), nil
-- 
2.43.0


From 85133eca778ea8db2a51c5df2ad60bc04ca37884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 023/101] fix: BertNormalizer replaces all whitespaces when
 cleaning text

---
 normalizer/bert.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index 7adce5e..b07bc35 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -125,10 +125,10 @@ func doCleanText(n *NormalizedString) *NormalizedString {
 		if r == 0 || r == 0xfffd || isControl(r) {
 			removed += 1
 		} else {
+			if isWhitespace(r) {
+				r = ' '
+			}
 			if removed > 0 {
-				if isWhitespace(r) {
-					r = ' '
-				}
 				changeMap = append(changeMap, ChangeMap{
 					RuneVal: string(r),
 					Changes: -removed,
-- 
2.43.0


From 2d295e5990f53fa8d46e26d757647adc89b6c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 024/101] fix: BertNormalizer strips the accents of composed
 chars

---
 normalizer/bert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index b07bc35..d27ddc7 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -185,7 +185,7 @@ func doLowercase(n *NormalizedString) *NormalizedString {
 }
 
 func stripAccents(n *NormalizedString) *NormalizedString {
-	return n.RemoveAccents()
+	return n.NFD().RemoveAccents()
 }
 
 // Normalize implements Normalizer interface for BertNormalizer
-- 
2.43.0


From 71d0681008859d0d7cf870acfbf9642640af026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 025/101] fix: align chars with a long decomposition

---
 normalizer/normalized.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index d3866fc..45f9c68 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -695,6 +695,9 @@ func (n *NormalizedString) normalizeForm(form norm.Form) (retVal *NormalizedStri
 	for !it.Done() {
 		start := it.Pos()
 		newRunes := bytes.Runes(it.Next())
+		for it.Pos() == start && !it.Done() { // a long decomposition comes in parts
+			newRunes = append(newRunes, bytes.Runes(it.Next())...)
+		}
 		removed := utf8.RuneCountInString(s[start:it.Pos()])
 
 		for i, r := range newRunes {
-- 
2.43.0


From 51c552caf72177f93f8f100fde34757041de8129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 026/101] fix: BytesToChar and CharToBytes on multi-byte chars

---
 normalizer/normalized.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 45f9c68..fadd62a 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -1194,7 +1194,7 @@ func BytesToChar(s string, byteRange []int) (retVal []int) {
 
 	var selectedChars []byteIdxRune
 	var currRuneIdx int = 0
-	for i, char := range []rune(s) {
+	for i, char := range s {
 		if i >= byteRange[0] && i <= byteRange[1] {
 			selectedChars = append(selectedChars, byteIdxRune{
 				byteIdx: i,
@@ -1235,7 +1235,7 @@ func CharToBytes(s string, charRange []int) (retVal []int) {
 
 	var chars []byteIdxRune
 	var currRuneIdx int = 0
-	for i, char := range []rune(s) {
+	for i, char := range s {
 		chars = append(chars, byteIdxRune{
 			byteIdx: i,
 			runeIdx: currRuneIdx,
@@ -1245,16 +1245,16 @@ func CharToBytes(s string, charRange []int) (retVal []int) {
 	}
 
 	if charRange[0] == charRange[1] {
-		for i := range chars {
-			if i == charRange[0] {
-				start = chars[i+1].byteIdx
-				end = chars[i+1].byteIdx
+		for _, c := range chars {
+			if c.runeIdx == charRange[0] {
+				start = c.byteIdx
+				end = c.byteIdx
 			}
 		}
 	} else {
 		var selected []byteIdxRune
 		for _, c := range chars {
-			if c.byteIdx > charRange[0] && c.byteIdx <= charRange[1] {
+			if c.runeIdx >= charRange[0] && c.runeIdx < charRange[1] {
 				selected = append(selected, c)
 			}
 		}
-- 
2.43.0


From 94b24cfc70fc69fdcd9a31d18d2169ce659f0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 027/101] fix: prepending an empty string changes nothing

---
 normalizer/normalized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index fadd62a..0ec859a 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -767,7 +767,7 @@ func (n *NormalizedString) Filter(fn func(rune) bool) (retVal *NormalizedString)
 func (n *NormalizedString) Prepend(s string) (retVal *NormalizedString) {
 	chars := []rune(n.normalized)
 	var changeMap []ChangeMap
-	if len(chars) == 0 {
+	if len(chars) == 0 || s == "" {
 		return n
 	}
 
-- 
2.43.0


From a230d5732fa7a5dc728979329b08deb6178a90e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 028/101] fix: converting a range leaves it alone, slicing at
 the end of a string

---
 normalizer/normalized.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 0ec859a..b8fdb80 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -98,6 +98,10 @@ func (r *Range) On() IndexOn {
 // original provided range was out of bound.
 // maxLen is maximal len of string in `chars` (runes)
 func (r *Range) IntoFullRange(maxLen int) (retVal *Range) {
+	// NOTE. the input range belongs to the caller: don't change it
+	full := *r
+	r = &full
+
 	// case: start out of bound (including `None` value)
 	// if r.start == -1 || r.start > maxLen {
 	if r.start == -1 {
@@ -338,17 +342,17 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 	}
 
 	// Basic bounds check
-	if r.start < 0 || r.end < 0 || r.start > len(s) || r.end > len(s) {
+	if r.start < 0 || r.end < 0 || r.start > r.end || r.end > len(s) {
 		return nil
 	}
 
 	// If both start and end are zero, it's valid.
 	if r.start == 0 && r.end == 0 {
-		return inputRange
+		return r
 	}
 
 	// Check if r.start is on a rune boundary
-	if r.start != 0 {
+	if r.start != 0 && r.start != len(s) {
 		// If not the very start, verify it's a valid rune boundary
 		if !utf8.RuneStart(s[r.start]) {
 			return nil
@@ -362,7 +366,7 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 		}
 	}
 
-	return inputRange
+	return r
 }
 
 // Slice returns a slice of the current NormalizedString
-- 
2.43.0


From 7d9066717ba0e553bae66fe8ebfe3746c6499764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 029/101] fix: ranges out of bounds have no substring

---
 normalizer/normalized.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index b8fdb80..e07bc7f 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -279,7 +279,7 @@ func (n *NormalizedString) ConvertOffset(inputRange *Range) (retVal *Range) {
 	// Otherwise, just convert them.
 	// NOTE. if out of bound, return nil
 	var lowerB, upperB int = 0, len(alignments)
-	if target.start < lowerB || target.start > upperB || target.end < lowerB || target.end > upperB {
+	if target.start < lowerB || target.start > target.end || target.end > upperB {
 		return nil
 	}
 
@@ -288,17 +288,24 @@ func (n *NormalizedString) ConvertOffset(inputRange *Range) (retVal *Range) {
 	return NewRange(newRange[0], newRange[1], indexOn)
 }
 
+// substring returns the part of `s` in given range, empty if there is none.
+func substring(s string, r *Range) string {
+	if r == nil || r.start < 0 || r.start > r.end || r.end > len(s) {
+		return ""
+	}
+
+	return s[r.start:r.end]
+}
+
 // Range returns a substring of the NORMALIZED string
 func (n *NormalizedString) Range(r *Range) (retVal string) {
-
-	bytes := []byte(n.normalized)
 	switch r.indexOn {
 	case OriginalTarget:
 		nRange := n.ConvertOffset(r)
-		retVal = string(bytes[nRange.start:nRange.end])
+		retVal = substring(n.normalized, nRange)
 	case NormalizedTarget:
 		nRange := r.IntoFullRange(n.Len())
-		retVal = string(bytes[nRange.start:nRange.end])
+		retVal = substring(n.normalized, nRange)
 	}
 
 	return retVal
@@ -306,15 +313,13 @@ func (n *NormalizedString) Range(r *Range) (retVal string) {
 
 // RangeOriginal returns substring of ORIGINAL string
 func (n *NormalizedString) RangeOriginal(r *Range) (retVal string) {
-
-	bytes := []byte(n.original)
 	switch r.indexOn {
 	case NormalizedTarget:
 		oRange := n.ConvertOffset(r)
-		retVal = string(bytes[oRange.start:oRange.end])
+		retVal = substring(n.original, oRange)
 	case OriginalTarget:
 		oRange := r.IntoFullRange(n.LenOriginal())
-		retVal = string(bytes[oRange.start:oRange.end])
+		retVal = substring(n.original, oRange)
 	default:
 		log.Fatalf("Invalid Range type: %v\n", r.indexOn)
 	}
@@ -388,6 +393,10 @@ func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
 		oRange = n.ConvertOffset(fullRange)
 	}
 
+	if nRange == nil || oRange == nil || nRange.end > len(n.alignments) || oRange.end > len(n.alignmentsOriginal) {
+		return nil
+	}
+
 	// 2. `nShift` is normalized shift on original string
 	nShift := oRange.start
 
-- 
2.43.0


From f0defe772f537a504b8b560a453cb15558d409f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 030/101] fix: alignments of slices that share original chars

---
 normalizer/normalized.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index e07bc7f..6e16146 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -400,14 +400,6 @@ func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
 	// 2. `nShift` is normalized shift on original string
 	nShift := oRange.start
 
-	// 3. `oShift` is original shift on original string
-	var oShift int
-	if r := expandAlignments(n.alignmentsOriginal[0:nShift]); r == nil {
-		oShift = 0
-	} else {
-		oShift = r[1]
-	}
-
 	var (
 		sOriginal, sNormalized           string
 		sAlignments, sAlignmentsOriginal [][]int
@@ -420,10 +412,8 @@ func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
 		sAlignment := []int{a[0] - nShift, a[1] - nShift}
 		sAlignments = append(sAlignments, sAlignment)
 	}
-	for _, a := range n.alignmentsOriginal[oRange.start:oRange.end] {
-		sAlignmentOriginal := []int{a[0] - oShift, a[1] - oShift}
-		sAlignmentsOriginal = append(sAlignmentsOriginal, sAlignmentOriginal)
-	}
+	// NOTE. other parts of the normalized string may stem from the same original chars
+	sAlignmentsOriginal = alignOriginal(sAlignments, len(sOriginal))
 	sOriginalShift = n.originalShift + oRange.start
 
 	return &NormalizedString{
-- 
2.43.0


From b1fc73dd62de418703d3508ebe604f1b04fa9ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 031/101] fix: BPE merges equal pairs from left to right

---
 model/bpe/word.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 03b6b21..ad07893 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -261,16 +261,13 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 	}
 
 	// countComaparator return the `smaller` rank value
-	// if both ranks are equal, then return one with smaller timestamp
+	// if both ranks are equal, then return the leftmost one
 	countComparator := func(a, b interface{}) int {
 		c1 := a.(Merge).Rank
 		c2 := b.(Merge).Rank
 
 		if c1 == c2 {
-			aTime := a.(Merge).Time
-			bTime := b.(Merge).Time
-
-			return utils.TimeComparator(aTime, bTime)
+			return utils.IntComparator(a.(Merge).Pos, b.(Merge).Pos)
 		}
 
 		return utils.IntComparator(c1, c2)
-- 
2.43.0


From 2e65e45101f6bcc0d24bc5593a7653b0c08239ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 032/101] fix: BPE dropout re-inserts skipped merges once

---
 model/bpe/word.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index ad07893..17354f5 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -321,6 +321,7 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 			for _, s := range skip {
 				queue.Push(s)
 			}
+			skip = nil
 
 			if (w.Symbols[top.(Merge).Pos]).Len > 0 {
 				if (w.Symbols[top.(Merge).Pos]).Next == -1 {
-- 
2.43.0


From 94d5e82d14c3b24613959f1272ae7c85c90b8a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 033/101] fix: count the pair that follows a merge at the
 beginning of a word

---
 model/bpe/word.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 17354f5..ff35d17 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -227,7 +227,7 @@ func (w *Word) Merge(c1, c2, replacement int) ([]WChange, error) {
 			}
 
 			// If there are other `chars` after the pair
-			if i > 0 && i < len(w.Symbols)-1 {
+			if i < len(w.Symbols)-1 {
 				// fmt.Println("Yes, there some char after the pair")
 				changes = append(changes, WChange{
 					C1:     second.C,
-- 
2.43.0


From 7d58dc2d1a9501dcc295d39963d7c7a2ddb2d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 034/101] fix: BPE without cache

---
 model/bpe/bpe.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index d408818..f3242f2 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -478,18 +478,20 @@ func (b BPE) Tokenize(sequence string) (retVal []tokenizer.Token, err error) {
 
 func (b BPE) TokenizeWithCache(sequence string) (retVal []tokenizer.Token) {
 
-	if hit, ok := b.Cache.Get(sequence); ok {
-		return b.WordToTokens(hit)
-	} else {
-		word := b.MergeWord(sequence)
-		retVal = b.WordToTokens(*word)
-		if b.Cache != nil {
-			b.Cache.SetValues([]CacheItem{
-				{sequence, *word},
-			})
+	if b.Cache != nil {
+		if hit, ok := b.Cache.Get(sequence); ok {
+			return b.WordToTokens(hit)
 		}
-		return retVal
 	}
+
+	word := b.MergeWord(sequence)
+	retVal = b.WordToTokens(*word)
+	if b.Cache != nil {
+		b.Cache.SetValues([]CacheItem{
+			{sequence, *word},
+		})
+	}
+	return retVal
 }
 
 func (b BPE) TokenToId(token string) (id int, ok bool) {
-- 
2.43.0


From 6840a5a620e4f8600133cc14d621758c6812e9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 035/101] fix: BPE continuing subword prefix and end of word
 suffix

---
 model/bpe/bpe.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index f3242f2..164a99d 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -384,15 +384,16 @@ func (b *BPE) MergeWord(w string) *Word {
 		)
 		byteLen = len(string(r))
 
-		// if first rune, add prefix
-		if byteIdx == 0 {
-			s = fmt.Sprintf("%v%v", prefix, string(r))
-		} else if currRuneIdx == len(chars) { // last rune, add suffix
-			s = fmt.Sprintf("%v%v", string(r), suffix)
-		} else { // the rest
-			s = string(r)
+		s = string(r)
+		// if not first rune, add prefix
+		if byteIdx > 0 {
+			s = prefix + s
 		}
 		currRuneIdx++
+		// if last rune, add suffix
+		if currRuneIdx == len(chars) {
+			s = s + suffix
+		}
 
 		// If `s` exists in vocab, add its id, otherwise add id of `unk`
 		vocab := *b.Vocab
-- 
2.43.0


From 48d023a9d13a9fbc91ce89b1036cec3a343f206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 036/101] fix: merges of BPE models with a continuing subword
 prefix

---
 model/bpe/bpe.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 164a99d..df17f83 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -126,6 +126,7 @@ func (bb *BpeBuilder) Build() (*BPE, error) {
 
 	// Read files if provided
 	if bb.config.files != nil {
+		bpe.ContinuingSubwordPrefix = bb.config.continuingSubwordPrefix
 		vocab, merges, err = bpe.ReadFiles(bb.config.files.vocab, bb.config.files.merges)
 		if err != nil {
 			return nil, err
@@ -252,7 +253,11 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 	var (
 		vocab  model.Vocab
 		merges Merges = make(map[Pair]PairVal)
+		prefix string
 	)
+	if b.ContinuingSubwordPrefix != nil {
+		prefix = *b.ContinuingSubwordPrefix
+	}
 
 	err = json.Unmarshal(vocabBytes, &vocab)
 	if err != nil {
@@ -304,7 +309,7 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 
 		pair := Pair{a, b}
 		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		newToken := parts[0] + strings.TrimPrefix(parts[1], prefix)
 		newId, ok := vocab[newToken]
 		if !ok {
 			err = fmt.Errorf("Read merge file error: key value for token: \"%s\" not found.", newToken)
@@ -603,8 +608,10 @@ func makeFilePath(filename string) error {
 	return os.MkdirAll(dirName, os.ModePerm)
 }
 
-func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
+// CreateMerges creates merges from the given lines. Merging a continuing subword drops its prefix if there is one.
+func CreateMerges(vocab map[string]int, mergesData []string, continuingSubwordPrefix ...string) (*Merges, error) {
 	var (
+		prefix  string = strings.Join(continuingSubwordPrefix, "")
 		lineNum int    = 0
 		merges  Merges = make(map[Pair]PairVal)
 	)
@@ -631,7 +638,7 @@ func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
 
 		pair := Pair{a, b}
 		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		newToken := parts[0] + strings.TrimPrefix(parts[1], prefix)
 		newId, ok := vocab[newToken]
 		if !ok {
 			err := fmt.Errorf("Read merges error: key value for token: \"%s\" not found.", newToken)
@@ -658,7 +665,11 @@ func New(
 	continuingSubwordPrefix *string,
 	endOfWordSuffix *string,
 ) (*BPE, error) {
-	merges, err := CreateMerges(vocab, mergesData)
+	var prefix string
+	if continuingSubwordPrefix != nil {
+		prefix = *continuingSubwordPrefix
+	}
+	merges, err := CreateMerges(vocab, mergesData, prefix)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7c552685e0b99b0b90f95cf5a4105f564160cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 037/101] fix: WordPiece offsets are bytes as in all other
 models

---
 model/wordpiece/wordpiece.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index a691bc9..7fe5ee3 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -268,7 +268,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 		outputTokens = append(outputTokens, token)
 
@@ -278,6 +278,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 	var (
 		isBad     bool = false
 		start     int  = 0
+		pos       int  = 0 // byte offset of `start`
 		subTokens []tokenizer.Token
 	)
 
@@ -287,6 +288,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 
 		for start < end {
 			substr := string(chars[start:end])
+			byteLen := len(substr)
 			if start > 0 {
 				substr = fmt.Sprintf("%v%v", wp.continueSubwordPrefix, substr)
 			}
@@ -295,7 +297,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 				currStr = &tokenizer.Token{
 					Id:      id,
 					Value:   substr,
-					Offsets: []int{start, end},
+					Offsets: []int{pos, pos + byteLen},
 				}
 
 				break
@@ -309,6 +311,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 
 		subTokens = append(subTokens, *currStr)
 		start = end
+		pos = currStr.Offsets[1]
 	}
 
 	if isBad {
@@ -320,7 +323,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 
 		outputTokens = append(outputTokens, token)
-- 
2.43.0


From f1fd9b4b2332a54be4bac7254a070052b7957560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 038/101] fix: WordPiece takes its continuing subword prefix
 from the parameters

---
 model/wordpiece/wordpiece.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index 7fe5ee3..f544d4a 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -421,7 +421,7 @@ func New(
 	if opts.Has("unk_token") {
 		unkToken = opts.Get("unk_token").(string)
 	}
-	if opts.Has("continuingSubwordPrefix") {
+	if opts.Has("continuing_subword_prefix") {
 		continuingSubwordPrefix = opts.Get("continuing_subword_prefix").(string)
 	}
 	if opts.Has("max_input_chars_per_word") {
-- 
2.43.0


From 43843dc85ccc7d5c4617a042777f43b38c685e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 039/101] fix: WordLevel keeps the id of its unknown token

---
 model/wordlevel/wordlevel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 8fc7806..ee9f75f 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -46,7 +46,9 @@ func (wlb *WordLevelBuilder) Vocab(vocab map[string]int) {
 // UnkToken set `UNK` token for the vocab
 func (wlb *WordLevelBuilder) UnkToken(unkToken string) {
 	wlb.config.unkToken = unkToken
-	wlb.config.vocab[unkToken] = len(wlb.config.vocab)
+	if _, ok := wlb.config.vocab[unkToken]; !ok {
+		wlb.config.vocab[unkToken] = len(wlb.config.vocab)
+	}
 }
 
 // Build builds a WordLevel using configuration
-- 
2.43.0


From 062a304bcf714bd0b54bccf1e845095fe3bba26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 040/101] fix: Unigram falls back to bytes for unknown
 characters only

---
 model/unigram/unigram.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 8f40367..a1b5dc2 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -251,14 +251,6 @@ func (u *Unigram) Tokenize(sequence string) ([]tokenizer.Token, error) {
 		return u.tokensToTokenizer(tokens, sequence), nil
 	}
 
-	// If byte fallback is enabled, always use it
-	if u.bytesFallback {
-		tokens := u.tokenizeWithByteFallback(sequence)
-		u.cache.Set(sequence, tokens, CacheExpiredTime*time.Minute)
-
-		return u.tokensToTokenizer(tokens, sequence), nil
-	}
-
 	// Tokenize using the Viterbi algorithm
 	tokens, err := u.tokenizeWithViterbi(sequence)
 	if err != nil {
@@ -278,6 +270,20 @@ func (u *Unigram) tokensToTokenizer(tokens []string, sequence string) []tokenize
 		length := len(token)
 		id, ok := u.TokenToId(token)
 		if !ok {
+			// Represent an unknown token by its bytes if byte fallback is enabled
+			if u.bytesFallback {
+				for _, byteToken := range u.tokenizeWithByteFallback(token) {
+					if id, ok := u.TokenToId(byteToken); ok {
+						result = append(result, tokenizer.Token{
+							Id:      id,
+							Value:   byteToken,
+							Offsets: []int{offset, offset + length},
+						})
+					}
+				}
+				offset += length
+				continue
+			}
 			// Handle unknown token
 			if u.unkID != nil {
 				id = *u.unkID
@@ -393,16 +399,19 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			}
 		}
 
-		// If we haven't found a single character token and we have an unknown token ID,
-		// add an unknown token for this character
-		if !hasSingleNode && u.unkID != nil {
+		// If we haven't found a single character token and we have an unknown token ID
+		// or byte fallback, add an unknown token for this character
+		if !hasSingleNode && (u.unkID != nil || u.bytesFallback) {
 			j := i + charLen
 			if j <= n {
 				newScore := lattice[i].bestScore + unkScore
 				if newScore > lattice[j].bestScore {
 					lattice[j].bestScore = newScore
 					lattice[j].bestIndex = i
-					lattice[j].id = *u.unkID
+					lattice[j].id = -1
+					if u.unkID != nil {
+						lattice[j].id = *u.unkID
+					}
 				}
 			}
 		}
@@ -415,9 +424,9 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			return []string{sequence}, nil
 		}
 
-		// If we're using byte fallback, handle it here
+		// If we're using byte fallback, represent the whole sequence by its bytes
 		if u.bytesFallback {
-			return u.tokenizeWithByteFallback(sequence), nil
+			return []string{sequence}, nil
 		}
 
 		return nil, fmt.Errorf("could not tokenize sequence with Viterbi algorithm")
-- 
2.43.0


From 7645f3a193b4ea01387c8db57e5029d178b6f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 041/101] fix: Unigram uses tokens of more than 20 bytes

---
 model/unigram/unigram.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index a1b5dc2..55f414c 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -42,6 +42,8 @@ type Unigram struct {
 	unkID         *int
 	bytesFallback bool
 	fuseUnk       bool
+	// Byte length of the longest token in the vocabulary
+	maxTokenLen int
 	// Cache for tokenization
 	cache *Catch.Cache
 }
@@ -92,8 +94,12 @@ func (ub *UnigramBuilder) FuseUnk(fuseUnk bool) *UnigramBuilder {
 func (ub *UnigramBuilder) Build() (*Unigram, error) {
 	// Create token to ID mapping
 	tokenToIDs := make(map[string]int, len(ub.config.vocab))
+	maxTokenLen := 0
 	for i, ts := range ub.config.vocab {
 		tokenToIDs[ts.Token] = i
+		if len(ts.Token) > maxTokenLen {
+			maxTokenLen = len(ts.Token)
+		}
 	}
 
 	// Validate unkID if provided
@@ -109,6 +115,7 @@ func (ub *UnigramBuilder) Build() (*Unigram, error) {
 		unkID:         ub.config.unkID,
 		bytesFallback: ub.config.bytesFallback,
 		fuseUnk:       ub.config.fuseUnk,
+		maxTokenLen:   maxTokenLen,
 		cache:         Catch.New(CacheExpiredTime*time.Minute, CacheCleanTime*time.Minute),
 	}, nil
 }
@@ -344,8 +351,8 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		}
 
 		// Try all possible tokens starting at this position
-		// Limit the maximum token length to 20 characters for efficiency
-		maxLen := 20
+		// Limit the maximum token length to the longest token for efficiency
+		maxLen := u.maxTokenLen
 		if i+maxLen > n {
 			maxLen = n - i
 		}
-- 
2.43.0


From 9ea212e84a70c33549a60a464a256f070f970842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 042/101] fix: Unigram segmentation is the one with the highest
 score

---
 model/unigram/unigram.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 55f414c..cc5b8b0 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -385,13 +385,8 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			// If the token is in the vocabulary, use its score
 			score := u.vocab[id].Score
 
-			// Add a bonus for longer tokens to match the Rust implementation
-			// This helps prioritize longer tokens like "ab" over "a" + "b"
-			tokenLength := j - i
-			lengthBonus := float64(tokenLength) * 0.1
-
 			// Calculate the new score for this path
-			newScore := lattice[i].bestScore + score + lengthBonus
+			newScore := lattice[i].bestScore + score
 
 			// If this is a better path to position j, update the lattice
 			if newScore > lattice[j].bestScore {
-- 
2.43.0


From 6cfd7f75fe9237b3ee7b1881db0751460fa50412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 043/101] fix: find added tokens in the order of the text

---
 added-vocabulary.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index cafeb11..587ac96 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -404,8 +404,8 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 	}
 
 	// Sort id-offsets by start then by pattern id
-	sort.Sort(byStart(ioPairs))
 	sort.Sort(byId(ioPairs))
+	sort.Stable(byStart(ioPairs))
 
 	// Select the matches, if they overlap, keep them
 	var (
@@ -426,19 +426,17 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		// Find out whether having overlapping neighbours.
 		// If so, keep the one with lowest Idx. All other will be skipped
 		// because `currentOffsets` will have been increased.
-		if i+1 < len(ioPairs) {
-			overlapPairs := ioPairs[i:]
-			sort.Sort(byId(overlapPairs))
-			lowestPair := overlapPairs[0] // lowest Id one
-			splits = append(splits, lowestPair)
-			currentOffsets = ioPair.offsets[1]
-			i++
-			continue
+		lowestPair := ioPair // lowest Id one
+		for _, p := range ioPairs[i+1:] {
+			if p.offsets[0] >= ioPair.offsets[1] {
+				break
+			}
+			if p.id < lowestPair.id {
+				lowestPair = p
+			}
 		}
-
-		// Not found overlap neighbours. Just apply itself
-		splits = append(splits, ioPair)
-		currentOffsets = ioPair.offsets[1]
+		splits = append(splits, lowestPair)
+		currentOffsets = lowestPair.offsets[1]
 		i++
 	}
 
-- 
2.43.0


From 6f8aa6c816ae1afe8b969242afd0b17b2203e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 044/101] fix: match normalized added tokens by their
 normalized content

---
 added-vocabulary.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 587ac96..aef6066 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -125,6 +125,19 @@ func (at AddedToken) SetNormalized(normalized bool) (retVal AddedToken) {
 func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	var reStr string // regular expression pattern
 
+	// normalize the content
+	normalized := at.Content
+	if at.Normalized && n != nil {
+		normalizedString, err := n.Normalize(normalizer.NewNormalizedFrom(at.Content))
+		if err != nil {
+			log.Fatal(err)
+		}
+		// nothing would match an empty pattern in a meaningful way, keep content as is
+		if normalizedString.GetNormalized() != "" {
+			normalized = normalizedString.GetNormalized()
+		}
+	}
+
 	if at.SingleWord {
 		var firstB, lastB string
 		runes := []rune(at.Content)
@@ -141,23 +154,10 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 			lastB = ``
 		}
 
-		// normalize the content
-		content := normalizer.NewNormalizedFrom(at.Content)
-		var normalized string
-		if n != nil {
-			normalizedString, err := n.Normalize(content)
-			if err != nil {
-				log.Fatal(err)
-			}
-			normalized = normalizedString.GetNormalized()
-		} else { // don't have a normalizer, just use content as is
-			normalized = at.Content
-		}
-
 		reStr = fmt.Sprintf("%v%v%v", firstB, regexp.QuoteMeta(normalized), lastB)
 
 	} else {
-		reStr = regexp.QuoteMeta(at.Content)
+		reStr = regexp.QuoteMeta(normalized)
 	}
 
 	if at.LStrip && at.RStrip {
-- 
2.43.0


From 3fa31967d33c71c1105f7dab93d0ec03063041b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 045/101] fix: added tokens strip all the whitespaces next to
 them

---
 added-vocabulary.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index aef6066..64af1dd 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -161,11 +161,11 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	}
 
 	if at.LStrip && at.RStrip {
-		reStr = fmt.Sprintf("(\\s)?%v(\\s)?", reStr)
+		reStr = fmt.Sprintf("\\s*%v\\s*", reStr)
 	} else if at.LStrip {
-		reStr = fmt.Sprintf("(\\s)?%v", reStr)
+		reStr = fmt.Sprintf("\\s*%v", reStr)
 	} else if at.RStrip {
-		reStr = fmt.Sprintf("%v(\\s)?", reStr)
+		reStr = fmt.Sprintf("%v\\s*", reStr)
 	}
 
 	return reStr
-- 
2.43.0


From 2d82e36b3f5d8a3301ab63df4b08d020e5316a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 046/101] fix: single word added tokens that begin or end with
 punctuation

---
 added-vocabulary.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 64af1dd..9cbced5 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -171,11 +171,9 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	return reStr
 }
 
+// isWordCharacter returns whether `\b` regards r as part of a word.
 func isWordCharacter(r rune) bool {
-	if unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.IsControl(r) || unicode.IsPunct(r) {
-		return true
-	}
-	return false
+	return r == '_' || r < unicode.MaxASCII && (unicode.IsLetter(r) || unicode.IsDigit(r))
 }
 
 // matchingSet is a set of regular expression string
-- 
2.43.0


From ec9aa772b3dadd08d4a63369d5839ee97ccb9f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 047/101] fix: normalizing a PreTokenizedString keeps splits
 that have tokens

---
 pretokenizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 6a55545..23e33e0 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -101,11 +101,11 @@ func (pt *PreTokenizedString) Normalize(nFn func(*normalizer.NormalizedString) *
 	var nSplits []Split
 
 	for _, split := range pt.splits {
+		newSplit := split
 		if split.tokens == nil {
-			newSplit := split
 			newSplit.normalized = nFn(split.normalized)
-			nSplits = append(nSplits, newSplit)
 		}
+		nSplits = append(nSplits, newSplit)
 	}
 
 	pt.splits = nSplits
-- 
2.43.0


From 32d5fad76009ec46572e8b837a2941208e202392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 048/101] fix: char offsets at the end of a text

---
 pretokenizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 23e33e0..72451c7 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -216,9 +216,9 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 				last, ok := charMapSplit[convertedOffsets[1]-1]
 				if !ok {
 					log.Printf("Something wrong here. Should find from map.\n")
-					last = start + 1
+					last = start
 				}
-				newConvertedOffsets = []int{start, last}
+				newConvertedOffsets = []int{start, last + 1}
 
 			default:
 				newConvertedOffsets = convertedOffsets
-- 
2.43.0


From 60bb24b27014f27f4f7bf8accb8d2e7009fde94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 049/101] fix: convert offsets at the end of a sequence to
 chars

---
 pretokenizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pretokenizer.go b/pretokenizer.go
index 72451c7..60c7731 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -344,6 +344,10 @@ func (c *BytesToCharOffsetConverter) Convert(offsets []int) ([]int, error) {
 
 	end, ok := c.b2c[offsets[1]]
 	if !ok {
+		// `end` is not in the map at the end of the sequence, but the one just before is
+		if last, ok := c.b2c[offsets[1]-1]; ok {
+			return []int{start, last + 1}, nil
+		}
 		err := fmt.Errorf("Invalid offsets end %v\n", offsets[1])
 		return nil, err
 	}
-- 
2.43.0


From 25236c15d4d0f4541ed0c1812844f3bc0fe9514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 050/101] fix: GetVocab leaves the vocabulary of the model
 alone

---
 tokenizer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index 38f9bf1..38d7a42 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -342,7 +342,11 @@ func (t *Tokenizer) GetPadding() (retVal *PaddingParams) {
 
 // GetVocab get the vocabulary
 func (t *Tokenizer) GetVocab(withAddedTokens bool) map[string]int {
-	finalVocab := t.model.GetVocab()
+	modelVocab := t.model.GetVocab()
+	finalVocab := make(map[string]int, len(modelVocab))
+	for k, v := range modelVocab {
+		finalVocab[k] = v
+	}
 	if withAddedTokens {
 		addedVocab := t.addedVocabulary.GetVocab()
 		if len(addedVocab) > 0 {
-- 
2.43.0


From 2f2acc05c7b03dc7560469ba7a3d3012ec253da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 051/101] fix: DecodeBatch keeps order, without data race

---
 tokenizer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 38d7a42..afc5268 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -676,7 +676,7 @@ func (t *Tokenizer) EncodeBatch(inputs []EncodeInput, addSpecialTokens bool) (re
 
 // DecodeBatch decodes all sentences in concurrency
 func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []string {
-	var decodings []string
+	decodings := make([]string, len(sentences))
 	var wg sync.WaitGroup
 
 	wg.Add(len(sentences))
@@ -686,8 +686,7 @@ func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []str
 		go func(i int) {
 			defer wg.Done()
 
-			s := t.Decode(sentences[i], skipSpecialTokens)
-			decodings = append(decodings, s)
+			decodings[i] = t.Decode(sentences[i], skipSpecialTokens)
 		}(i)
 	}
 
-- 
2.43.0


From ccc6d344244b8f918d0c70103fafbea54429a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:16 +0000
Subject: [PATCH 052/101] fix: GetSplits does not panic on offsets that are not
 part of the original

---
 pretokenizer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 60c7731..cb2e652 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -279,10 +279,9 @@ func (pt *PreTokenizedString) GetSplits(offsetRef normalizer.IndexOn, offsetType
 
 		// Convert to char offsets if relevant
 		if offsetConverter != nil {
-			var err error
-			offsets, err = offsetConverter.Convert(offsets)
-			if err != nil {
-				panic(err)
+			// offsets that do not lie within the original are left as they are
+			if converted, err := offsetConverter.Convert(offsets); err == nil {
+				offsets = converted
 			}
 		}
 
-- 
2.43.0


From 506e691b25212840e1aa400a21371d32bcc015f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 053/101] fix: encode splits that have no tokens

---
 pretokenizer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index cb2e652..58ca057 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -124,6 +124,9 @@ func (pt *PreTokenizedString) Tokenize(tokFn func(*normalizer.NormalizedString)
 			if err != nil {
 				return nil, err
 			}
+			if toks == nil {
+				toks = []Token{} // tokenized, into no tokens
+			}
 			newSplit.tokens = toks
 		}
 		nSplits = append(nSplits, newSplit)
@@ -147,7 +150,7 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 	}
 
 	for _, s := range pt.splits {
-		if len(s.tokens) == 0 {
+		if s.tokens == nil {
 			err := fmt.Errorf("Split has not been tokenized. Call 'PreTokenizeString.Tokenize()' method first.\n")
 			return nil, err
 		}
-- 
2.43.0


From e2ebb7fb8657f4fa18b48d9fb1eb9693a881929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 054/101] fix: decode with the default BPE, WordPiece and CTC
 decoders

---
 decoder/bpe.go       | 2 +-
 decoder/ctc.go       | 8 +-------
 decoder/wordpiece.go | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/decoder/bpe.go b/decoder/bpe.go
index 44bfec7..12989b9 100644
--- a/decoder/bpe.go
+++ b/decoder/bpe.go
@@ -29,7 +29,7 @@ func NewBpeDecoder(suffix string) *BpeDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultBpeDecoder() *BpeDecoder {
-	return &BpeDecoder{suffix: "</w>"}
+	return NewBpeDecoder("</w>")
 }
 
 /*
diff --git a/decoder/ctc.go b/decoder/ctc.go
index f1f0655..3236e35 100644
--- a/decoder/ctc.go
+++ b/decoder/ctc.go
@@ -30,13 +30,7 @@ func NewCTC(padToken string, wordDelimiterToken string, cleanup bool) *CTC {
 }
 
 func DefaultCTC() *CTC {
-	base := new(DecoderBase)
-	return &CTC{
-		DecoderBase:        base,
-		PadToken:           "<pad>",
-		WordDelimiterToken: "|",
-		Cleanup:            true,
-	}
+	return NewCTC("<pad>", "|", true)
 }
 
 // dedup deduplicates consecutive elements.
diff --git a/decoder/wordpiece.go b/decoder/wordpiece.go
index 8c66b62..37acdc0 100644
--- a/decoder/wordpiece.go
+++ b/decoder/wordpiece.go
@@ -33,10 +33,7 @@ func NewWordPieceDecoder(prefix string, cleanup bool) *WordPieceDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultWordpieceDecoder() *WordPieceDecoder {
-	return &WordPieceDecoder{
-		prefix:  "##",
-		cleanup: true,
-	}
+	return NewWordPieceDecoder("##", true)
 }
 
 /*
-- 
2.43.0


From eb53237d232255e85161e9a37d2f3d3327c208dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 055/101] fix: Strip decoder on tokens shorter than what it
 strips

---
 decoder/strip.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/strip.go b/decoder/strip.go
index dd428e2..c93ebe2 100644
--- a/decoder/strip.go
+++ b/decoder/strip.go
@@ -36,7 +36,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		chars := strings.Split(token, "")
 
 		startCut := 0
-		for i := 0; i < d.Start; i++ {
+		for i := 0; i < d.Start && i < len(chars); i++ {
 			c := chars[i]
 			if c == d.Content {
 				startCut = i + 1
@@ -47,7 +47,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		}
 
 		stopCut := len(chars)
-		for i := 0; i < d.Stop; i++ {
+		for i := 0; i < d.Stop && i < len(chars)-startCut; i++ {
 			index := len(chars) - i - 1
 			if chars[index] == d.Content {
 				stopCut = index
-- 
2.43.0


From 9a09fa6766d2020ffd4c4c5653284e5e25607457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 056/101] fix: ByteFallback keeps tokens that only look like
 bytes

---
 decoder/byte-fallback.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/decoder/byte-fallback.go b/decoder/byte-fallback.go
index 763f85a..83820ac 100644
--- a/decoder/byte-fallback.go
+++ b/decoder/byte-fallback.go
@@ -37,13 +37,11 @@ func (d *ByteFallback) DecodeChain(tokens []string) []string {
 
 	for _, token := range tokens {
 		var bytes []byte
-		var err error
 
 		if len(token) == 6 && strings.HasPrefix(token, "<0x") && strings.HasSuffix(token, ">") {
 			// convert hex string to bytes
-			bytes, err = hex.DecodeString(token[3:5])
-			if err != nil {
-				panic(err)
+			if decoded, err := hex.DecodeString(token[3:5]); err == nil {
+				bytes = decoded
 			}
 		}
 
-- 
2.43.0


From 6c1de4d3ebf24eac86ddf2c11a2546facfe49864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 057/101] fix: ByteLevel decodes added tokens that are not
 byte-level

---
 pretokenizer/bytelevel.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index f3e3ff6..d0970ee 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -229,18 +229,7 @@ var _ tokenizer.Decoder = new(ByteLevel)
 // Decode converts any byte-level characters to their unicode couterpart
 // before merging everything back into a single string
 func (bl *ByteLevel) Decode(tokens []string) string {
-	s := strings.Join(tokens, "")
-	chars := strings.Split(s, "")
-
-	var bytes []byte
-
-	for _, c := range chars {
-		b := CharBytes[c]
-
-		bytes = append(bytes, b)
-	}
-
-	return string(bytes)
+	return strings.Join(bl.DecodeChain(tokens), "")
 }
 
 func (bl *ByteLevel) DecodeChain(tokens []string) []string {
@@ -249,7 +238,12 @@ func (bl *ByteLevel) DecodeChain(tokens []string) []string {
 		chars := strings.Split(s, "")
 		var bytes []byte
 		for _, c := range chars {
-			b := CharBytes[c]
+			b, ok := CharBytes[c]
+			if !ok {
+				// not a byte-level token (e.g. an added token): keep it as it is
+				bytes = []byte(s)
+				break
+			}
 
 			bytes = append(bytes, b)
 		}
-- 
2.43.0


From 9fed52a95f8fb5b3ed4392d45ac13989cfc7a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 058/101] fix: Metaspace replacements that are special in
 regular expressions

---
 pretokenizer/metaspace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretokenizer/metaspace.go b/pretokenizer/metaspace.go
index 7d9606f..4ed5d77 100644
--- a/pretokenizer/metaspace.go
+++ b/pretokenizer/metaspace.go
@@ -98,7 +98,7 @@ func (m *Metaspace) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*to
 			// Never prepend
 		}
 
-		replacement := normalizer.NewRegexpPattern(m.Replacement)
+		replacement := normalizer.NewStringPattern(m.Replacement)
 		splits = normalized.Split(replacement, normalizer.MergedWithNextBehavior)
 
 		// log.Printf("splits: %+v\n", splits)
-- 
2.43.0


From 9992b2f6a47b8b4bcdd2e84fd26e73165ed28e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 059/101] fix: UnicodeScript keeps text that begins with a
 space

---
 pretokenizer/unicode-script.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pretokenizer/unicode-script.go b/pretokenizer/unicode-script.go
index f34436b..e6de6eb 100644
--- a/pretokenizer/unicode-script.go
+++ b/pretokenizer/unicode-script.go
@@ -73,6 +73,12 @@ func (us *UnicodeScript) PreTokenize(pretokenized *tokenizer.PreTokenizedString)
 			}
 		}
 
+		// leading chars of any script belong to the first split
+		if len(ranges) > 0 {
+			ranges[0] = 0
+		} else {
+			ranges = append(ranges, 0)
+		}
 		ranges = append(ranges, len(normalized.GetNormalized()))
 
 		log.Printf("ranges: %v\n", ranges)
-- 
2.43.0


From c5ed90efdb6296863227bac88f4ad2dba80aca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 060/101] fix: Precompiled normalizes the whole text and keeps
 its alignments

---
 normalizer/precompiled.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/normalizer/precompiled.go b/normalizer/precompiled.go
index 9afd0a6..9515ef3 100644
--- a/normalizer/precompiled.go
+++ b/normalizer/precompiled.go
@@ -28,7 +28,7 @@ func replace(transformations []ChangeMap, oldPart, newPart string) []ChangeMap {
 	switch {
 	case diff > 0:
 		// If adding some characters, the last diff characters should be == 1
-		for i := n - 1; i >= diff || i >= 0; i-- {
+		for i := n - 1; i >= n-diff; i-- {
 			transformations[i].Changes = 1
 		}
 	case diff < 0:
@@ -48,9 +48,6 @@ type Precompiled struct {
 func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	original := normalized.GetNormalized()
 	var transformations []ChangeMap
-	for i := 0; i < len(original); i++ {
-		transformations = append(transformations, ChangeMap{})
-	}
 
 	graphemes := uniseg.NewGraphemes(original)
 
@@ -69,14 +66,9 @@ func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString
 			}
 		}
 
-		// TT. This is a hacky way to turn non-spacing marks into hexa string
-		// and pass the unit tests.
-		grapheme = spm.NormalizeMn(grapheme)
-		var charIdx int = 0
 		for _, r := range grapheme {
-			part := string(grapheme)[charIdx : charIdx+len(string(r))]
+			part := string(r)
 			norm := m.Transform(part)
-			norm = spm.NormalizeMn(norm)
 			if len(norm) > 0 {
 				modified = true
 				transformations = replace(transformations, part, norm)
@@ -87,7 +79,6 @@ func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString
 				}
 				transformations = append(transformations, t)
 			}
-			// charIdx += len(string(r))
 		}
 	}
 
-- 
2.43.0


From 60e12a6dc05bb8375663d5ff766e2939327df578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 061/101] fix: NormalizeString goes on after the first grapheme
 that is mapped

---
 spm/spm-precompiled.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spm/spm-precompiled.go b/spm/spm-precompiled.go
index 08050ef..7a6db31 100644
--- a/spm/spm-precompiled.go
+++ b/spm/spm-precompiled.go
@@ -207,7 +207,7 @@ func (m *Precompiled) NormalizeString(original string) string {
 				for _, c := range strings.Split(norm, "") {
 					chars = append(chars, c)
 				}
-				return strings.Join(chars, "")
+				continue
 			}
 		}
 
-- 
2.43.0


From 40018732e7c10d7fae75971a1a3ef6a3be6d708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 062/101] fix: Precompiled removes what its charsmap maps to
 nothing

---
 normalizer/precompiled.go | 25 +++++++++++++++----------
 spm/spm-precompiled.go    | 21 +++++++++++++++------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/normalizer/precompiled.go b/normalizer/precompiled.go
index 9515ef3..2f23e7d 100644
--- a/normalizer/precompiled.go
+++ b/normalizer/precompiled.go
@@ -2,6 +2,7 @@ package normalizer
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer/spm"
 
@@ -52,26 +53,30 @@ func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString
 	graphemes := uniseg.NewGraphemes(original)
 
 	var modified bool
+	initialOffset := 0 // number of chars removed at the beginning
+	replacePart := func(oldPart, newPart string) {
+		modified = true
+		if len(newPart) == 0 && len(transformations) == 0 {
+			initialOffset += utf8.RuneCountInString(oldPart)
+			return
+		}
+		transformations = replace(transformations, oldPart, newPart)
+	}
 
 	for graphemes.Next() {
 		grapheme := graphemes.Str()
 
 		if len(grapheme) < 6 {
-			norm := m.Transform(grapheme)
-			if len(norm) > 0 {
-				modified = true
-				transformations = replace(transformations, grapheme, norm)
-
+			if norm, ok := m.Lookup(grapheme); ok {
+				replacePart(grapheme, norm)
 				continue
 			}
 		}
 
 		for _, r := range grapheme {
 			part := string(r)
-			norm := m.Transform(part)
-			if len(norm) > 0 {
-				modified = true
-				transformations = replace(transformations, part, norm)
+			if norm, ok := m.Lookup(part); ok {
+				replacePart(part, norm)
 			} else {
 				t := ChangeMap{
 					RuneVal: string(r),
@@ -83,7 +88,7 @@ func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString
 	}
 
 	if modified {
-		normalized = normalized.Transform(transformations, 0)
+		normalized = normalized.Transform(transformations, initialOffset)
 	}
 
 	return normalized, nil
diff --git a/spm/spm-precompiled.go b/spm/spm-precompiled.go
index 7a6db31..c42c5a4 100644
--- a/spm/spm-precompiled.go
+++ b/spm/spm-precompiled.go
@@ -144,10 +144,19 @@ func NewPrecompiledFrom(data []byte) (*Precompiled, error) {
 	}, nil
 }
 
+// Transform returns the normalized form of chunk, an empty string if it has none.
 func (m *Precompiled) Transform(chunk string) string {
+	normalized, _ := m.Lookup(chunk)
+
+	return normalized
+}
+
+// Lookup returns the normalized form of chunk, which can be empty (chunk is removed),
+// and whether it has one.
+func (m *Precompiled) Lookup(chunk string) (string, bool) {
 	results := m.Trie.CommonPrefixSearch([]byte(chunk))
 	if len(results) == 0 {
-		return ""
+		return "", false
 	}
 
 	index := results[0]
@@ -161,7 +170,7 @@ func (m *Precompiled) Transform(chunk string) string {
 
 	normalized := m.Normalized[index:index2]
 
-	return string(normalized)
+	return string(normalized), true
 }
 
 func NormalizeMn(input string) string {
@@ -202,8 +211,8 @@ func (m *Precompiled) NormalizeString(original string) string {
 		// break a single test.
 		// You don't pass.
 		if len(grapheme) < 6 {
-			norm := m.Transform(grapheme)
-			if len(norm) > 0 {
+			norm, ok := m.Lookup(grapheme)
+			if ok {
 				for _, c := range strings.Split(norm, "") {
 					chars = append(chars, c)
 				}
@@ -217,9 +226,9 @@ func (m *Precompiled) NormalizeString(original string) string {
 		var charIdx int = 0
 		for _, r := range grapheme {
 			part := string(grapheme)[charIdx : charIdx+len(string(r))]
-			norm := m.Transform(part)
+			norm, ok := m.Lookup(part)
 			norm = normalizeMn(norm)
-			if len(norm) > 0 {
+			if ok {
 				for _, c := range strings.Split(norm, "") {
 					chars = append(chars, c)
 				}
-- 
2.43.0


From 395510b88f3141b39d424aa5eba3c7a516dd9810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 063/101] fix: invalid precompiled charsmaps do not panic

---
 spm/spm-precompiled.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/spm/spm-precompiled.go b/spm/spm-precompiled.go
index c42c5a4..7bf24be 100644
--- a/spm/spm-precompiled.go
+++ b/spm/spm-precompiled.go
@@ -89,6 +89,9 @@ func NewDoubleArrayFrom(array Array) *DoubleArray {
 func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 	nodePos := 0
 	var results []int
+	if len(da.Array) == 0 {
+		return results
+	}
 
 	unit := da.Array[nodePos]
 	nodePos ^= int(unit.Offset()) // bitwise XOR
@@ -98,6 +101,9 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 		}
 
 		nodePos ^= int(c)
+		if nodePos >= len(da.Array) {
+			return results
+		}
 		unit = da.Array[nodePos]
 
 		if unit.Label() != uint(c) {
@@ -105,7 +111,7 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 		}
 
 		nodePos ^= int(unit.Offset())
-		if unit.HasLeaf() {
+		if unit.HasLeaf() && nodePos < len(da.Array) {
 			results = append(results, int(da.Array[nodePos].Value()))
 		}
 	}
@@ -132,6 +138,10 @@ func Parse(precompiledCharsmap []byte) ([]byte, Array) {
 }
 
 func NewPrecompiledFrom(data []byte) (*Precompiled, error) {
+	if len(data) < 4 || uint64(binary.LittleEndian.Uint32(data[:4])) > uint64(len(data)-4) {
+		return nil, fmt.Errorf("invalid precompiled charsmap: %d bytes are less than its trie", len(data))
+	}
+
 	normalizedBlob, trieBlob := Parse(data)
 
 	normalized := string(normalizedBlob)
@@ -160,6 +170,9 @@ func (m *Precompiled) Lookup(chunk string) (string, bool) {
 	}
 
 	index := results[0]
+	if index > len(m.Normalized) {
+		return "", false
+	}
 	index2 := index
 	for index2 < len(m.Normalized) {
 		if []byte(m.Normalized)[index2] == byte(0) {
-- 
2.43.0


From ab2e7cdbdfbfe1dc4769adf9c5d211f7525dc54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 064/101] fix: BpeTrainer adds the special tokens to the
 vocabulary

---
 model/bpe/trainer.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index dc93a00..1e6b402 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -187,23 +187,22 @@ func (bt *BpeTrainer) updateProgress(p interface{}, len int, msg string) {
 }
 
 // addSpecialTokens adds the provided special tokens to the initial vocabulary
-func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) {
+func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) []string {
 	for _, tok := range bt.SpecialTokens {
 		if _, ok := w2id[tok.Content]; !ok {
 			id2w = append(id2w, tok.Content)
 			w2id[tok.Content] = len(id2w) - 1
 		}
 	}
+
+	return id2w
 }
 
 // computeAlphabet generate maps of `chars` from input words and limit it if relevant
-func (bt *BpeTrainer) computeAlphabet(wc map[string]int) (wordToId map[string]int, IdToWord []string) {
+// and adds them to the vocabulary
+func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id2w []string) (wordToId map[string]int, IdToWord []string) {
 	// compute the alphabet from seen words
-	var (
-		alphabet map[string]int = make(map[string]int)
-		w2id     map[string]int = make(map[string]int)
-		id2w     []string
-	)
+	var alphabet map[string]int = make(map[string]int)
 
 	for word, count := range wc {
 		chars := strings.Split(word, "")
@@ -612,13 +611,13 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 
 	// 1. Add all special tokens to the vocabular
 	fmt.Printf("1. Adding special tokens...\n")
-	bt.addSpecialTokens(wordToId, idToWord)
+	idToWord = bt.addSpecialTokens(wordToId, idToWord)
 
 	// 2. Compute the initial alphabet (create maps of `chars`)
 	// These maps will be updated if `prefix`, `suffix` are added
 	// in the following steps
 	fmt.Printf("2. Creating maps of 'chars'...\n")
-	wordToId, idToWord = bt.computeAlphabet(wordCounts)
+	wordToId, idToWord = bt.computeAlphabet(wordCounts, wordToId, idToWord)
 	// fmt.Printf("Before id2Word: length %v - values:  %v\n", len(idToWord), idToWord)
 	// fmt.Printf("Before word2Id: length %v - %v\n", len(wordToId), wordToId)
 
-- 
2.43.0


From ce938214d7490cf0c4a3f010910be6edfa1aa219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 065/101] fix: BpeTrainer limits the alphabet to the most
 frequent characters

---
 model/bpe/trainer.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 1e6b402..c5e9520 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -207,13 +207,7 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	for word, count := range wc {
 		chars := strings.Split(word, "")
 		for _, char := range chars {
-			// if char not existing, newCount will be zero
-			if newCount, ok := alphabet[char]; ok {
-				newCount += count
-				alphabet[char] = newCount
-			} else {
-				alphabet[char] = newCount
-			}
+			alphabet[char] += count
 		}
 	}
 
@@ -243,7 +237,7 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	// compute the number of chars to remove from the alphabet
 	// if `limitAlphabet` < `len(initialAlphabet)` some of these
 	// initial characters will be removed.
-	// TODO: how we sort these characters before cutting off?
+	// The most frequent ones are kept.
 	var toRemove int = 0
 	var limit int
 	if bt.LimitAlphabet != nil {
@@ -256,13 +250,12 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	// remove the unwanted `chars`
 	if toRemove > 0 {
 		fmt.Println("We are going to remove some chars...")
-		// 1. Sort `kept` by char alphabetically?
-		// TODO: double-check this (sort by char or freq? asc or desc)
-		sort.Slice(kept, func(i, j int) bool {
-			return kept[i].Char < kept[j].Char
+		// 1. Sort `kept` by frequency, chars of the same frequency alphabetically
+		sort.SliceStable(kept, func(i, j int) bool {
+			return kept[i].Freq > kept[j].Freq
 		})
 		// 2. Remove the unwanted chars
-		kept = kept[:toRemove]
+		kept = kept[:len(kept)-toRemove]
 	}
 
 	// // Keep the initial alphabet (sorted by determinism)
-- 
2.43.0


From b52bd3af0df9c32c1d7e00daa2a904358e93a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 066/101] fix: BpeTrainer adds the subword prefix and the end
 of word suffix

---
 model/bpe/trainer.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index c5e9520..72f8b67 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -312,24 +312,14 @@ func (bt *BpeTrainer) tokenizeWords(wc map[string]int, w2id map[string]int, id2w
 		for i, c := range chars {
 			var s string
 			if _, ok := w2id[c]; ok {
+				s = c
 				// Add the `continuingSubwordPrefix` if relevant
-				if i == 0 { // first `char`
-					if prefix := bt.ContinuingSubwordPrefix; prefix != nil {
-						s = fmt.Sprintf("%v%v", &prefix, c)
-					} else {
-						s = c
-					}
-				}
-				if i > 0 && i < len(chars)-1 {
-					s = c
+				if prefix := bt.ContinuingSubwordPrefix; prefix != nil && i > 0 {
+					s = *prefix + s
 				}
 				// Add the `endOfWordSuffix` if relevant
-				if i == len(chars)-1 { // last `char`
-					if suffix := bt.EndOfWordSuffix; suffix != nil {
-						s = fmt.Sprintf("%v%v", &suffix, c)
-					} else {
-						s = c
-					}
+				if suffix := bt.EndOfWordSuffix; suffix != nil && i == len(chars)-1 { // last `char`
+					s = s + *suffix
 				}
 
 				// Insert the new formed string if neccessary
-- 
2.43.0


From bb15e867dee7d56ed8ddc86a2e31271c078344e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 067/101] fix: BpeTrainer counts the pairs of all words

---
 model/bpe/trainer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 72f8b67..3daeb97 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -409,7 +409,7 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 
 				// fmt.Printf("Word: %v\n", word)
 				var window = 2
-				for x := 0; i < len(word.Symbols)-1; x += window - 1 {
+				for x := 0; x < len(word.Symbols)-1; x += window - 1 {
 					y := x + window
 					if y > len(word.Symbols) {
 						// TODO: should we stop when last chunk < chunk size or we just return it
@@ -471,7 +471,13 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 			}
 
 			for pair, hashSet := range res.WT {
-				whereToUpdate[pair] = hashSet
+				if _, ok := whereToUpdate[pair]; !ok {
+					whereToUpdate[pair] = hashSet
+					continue
+				}
+				for k := range hashSet {
+					whereToUpdate[pair][k] = struct{}{}
+				}
 			}
 		}
 
-- 
2.43.0


From 9218298a460d3653cf735e8425b2cee8703e4710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 068/101] fix: BpeTrainer merges the pair with the highest
 current count

---
 model/bpe/trainer.go | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 3daeb97..c0ab528 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -716,9 +716,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		// fmt.Printf("Top: count = %v | pair: %v\n", top.Count, top.Pair)
 
 		if top.Count != pairCounts[top.Pair] {
-			pairCounts[top.Pair] = top.Count
+			top.Count = pairCounts[top.Pair]
 			queue.Push(top)
-			// fmt.Println("Not found. Push new one...")
+			// fmt.Println("Count has changed. Push it again...")
 
 			continue
 		}
@@ -793,21 +793,11 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		// NOTE: reset `whereToUpdate` first
 		whereToUpdate = make(map[Pair]UintSet)
 		for _, tc := range changes {
-			if tc.WChange.Change > 0 {
-				count := tc.WChange.Change * counts[tc.WIndex]
-
-				pair := Pair{tc.WChange.C1, tc.WChange.C2}
-
-				if _, ok := pairCounts[pair]; !ok {
-					pairCounts[pair] = count
-					// fmt.Printf("pair: %v - count: %v\n", pair, count)
-				} else {
-					c, _ := pairCounts[pair]
-					c += count
-					pairCounts[pair] = c
-					// fmt.Printf("pair: %v - count: %v\n", pair, c)
-				}
+			count := tc.WChange.Change * counts[tc.WIndex]
+			pair := Pair{tc.WChange.C1, tc.WChange.C2}
+			pairCounts[pair] += count
 
+			if tc.WChange.Change > 0 {
 				var hs UintSet = make(map[int]struct{})
 				if h, ok := whereToUpdate[pair]; !ok {
 					// if not existing, we create new one anyway
-- 
2.43.0


From 00f7c15f0f6893f73a7debcf909420ed644fcaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 069/101] fix: BpeTrainer is deterministic

---
 model/bpe/trainer.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index c0ab528..80bbaf9 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -6,7 +6,6 @@ import (
 	"sort"
 	"strings"
 	"sync"
-	"time"
 
 	"github.com/emirpasic/gods/trees/binaryheap"
 	"github.com/emirpasic/gods/utils"
@@ -28,7 +27,6 @@ type TMerge struct {
 	Pair  Pair
 	Count int
 	Pos   UintSet
-	Time  time.Time
 }
 
 // NOTE: there exists `Config`
@@ -640,16 +638,20 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 	// 5. Do merges
 	fmt.Printf("5. Merging pairs from top count down...\n")
 
-	// countComparator sort heap descendingly by `Count` field of TMerge struct
+	// countComparator sort heap descendingly by `Count` field of TMerge struct,
+	// then ascendingly by `Pair` so that training is deterministic.
 	countComparator := func(a, b interface{}) int {
 		c1 := a.(TMerge).Count
 		c2 := b.(TMerge).Count
 
 		if c1 == c2 {
-			aTime := a.(TMerge).Time
-			bTime := b.(TMerge).Time
+			aPair := a.(TMerge).Pair
+			bPair := b.(TMerge).Pair
 
-			return utils.TimeComparator(bTime, aTime)
+			if aPair.C1 == bPair.C1 {
+				return utils.IntComparator(aPair.C2, bPair.C2)
+			}
+			return utils.IntComparator(aPair.C1, bPair.C1)
 		}
 
 		return utils.IntComparator(c2, c1)
@@ -821,7 +823,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 			// fmt.Printf("pair chars: '%v%v' - pair: %v - count: %v - pos: %v\n", char1, char2, pair, count, pos)
 			if count > 0 {
 				queue.Push(TMerge{
-					pair, count, pos, time.Now(),
+					Pair:  pair,
+					Count: count,
+					Pos:   pos,
 				})
 			}
 		}
-- 
2.43.0


From 06dab311aa4f39b7021a4b2ae1a6e52c5039a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 070/101] fix: BpeTrainer keeps the id of a token that is made
 from several pairs

---
 model/bpe/trainer.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 80bbaf9..01f6875 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -684,6 +684,7 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 	}
 
 	var merges []TMerges
+	merged := make(map[Pair]bool)
 
 	// fmt.Printf("Word2ID before merge loop: %v\n", wordToId)
 
@@ -764,11 +765,17 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		newToken := fmt.Sprintf("%v%v", partA, partB)
 		// fmt.Printf("new token: %v\n", newToken)
 
-		// Insert new token
-		newTokenId := len(idToWord)
-		idToWord = append(idToWord, newToken)
-		wordToId[newToken] = newTokenId
-		merges = append(merges, TMerges{top.Pair, newTokenId})
+		// Insert new token, unless it was made from another pair before
+		newTokenId, exists := wordToId[newToken]
+		if !exists {
+			newTokenId = len(idToWord)
+			idToWord = append(idToWord, newToken)
+			wordToId[newToken] = newTokenId
+		}
+		if !merged[top.Pair] {
+			merged[top.Pair] = true
+			merges = append(merges, TMerges{top.Pair, newTokenId})
+		}
 
 		type TChange struct {
 			WChange WChange
@@ -791,6 +798,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 			}
 		}
 
+		// No such pair is left
+		pairCounts[top.Pair] = 0
+
 		// Introduce new formed pairs
 		// NOTE: reset `whereToUpdate` first
 		whereToUpdate = make(map[Pair]UintSet)
-- 
2.43.0


From 80a6b69b70f8f2b6f04a8289ae968cc422141273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 071/101] fix: Replace can be created with a regular expression

---
 pretrained/decoder.go    | 11 +++++++++--
 pretrained/normalizer.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index afff515..58a5c4e 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -14,6 +14,7 @@ package pretrained
 
 import (
 	"fmt"
+	"regexp"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/decoder"
@@ -167,9 +168,15 @@ func createReplaceDecoder(params *util.Params) (*normalizer.Replace, error) {
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
+		if _, err := regexp.Compile(pattern); err != nil {
+			return nil, err
+		}
+
+	default:
+		return nil, fmt.Errorf("Unsupported pattern: %#v", patternParams)
 	}
 
 	content := params.Get("content").(string)
diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index fa6bee3..41d007e 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -17,6 +17,7 @@ package pretrained
 
 import (
 	"fmt"
+	"regexp"
 
 	"github.com/sugarme/tokenizer/normalizer"
 	"github.com/sugarme/tokenizer/spm"
@@ -110,9 +111,15 @@ func createReplaceNormalizer(params *util.Params) (normalizer.Normalizer, error)
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
+		if _, err := regexp.Compile(pattern); err != nil {
+			return nil, err
+		}
+
+	default:
+		return nil, fmt.Errorf("Unsupported pattern: %#v", patternParams)
 	}
 
 	content := params.Get("content").(string)
-- 
2.43.0


From 7eeec4606a0152eab661fa7a2c86136d3178cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 072/101] fix: BertNormalizer created from data strips accents
 by default when it lowercases

---
 pretrained/normalizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index 41d007e..942309d 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -91,8 +91,9 @@ func createBertNormalizer(params *util.Params) (normalizer.Normalizer, error) {
 
 	cleanText := params.Get("clean_text", false).(bool)
 	handleChineseChars := params.Get("handle_chinese_chars", false).(bool)
-	stripAccents := params.Get("strip_accents", false).(bool)
 	lowercase := params.Get("lowercase", false).(bool)
+	// accents are stripped along with lowercasing unless specified otherwise
+	stripAccents := params.Get("strip_accents", lowercase).(bool)
 
 	return normalizer.NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents), nil
 }
-- 
2.43.0


From 05a453afdb79bc4080e30a7e3b38d8e3da7326d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 073/101] fix: creating a Nmt normalizer gives an error

---
 pretrained/normalizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index 942309d..16b2cc7 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -181,7 +181,7 @@ func createPrecompiledNormalizer(params *util.Params) (normalizer.Normalizer, er
 
 func createNmtNormalizer(params *util.Params) (normalizer.Normalizer, error) {
 	// TODO
-	panic("NotImplementedError")
+	return nil, fmt.Errorf("Nmt normalizer is not implemented")
 }
 
 func createSequenceNormalizer(params *util.Params) (normalizer.Normalizer, error) {
-- 
2.43.0


From 5ffd081a3c095ab60218c948ad5b66f4ab3a75cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 074/101] fix: WordPiece is created with its continuing subword
 prefix

---
 pretrained/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/model.go b/pretrained/model.go
index 507790d..3a01e3c 100644
--- a/pretrained/model.go
+++ b/pretrained/model.go
@@ -128,7 +128,7 @@ func createWordPiece(params *util.Params) (tokenizer.Model, error) {
 	}
 	if params.Has("continuing_subword_prefix") {
 		v := params.Get("continuing_subword_prefix").(string)
-		opts.Get("continuing_subword_prefix", v)
+		opts.Set("continuing_subword_prefix", v)
 	}
 
 	if params.Has("max_input_chars_per_word") {
-- 
2.43.0


From 906af8fc790391566e142ed079380d1be2859921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 075/101] fix: BPEDecoder and CTC can be created from their
 data

---
 pretrained/decoder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index 58a5c4e..1047ad8 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -32,7 +32,7 @@ func CreateDecoder(config map[string]interface{}) (tokenizer.Decoder, error) {
 	typ := params.Get("type").(string)
 
 	switch typ {
-	case "BPE":
+	case "BPE", "BPEDecoder":
 		return createBPEDecoder(params)
 	case "ByteLevel":
 		return createByteLevelDecoder(params)
@@ -95,7 +95,12 @@ func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
 	}
 
 	padToken := params.Get("pad_token").(string)
-	wordDelimiter := params.Get("word_delimiter").(string)
+	var wordDelimiter string
+	if params.Has("word_delimiter_token") {
+		wordDelimiter = params.Get("word_delimiter_token").(string)
+	} else {
+		wordDelimiter = params.Get("word_delimiter").(string)
+	}
 	cleanup := params.Get("cleanup").(bool)
 
 	return decoder.NewCTC(padToken, wordDelimiter, cleanup), nil
-- 
2.43.0


From c70d11bef0cb7772d51774727b7d92c4809c9404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 076/101] fix: Metaspace decoder is created with its prepend
 scheme

---
 pretrained/decoder.go      | 5 +----
 pretrained/pretokenizer.go | 4 ++++
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index 1047ad8..ca59435 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -83,10 +83,7 @@ func createMetaspaceDecoder(params *util.Params) (*pretokenizer.Metaspace, error
 		return nil, nil
 	}
 
-	replacement := params.Get("replacement", "").(string)
-	addPrefixSpace := params.Get("add_prefix_space", false).(bool)
-
-	return pretokenizer.NewMetaspace(replacement, addPrefixSpace), nil
+	return createMetaspace(params)
 }
 
 func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index 87eb7fb..5131f77 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -86,6 +86,10 @@ func createMetaspacePreTokenizer(params *util.Params) (tokenizer.PreTokenizer, e
 		return nil, nil
 	}
 
+	return createMetaspace(params)
+}
+
+func createMetaspace(params *util.Params) (*pretokenizer.Metaspace, error) {
 	replacement := params.Get("replacement", "").(string)
 
 	// Check for prepend_scheme parameter
-- 
2.43.0


From 055978bbf3577ff95b416d1f880fa8dce0d99e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 077/101] fix: CharDelimiterSplit can be created from its data

---
 pretrained/pretokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index 5131f77..96d9db8 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -36,7 +36,7 @@ func CreatePreTokenizer(config map[string]interface{}) (tokenizer.PreTokenizer,
 		return pretokenizer.NewBertPreTokenizer(), nil
 	case "ByteLevel":
 		return createByteLevelPreTokenizer(params)
-	case "Delimiter":
+	case "Delimiter", "CharDelimiterSplit":
 		return createDelimiterPreTokenizer(params)
 	case "Metaspace":
 		return createMetaspacePreTokenizer(params)
-- 
2.43.0


From fc58625b1dcbaee97c2710b694fbcf4177d9d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 078/101] fix: Split takes string patterns literally, invalid
 patterns give an error

---
 pretrained/pretokenizer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index 96d9db8..f6ffca1 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -15,6 +15,7 @@ package pretrained
 
 import (
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/sugarme/tokenizer"
@@ -190,9 +191,12 @@ func createSplitPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error
 
 	var pattern normalizer.Pattern
 	if v, ok := patternMap["Regex"]; ok {
+		if _, err := regexp.Compile(v.(string)); err != nil {
+			return nil, err
+		}
 		pattern = normalizer.NewRegexpPattern(v.(string))
 	} else if v, ok := patternMap["String"]; ok {
-		pattern = normalizer.NewRegexpPattern(v.(string))
+		pattern = normalizer.NewStringPattern(v.(string))
 	} else {
 		err := fmt.Errorf("Unsupported pattern: %#v\n", patternMap)
 		return nil, err
-- 
2.43.0


From 88f51b2faebb8b40808162fa34355e126818430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 079/101] fix: Punctuation isolates by default

---
 pretrained/pretokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index f6ffca1..bada7ff 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -131,7 +131,7 @@ func createWhitespaceSplitPreTokenizer(params *util.Params) (tokenizer.PreTokeni
 	     },
 */
 func createPunctuationPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error) {
-	behaviorVal := params.Get("behavior").(string)
+	behaviorVal := params.Get("behavior", "Isolated").(string)
 
 	var b normalizer.SplitDelimiterBehavior
 	switch behaviorVal {
-- 
2.43.0


From 50dff19b8cea62e84ef13db47fbf2269c771220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 080/101] fix: FromReader adds the added tokens in the given
 order

---
 pretrained/tokenizer.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pretrained/tokenizer.go b/pretrained/tokenizer.go
index e5769eb..a668a20 100644
--- a/pretrained/tokenizer.go
+++ b/pretrained/tokenizer.go
@@ -72,12 +72,18 @@ func FromReader(r io.Reader) (*tokenizer.Tokenizer, error) {
 	tk.WithDecoder(decoder)
 
 	// 6. AddedVocabulary
-	specialAddedTokens, addedTokens := CreateAddedTokens(config.AddedTokens)
-	if len(specialAddedTokens) > 0 {
-		tk.AddSpecialTokens(specialAddedTokens)
-	}
-	if len(addedTokens) > 0 {
-		tk.AddTokens(addedTokens)
+	// in the given order, as they are given ids in the order they are added
+	for i, j := 0, 1; i < len(config.AddedTokens); i, j = j, j+1 {
+		for j < len(config.AddedTokens) && config.AddedTokens[j].Special == config.AddedTokens[i].Special {
+			j++
+		}
+		specialAddedTokens, addedTokens := CreateAddedTokens(config.AddedTokens[i:j])
+		if len(specialAddedTokens) > 0 {
+			tk.AddSpecialTokens(specialAddedTokens)
+		}
+		if len(addedTokens) > 0 {
+			tk.AddTokens(addedTokens)
+		}
 	}
 
 	// 7. TruncationParams
-- 
2.43.0


From 43d09b358da86de0697d0537ced597b120ed04fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 081/101] fix: missing data of a tokenizer or of special tokens
 does not panic

---
 pretrained/processor.go | 2 +-
 pretrained/tokenizer.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pretrained/processor.go b/pretrained/processor.go
index 06feeac..a794280 100644
--- a/pretrained/processor.go
+++ b/pretrained/processor.go
@@ -139,7 +139,7 @@ func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
 	var (
 		single        processor.Template
 		pair          processor.Template
-		specialTokens *processor.Tokens
+		specialTokens *processor.Tokens = processor.DefaultTokens()
 	)
 
 	// Single
diff --git a/pretrained/tokenizer.go b/pretrained/tokenizer.go
index a668a20..81ce73b 100644
--- a/pretrained/tokenizer.go
+++ b/pretrained/tokenizer.go
@@ -30,6 +30,9 @@ func FromReader(r io.Reader) (*tokenizer.Tokenizer, error) {
 	if err := json.NewDecoder(r).Decode(&config); err != nil {
 		return nil, err
 	}
+	if config == nil {
+		return nil, fmt.Errorf("no data to create a tokenizer from")
+	}
 
 	model, err := CreateModel(config)
 	if err != nil {
-- 
2.43.0


From 6fa26ad339deac19ab8a1e983ae81287f90c570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 082/101] fix: merging no encodings gives an empty encoding

---
 tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index afc5268..317a4ad 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -133,7 +133,7 @@ func MergeEncodings(encodings []Encoding, growingOffsets bool) *Encoding {
 	var out *Encoding
 	switch len(encodings) {
 	case 0:
-		return nil
+		return DefaultEncoding()
 	case 1:
 		out = &encodings[0]
 	case 2:
-- 
2.43.0


From 760859c53c40087bd39abd5f04679c8e3aa606b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 083/101] fix: a pair that is encoded without post-processor
 knows its sequences

---
 tokenizer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 317a4ad..1da1848 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -79,11 +79,15 @@ func DefaultProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) *En
 		return encoding
 	}
 
-	if pairEncoding != nil {
-		return encoding.MergeWith(pairEncoding, false)
+	// NOTE. the merged encoding knows which tokens belong to which sequence
+	for i, e := range []*Encoding{encoding, pairEncoding} {
+		e.SetSequenceIds(i)
+		for j := range e.Overflowing {
+			e.Overflowing[j].SetSequenceIds(i)
+		}
 	}
 
-	return encoding
+	return encoding.MergeWith(pairEncoding, false)
 }
 
 // PrepareEncodings prepares encoding and pairEncoding if any before `ProcessEncodings` call.
-- 
2.43.0


From c9a13d0be59907911108f53f213e3ca07e51571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 084/101] fix: sequence ids of a pair whose first sequence is
 empty

---
 encoding.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding.go b/encoding.go
index 798ff9b..a778eb2 100644
--- a/encoding.go
+++ b/encoding.go
@@ -190,9 +190,10 @@ func (e *Encoding) SetSequenceIds(sequenceId int) {
 
 func (e *Encoding) GetSequenceIds() []int {
 	sequences := make([]int, e.Len())
-	for seqId := 0; seqId < e.NSequences(); seqId++ {
+	// NOTE. a sequence without tokens has no range
+	for seqId, r := range e.SequenceRanges {
 		// replace items in Range r with seqId
-		for _, i := range e.SequenceRanges[seqId] {
+		for _, i := range r {
 			if i < len(sequences) {
 				sequences[i] = seqId
 			}
@@ -644,7 +645,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 
 // Token2Sequence returns the index of the sequence containing the given token.
 func (e *Encoding) Token2Sequence(token int) (int, bool) {
-	if token >= e.Len() {
+	if token < 0 || token >= e.Len() {
 		return -1, false
 	} else if len(e.SequenceRanges) == 0 {
 		return 0, true
-- 
2.43.0


From 266c482b11f6c05a4fc0efce913afa4725729ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 085/101] fix: padding on the left keeps the sequences of
 tokens

---
 encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding.go b/encoding.go
index a778eb2..3af49d0 100644
--- a/encoding.go
+++ b/encoding.go
@@ -628,6 +628,14 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		newWords = append(newWords, e.Words...)
 		e.Words = newWords
 
+		newRanges := make(map[int]Range)
+		for seqId, r := range e.SequenceRanges {
+			for _, token := range r {
+				newRanges[seqId] = append(newRanges[seqId], token+padLength)
+			}
+		}
+		e.SequenceRanges = newRanges
+
 	case Right:
 		for i := 0; i < padLength; i++ {
 			e.Ids = append(e.Ids, padId)
-- 
2.43.0


From b247cfceb53444e84e7afef6752f049a20fac45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 086/101] fix: the tokens of a word all belong to one sequence

---
 encoding.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 3af49d0..7c63da8 100644
--- a/encoding.go
+++ b/encoding.go
@@ -260,8 +260,9 @@ func (e *Encoding) Word2Tokens(word int) (startTok, endTok int, ok bool) {
 	var start, end int = -1, -1
 
 	// NOTE. `e.Words` is not sorted: special and padding tokens are -1, and indices start again in a second sequence.
+	// A word does not go on in the next sequence.
 	for i, w := range e.Words {
-		if w == word {
+		if w == word && (start < 0 || e.sameSequence(start, i)) {
 			if start < 0 {
 				start = i
 			}
@@ -278,6 +279,13 @@ func (e *Encoding) Word2Tokens(word int) (startTok, endTok int, ok bool) {
 	}
 }
 
+// sameSequence returns whether two tokens belong to the same sequence
+func (e *Encoding) sameSequence(token1, token2 int) bool {
+	seq1, _ := e.Token2Sequence(token1)
+	seq2, _ := e.Token2Sequence(token2)
+	return seq1 == seq2
+}
+
 // Word2Chars get the offsets of the word at a given index in
 // the input sequence
 func (e *Encoding) Word2Chars(word int) (retVal []int, ok bool) {
-- 
2.43.0


From e6bb021ffc4ca5241575a17290ebb4e1cb65662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 087/101] fix: BertProcessing and RobertaProcessing set the
 sequences of tokens

---
 processor/bert.go    | 14 ++++++++++++--
 processor/roberta.go |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/processor/bert.go b/processor/bert.go
index 2055035..c96c8d3 100644
--- a/processor/bert.go
+++ b/processor/bert.go
@@ -112,7 +112,17 @@ func (bp *BertProcessing) addSpecialToken(encoding *tokenizer.Encoding) *tokeniz
 	}
 
 	wordsOpt := tokenizer.WithWordsEncodingOpt(words)
-	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt)
+	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt, sequenceRangeOpt(0, 1, encoding.Len()))
+}
+
+// sequenceRangeOpt sets the range of the `length` tokens from `start` on as those of the given sequence.
+func sequenceRangeOpt(sequenceId, start, length int) tokenizer.EncodingOpt {
+	ranges := make(map[int]tokenizer.Range)
+	if length > 0 {
+		ranges[sequenceId] = tokenizer.NewRange(start, start+length)
+	}
+
+	return tokenizer.WithSequenceRangeEncodingOpt(ranges)
 }
 
 // pairAddSpecialToken adds special token "[SEP]" to input encoding. It ignores
@@ -152,5 +162,5 @@ func (bp *BertProcessing) pairAddSpecialToken(pairEncoding *tokenizer.Encoding)
 
 	pairWordsOpt := tokenizer.WithWordsEncodingOpt(pairWords)
 
-	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt)
+	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt, sequenceRangeOpt(1, 0, pairEncoding.Len()))
 }
diff --git a/processor/roberta.go b/processor/roberta.go
index b0dbb44..653d94c 100644
--- a/processor/roberta.go
+++ b/processor/roberta.go
@@ -170,7 +170,7 @@ func (rp *RobertaProcessing) addSpecialToken(encoding *tokenizer.Encoding) *toke
 	attentionMask = append(attentionMask, 1)
 
 	wordsOpt := tokenizer.WithWordsEncodingOpt(words)
-	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt)
+	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt, sequenceRangeOpt(0, 1, encoding.Len()))
 }
 
 // addSpecialToken adds special tokens to input pair encoding. It ignores the `Overflowing` field
@@ -218,7 +218,7 @@ func (rp *RobertaProcessing) pairAddSpecialToken(pair *tokenizer.Encoding) *toke
 	pairAttentionMask = append(pairAttentionMask, 1)
 
 	pairWordsOpt := tokenizer.WithWordsEncodingOpt(pairWords)
-	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt)
+	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt, sequenceRangeOpt(1, 1, pair.Len()))
 }
 
 // TODO: implement Serialize interface for RobertaProcessing
-- 
2.43.0


From 630d228b8d11d1783e3a6d236cd9f4877bddfdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 088/101] fix: a sequence of processors merges a pair once

---
 encoding.go               |  7 ++-----
 pretokenizer/bytelevel.go |  4 ----
 processor/sequence.go     | 17 ++++++++++++-----
 tokenizer.go              |  8 +++++++-
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/encoding.go b/encoding.go
index 7c63da8..216c4c2 100644
--- a/encoding.go
+++ b/encoding.go
@@ -180,11 +180,8 @@ func (e *Encoding) SetWord(index int, val int) {
 // SetSequenceIds set the given sequence id for the whole range of tokens contained in this Encoding
 func (e *Encoding) SetSequenceIds(sequenceId int) {
 	if e.Len() > 0 {
-		if e.SequenceRanges == nil {
-			e.SequenceRanges = make(map[int]Range)
-		}
-
-		e.SequenceRanges[sequenceId] = NewRange(0, e.Len())
+		// NOTE. no token belongs to another sequence any more
+		e.SequenceRanges = map[int]Range{sequenceId: NewRange(0, e.Len())}
 	}
 }
 
diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index d0970ee..8246962 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -280,10 +280,6 @@ func (bl *ByteLevel) Process(encoding, pairEncoding *tokenizer.Encoding, addSpec
 		newEncodings = encodings
 	}
 
-	for i, enc := range newEncodings {
-		enc.SetSequenceIds(i)
-	}
-
 	if pairEncoding != nil {
 		return tokenizer.MergeEncodings(newEncodings, false)
 	} else {
diff --git a/processor/sequence.go b/processor/sequence.go
index cad57cc..5895ac0 100644
--- a/processor/sequence.go
+++ b/processor/sequence.go
@@ -24,11 +24,18 @@ func (seq *Sequence) AddedTokens(isPair bool) (retVal int) {
 }
 
 func (seq *Sequence) Process(encoding, pairEncoding *tokenizer.Encoding, addSpecialTokens bool) (retVal *tokenizer.Encoding) {
-	// return blp.pretok.Process(encoding, pairEncoding, addSpecialTokens)
-	var encodings *tokenizer.Encoding = encoding
-	for _, p := range seq.processors {
-		encodings = p.Process(encodings, pairEncoding, addSpecialTokens)
+	// NOTE. processing a pair merges it into one encoding, so that only one processor is given the pair: the first
+	// that adds tokens (if any) or the last. Those before process both encodings by their own, those after the merged one.
+	for i, p := range seq.processors {
+		if pairEncoding != nil && p.AddedTokens(true) == 0 && i < len(seq.processors)-1 {
+			encoding = p.Process(encoding, nil, addSpecialTokens)
+			pairEncoding = p.Process(pairEncoding, nil, addSpecialTokens)
+			continue
+		}
+
+		encoding = p.Process(encoding, pairEncoding, addSpecialTokens)
+		pairEncoding = nil
 	}
 
-	return encodings
+	return encoding
 }
diff --git a/tokenizer.go b/tokenizer.go
index 1da1848..2b67fba 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -97,6 +97,12 @@ func PrepareEncodings(encoding, pairEncoding *Encoding) (out []Encoding) {
 		encodings = append(encodings, *pairEncoding)
 	}
 	for i, encoding := range encodings {
+		// NOTE. an encoding that was merged from a pair before knows its sequences and type ids
+		if pairEncoding == nil && len(encoding.SequenceRanges) > 0 {
+			out = append(out, encoding)
+			continue
+		}
+
 		encoding.SetSequenceIds(i)
 		var overflowing []Encoding
 		for _, e := range encoding.GetOverflowing() {
@@ -106,7 +112,7 @@ func PrepareEncodings(encoding, pairEncoding *Encoding) (out []Encoding) {
 
 		encoding.Overflowing = overflowing
 
-		if encoding.Len() > 0 {
+		if pairEncoding != nil && encoding.Len() > 0 {
 			typeIds := make([]int, encoding.Len())
 			for n := 0; n < encoding.Len(); n++ {
 				typeIds[n] = i
-- 
2.43.0


From 9fa7da85bce5ca2a6ef402292293ffe117076d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 089/101] fix: the table of Chinese characters is sorted, as
 searching it requires

U+3400..U+4DBF was never found.
---
 normalizer/bert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index d27ddc7..7a1dc4f 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -72,8 +72,8 @@ func isPunctuation(c rune) bool {
 var cjk = &unicode.RangeTable{
 
 	R16: []unicode.Range16{
-		{0x4e00, 0x9fff, 1},
 		{0x3400, 0x4dbf, 1},
+		{0x4e00, 0x9fff, 1},
 		{0xf900, 0xfaff, 1},
 	},
 	R32: []unicode.Range32{
-- 
2.43.0


From 99f180d0463181d83e5e15689e661760374b24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 090/101] fix: texts that are not valid UTF-8 could not be
 encoded

---
 normalizer/normalized.go | 29 +++++++++++++++--------------
 pretokenizer.go          | 16 +++++++---------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 6e16146..a9339c7 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -162,34 +162,35 @@ func NewNormalizedFrom(s string) (retVal *NormalizedString) {
 	 *   alignmentsOriginal := make([][]int, len(alignments))
 	 *   copy(alignmentsOriginal, alignments)
 	 *  */
+	// bytes that are not valid UTF-8 are normalized to replacement characters
+	normalized := string([]rune(s))
+
 	return &NormalizedString{
 		original:           s,
-		normalized:         s,
-		alignments:         createAligns(s),
-		alignmentsOriginal: createAligns(s),
+		normalized:         normalized,
+		alignments:         createAligns(s, normalized),
+		alignmentsOriginal: createAligns(normalized, s),
 		originalShift:      0,
 	}
 }
 
-// createALigns creates alignments from input string.
+// createAligns creates alignments with `target` for every byte of `s`, which has
+// the same characters (apart from bytes that are not valid UTF-8 in one of them).
 // NOTE:It is used in `NewNormalizedFrom` to create 2 slices
 // (alignments and alignmentsOriginal) without sharing data
 // (data elements are in different memory locations).
-func createAligns(s string) [][]int {
+func createAligns(target, s string) [][]int {
 	var alignments [][]int
 	currIdx := 0
-	for i, r := range []rune(s) {
-		charLen := len([]byte(string(r)))
-		var align []int
-		if i == 0 {
-			align = []int{0, charLen}
-		} else {
-			align = []int{currIdx, currIdx + charLen}
-		}
+	for len(s) > 0 {
+		_, charLen := utf8.DecodeRuneInString(s)
+		_, targetLen := utf8.DecodeRuneInString(target[currIdx:])
+		align := []int{currIdx, currIdx + targetLen}
 		for byteIdx := 0; byteIdx < charLen; byteIdx++ {
 			alignments = append(alignments, align)
 		}
-		currIdx += charLen
+		s = s[charLen:]
+		currIdx += targetLen
 	}
 
 	return alignments
diff --git a/pretokenizer.go b/pretokenizer.go
index 58ca057..b2cf00c 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -5,6 +5,7 @@ package tokenizer
 import (
 	"fmt"
 	"log"
+	"unicode/utf8"
 	// "reflect"
 
 	"github.com/sugarme/tokenizer/normalizer"
@@ -161,11 +162,10 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 	switch {
 	case offsetType == Char:
 		currRuneIdx := 0
-		for byteIdx, r := range pt.original {
-			n := 0
-			for i := 0; i < len([]byte(string(r))); i++ {
-				charMap[byteIdx+n] = currRuneIdx
-				n += 1
+		for byteIdx := range pt.original {
+			_, size := utf8.DecodeRuneInString(pt.original[byteIdx:])
+			for i := 0; i < size; i++ {
+				charMap[byteIdx+i] = currRuneIdx
 			}
 			currRuneIdx += 1
 		}
@@ -319,12 +319,10 @@ type BytesToCharOffsetConverter struct {
 }
 
 func NewBytesToCharOffsetConverter(sequence string) *BytesToCharOffsetConverter {
-	chars := []rune(sequence) // utf-8
-
 	b2c := make(map[int]int)
 	n := 0
-	for charIdx, char := range chars {
-		nbytes := len([]byte(string(char)))
+	for charIdx := 0; n < len(sequence); charIdx++ {
+		_, nbytes := utf8.DecodeRuneInString(sequence[n:]) // utf-8
 		for i := 0; i < nbytes; i++ {
 			byteIdx := n + i
 			b2c[byteIdx] = charIdx
-- 
2.43.0


From 5768c98647215add79fb070430026395c1237407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 091/101] fix: a saved Unigram model could not be read as the
 model of a tokenizer.json

---
 model/unigram/unigram.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index cc5b8b0..4a7688d 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -219,17 +219,10 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 	}
 	defer vocabFile.Close()
 
-	// Create a serializable representation of the vocabulary
-	type VocabEntry struct {
-		Token string  `json:"token"`
-		Score float64 `json:"score"`
-	}
-	vocabEntries := make([]VocabEntry, len(u.vocab))
+	// Create a serializable representation of the vocabulary, as in the model of a tokenizer.json
+	vocabEntries := make([][]interface{}, len(u.vocab))
 	for i, ts := range u.vocab {
-		vocabEntries[i] = VocabEntry{
-			Token: ts.Token,
-			Score: ts.Score,
-		}
+		vocabEntries[i] = []interface{}{ts.Token, ts.Score}
 	}
 
 	// Create the model config
@@ -238,6 +231,7 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 		"vocab":         vocabEntries,
 		"unk_id":        u.unkID,
 		"byte_fallback": u.bytesFallback,
+		"fuse_unk":      u.fuseUnk,
 	}
 
 	encoder := json.NewEncoder(vocabFile)
-- 
2.43.0


From 840ef996a634bf303c0cb0b6ec36abd0fba3493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 092/101] fix: training on files missed or repeated the lines
 of large files

The workers of a file of more than 100 MB all started at its beginning (or
where another happened to stop, unsynchronised). Every worker now reads the
lines that start in its own part of the file, and a file that cannot be read or
a line that cannot be split is an error of Train instead of the end of the
process.
---
 tokenizer.go | 83 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 2b67fba..479a512 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -27,6 +27,9 @@ const (
 	gb = 1024 * mb
 )
 
+// trainChunkSize is the number of bytes of a training file each worker reads.
+var trainChunkSize int64 = 100 * mb
+
 type Token struct {
 	Id      int
 	Value   string
@@ -765,12 +768,12 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	doneChan := make(chan (bool), 1)
 	dict := make(map[string]int)
 
-	scanWG := new(sync.WaitGroup)
+	var scanGroup errgroup.Group
 
 	for _, f := range files {
 		fsize, err := util.FileSize(f)
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 		bar := progressbar.New(int(fsize))
 
@@ -791,9 +794,7 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 		currentJob := i
 
 		file := jobs[currentJob].File
-		// current is the counter for bytes of the file.
-		var current int64 = 0
-		var limit int64 = 100 * mb
+		limit := trainChunkSize
 
 		fi, err := os.Stat(file)
 		if err != nil {
@@ -805,14 +806,15 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 		// Setup some workers to process
 		for n := 1; n <= chunkNum; n++ {
-			scanWG.Add(1)
-
-			go func(n int, file string) {
+			n := n
+			scanGroup.Go(func() error {
 				// start reading file chunk by chunk
-				current = t.processChunk(current, limit, file, wChan, trainer)
+				if err := t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer); err != nil {
+					return err
+				}
 				fmt.Printf("File chunk %d has been completed\n", n)
-				scanWG.Done()
-			}(n, file)
+				return nil
+			})
 		}
 	}
 
@@ -837,13 +839,17 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	}()
 
 	// wait for all goroutines to complete
-	scanWG.Wait()
+	err := scanGroup.Wait()
 	close(wChan)
 
 	// Wait for dictionary to process all words then close
 	<-doneChan
 	close(doneChan)
 
+	if err != nil {
+		return err
+	}
+
 	fmt.Printf("Dictionary length: %v words\n", len(dict))
 	// // Print out some samples
 	// var count = 0
@@ -865,36 +871,49 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	return nil
 }
 
-// processChunk reads file chunk and processes it to word-count and sends off to channel
+// processChunk reads file chunk and processes it to word-count and sends off to channel.
+// A line belongs to the chunk its first byte is in.
 // offset: start bound
-// limit: end bound
+// limit: size of the chunk
 // filename: file path includes file name
 // channel: channel to send proccessed words to.
-// current: cummulative point where the file processing stops.
 // trainer: Trainer to process tokens
-func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64) {
+func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) error {
 	file, err := os.Open(filename)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	defer file.Close()
 
-	// move the pointer of the file to the start of designated chunk
-	file.Seek(offset, 0) // 0 means relative to the origin of file
+	// move the pointer of the file to the start of designated chunk, or to the
+	// byte before it: what comes up to the first line end then belongs to a
+	// line that starts in an earlier chunk.
+	start := offset
+	if offset > 0 {
+		start = offset - 1
+	}
+	if _, err := file.Seek(start, 0); err != nil { // 0 means relative to the origin of file
+		return err
+	}
 
 	scanner := bufio.NewScanner(file)
-	buf := make([]byte, 0, 1*gb) // initial buffer
-	scanner.Buffer(buf, 2*gb)    // max buffer size = 2GB
-
-	var cummulativeSize int64
+	scanner.Buffer(nil, 2*gb) // max buffer size = 2GB
+
+	// next is where the line that comes next starts
+	next := start
+	scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
+		advance, token, err := bufio.ScanLines(data, atEOF)
+		next += int64(advance)
+		return advance, token, err
+	})
 
-	for scanner.Scan() {
-		// Stop if read size has exceed the chunk size
-		cummulativeSize += int64(len(scanner.Bytes()))
-		if cummulativeSize > limit {
-			break
-		}
+	if offset > 0 {
+		// the rest of the previous line
+		scanner.Scan()
+	}
 
+	// Stop at the first line of the next chunk
+	for next < offset+limit && scanner.Scan() {
 		// line words
 		lwords := make(map[string]int)
 		var line string
@@ -910,13 +929,13 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 		normalized, err := t.doNormalize(line)
 		if err != nil {
-			log.Fatalf("call 'doNormalize' method error: %v\n", err)
+			return fmt.Errorf("call 'doNormalize' method error: %w", err)
 		}
 
 		pretok := NewPreTokenizedStringFromNS(normalized)
 		pretokenized, err := t.doPreTokenize(pretok)
 		if err != nil {
-			log.Fatalf("call 'doPreTokenize' method error: %v\n", err)
+			return fmt.Errorf("call 'doPreTokenize' method error: %w", err)
 		}
 
 		// NOTE. should we get OffsetType as input parameter: either Byte or Char?
@@ -948,7 +967,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 	}
 
-	return cummulativeSize
+	return scanner.Err()
 }
 
 /*
-- 
2.43.0


From 8b4e5447ae16271cf44964382343dee7a15ccb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 093/101] verif: SetTrainChunkSize (build tag verif)

---
 train_verif.go | 11 +++++++++++
 1 file changed, 11 insertions(+)
 create mode 100644 train_verif.go

diff --git a/train_verif.go b/train_verif.go
new file mode 100644
index 0000000..ed68498
--- /dev/null
+++ b/train_verif.go
@@ -0,0 +1,11 @@
+//go:build verif
+
+package tokenizer
+
+// SetTrainChunkSize sets the number of bytes of a training file each worker of
+// Train reads, and returns the number that was set before.
+func SetTrainChunkSize(n int64) int64 {
+	old := trainChunkSize
+	trainChunkSize = n
+	return old
+}
-- 
2.43.0


From 5a3f0050ba949d90998d7a97a42e460aad434cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 094/101] fix: inverting a pattern of another kind than the
 four of the package ended the process

---
 normalizer/pattern.go | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/normalizer/pattern.go b/normalizer/pattern.go
index 1a5ebe7..8fd11f6 100644
--- a/normalizer/pattern.go
+++ b/normalizer/pattern.go
@@ -1,11 +1,8 @@
 package normalizer
 
 import (
-	"log"
 	// "reflect"
 	"regexp"
-
-	"github.com/sugarme/tokenizer/util"
 )
 
 // Pattern is used to split a NormalizedString
@@ -284,23 +281,7 @@ func NewInvertPattern(p Pattern) *Invert {
 
 // FindMatches implement Pattern interface for Invert
 func (i *Invert) FindMatches(inside string) []OffsetsMatch {
-	var matches []OffsetsMatch
-	typ := util.GetType(i.Pattern)
-	switch typ {
-	case "*StringPattern":
-		matches = i.Pattern.(*StringPattern).FindMatches(inside)
-	case "*RunePattern":
-		matches = i.Pattern.(*RunePattern).FindMatches(inside)
-	case "*FnPattern":
-		matches = i.Pattern.(*FnPattern).FindMatches(inside)
-	case "*RegexpPattern":
-		matches = i.Pattern.(*RegexpPattern).FindMatches(inside)
-
-	default:
-		log.Fatalf("Unsupported type - %q\n", typ)
-	}
-
-	return invert(matches)
+	return invert(i.Pattern.FindMatches(inside))
 }
 
 func invert(matches []OffsetsMatch) (retVal []OffsetsMatch) {
-- 
2.43.0


From fba9ac51a71aa3c41992eb5fa72779cd76103a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:35 +0000
Subject: [PATCH 095/101] fix: a character unknown to a BPE model ended the
 process, or was given id 0

---
 model/bpe/bpe.go | 58 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index df17f83..6afb56b 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -360,8 +360,19 @@ func (b *BPE) GetContinuingSubwordPrfix() *string {
 	return b.ContinuingSubwordPrefix
 }
 
-// MergeWord merges given word
+// MergeWord merges given word. It panics if the model cannot represent a character of the word.
 func (b *BPE) MergeWord(w string) *Word {
+	word, err := b.mergeWord(w)
+	if err != nil {
+		panic(err)
+	}
+
+	return word
+}
+
+// mergeWord merges given word. It fails if there's a character that is not in the vocab, and no `unk` token
+// that is in the vocab.
+func (b *BPE) mergeWord(w string) (*Word, error) {
 
 	word := NewWord()
 	var (
@@ -405,15 +416,16 @@ func (b *BPE) MergeWord(w string) *Word {
 		if id, ok := vocab[s]; ok { // found
 			word.Add(id, byteLen)
 		} else { // not found, add `unk`
-			if b.UnkToken != nil {
-				// get `unk` id
-				unkId := (*b.Vocab)[*b.UnkToken]
-				// add `unk`
-				word.Add(unkId, byteLen)
-			} else {
-				fmt.Printf("cannot find '%s' in the vocab. \n", s)
-				panic("Can't find `unk` token in the vocab. Have you added one when initiating the model?")
+			if b.UnkToken == nil {
+				return nil, fmt.Errorf("BPE error: cannot find %q in the vocab and there's no `unk` token. Have you added one when initiating the model?", s)
 			}
+			// get `unk` id
+			unkId, ok := vocab[*b.UnkToken]
+			if !ok {
+				return nil, fmt.Errorf("BPE error: cannot find %q and `unk` token %q in the vocab", s, *b.UnkToken)
+			}
+			// add `unk`
+			word.Add(unkId, byteLen)
 		}
 	}
 
@@ -423,7 +435,7 @@ func (b *BPE) MergeWord(w string) *Word {
 		word.MergeAll(*b.Merges)
 	}
 
-	return word
+	return word, nil
 }
 
 // WordToTokens slices word to tokens
@@ -474,30 +486,46 @@ func (b BPE) Tokenize(sequence string) (retVal []tokenizer.Token, err error) {
 	}
 
 	if b.Dropout == nil {
-		return b.TokenizeWithCache(sequence), nil
+		return b.tokenizeWithCache(sequence)
 	}
 
-	word := b.MergeWord(sequence)
+	word, err := b.mergeWord(sequence)
+	if err != nil {
+		return nil, err
+	}
 
 	return b.WordToTokens(*word), nil
 }
 
+// TokenizeWithCache tokenizes a word, using the cache. It panics if the model cannot represent a character of the word.
 func (b BPE) TokenizeWithCache(sequence string) (retVal []tokenizer.Token) {
+	retVal, err := b.tokenizeWithCache(sequence)
+	if err != nil {
+		panic(err)
+	}
+
+	return retVal
+}
+
+func (b BPE) tokenizeWithCache(sequence string) (retVal []tokenizer.Token, err error) {
 
 	if b.Cache != nil {
 		if hit, ok := b.Cache.Get(sequence); ok {
-			return b.WordToTokens(hit)
+			return b.WordToTokens(hit), nil
 		}
 	}
 
-	word := b.MergeWord(sequence)
+	word, err := b.mergeWord(sequence)
+	if err != nil {
+		return nil, err
+	}
 	retVal = b.WordToTokens(*word)
 	if b.Cache != nil {
 		b.Cache.SetValues([]CacheItem{
 			{sequence, *word},
 		})
 	}
-	return retVal
+	return retVal, nil
 }
 
 func (b BPE) TokenToId(token string) (id int, ok bool) {
-- 
2.43.0


From fe95468aa2c461e5116d576964fea2dbcd71f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:40 +0000
Subject: [PATCH 096/101] fix: a normalizer that fails while encoding ended the
 process

---
 added-vocabulary.go | 23 ++++++++++++++++++++---
 tokenizer.go        | 10 +++++-----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 9cbced5..a348f88 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -497,6 +497,15 @@ func (av *AddedVocabulary) splitWithIndices(sentence *normalizer.NormalizedStrin
 // input sentence `I read a book Yesterday`, if the normalizer is supposed to lowercase
 // everything, we expect a match.
 func (av *AddedVocabulary) ExtractAndNormalize(sequence string, n normalizer.Normalizer) *PreTokenizedString {
+	pretokenized, err := av.extractAndNormalize(sequence, n)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return pretokenized
+}
+
+func (av *AddedVocabulary) extractAndNormalize(sequence string, n normalizer.Normalizer) (*PreTokenizedString, error) {
 
 	pretokenized := NewPreTokenizedString(sequence)
 
@@ -506,19 +515,27 @@ func (av *AddedVocabulary) ExtractAndNormalize(sequence string, n normalizer.Nor
 	})
 
 	// 2. Extract the normalized tokens from the normalized pieces of the string
+	var normalizeErr error
 	pretok2 := pretok1.Split(func(i int, seq *normalizer.NormalizedString) []SplitIdx {
+		if normalizeErr != nil {
+			return nil
+		}
 		newSeq := seq
-		var err error
 		if n != nil {
+			var err error
 			newSeq, err = n.Normalize(seq)
 			if err != nil {
-				log.Fatal(err)
+				normalizeErr = err
+				return nil
 			}
 		}
 		return av.splitWithIndices(newSeq, av.splitNormalizedRe)
 	})
+	if normalizeErr != nil {
+		return nil, normalizeErr
+	}
 
-	return pretok2
+	return pretok2, nil
 }
 
 type AddedTokenWithId struct {
diff --git a/tokenizer.go b/tokenizer.go
index 479a512..1e724f1 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -406,11 +406,11 @@ func (t *Tokenizer) IdToToken(id int) (token string, ok bool) {
 // EncodeSingleSequence encodes a single sequence
 func (t *Tokenizer) EncodeSingleSequence(sequence InputSequence, typeId int, offsetType OffsetType) (*Encoding, error) {
 	encode := func(isPreTokenized bool, subseqIdx int, subseq string) (*Encoding, error) {
-		normalized := t.addedVocabulary.ExtractAndNormalize(subseq, t.normalizer)
-		var (
-			pretokenized *PreTokenizedString = normalized
-			err          error
-		)
+		normalized, err := t.addedVocabulary.extractAndNormalize(subseq, t.normalizer)
+		if err != nil {
+			return nil, err
+		}
+		var pretokenized *PreTokenizedString = normalized
 
 		if t.preTokenizer != nil {
 			pretokenized, err = t.doPreTokenize(normalized)
-- 
2.43.0


From e6d121f92c236e8c1317da9529b1351c0767a06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 097/101] fix: a truncation that cannot be done, or an unknown
 input type, ended the process while encoding

---
 tokenizer.go | 31 ++++++++++++++++++++++---------
 util.go      | 19 ++++++++++++++-----
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 1e724f1..f03c4c0 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -488,10 +488,10 @@ func (t *Tokenizer) Encode(input EncodeInput, addSpecialTokens bool) (retVal *En
 		}
 
 	default:
-		log.Fatalf("Invalid input type - '%T'. \n", input)
+		return nil, fmt.Errorf("Invalid input type - '%T'", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // EncodeCharOffsets encodes the given input, using offsets relative to chars instead of bytes.
@@ -522,10 +522,10 @@ func (t *Tokenizer) EncodeCharOffsets(input EncodeInput, addSpecialTokens bool)
 		}
 
 	default:
-		log.Fatalf("Invalid input type - '%T'. \n", input)
+		return nil, fmt.Errorf("Invalid input type - '%T'", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // Decode decodes the given ids, back to a String
@@ -603,6 +603,16 @@ func (t *Tokenizer) doTokenize(pretokenized *PreTokenizedString, typeId int, wor
 
 // PostProcess does post-processing logic, handling the case where there is no PostProcessor set
 func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (retVal *Encoding) {
+	retVal, err := t.postProcess(encoding, pairEncoding, addSpecialTokens)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return retVal
+}
+
+func (t *Tokenizer) postProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (*Encoding, error) {
+	var err error
 	var tEncoding, tPairEncoding *Encoding
 
 	// 1. Truncate if needed
@@ -623,9 +633,12 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 				Strategy:  trunc.Strategy,
 				Stride:    trunc.Stride,
 			}
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, params)
+			tEncoding, tPairEncoding, err = truncateEncodings(encoding, pairEncoding, params)
 		} else {
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, trunc)
+			tEncoding, tPairEncoding, err = truncateEncodings(encoding, pairEncoding, trunc)
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
 
@@ -640,16 +653,16 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 
 	// 3. Pad if needed
 	if t.padding == nil {
-		return finalEncoding
+		return finalEncoding, nil
 	}
 
 	var padEncodings []Encoding
 	encodings := []Encoding{*finalEncoding}
 	padEncodings = PadEncodings(encodings, *t.padding)
 	if len(padEncodings) == 1 {
-		return &padEncodings[0]
+		return &padEncodings[0], nil
 	} else {
-		return padEncodings[0].Merge(padEncodings[1:], true)
+		return padEncodings[0].Merge(padEncodings[1:], true), nil
 	}
 }
 
diff --git a/util.go b/util.go
index 81c3da1..035c13c 100644
--- a/util.go
+++ b/util.go
@@ -81,14 +81,23 @@ const (
 )
 
 func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) (tEncoding, tPairEncoding *Encoding) {
+	tEncoding, tPairEncoding, err := truncateEncodings(encoding, pairEncoding, params)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return tEncoding, tPairEncoding
+}
+
+// truncateEncodings fails if the sequence to truncate is missing or too short.
+func truncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) (tEncoding, tPairEncoding *Encoding, err error) {
 	var (
 		totalLength int
 		toRemove    int
-		err         error
 	)
 
 	if params.MaxLength == 0 {
-		return encoding, pairEncoding
+		return encoding, pairEncoding, nil
 	}
 
 	totalLength = len(encoding.GetIds())
@@ -97,7 +106,7 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 	}
 
 	if totalLength <= params.MaxLength {
-		return encoding, pairEncoding
+		return encoding, pairEncoding, nil
 	}
 
 	toRemove = totalLength - params.MaxLength
@@ -146,10 +155,10 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 	}
 
 	if err != nil {
-		log.Fatal(err)
+		return nil, nil, err
 	}
 
-	return encoding, pairEncoding
+	return encoding, pairEncoding, nil
 }
 
 func PadEncodings(encodings []Encoding, params PaddingParams) []Encoding {
-- 
2.43.0


From 4b1eb2300ece20ae699db0b716e83feb3928cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 098/101] fix: caching a local file failed, and a cached file
 could be left incomplete

---
 file-util.go | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/file-util.go b/file-util.go
index 350dc9c..aa0de0c 100644
--- a/file-util.go
+++ b/file-util.go
@@ -3,7 +3,6 @@ package tokenizer
 import (
 	"fmt"
 	"io"
-	"log"
 	"net/http"
 	"os"
 	"path"
@@ -104,20 +103,15 @@ func isValidURL(url string) bool {
 // to report progress on the download.
 func downloadFile(url string, filepath string) error {
 	// Create path if not existing
-	dir := path.Dir(filepath)
 	filename := path.Base(filepath)
-	if _, err := os.Stat(dir); os.IsNotExist(err) {
-		if err := os.MkdirAll(dir, 0755); err != nil {
-			log.Fatal(err)
-		}
-	}
 
-	// Create the file with .tmp extension, so that we won't overwrite a
+	// Download to a temporary file of its own, so that we won't overwrite a
 	// file until it's downloaded fully
-	out, err := os.Create(filepath + ".tmp")
+	out, err := createTemp(filepath)
 	if err != nil {
 		return err
 	}
+	defer os.Remove(out.Name()) // unless it has been renamed
 	defer out.Close()
 
 	// Get the data
@@ -163,12 +157,29 @@ func downloadFile(url string, filepath string) error {
 	fmt.Println()
 
 	// Rename the tmp file back to the original file
-	err = os.Rename(filepath+".tmp", filepath)
-	if err != nil {
+	return moveTemp(out, filepath)
+}
+
+// createTemp creates a temporary file in the directory of the given file, which is created if it does not exist.
+func createTemp(filepath string) (*os.File, error) {
+	dir := path.Dir(filepath)
+	if err := os.MkdirAll(dir, 0755); err != nil {
+		return nil, err
+	}
+
+	return os.CreateTemp(dir, path.Base(filepath)+".*.tmp")
+}
+
+// moveTemp closes a temporary file and gives it its final name.
+func moveTemp(file *os.File, filepath string) error {
+	if err := file.Chmod(0644); err != nil {
+		return err
+	}
+	if err := file.Close(); err != nil {
 		return err
 	}
 
-	return nil
+	return os.Rename(file.Name(), filepath)
 }
 
 // writeCounter counts the number of bytes written to it. By implementing the Write method,
@@ -227,13 +238,18 @@ func copyFile(src, dst string) error {
 	}
 	defer source.Close()
 
-	destination, err := os.Create(dst)
+	// As with a download, there's no file at `dst` until it's copied fully
+	destination, err := createTemp(dst)
 	if err != nil {
 		return err
 	}
+	defer os.Remove(destination.Name()) // unless it has been renamed
 	defer destination.Close()
-	_, err = io.Copy(destination, source)
-	return err
+	if _, err := io.Copy(destination, source); err != nil {
+		return err
+	}
+
+	return moveTemp(destination, dst)
 }
 
 // CleanCache removes all files cached in transformer cache directory `CachedDir`.
-- 
2.43.0


From c0ff196a51f5e38eb1fccccc691370484df74f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:11 +0000
Subject: [PATCH 099/101] fix: a template builder panicked when the template
 was set before the special tokens

---
 processor/template.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/processor/template.go b/processor/template.go
index 0599c1e..8d573b0 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -336,6 +336,9 @@ func countAdded(container Template, specialTokens *Tokens) int {
 		case "*SpecialTokenPiece":
 			spt := p.(*SpecialTokenPiece)
 			id := spt.Id
+			if specialTokens == nil { // not set yet
+				continue
+			}
 			specialToken, ok := specialTokens.GetItemByKey(id)
 			if ok {
 				count += len(specialToken.Ids)
-- 
2.43.0


From 575f6075743ae0e02bc001f40c2e93373efac1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 100/101] fix: TemplateProcessingBuilder.Validate panicked on
 special tokens in the pair template and never found missing ones

---
 processor/template.go | 66 +++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 44 deletions(-)

diff --git a/processor/template.go b/processor/template.go
index 8d573b0..c829d33 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -405,70 +405,48 @@ func (b *TemplateProcessingBuilder) DefaultAdded(isSingle bool) int {
 	return countAdded(t, b.SpecialTokens)
 }
 
+// Validate checks that the template for pairs, if there is one, uses both sequences, and that
+// all special tokens of the templates are defined.
 func (b *TemplateProcessingBuilder) Validate() error {
-	var pairHasBoth bool = true
 	var (
 		hasA bool
 		hasB bool
 	)
 
 	for _, piece := range b.Pair {
-		if piece.(*SequencePiece).Id == A {
-			hasA = true
-		}
-
-		if piece.(*SequencePiece).Id == B {
-			hasB = true
+		if sequence, ok := piece.(*SequencePiece); ok {
+			if sequence.Id == A {
+				hasA = true
+			} else {
+				hasB = true
+			}
 		}
 	}
 
-	pairHasBoth = hasA && hasB
-
-	if !pairHasBoth {
+	if b.Pair != nil && !(hasA && hasB) {
 		err := fmt.Errorf("Template for 'pair' must use both sequences.")
 		return err
 	}
 
-	check := func(sp string) string {
-		var exist bool
-		tok, ok := b.SpecialTokens.GetItemByOrder(0)
-		if !ok {
-			exist = false
-		} else {
-			exist = util.Contains(tok.Tokens, sp)
-		}
-
-		if exist {
-			return sp
-		} else {
-			return ""
-		}
-	}
-
 	var missing []string
-	var pieces []Piece = append(b.Single, b.Pair...)
-	for _, p := range pieces {
-		typ := getType(p)
-		switch typ {
-		case "*SequencePeice":
-			// None
-		case "*SpecialToken":
-			id := p.(*SpecialTokenPiece).Id
-			s := check(id)
-			if s != "" {
-				missing = append(missing, s)
+	for _, tpl := range []Template{b.Single, b.Pair} {
+		for _, piece := range tpl {
+			special, ok := piece.(*SpecialTokenPiece)
+			if !ok {
+				continue
+			}
+			exist := false
+			if b.SpecialTokens != nil {
+				_, exist = b.SpecialTokens.GetItemByKey(special.Id)
+			}
+			if !exist && !util.Contains(missing, special.Id) {
+				missing = append(missing, special.Id)
 			}
 		}
 	}
 
 	if len(missing) > 0 {
-		var msg string
-		for _, s := range missing {
-			v := fmt.Sprintf("Missing SpecialToken %q", s)
-			msg = fmt.Sprintf("%s, %s", msg, v)
-		}
-
-		return fmt.Errorf(msg)
+		return fmt.Errorf("Missing SpecialToken(s) with id(s) %q", missing)
 	}
 
 	return nil
-- 
2.43.0


From d57e109ba011b380102d84e0ab5e3b40d98358cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:05 +0000
Subject: [PATCH 101/101] fix: template pieces accepted negative type ids

---
 processor/template.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processor/template.go b/processor/template.go
index c829d33..c807521 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -43,7 +43,7 @@ func extractId(s string) (Piece, error) {
 
 		var isNum bool
 		num, err := strconv.Atoi(rest)
-		if err == nil {
+		if err == nil && num >= 0 {
 			isNum = true
 		}
 
@@ -119,7 +119,7 @@ func NewPiece(s string) (Piece, error) {
 	switch len(parts) {
 	case 2:
 		typeId, err := strconv.Atoi(parts[1])
-		if err != nil {
+		if err != nil || typeId < 0 {
 			err = fmt.Errorf("Cannot build Piece from string %q", s)
 			return nil, err
 		}
-- 
2.43.0


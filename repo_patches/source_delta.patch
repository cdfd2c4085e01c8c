From 7f4f6f52eb53c51ce3a522792d4cf2ca0bb06ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 01/64] fix: read the full font and edition data signatures
 from readers that deliver data in small chunks

---
 builder/font_builder.go | 6 ++++--
 parse.go                | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c126a5e..9e19af4 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -2,6 +2,7 @@ package builder
 
 import "fmt"
 import "io"
+import "bufio"
 import "slices"
 import "errors"
 
@@ -696,8 +697,9 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 	parser.FileType = "ggwkfnt"
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
-	if err != nil || n != 6 {
+	reader = bufio.NewReader(reader) // (also protects from readers that keep returning 0 bytes and no error)
+	_, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
+	if err != nil {
 		return parser.NewError("failed to read file signature")
 	}
 	if !slices.Equal(parser.TempBuff[0 : 6], []byte{'w', 'k', 'g', 'f', 'n', 't'}) {
diff --git a/parse.go b/parse.go
index 37537b5..bb642ae 100644
--- a/parse.go
+++ b/parse.go
@@ -3,6 +3,7 @@ package ggfnt
 import "fmt"
 import "os"
 import "io"
+import "bufio"
 import "io/fs"
 import "slices"
 import "errors"
@@ -52,8 +53,9 @@ func Parse(reader io.Reader) (*Font, error) {
 	if traceParsing { fmt.Printf("starting parsing...\n") }
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
-	if err != nil || n != 6 {
+	reader = bufio.NewReader(reader) // (also protects from readers that keep returning 0 bytes and no error)
+	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
+	if err != nil {
 		if n == 0 {
 			return &font, parser.NewError("failed to read any data from the file")
 		}
-- 
2.43.0


From a74efe95d4f20c3a349384072cd4260b1af24c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 02/64] fix: detect data past the expected end of font and
 edition data files

---
 internal/parsing_buffer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 6ef79a5..1506061 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -38,14 +38,13 @@ func (self *ParsingBuffer) InitGzipReader(reader io.Reader) error {
 }
 
 func (self *ParsingBuffer) EnsureEOF() error {
-	if self.eof { return nil }
-	preIndex := self.Index
-	err := self.readMore()
-	if err != nil { return err }
-	if self.Index > preIndex {
+	for !self.eof && len(self.Bytes) == self.Index {
+		err := self.readMore()
+		if err != nil { return err }
+	}
+	if len(self.Bytes) > self.Index {
 		return errors.New("file continues beyond the expected end")
 	}
-	if !self.eof { panic("broken code") }
 	return nil
 }
 
-- 
2.43.0


From 3dfc0f4fcd8a190a15fadcd64cbb39ea3b471344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 03/64] fix: don't ignore read errors on rewrite rule and
 kerning sizes while parsing

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index bb642ae..014896a 100644
--- a/parse.go
+++ b/parse.go
@@ -386,6 +386,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numUtf8Rules - 1)*3)
 		if err != nil { return &font, err }
 		utf8RulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
@@ -406,6 +407,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numGlyphRules - 1)*3)
 		if err != nil { return &font, err }
 		glyphRulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
@@ -428,6 +430,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	maxKerningPairs := uint32(numGlyphs)*uint32(numGlyphs)
 
 	numHorzKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numHorzKerningPairs > 0 {
 		if numHorzKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumHorzKerningPairs can't exceed NumGlyphs^2")
@@ -440,6 +443,7 @@ func Parse(reader io.Reader) (*Font, error) {
 
 	font.OffsetToVertKernings = uint32(parser.Index)
 	numVertKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numVertKerningPairs > 0 {
 		if numVertKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumVertKerningPairs can't exceed NumGlyphs^2")
-- 
2.43.0


From 4a5555a23110b819c2e04530bbbcb4725ce8c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:04 +0000
Subject: [PATCH 04/64] fix: enforce the file size limit on any reader and grow
 the parsing buffer without quadratic copies

---
 builder/font_builder.go    |  2 +-
 internal/parsing_buffer.go | 26 ++++++++++++++++++++++----
 parse.go                   |  2 +-
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 9e19af4..4442076 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -697,7 +697,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 	parser.FileType = "ggwkfnt"
 
 	// read signature first (this is not gzipped, so it's important)
-	reader = bufio.NewReader(reader) // (also protects from readers that keep returning 0 bytes and no error)
+	reader = bufio.NewReader(internal.NewSizeLimitedReader(reader)) // (bufio also protects from readers that keep returning 0 bytes and no error)
 	_, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil {
 		return parser.NewError("failed to read file signature")
diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 1506061..30f9f94 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -48,18 +48,36 @@ func (self *ParsingBuffer) EnsureEOF() error {
 	return nil
 }
 
+// Reader wrapper that fails once the underlying reader goes beyond
+// [MaxFontDataSize] bytes, as the limit also applies to the total file size.
+type SizeLimitedReader struct {
+	reader io.Reader
+	remaining int
+}
+
+func NewSizeLimitedReader(reader io.Reader) *SizeLimitedReader {
+	return &SizeLimitedReader{ reader: reader, remaining: MaxFontDataSize }
+}
+
+func (self *SizeLimitedReader) Read(buffer []byte) (int, error) {
+	if self.remaining < 0 { return 0, errors.New("file size exceeds limit") }
+	if len(buffer) > self.remaining + 1 { buffer = buffer[ : self.remaining + 1] }
+	n, err := self.reader.Read(buffer)
+	self.remaining -= n
+	if self.remaining < 0 { return 0, errors.New("file size exceeds limit") }
+	return n, err
+}
+
 // utility function called to read more data
 func (self *ParsingBuffer) readMore() error {
 	for retries := 0; retries < 3; retries++ {
 		// read and process read bytes
 		n, err := self.gzipReader.Read(self.TempBuff)
 		if n > 0 {
-			self.Bytes = GrowSliceByN(self.Bytes, n)
-			if len(self.Bytes) > MaxFontDataSize {
+			if len(self.Bytes) + n > MaxFontDataSize {
 				return self.NewError("font data size exceeds limit")
 			}
-			k := copy(self.Bytes[len(self.Bytes) - n : ], self.TempBuff[ : n])
-			if k != n { panic("broken code") }
+			self.Bytes = append(self.Bytes, self.TempBuff[ : n]...) // (amortized growth)
 		}
 
 		// handle errors
diff --git a/parse.go b/parse.go
index 014896a..93a4622 100644
--- a/parse.go
+++ b/parse.go
@@ -53,7 +53,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if traceParsing { fmt.Printf("starting parsing...\n") }
 
 	// read signature first (this is not gzipped, so it's important)
-	reader = bufio.NewReader(reader) // (also protects from readers that keep returning 0 bytes and no error)
+	reader = bufio.NewReader(internal.NewSizeLimitedReader(reader)) // (bufio also protects from readers that keep returning 0 bytes and no error)
 	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil {
 		if n == 0 {
-- 
2.43.0


From dcd4d4a47fec8cb0597a5a2114f46b4ae3ecc4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:04 +0000
Subject: [PATCH 05/64] fix: don't leak the file on ParseFromFS failures

---
 parse.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 93a4622..aa4853c 100644
--- a/parse.go
+++ b/parse.go
@@ -17,15 +17,19 @@ func ParseFromFS(filesys fs.FS, filename string) (*Font, error) {
 	file, err := filesys.Open(filename)
 	if err != nil { return nil, err }
 	stat, err := file.Stat()
-	if err != nil { return nil, err }
+	if err != nil {
+		_ = file.Close()
+		return nil, err
+	}
 	if stat.Size() > MaxFontDataSize {
+		_ = file.Close()
 		return nil, errors.New("file size exceeds limit")
 	}
 	
 	font, err := Parse(file)
 	if err != nil {
 		_ = file.Close()
-		return font, err
+		return nil, err
 	}
 	return font, file.Close()
 }
-- 
2.43.0


From de52ce2f561e3d48130db7c69bdb0f485654619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 06/64] fix: avoid uint8 overflows when accessing header
 strings

---
 font.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/font.go b/font.go
index 75e605f..f5bfa6a 100644
--- a/font.go
+++ b/font.go
@@ -117,20 +117,20 @@ func (self *FontHeader) Name() string {
 	return unsafe.String(&self.Data[29], nameLen)
 }
 func (self *FontHeader) Family() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
 	return unsafe.String(&self.Data[30 + nameLen], familyLen)
 }
 func (self *FontHeader) Author() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	return unsafe.String(&self.Data[31 + nameLen + familyLen], authorLen)
 }
 func (self *FontHeader) About() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	aboutIndex := 31 + nameLen + familyLen + authorLen
 	aboutLen := internal.DecodeUint16LE(self.Data[aboutIndex : aboutIndex + 2])
 	return unsafe.String(&self.Data[33 + nameLen + familyLen + authorLen], aboutLen)
-- 
2.43.0


From 5e39847feff7b5fe9fa64041f8de473b0f5b0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 07/64] fix: use lexicographic order when searching glyph names

---
 font.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index f5bfa6a..cb0c570 100644
--- a/font.go
+++ b/font.go
@@ -496,11 +496,10 @@ func (self *FontGlyphs) getNthGlyphName(nth uint32, numNamedGlyphs uint32) []byt
 
 func bytesSmallerThanStr(bytes []byte, str string) bool {
 	for i := 0; i < len(bytes); i++ {
-		if i >= len(str) { return true }
-		if bytes[i] > str[i] { return false }
+		if i >= len(str) { return false } // str is a proper prefix
+		if bytes[i] != str[i] { return bytes[i] < str[i] }
 	}
-	if len(bytes) == len(str) { return false } // equal
-	return true // smaller
+	return len(bytes) < len(str)
 }
 
 func bytesEqStr(bytes []byte, str string) bool {
-- 
2.43.0


From cd6e87cb090735a74d8b9f5dd5c57e68692fe736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 08/64] fix: glyph index offsets when selecting from non-range
 mapping groups

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index cb0c570..c38c2e6 100644
--- a/font.go
+++ b/font.go
@@ -732,7 +732,7 @@ func (self *GlyphMappingGroup) Select(choice uint8) GlyphIndex {
 	if (info & 0b1000_0000) != 0 { // range case
 		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ]) + uint16(choice))
 	} else {
-		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 2) : ]))
+		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 1) : ]))
 	}
 }
 
-- 
2.43.0


From cc460a97f8eb2343ffe19387c8153b7580faca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 09/64] fix: detect glyph ranges correctly when skipping switch
 cases

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index c38c2e6..465661d 100644
--- a/font.go
+++ b/font.go
@@ -834,7 +834,7 @@ func (self *FontMapping) Utf8WithCache(codePoint rune, settingsCache *SettingsCa
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
@@ -905,7 +905,7 @@ func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGro
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
-- 
2.43.0


From e2c12f0188c5e5137cb34198107a259de7a3f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 10/64] fix: animation flags offset on mapping groups

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 465661d..53c4216 100644
--- a/font.go
+++ b/font.go
@@ -706,7 +706,7 @@ func (self *GlyphMappingGroup) Size() uint8 {
 func (self *GlyphMappingGroup) AnimationFlags() AnimationFlags {
 	if self.directMapping { return 0 }
 	if (0b0111_1111 & self.font.Data[self.offset + 0]) == 0 { return 0 }
-	return AnimationFlags(self.font.Data[self.offset + 2])
+	return AnimationFlags(self.font.Data[self.offset + 1])
 }
 func (self *GlyphMappingGroup) CaseBranch() uint8 {
 	return self.caseBranch
-- 
2.43.0


From a6e5fb1a2b48a91c2c6d817c549f5f9249e8582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 11/64] fix: locate rewrite condition data correctly

---
 font.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index 53c4216..9d7bd08 100644
--- a/font.go
+++ b/font.go
@@ -958,16 +958,16 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 	if conditionKey >= numConditions { panic("invalid condition key") }
 
 	var startOffset uint16 = 0
-	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + uint32(conditionKey) : ])
+	endOffsetIndex := self.OffsetToRewriteConditions + 1 + (uint32(conditionKey) << 1)
+	endOffset := internal.DecodeUint16LE(self.Data[endOffsetIndex : ])
 	if conditionKey > 0 {
-		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + uint32(conditionKey) : ])
+		startOffset = internal.DecodeUint16LE(self.Data[endOffsetIndex - 2 : ])
 	}
 	if endOffset <= startOffset { panic(invalidFontData) }
-	endOffset -= 1 // we will evaluate from last to first
 
 	offsetToRewriteConditionsData := self.OffsetToRewriteConditions + 1 + (uint32(numConditions) << 1)
 	maxDataIndex := offsetToRewriteConditionsData + uint32(endOffset)
-	if int(maxDataIndex) >= len(self.Data) { panic(invalidFontData) } // discretionary assertion
+	if int(maxDataIndex) > len(self.Data) { panic(invalidFontData) } // discretionary assertion
 	dataIndex := offsetToRewriteConditionsData + uint32(startOffset)
 	endDataIndex, satisfied := self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
 	if endDataIndex != maxDataIndex { panic(brokenCode) }
-- 
2.43.0


From cd1e84a9847d2ffb5f530e8b167cb8f07f79f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 12/64] fix: number of terms skipped when short-circuiting
 rewrite conditions

---
 font.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index 9d7bd08..04feb44 100644
--- a/font.go
+++ b/font.go
@@ -992,9 +992,8 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, true
 			}
@@ -1009,9 +1008,8 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if !satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, false
 			}
-- 
2.43.0


From 6e36cffcfb79f55522d72b50e08be63c0d038c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 13/64] fix: compare setting values instead of setting indices
 on rewrite conditions

---
 font.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/font.go b/font.go
index 04feb44..d2a4e49 100644
--- a/font.go
+++ b/font.go
@@ -1017,41 +1017,41 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		return dataIndex, true
 	case 0b0100_0000: // comparison
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		operand := self.Data[dataIndex + 2]
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if int(operand) > len(settings) { panic(invalidFontData) } // discretionary assertion
+			if int(operand) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 			operand = settings[operand]
 		}
 		switch (ctrl & 0b0000_1111) {
-		case 0b000: return dataIndex + 3, setting == operand
-		case 0b001: return dataIndex + 3, setting != operand
-		case 0b010: return dataIndex + 3, setting  < operand
-		case 0b011: return dataIndex + 3, setting  > operand
-		case 0b100: return dataIndex + 3, setting <= operand
-		case 0b101: return dataIndex + 3, setting >= operand
+		case 0b000: return dataIndex + 3, settings[setting] == operand
+		case 0b001: return dataIndex + 3, settings[setting] != operand
+		case 0b010: return dataIndex + 3, settings[setting] < operand
+		case 0b011: return dataIndex + 3, settings[setting] > operand
+		case 0b100: return dataIndex + 3, settings[setting] <= operand
+		case 0b101: return dataIndex + 3, settings[setting] >= operand
 		default:
 			panic(invalidFontData)
 		}
 	case 0b0110_0000: // quick comparison `setting == const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] == constValue
 	case 0b1000_0000: // quick comparison `setting != const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] != constValue
 	case 0b1010_0000: // quick comparison `setting < const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] < constValue
 	case 0b1100_0000: // quick comparison `setting > const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] > constValue
 	default: // undefined control mode
 		panic(invalidFontData)
@@ -1080,9 +1080,9 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		}
 		return dataIndex
 	case 0b0100_0000: // comparison
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if self.Data[dataIndex + 2] > numSettings { panic(invalidFontData) } // discretionary assertion
+			if self.Data[dataIndex + 2] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		}
 		switch (ctrl & 0b0000_1111) {
 		case 0b000: return dataIndex + 3
@@ -1095,16 +1095,16 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 			panic(invalidFontData)
 		}
 	case 0b0110_0000: // quick comparison `setting == const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1000_0000: // quick comparison `setting != const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1010_0000: // quick comparison `setting < const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1100_0000: // quick comparison `setting > const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	default: // undefined control mode
 		panic(invalidFontData)
-- 
2.43.0


From 3401141e49bba47ee2012924333a8af656cdbd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 14/64] fix: iterate rewrite rule outputs and rune set ranges
 completely

---
 font.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index d2a4e49..2274a19 100644
--- a/font.go
+++ b/font.go
@@ -1121,7 +1121,7 @@ func (self *GlyphRewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *GlyphRewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *GlyphRewriteRule) EachOut(each func(GlyphIndex)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + (outSize << 1); i += 2 {
 		each(GlyphIndex(internal.DecodeUint16LE(self.Data[i : ])))
 	}
 }
@@ -1159,7 +1159,7 @@ func (self *Utf8RewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *Utf8RewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *Utf8RewriteRule) EachOut(each func(rune)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + (outSize << 2); i += 4 {
 		each(rune(internal.DecodeUint32LE(self.Data[i : ])))
 	}
 }
@@ -1239,9 +1239,9 @@ func (self *FontRewrites) GetGlyphSet(set uint8) GlyphRewriteSet {
 type Utf8RewriteSet internal.RawBlock
 func (self *Utf8RewriteSet) EachRange(each func(start, end rune) error) error {
 	numRanges := int(self.Data[0])
-	for i := 1; i < numRanges*5; i += 5 {
+	for i := 1; i < 1 + numRanges*5; i += 5 {
 		codePoint := rune(internal.DecodeUint32LE(self.Data[i : i + 4]))
-		err := each(codePoint, codePoint + rune(self.Data[i + 3]))
+		err := each(codePoint, codePoint + rune(self.Data[i + 4]))
 		if err != nil { return err }
 	}
 	return nil
-- 
2.43.0


From 9bcfcb1435e48453a6f9308ed6f90d42ec78c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 15/64] fix: Date.IsValid() panic on dates without a month

---
 date.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/date.go b/date.go
index 3d631b0..7808117 100644
--- a/date.go
+++ b/date.go
@@ -26,6 +26,7 @@ func (self *Date) IsValid() bool {
 	if self.Month == 0 && self.Day != 0 { return false }
 	if self.Year == 0 && (self.Month != 0 || self.Day != 0) { return false }
 	if self.Month > 12 { return false }
+	if self.Month == 0 { return true } // year-only or undefined date
 	if self.Day > self.monthDays() { return false }
 	return true
 }
-- 
2.43.0


From d67cdebf94d9061b840acf157cfbede5f6e4defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 16/64] fix: maximum size accepted for rewrite rules while
 parsing

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index aa4853c..8475980 100644
--- a/parse.go
+++ b/parse.go
@@ -394,7 +394,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
-		if int(utf8RulesLen) > int(numUtf8Rules)*(6 + 255*4) {
+		if int(utf8RulesLen) > int(numUtf8Rules)*4096 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end beyond allowed")
 		}
 
@@ -415,7 +415,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
-		if int(glyphRulesLen) > int(numGlyphRules)*514 {
+		if int(glyphRulesLen) > int(numGlyphRules)*4096 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end beyond allowed")
 		}
 
-- 
2.43.0


From 2609aa306ff9a1c7b18c726d9b3fa846a5b1631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 17/64] fix: allow parsing fonts with 254 mapping switches

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 8475980..13aa90a 100644
--- a/parse.go
+++ b/parse.go
@@ -279,7 +279,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	font.OffsetToMappingSwitches = uint32(parser.Index)
 	numMappingSwitches, err := parser.ReadUint8()
 	if err != nil { return &font, err }
-	if numMappingSwitches > 253 {
+	if numMappingSwitches > 254 {
 		return &font, parser.NewError("NumMappingSwitches can't exceed 254 (both 254 and 255 are reserved)")
 	}
 	if numMappingSwitches > 0 {
-- 
2.43.0


From 5fb2b32e4908ed6cd5062d8c0dfc9c356b9a3f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 18/64] fix: keep setting option words and their indices
 consistent when building

---
 builder/font_builder.go          |  5 ++-
 builder/font_builder_settings.go | 53 +++++++++++---------------------
 2 files changed, 20 insertions(+), 38 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 4442076..47db0f9 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -377,17 +377,16 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 		for word, index := range words {
 			wordsList[index] = word
 		}
-		slices.Sort(wordsList)
 
 		// WordEndOffsets
 		var offset uint16
-		for word, _ := range words {
+		for _, word := range wordsList {
 			offset += uint16(len(word))
 			data = internal.AppendUint16LE(data, offset)
 		}
 
 		// Words | append actual words
-		for word, _ := range words {
+		for _, word := range wordsList {
 			data = append(data, word...)
 		}
 	}
diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index cd73ee1..994d615 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
@@ -22,45 +23,27 @@ func (self *settingEntry) AppendWords(words map[string]int16) {
 func organizeWords(builtinWords, words map[string]int16) error {
 	if len(words) > 255 { return errors.New("setting options require too many words") }
 
-	// set indices for all unique words
-	var customWordIndex uint16
-	var minBuiltinIndex uint16 = 65535
-	for word, _ := range words {
-		builtinIndex, isBuiltIn := builtinWords[word]
-		if isBuiltIn {
-			words[word] = -builtinIndex
-			if uint16(builtinIndex) < minBuiltinIndex {
-				minBuiltinIndex = uint16(builtinIndex)
-			}
-		} else {
-			words[word] = int16(customWordIndex)
-			customWordIndex += 1
+	// gather all the words that need to be explicitly included. builtin words
+	// are shadowed if their index falls within the included words, so in that
+	// case they need to be included too
+	customWords := make([]string, 0, len(words))
+	for changed := true; changed; {
+		changed = false
+		for word, _ := range words {
+			builtinIndex, isBuiltIn := builtinWords[word]
+			if isBuiltIn && int(builtinIndex) >= len(customWords) { continue }
+			if slices.Contains(customWords, word) { continue }
+			customWords = append(customWords, word)
+			changed = true
 		}
 	}
 
-	// see if builtin words can be used or not
-	for minBuiltinIndex < customWordIndex {
-		target := -int16(minBuiltinIndex)
-		minBuiltinIndex = 65535
-		for word, index := range words {
-			if index == target {
-				words[word] = int16(customWordIndex)
-				customWordIndex += 1
-			} else if index < 0 { // built-in word
-				if uint16(-index) < minBuiltinIndex {
-					minBuiltinIndex = uint16(-index)
-				}
-			}
-		}
-	}
-
-	// delete built-in words
-	for word, index := range words {
-		if index < 0 { delete(words, word) }
+	// keep only the custom words, sorted for encoding stability
+	slices.Sort(customWords)
+	clear(words)
+	for index, word := range customWords {
+		words[word] = int16(index)
 	}
-	
-	// NOTE: sorting is done later to improve encoding
-	// stability, but directly on the encoding code
 
 	return nil
 }
-- 
2.43.0


From 283187e79fa51faec288a5f72d2f9a6c8e882709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 19/64] fix: reject settings without options and switches with
 too many cases

---
 builder/font_builder_mapping.go  | 5 +++++
 builder/font_builder_settings.go | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index e19d448..89ddc5e 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -21,6 +21,7 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 	repeated := make(map[ggfnt.SettingKey]struct{}, len(settings))
 	numSettings := uint8(len(self.settings))
 	newSettings := make([]uint8, 0, len(settings))
+	numCases := 1
 	for _, setting := range settings {
 		if setting >= ggfnt.SettingKey(numSettings) {
 			return 0, errors.New("mapping switch contains undefined setting")
@@ -31,6 +32,10 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 		}
 		repeated[setting] = struct{}{}
 		newSettings = append(newSettings, uint8(setting))
+		numCases *= len(self.settings[setting].Options)
+		if numCases > 254 {
+			return 0, errors.New("mapping switch can't have more than 254 cases")
+		}
 	}
 
 	key := uint8(len(self.mappingSwitches))
diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index 994d615..8b2ab4d 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -69,6 +69,9 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 		if err != nil { return 0, err }
 	}
 
+	if len(options) == 0 {
+		return 0, errors.New("setting must have at least one option")
+	}
 	if len(options) > 255 {
 		return 0, errors.New("setting can't have more than 255 options")
 	}
-- 
2.43.0


From fc05997e68736327377480bcb9cb52cf8f507d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 20/64] fix: validate glyph groups and assign the right
 animation flags when mapping with switches

---
 builder/font_builder_mapping.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 89ddc5e..7f8f453 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -192,6 +192,9 @@ func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUID
 		return fmt.Errorf("switch %d expects %d glyph groups, but received %d", mapSwitch, numSwitchCases, len(glyphUIDs))
 	}
 	
+	err := self.validateMapGlyphs(codePoint, glyphUIDs...)
+	if err != nil { return err }
+
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for _, glyphUID := range glyphUIDs {
 		cases = append(cases, mappingGroup{ Glyphs: []uint64{glyphUID}, AnimationFlags: 0 })
@@ -223,7 +226,13 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	animFlagIndex := 0
 	for _, group := range glyphUIDs {
 		if len(group) == 0 { panic("glyph groups can't be empty") }
-		if len(group) == 1 { continue }
+		if len(group) > 128 { return errors.New("glyph groups can't exceed 128 glyphs") }
+		err := self.validateMapGlyphs(codePoint, group...)
+		if err != nil { return err }
+		if len(group) == 1 {
+			finalAnimFlags = append(finalAnimFlags, 0)
+			continue
+		}
 		if len(animFlags) <= animFlagIndex { return errors.New("not enough animation flags for all multi-glyph groups") }
 		finalAnimFlags = append(finalAnimFlags, animFlags[animFlagIndex])
 		animFlagIndex += 1
-- 
2.43.0


From fbe4c3164b82cbacafe68c9f70db14d986d9bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 21/64] fix: preserve the order of the glyphs on mapping groups

---
 builder/font_builder_mapping.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 7f8f453..3580e6f 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -1,6 +1,5 @@
 package builder
 
-import "slices"
 import "errors"
 import "fmt"
 
@@ -104,8 +103,8 @@ func (self *mappingGroup) AppendTo(data []byte, glyphLookup map[uint64]uint16, s
 		scratchBuffer[i] = glyphIndex
 	}
 
-	// sort scratch buffer, makes it easier to see if glyphs are consecutive
-	slices.Sort(scratchBuffer)
+	// encode as a range if glyphs are consecutive. the order must be
+	// preserved, as it's relevant for animations
 	if isContinuousSlice(scratchBuffer) {
 		data = append(data, 0b1000_0000 | uint8(len(self.Glyphs) - 1))
 		data = append(data, uint8(self.AnimationFlags))
-- 
2.43.0


From 8e8bb5fda3c800ca8b8c1bae1484ccadbca5c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 22/64] fix: don't alias slices and masks passed to the builder

---
 builder/font_builder_mapping.go       |  5 +++--
 builder/font_builder_props.go         | 10 +++++++++-
 builder/font_builder_rewrite_rules.go |  5 +++--
 builder/font_builder_settings.go      |  2 +-
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 3580e6f..96fc253 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -1,5 +1,6 @@
 package builder
 
+import "slices"
 import "errors"
 import "fmt"
 
@@ -160,7 +161,7 @@ func (self *Font) MapGroup(codePoint rune, animFlags ggfnt.AnimationFlags, glyph
 	// actual addition
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: 254,
-		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: glyphUIDs, AnimationFlags: animFlags } },
+		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: slices.Clone(glyphUIDs), AnimationFlags: animFlags } },
 	}
 	return nil
 }
@@ -242,7 +243,7 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for i, group := range glyphUIDs {
-		cases = append(cases, mappingGroup{ Glyphs: group, AnimationFlags: finalAnimFlags[i] })
+		cases = append(cases, mappingGroup{ Glyphs: slices.Clone(group), AnimationFlags: finalAnimFlags[i] })
 	}
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: mapSwitch,
diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 71ab823..db1e11d 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -2,6 +2,7 @@ package builder
 
 import "fmt"
 import "image"
+import "slices"
 import "errors"
 import "unicode/utf8"
 
@@ -209,7 +210,7 @@ func (self *Font) AddGlyph(glyphMask *image.Alpha) (uint64, error) {
 					BottomAdvance: self.descent,
 					HorzCenter: uint8(min(255, glyphMask.Bounds().Dx()/2)),
 				},
-				Mask: glyphMask,
+				Mask: cloneMask(glyphMask),
 			}
 			self.glyphOrder = append(self.glyphOrder, glyphUID)
 			return glyphUID, nil
@@ -219,6 +220,13 @@ func (self *Font) AddGlyph(glyphMask *image.Alpha) (uint64, error) {
 	return 0, errors.New("failed to generate unique glyph UID")
 }
 
+// The builder can't depend on masks that could be modified later by the caller.
+func cloneMask(glyphMask *image.Alpha) *image.Alpha {
+	clone := *glyphMask
+	clone.Pix = slices.Clone(glyphMask.Pix)
+	return &clone
+}
+
 func (self *Font) SetGlyphPlacement(glyphUID uint64, placement ggfnt.GlyphPlacement) error {
 	glyphData, found := self.glyphData[glyphUID]
 	if !found { return errors.New("glyph not found") }
diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 3ec9672..2dd8380 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -1,5 +1,6 @@
 package builder
 
+import "slices"
 import "errors"
 
 import "github.com/tinne26/ggfnt/internal"
@@ -216,7 +217,7 @@ func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) e
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
 	
-	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: sequence, output: []rune{replacement} }
+	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: slices.Clone(sequence), output: []rune{replacement} }
 	for i := 0; i < len(sequence); i++ {
 		rule.inElemsAreGroups.Push(false)
 	}
@@ -273,7 +274,7 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 	rule.tailLen = tailLen
 	rule.inGlyphs = inGlyphs
 	rule.inGroups = inGroups
-	rule.output = out
+	rule.output = slices.Clone(out)
 	self.glyphRules = append(self.glyphRules, rule)
 	return nil
 }
diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index 8b2ab4d..2b09cb7 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -87,6 +87,6 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 	}
 	
 	key := ggfnt.SettingKey(len(self.settings))
-	self.settings = append(self.settings, settingEntry{ Name: name, Options: options })
+	self.settings = append(self.settings, settingEntry{ Name: name, Options: slices.Clone(options) })
 	return key, nil
 }
-- 
2.43.0


From 4f896f1fa3060539fc8615962112f87c397e5d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 23/64] fix: reject empty dyes and palettes, and names that
 make the font unparseable

---
 builder/font_builder_color.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index 93abafd..1ce1380 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -3,6 +3,8 @@ package builder
 import "errors"
 import "image/color"
 
+import "github.com/tinne26/ggfnt/internal"
+
 // --- dyes ---
 
 type dyeSection struct {
@@ -31,8 +33,11 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 }
 
 func (self *Font) AddDye(name string, alphas ...uint8) error {
-	// ensure no name collisions
-	err := self.checkColorSectionNameCollision(name)
+	// ensure valid name, at least one value and no name collisions
+	err := internal.ValidateBasicName(name)
+	if err != nil { return err }
+	if len(alphas) == 0 { return errors.New("dyes must have at least one alpha value") }
+	err = self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
 	count := self.getColorIndexCount()
 	if count + len(alphas) > 255 {
@@ -80,8 +85,11 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 }
 
 func (self *Font) AddPalette(name string, colors ...color.RGBA) error {
-	// ensure no name collisions
-	err := self.checkColorSectionNameCollision(name)
+	// ensure valid name, at least one value and no name collisions
+	err := internal.ValidateBasicName(name)
+	if err != nil { return err }
+	if len(colors) == 0 { return errors.New("palettes must have at least one color") }
+	err = self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
 	count := self.getColorIndexCount()
 	if count + len(colors) > 255 {
-- 
2.43.0


From 537c926e589a9877000bf7e47c19432895eb7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 24/64] fix: don't report existing dyes and palettes as not
 found while iterating their colors

---
 builder/font_builder_color.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index 1ce1380..8dffaff 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -25,6 +25,7 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 			for index, alpha := range self.dyes[index].alphas {
 				fn(alpha, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
 			clrIndex -= len(self.dyes[index].alphas)
 		}
@@ -77,8 +78,9 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 			for index, clr := range self.palettes[index].colors {
 				fn(clr, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
-			clrIndex -= len(self.dyes[index].alphas)
+			clrIndex -= len(self.palettes[index].colors)
 		}
 	}
 	return errors.New("palette section not found")
-- 
2.43.0


From 73f8d122316c6e4d224f7aec0ab523d3ab175028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 25/64] fix: rewrite set creation, removal and size limits

---
 builder/font_builder_rewrite_sets.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index d8cd9e8..c97cbd6 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -21,8 +21,8 @@ func (self *reGlyphSet) GetSize() uint32 {
 }
 
 func (self *reGlyphSet) AppendTo(data []byte, glyphLookup map[uint64]uint16) ([]byte, error) {
-	if len(self.ranges) >= 255 { panic(invalidInternalState) }
-	if len(self.list) >= 255 { panic(invalidInternalState) }
+	if len(self.ranges) > 255 { panic(invalidInternalState) }
+	if len(self.list) > 255 { panic(invalidInternalState) }
 
 	// ranges
 	data = append(data, uint8(len(self.ranges)))
@@ -78,6 +78,7 @@ func (self *Font) RemoveGlyphSet(setUID uint64) bool {
 	_, found := self.rewriteGlyphSets[setUID]
 	if !found { return false }
 	delete(self.rewriteGlyphSets, setUID)
+	self.glyphSetsOrder = slices.DeleteFunc(self.glyphSetsOrder, func(uid uint64) bool { return uid == setUID })
 	return true
 }
 
@@ -110,7 +111,7 @@ func (self *Font) RemoveGlyphSetRange(setUID, rangeStartGlyphUID, rangeEndGlyphU
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -150,7 +151,7 @@ func (self *Font) RemoveGlyphSetListGlyph(setUID, glyphUID uint64) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -178,10 +179,11 @@ func (self *Font) CreateRuneSet() (uint64, error) {
 	
 	uid, err := internal.CryptoRandUint64()
 	if err != nil { return 0, err } // don't think this can ever happen
-	_, found := self.rewriteGlyphSets[uid]
+	_, found := self.rewriteRuneSets[uid]
 	if found {
 		return 0, errors.New("failed to generate unique rune set UID")
 	}
+	if self.rewriteRuneSets == nil { self.rewriteRuneSets = make(map[uint64]reRuneSet) }
 	self.rewriteRuneSets[uid] = reRuneSet{}
 	return uid, nil
 }
@@ -220,7 +222,7 @@ func (self *Font) RemoveRuneSetRange(setUID uint64, rangeStart, rangeEnd rune) b
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
@@ -257,7 +259,7 @@ func (self *Font) RemoveRuneSetListRune(setUID uint64, codePoint rune) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
-- 
2.43.0


From aaf4354e45361636599e392ff8c4bdeb1765dfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 26/64] fix: return an error instead of panicking when building
 with kerning pairs of undefined glyphs

---
 builder/font_builder.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 47db0f9..4fd6394 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -18,6 +18,7 @@ const fontBuilderDefaultFontAuthor = "Authorless"
 const fontBuilderDefaultFontAbout = "No information available."
 
 var ErrBuildNoGlyphs = errors.New("can't build font with no glyphs")
+var errKerningUndefinedGlyph = errors.New("kerning pair is using an undefined glyph")
 var errFontDataExceedsMax = errors.New("font data exceeds maximum size")
 
 // A [Font] builder that allows modifying and exporting ggfnt fonts.
@@ -606,9 +607,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	self.tempSortingBuffer = self.tempSortingBuffer[ : 0]
 	for key, _ := range self.horzKerningPairs {
 		i1, found := self.tempGlyphIndexLookup[key[0]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errKerningUndefinedGlyph }
 		i2, found := self.tempGlyphIndexLookup[key[1]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errKerningUndefinedGlyph }
 		self.tempSortingBuffer = append(self.tempSortingBuffer, uint64(uint32(i1) << 16 | uint32(i2)))
 	}
 	slices.Sort(self.tempSortingBuffer)
@@ -637,9 +638,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	self.tempSortingBuffer = self.tempSortingBuffer[ : 0]
 	for key, _ := range self.vertKerningPairs {
 		i1, found := self.tempGlyphIndexLookup[key[0]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errKerningUndefinedGlyph }
 		i2, found := self.tempGlyphIndexLookup[key[1]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errKerningUndefinedGlyph }
 		self.tempSortingBuffer = append(self.tempSortingBuffer, uint64(uint32(i1) << 16 | uint32(i2)))
 	}
 	slices.Sort(self.tempSortingBuffer)
-- 
2.43.0


From d7440822bb151ddfc9184732bf08a22f30459665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 27/64] fix: use the vertical kerning pairs for vertical
 kerning values

---
 builder/font_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 4fd6394..619238d 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -653,7 +653,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	for _, pair64 := range self.tempSortingBuffer { // VertKerningValues
 		glyphUID1 := self.glyphOrder[uint16(pair64 >> 16)]
 		glyphUID2 := self.glyphOrder[uint16(pair64)]
-		kerningInfo, found := self.horzKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
+		kerningInfo, found := self.vertKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
 		if !found { panic(invalidInternalState) }
 		if kerningInfo.Class == 0 {
 			data = append(data, uint8(kerningInfo.Value))
-- 
2.43.0


From 7c6878a71f73cecc52d092d6e0c44ab34d9aff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 28/64] fix: don't add the default dye to the builder itself
 when building

---
 builder/font_builder.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 619238d..41240ad 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -241,27 +241,27 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	// --- colors ---
 	numColorSections := len(self.dyes) + len(self.palettes)
 	if numColorSections > 255 { panic(invalidInternalState) }
+	dyes := self.dyes
 	if numColorSections == 0 { // add main dye if nothing else exists
-		err := self.AddDye("main", 255)
-		if err != nil { return nil, err }
+		dyes = []dyeSection{ dyeSection{ name: "main", alphas: []uint8{255} } }
 	}
 	
 	// - dyes -
 	font.OffsetToDyes = uint32(len(data))
-	data = append(data, uint8(len(self.dyes))) // NumDyes
+	data = append(data, uint8(len(dyes))) // NumDyes
 	var clrIndex int
-	for i, _ := range self.dyes { // DyeEndIndices
-		clrIndex += len(self.dyes[i].alphas)
+	for i, _ := range dyes { // DyeEndIndices
+		clrIndex += len(dyes[i].alphas)
 		if clrIndex > 255 { panic(invalidInternalState) }
 		data = append(data, uint8(clrIndex))
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].alphas...) } // DyeAlphas
+	for i, _ := range dyes { data = append(data, dyes[i].alphas...) } // DyeAlphas
 	var clrSectionNameOffset uint16
-	for i, _ := range self.dyes { // DyeNameEndOffsets
-		clrSectionNameOffset += uint16(len(self.dyes[i].name))
+	for i, _ := range dyes { // DyeNameEndOffsets
+		clrSectionNameOffset += uint16(len(dyes[i].name))
 		data = internal.AppendUint16LE(data, clrSectionNameOffset)
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].name...) } // DyeNames
+	for i, _ := range dyes { data = append(data, dyes[i].name...) } // DyeNames
 
 	// - palettes -
 	font.OffsetToPalettes = uint32(len(data))
-- 
2.43.0


From 4f196971cb0f34035de5b4b2a119008328e09584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 29/64] fix: don't build fonts with names or metrics that can't
 be parsed back

---
 builder/font_builder_props.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index db1e11d..d9dfc95 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -69,6 +69,7 @@ func (self *Font) SetVersion(major, minor uint16) {
 
 func (self *Font) GetName() string { return self.fontName }
 func (self *Font) SetName(name string) error {
+	if len(name) == 0 { return errors.New("font name can't be empty") }
 	if len(name) > 255 { return errors.New("font name can't exceed 255 bytes") }
 	err := checkStringValidity(name)
 	if err != nil { return err }
@@ -113,6 +114,7 @@ func (self *Font) GetMetricsStatus() error {
 	if self.ascent < self.midlineAscent { return errors.New("ascent must be equal or greater than midline ascent") }
 	if self.ascent < self.uppercaseAscent { return errors.New("ascent must be equal or greater than uppercase ascent") }
 	if self.midlineAscent > self.uppercaseAscent { return errors.New("midline ascent must be equal or greater than uppercase ascent") }
+	if self.vertInterspacing != 0 && !self.hasVertLayout { return errors.New("vert interspacing must be zero if vert layout is not used") }
 	return nil
 }
 
-- 
2.43.0


From 1c197df79af52574b297b89b186b576a16046f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 30/64] fix: don't reject fonts with complex glyph masks while
 parsing

---
 parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 13aa90a..64d6bf4 100644
--- a/parse.go
+++ b/parse.go
@@ -202,9 +202,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {
 		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end before allowed")
 	}
-	if glyphMasksLen > (uint32(placementSize) + 255)*uint32(numGlyphs) {
-		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end beyond allowed")
-	}
+	// note: no upper bound check, mask encodings can be arbitrarily complex
 	err = parser.AdvanceBytes(int(glyphMasksLen))
 	if err != nil { return &font, err }
 
-- 
2.43.0


From 6f3c78b0c561378cbbd825530c27c49bfd02ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 31/64] fix: detect glyph mask and mapping offset overflows
 when building

---
 builder/font_builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 41240ad..8e0914f 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -351,6 +351,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 
 		// write offset back on the relevant index
 		offset32 = uint32(len(data) - baseGlyphMasksIndex)
+		if offset32 > 16777215 { return nil, errFontDataExceedsMax }
 		internal.EncodeUint24LE(data[glyphMaskEndOffsetsIndex : glyphMaskEndOffsetsIndex + 3], offset32)
 		glyphMaskEndOffsetsIndex += 3
 	}
@@ -485,6 +486,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 			offset += len(data) - preLen
 
 			// append offset
+			if offset > 16777215 { return nil, errFontDataExceedsMax }
 			internal.EncodeUint24LE(data[nextMappingEndOffsetIndex : nextMappingEndOffsetIndex + 3], uint32(offset))
 			nextMappingEndOffsetIndex += 3
 		}
-- 
2.43.0


From ad2643c7b6a6f43e6b9d9ba519d6aabed340dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 32/64] fix: reject basic names with consecutive hyphens

---
 internal/parsing_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 30f9f94..ff59fe4 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -216,7 +216,7 @@ func ValidateBasicName(name string) error {
 		}
 		if name[i] == '-' {
 			if prevIsHyphen {
-				errors.New("basic name can't contain consecutive hyphens")
+				return errors.New("basic name can't contain consecutive hyphens")
 			}
 			prevIsHyphen = true
 			continue
-- 
2.43.0


From f354df41b7aae110ec6f7e62935fdc23c385bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 33/64] fix: reject glyph rewrite rules with invalid body or
 output lengths

---
 builder/font_builder_rewrite_rules.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 2dd8380..bf05a28 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -233,7 +233,7 @@ func (self *Font) AddUtf8RewriteRule(headLen, bodyLen, tailLen uint8, input []an
 // Ids can be for glyphs or glyph sets, we assume they won't collide.
 func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []uint64, out ...uint64) error {
 	// validate input sizes
-	if bodyLen == 0 { errors.New("rewrite rule exceeds input body must have len >= 1") }
+	if bodyLen == 0 { return errors.New("rewrite rule input body must have len >= 1") }
 	headBodyLen := headLen + bodyLen
 	if headBodyLen < bodyLen || headBodyLen + tailLen < tailLen {
 		return errors.New("rewrite rule exceeds 255 input elements")
@@ -243,6 +243,8 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 	}
 	
 	// validate output glyphs
+	if len(out) == 0 { return errors.New("rewrite rule output can't be empty") }
+	if len(out) > int(bodyLen) { return errors.New("rewrite rule output can't be longer than the input body") }
 	for _, glyphUID := range out {
 		_, found := self.glyphData[glyphUID]
 		if !found { return errors.New("invalid rewrite rule output glyph UID") }
-- 
2.43.0


From 2106e600e1704365b5f78a04a7e94a168a1c2e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 34/64] fix: validate kerning pair glyphs and classes when
 parsing edition data

---
 builder/font_builder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 8e0914f..1779663 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -762,6 +762,12 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 			return parser.NewError("kerning pair class can't be zero")
 		}
 		
+		if int(kerningClass) > len(self.kerningClasses) {
+			return parser.NewError("kerning pair class is not defined")
+		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair glyph index is out of range")
+		}
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
 		kerningPair, found := self.horzKerningPairs[[2]uint64{first, second}]
@@ -785,6 +791,12 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 			return parser.NewError("kerning pair class can't be zero")
 		}
 		
+		if int(kerningClass) > len(self.kerningClasses) {
+			return parser.NewError("kerning pair class is not defined")
+		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair glyph index is out of range")
+		}
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
 		kerningPair, found := self.vertKerningPairs[[2]uint64{first, second}]
-- 
2.43.0


From 8caf3330ee2a21d0465c4ddb709f2c0b4b5b220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 35/64] fix: remove kerning pairs added by edition data when
 clearing it

---
 builder/font_builder.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 1779663..5b25395 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -839,11 +839,17 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 func (self *Font) ClearEditionData() {
 	self.categories = self.categories[ : 0]
 	self.kerningClasses = self.kerningClasses[ : 0]
-	for _, kerningPair := range self.horzKerningPairs {
+	for key, kerningPair := range self.horzKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { // pair added by edition data
+			delete(self.horzKerningPairs, key)
+		}
 	}
-	for _, kerningPair := range self.vertKerningPairs {
+	for key, kerningPair := range self.vertKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { // pair added by edition data
+			delete(self.vertKerningPairs, key)
+		}
 	}
 	for i, _ := range self.rewriteConditions {
 		self.rewriteConditions[i].EditorName = ""
-- 
2.43.0


From 0a5cc7ada2d85c3c7fdb5d58ef8b8604268cbbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 36/64] fix: read the number of kerning pairs with classes on
 edition data as uint24, like specified

---
 builder/font_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 5b25395..1c33635 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -749,7 +749,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		(&self.kerningClasses[i]).Value = value
 	}
 	
-	numHorzKerningPairsWithClasses, err := parser.ReadUint32()
+	numHorzKerningPairsWithClasses, err := parser.ReadUint24()
 	if err != nil { return err }
 	for i := uint32(0); i < numHorzKerningPairsWithClasses; i++ {
 		firstIndex, err := parser.ReadUint16()
@@ -778,7 +778,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		}
 	}
 	
-	numVertKerningPairsWithClasses, err := parser.ReadUint32()
+	numVertKerningPairsWithClasses, err := parser.ReadUint24()
 	if err != nil { return err }
 	for i := uint32(0); i < numVertKerningPairsWithClasses; i++ {
 		firstIndex, err := parser.ReadUint16()
-- 
2.43.0


From 2c1bfc2301c404df7b34947c31825de5c3504a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 37/64] fix: testers ignore rules whose condition is not
 satisfied

---
 internal/rerules/glyphrule/tester.go | 3 +++
 internal/rerules/utf8rule/tester.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 9550603..1c6cd24 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -329,6 +329,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue {
+			self.trees[i].BreakSequence() // inactive rules, no match possible
+		}
 	}
 }
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 22f72bb..ab4475c 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -329,6 +329,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue {
+			self.trees[i].BreakSequence() // inactive rules, no match possible
+		}
 	}
 }
 
-- 
2.43.0


From 584ab875c2d820cd2414be130af8ef478a9981ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 38/64] fix: a failed BeginSequence must not leave the tester
 operating

---
 internal/rerules/glyphrule/tester.go | 2 +-
 internal/rerules/utf8rule/tester.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 1c6cd24..0864e89 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -98,11 +98,11 @@ type GlyphConfirmationFunc = func(ggfnt.GlyphIndex)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index ab4475c..8d0fce2 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -99,11 +99,11 @@ type Utf8ConfirmationFunc = func(rune)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
-- 
2.43.0


From efc34c1856675f869f3c4c385c092420609bc23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 39/64] fix: failed rule compilations must not poison the
 shared compiler

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 7 +++++++
 internal/rerules/glyphrule/tester.go                 | 1 +
 internal/rerules/utf8rule/decision_tree_compiler.go  | 7 +++++++
 internal/rerules/utf8rule/tester.go                  | 1 +
 4 files changed, 16 insertions(+)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 90cf1cd..9558da4 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -72,6 +72,13 @@ func (self *DecisionTreeCompiler) Finish() []State {
 	return buffer
 }
 
+// Drops any active compilation process, discarding its results.
+// If no compilation process is active, nothing happens.
+func (self *DecisionTreeCompiler) Cancel() {
+	self.states = nil
+	self.run.Font = nil
+	self.compiling = false // must be last
+}
 
 func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIndex) error {
 	if !self.compiling { panic(PreViolation) } // discretionary safety assertion
diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 0864e89..65b754f 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -187,6 +187,7 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 	// will still be correct
 	compiler := CommonDecisionTreeCompiler.Retrieve()
 	defer CommonDecisionTreeCompiler.Release(compiler)
+	defer compiler.Cancel() // the compiler is shared, don't leave failed compilations active
 
 	// check each branch
 	var treeIndex int = 0
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 680b900..6b66672 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -72,6 +72,13 @@ func (self *DecisionTreeCompiler) Finish() []State {
 	return buffer
 }
 
+// Drops any active compilation process, discarding its results.
+// If no compilation process is active, nothing happens.
+func (self *DecisionTreeCompiler) Cancel() {
+	self.states = nil
+	self.run.Font = nil
+	self.compiling = false // must be last
+}
 
 func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleIndex) error {
 	if !self.compiling { panic(PreViolation) } // discretionary safety assertion
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 8d0fce2..6fbbbdc 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -187,6 +187,7 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 	// will still be correct
 	compiler := CommonDecisionTreeCompiler.Retrieve()
 	defer CommonDecisionTreeCompiler.Release(compiler)
+	defer compiler.Cancel() // the compiler is shared, don't leave failed compilations active
 
 	// check each branch
 	var treeIndex int = 0
-- 
2.43.0


From ffb225c8971ec2b9144c2d56d08246c47dc99895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 40/64] fix: testers without rules panicked on Feed

---
 internal/rerules/glyphrule/tester.go | 1 +
 internal/rerules/utf8rule/tester.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 65b754f..3c9986f 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -102,6 +102,7 @@ func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.Setting
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.accumulator.SetMinCapacity(1) // required even if there are no rules
 	self.isOperating = true
 	self.treesRestartDetection()
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 6fbbbdc..8bbe866 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -103,6 +103,7 @@ func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.Setting
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.accumulator.SetMinCapacity(1) // required even if there are no rules
 	self.isOperating = true
 	self.treesRestartDetection()
 
-- 
2.43.0


From d477221ab2231ca37a441a60c91789fbfffc4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 41/64] fix: context must not leak through Break and
 FinishSequence

---
 internal/rerules/glyphrule/tester.go | 6 ++++++
 internal/rerules/utf8rule/tester.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 3c9986f..f7a28ce 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -145,6 +145,12 @@ func (self *Tester) Break(fn GlyphConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// anything left has already been reported as the tail of a
+	// rule, and it can't be used as context after the break
+	self.accumulator.Clear()
+	self.unflushedTail = 0
+	self.treesRestartDetection()
 }
 
 func (self *Tester) FinishSequence(fn GlyphConfirmationFunc) {
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 8bbe866..81866b6 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -145,6 +145,12 @@ func (self *Tester) Break(fn Utf8ConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// anything left has already been reported as the tail of a
+	// rule, and it can't be used as context after the break
+	self.accumulator.Clear()
+	self.unflushedTail = 0
+	self.treesRestartDetection()
 }
 
 func (self *Tester) FinishSequence(fn Utf8ConfirmationFunc) {
-- 
2.43.0


From 726e356bdade0dce3a2f5f767ca677f58083eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 42/64] fix: rule heads overlapping already reported tails must
 be consumed

---
 internal/rerules/glyphrule/tester.go | 6 ++++--
 internal/rerules/utf8rule/tester.go  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index f7a28ce..19ee315 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -292,12 +292,14 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	if matchRuleIndex == RuleNone { panic(PreViolation) }
 	
 	// report head
+	self.accumulator.DiscardPeeks()
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
-		if self.unflushedTail > 0 {
+		glyphIndex := self.accumulator.PopHead()
+		if self.unflushedTail > 0 { // already reported
 			self.unflushedTail -= 1
 		} else {
-			fn(self.accumulator.PopHead())
+			fn(glyphIndex)
 		}
 	}
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 81866b6..cb8e9e9 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -292,12 +292,14 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	if matchRuleIndex == RuleNone { panic(PreViolation) }
 	
 	// report head
+	self.accumulator.DiscardPeeks()
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
-		if self.unflushedTail > 0 {
+		codePoint := self.accumulator.PopHead()
+		if self.unflushedTail > 0 { // already reported
 			self.unflushedTail -= 1
 		} else {
-			fn(self.accumulator.PopHead())
+			fn(codePoint)
 		}
 	}
 
-- 
2.43.0


From edac69bc13144e92e2e526029930957752e224c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 43/64] fix: rules must include the already reported tail in
 their heads

---
 internal/rerules/glyphrule/decision_tree_state.go |  2 +-
 internal/rerules/glyphrule/tester.go              | 13 +++++++++++++
 internal/rerules/utf8rule/decision_tree_state.go  |  2 +-
 internal/rerules/utf8rule/tester.go               | 13 +++++++++++++
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index cff16de..b5fe9e8 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -46,7 +46,7 @@ func (self *State) Trigger(glyphIndex ggfnt.GlyphIndex) (StateIndex, RuleIndex)
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 19ee315..77c56c7 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -259,7 +259,9 @@ func (self *Tester) treesFeedHeadGlyph(glyphIndex ggfnt.GlyphIndex) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].FeedHead(glyphIndex, minRequiredHeadLen)
+		self.discardInvalidMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -271,7 +273,9 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].Feed(glyphIndex)
+		self.discardInvalidMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -279,6 +283,15 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	return running
 }
 
+// While there's an unflushed tail, only rules that include all of it
+// in their heads can be applied, as the tail has already been reported.
+func (self *Tester) discardInvalidMatch(treeIndex int, prevMatch RuleIndex) {
+	match := self.trees[treeIndex].BestMatch()
+	if match != prevMatch && self.rules[match].HeadLen() < self.unflushedTail {
+		self.trees[treeIndex].bestMatch = prevMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 04df50d..46322dc 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -45,7 +45,7 @@ func (self *State) Trigger(codePoint rune) (StateIndex, RuleIndex) {
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index cb8e9e9..d279989 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -259,7 +259,9 @@ func (self *Tester) treesFeedHeadRune(codePoint rune) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].FeedHead(codePoint, minRequiredHeadLen)
+		self.discardInvalidMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -271,7 +273,9 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].Feed(codePoint)
+		self.discardInvalidMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -279,6 +283,15 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	return running
 }
 
+// While there's an unflushed tail, only rules that include all of it
+// in their heads can be applied, as the tail has already been reported.
+func (self *Tester) discardInvalidMatch(treeIndex int, prevMatch RuleIndex) {
+	match := self.trees[treeIndex].BestMatch()
+	if match != prevMatch && self.rules[match].HeadLen() < self.unflushedTail {
+		self.trees[treeIndex].bestMatch = prevMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
-- 
2.43.0


From 785390f6f3d214639c8a585a52c12e8de8496d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:04 +0000
Subject: [PATCH 44/64] fix: decision tree transition splits

---
 internal/rerules/glyphrule/decision_tree_state.go | 8 ++++----
 internal/rerules/utf8rule/decision_tree_state.go  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index b5fe9e8..d1a507f 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -85,12 +85,12 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
 			glyphRange.First = splitRange.Last + 1
-			candidateTrans += 1
+			candidateTrans += 2
 		case noSplitPost:
 			// we have to see if the next transition applies
 			candidateTrans += 1
@@ -124,7 +124,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange ggfnt.GlyphRange
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -185,7 +185,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastGlyphOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 46322dc..799e37c 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -84,12 +84,12 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
 			runeRange.First = splitRange.Last + 1
-			candidateTrans += 1
+			candidateTrans += 2
 		case noSplitPost:
 			// we have to see if the next transition applies
 			candidateTrans += 1
@@ -123,7 +123,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange RuneRange) (spli
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -184,7 +184,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre r
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastRuneOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
-- 
2.43.0


From 65dae3b42db7f38a8a5669828b85f3d662e5da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 45/64] fix: track decision tree state uses on splits, copies
 and removals

---
 .../glyphrule/decision_tree_compiler.go       | 47 ++++++++++++++-----
 .../rerules/glyphrule/decision_tree_state.go  | 35 +++++++-------
 .../glyphrule/decision_tree_transition.go     |  4 +-
 .../utf8rule/decision_tree_compiler.go        | 47 ++++++++++++++-----
 .../rerules/utf8rule/decision_tree_state.go   | 35 +++++++-------
 .../utf8rule/decision_tree_transition.go      |  4 +-
 6 files changed, 114 insertions(+), 58 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 9558da4..a0e6703 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -32,7 +32,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []uint16 // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -120,19 +120,19 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				if glyphSet != GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-				err := self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+				err := self.states[state].AppendRange(glyphRange, matchRule, self)
 				if err != nil { return err }
 			} else { // glyph set case
 				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return self.states[state].AppendRange(glyphRange, matchRule, self)
 				})
 				if err != nil { return err }
 				err = set.EachListGlyph(func(glyphIndex ggfnt.GlyphIndex) error {
 					glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return self.states[state].AppendRange(glyphRange, matchRule, self)
 				})
 				if err != nil { return err }
 			}
@@ -168,6 +168,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 			// notice: we don't reset state info here yet, it will have
 			//         to be reset later when we need it again
 			self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
+			self.adjustNextStatesUseCount(state, -1)
 			freedCount += 1
 		} else if freedCount > 0 {
 			self.run.TrackerStatesByDepth[depth][i - freedCount] = state
@@ -180,8 +181,24 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
-type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
-func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+// Interface used by states in order to request and track their next states.
+type StateLinker interface {
+	// Given the current next state of a transition (possibly [StateNone]),
+	// returns the state that has to replace it in order to also include the
+	// rule being compiled.
+	LinkState(StateIndex) (StateIndex, error)
+
+	// Must be called when a transition to the given state is duplicated.
+	AddStateUse(StateIndex)
+}
+
+// Implements [StateLinker].
+func (self *DecisionTreeCompiler) AddStateUse(stateIndex StateIndex) {
+	self.adjustStateUseCount(stateIndex, 1)
+}
+
+// Implements [StateLinker].
+func (self *DecisionTreeCompiler) LinkState(referenceStateIndex StateIndex) (StateIndex, error) {
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
@@ -193,6 +210,7 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		if referenceStateIndex != StateNone {
 			self.states[resultStateIndex].CopyDataFrom(self.states[referenceStateIndex])
 			self.initializeStateRulesWithRef(resultStateIndex, referenceStateIndex)
+			self.adjustNextStatesUseCount(resultStateIndex, 1)
 		} else {
 			self.states[resultStateIndex].Reset()
 			self.initializeStateRules(resultStateIndex)
@@ -203,10 +221,8 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
 	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
 	if referenceStateIndex != StateNone {
-		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
-		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
+		self.adjustStateUseCount(referenceStateIndex, -1)
 	}
 
 	// return resulting state
@@ -302,8 +318,17 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	} else {
 		result = int(self.run.TrackerStateUses[stateIndex]) + delta
 	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
+	if result > 65535 || result < 0 { panic(BrokenCode) }
+	self.run.TrackerStateUses[stateIndex] = uint16(result)
+}
+
+// Adjusts the use count of all the states that can be reached through
+// transitions from the given state.
+func (self *DecisionTreeCompiler) adjustNextStatesUseCount(stateIndex StateIndex, delta int) {
+	for _, transition := range self.states[stateIndex].Transitions {
+		if transition.NextState == StateNone { continue }
+		self.adjustStateUseCount(transition.NextState, delta)
+	}
 }
 
 // The states can't be 0, as 0 is the root, which is treated separately.
diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index d1a507f..891ba64 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -53,7 +53,7 @@ func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
 // both fully, partially, or in many different combinations. We need to get each
 // fragment and set up a new transition or adjust an already existing one. This
 // is a tricky method.
-func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn) error {
+func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, stateLinker StateLinker) error {
 	// for the first part, we find candidate transitions and check if our range
 	// begins earlier, later, how much overlap it has, etc.
 	candidateTrans, _ := self.findGlyphTransition(glyphRange.First)
@@ -62,7 +62,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		splitResult, splitRange := self.confrontRanges(candidateRange, glyphRange)
 		switch splitResult {
 		case noSplitPre:
-			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker, 0)
+			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			glyphRange.First = splitRange.Last + 1
 			// in theory we wouldn't want to change the candidateTrans, but we added
@@ -70,24 +70,24 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 			// we want to skip it
 			candidateTrans += 1
 		case splitFirstMid:
-			err := self.splitTransitionAt(candidateTrans, splitRange.Last)
+			err := self.splitTransitionAt(candidateTrans, splitRange.Last, stateLinker)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 1)
+			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker)
 			// ^ we terminate here
 		case splitFirstLast:
-			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
+			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			glyphRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionBy(candidateTrans, splitRange, stateLinker)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
+			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1, stateLinker)
 			if err != nil { return err }
-			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
+			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			glyphRange.First = splitRange.Last + 1
 			candidateTrans += 2
@@ -102,7 +102,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 	// for the final part, we check if there's any remaining range left.
 	// if there is, we allocate it a completely new transition at the end
 	if glyphRange.First > glyphRange.Last { return nil }
-	return self.insertNewTransition(glyphRange, ruleMatchIndex, stateLinker, 0)
+	return self.insertNewTransition(glyphRange, ruleMatchIndex, stateLinker)
 }
 
 // ---- internal helper methods ----
@@ -143,7 +143,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange ggfnt.GlyphRange
 	}
 }
 
-func (self *State) insertNewTransition(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *State) insertNewTransition(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, stateLinker StateLinker) error {
 	// insert new transition (only glyphRange initialized)
 	index, err := self.unsafeInsertUninitializedTransition(glyphRange)
 	if err != nil { return err }
@@ -151,7 +151,7 @@ func (self *State) insertNewTransition(glyphRange ggfnt.GlyphRange, ruleMatchInd
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
 	if ruleMatchIndex == RuleNone {
-		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits)
+		self.Transitions[index].NextState, err = stateLinker.LinkState(StateNone)
 		return err
 	} else {
 		self.Transitions[index].NextState = StateNone
@@ -180,7 +180,7 @@ func (self *State) findGlyphTransition(glyphIndex ggfnt.GlyphIndex) (TransitionI
 	return TransitionIndex(minIndex), found
 }
 
-func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre ggfnt.GlyphIndex) error {
+func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre ggfnt.GlyphIndex, stateLinker StateLinker) error {
 	// shorten existing transition and create new transition for the newly vacated range
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastGlyphOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
@@ -190,15 +190,18 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
 	self.Transitions[newTransIndex].RuleMatch = self.Transitions[transIndex].RuleMatch
+	if self.Transitions[newTransIndex].NextState != StateNone {
+		stateLinker.AddStateUse(self.Transitions[newTransIndex].NextState)
+	}
 	return nil
 }
 
-func (self *State) splitTransitionBy(transIndex TransitionIndex, glyphRange ggfnt.GlyphRange) error {
+func (self *State) splitTransitionBy(transIndex TransitionIndex, glyphRange ggfnt.GlyphRange, stateLinker StateLinker) error {
 	// note: there are more efficient ways to do this, but this 
 	//       is comfy and kinda acceptable for the moment I guess
-	err := self.splitTransitionAt(transIndex, glyphRange.First - 1)
+	err := self.splitTransitionAt(transIndex, glyphRange.First - 1, stateLinker)
 	if err != nil { return err }
-	return self.splitTransitionAt(transIndex + 1, glyphRange.Last)
+	return self.splitTransitionAt(transIndex + 1, glyphRange.Last, stateLinker)
 }
 
 // Helper method for insertNewTransition() and splitTransition*.
diff --git a/internal/rerules/glyphrule/decision_tree_transition.go b/internal/rerules/glyphrule/decision_tree_transition.go
index 337a14a..9d51491 100644
--- a/internal/rerules/glyphrule/decision_tree_transition.go
+++ b/internal/rerules/glyphrule/decision_tree_transition.go
@@ -13,7 +13,7 @@ type Transition struct {
 	NextState StateIndex // StateNone (255) is reserved for "none"
 }
 
-func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinker) error {
 	if ruleMatchIndex != RuleNone { // on rule match, state addition stops
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
@@ -21,7 +21,7 @@ func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn
 		return nil
 	} else { // add next state
 		var err error
-		self.NextState, err = stateLinker(self.NextState, numSplits)
+		self.NextState, err = stateLinker.LinkState(self.NextState)
 		return err
 	}
 }
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 6b66672..21041dc 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -32,7 +32,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []uint16 // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -120,7 +120,7 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				if utf8Set != Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				runeRange := RuneRange{ First: codePoint, Last: codePoint }
-				err := self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+				err := self.states[state].AppendRange(runeRange, matchRule, self)
 				if err != nil { return err }
 			} else { // utf8 set case
 				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
@@ -128,12 +128,12 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return self.states[state].AppendRange(runeRange, matchRule, self)
 				})
 				if err != nil { return err }
 				err = set.EachListRune(func(codePoint rune) error {
 					runeRange := RuneRange{ First: codePoint, Last: codePoint }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return self.states[state].AppendRange(runeRange, matchRule, self)
 				})
 				if err != nil { return err }
 			}
@@ -169,6 +169,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 			// notice: we don't reset state info here yet, it will have
 			//         to be reset later when we need it again
 			self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
+			self.adjustNextStatesUseCount(state, -1)
 			freedCount += 1
 		} else if freedCount > 0 {
 			self.run.TrackerStatesByDepth[depth][i - freedCount] = state
@@ -181,8 +182,24 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
-type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
-func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+// Interface used by states in order to request and track their next states.
+type StateLinker interface {
+	// Given the current next state of a transition (possibly [StateNone]),
+	// returns the state that has to replace it in order to also include the
+	// rule being compiled.
+	LinkState(StateIndex) (StateIndex, error)
+
+	// Must be called when a transition to the given state is duplicated.
+	AddStateUse(StateIndex)
+}
+
+// Implements [StateLinker].
+func (self *DecisionTreeCompiler) AddStateUse(stateIndex StateIndex) {
+	self.adjustStateUseCount(stateIndex, 1)
+}
+
+// Implements [StateLinker].
+func (self *DecisionTreeCompiler) LinkState(referenceStateIndex StateIndex) (StateIndex, error) {
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
@@ -194,6 +211,7 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		if referenceStateIndex != StateNone {
 			self.states[resultStateIndex].CopyDataFrom(self.states[referenceStateIndex])
 			self.initializeStateRulesWithRef(resultStateIndex, referenceStateIndex)
+			self.adjustNextStatesUseCount(resultStateIndex, 1)
 		} else {
 			self.states[resultStateIndex].Reset()
 			self.initializeStateRules(resultStateIndex)
@@ -204,10 +222,8 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
 	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
 	if referenceStateIndex != StateNone {
-		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
-		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
+		self.adjustStateUseCount(referenceStateIndex, -1)
 	}
 
 	// return resulting state
@@ -303,8 +319,17 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	} else {
 		result = int(self.run.TrackerStateUses[stateIndex]) + delta
 	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
+	if result > 65535 || result < 0 { panic(BrokenCode) }
+	self.run.TrackerStateUses[stateIndex] = uint16(result)
+}
+
+// Adjusts the use count of all the states that can be reached through
+// transitions from the given state.
+func (self *DecisionTreeCompiler) adjustNextStatesUseCount(stateIndex StateIndex, delta int) {
+	for _, transition := range self.states[stateIndex].Transitions {
+		if transition.NextState == StateNone { continue }
+		self.adjustStateUseCount(transition.NextState, delta)
+	}
 }
 
 // The states can't be 0, as 0 is the root, which is treated separately.
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 799e37c..fab7b44 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -52,7 +52,7 @@ func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
 // both fully, partially, or in many different combinations. We need to get each
 // fragment and set up a new transition or adjust an already existing one. This
 // is a tricky method.
-func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn) error {
+func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, stateLinker StateLinker) error {
 	// for the first part, we find candidate transitions and check if our range
 	// begins earlier, later, how much overlap it has, etc.
 	candidateTrans, _ := self.findRuneTransition(runeRange.First)
@@ -61,7 +61,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		splitResult, splitRange := self.confrontRanges(candidateRange, runeRange)
 		switch splitResult {
 		case noSplitPre:
-			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker, 0)
+			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			runeRange.First = splitRange.Last + 1
 			// in theory we wouldn't want to change the candidateTrans, but we added
@@ -69,24 +69,24 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 			// we want to skip it
 			candidateTrans += 1
 		case splitFirstMid:
-			err := self.splitTransitionAt(candidateTrans, splitRange.Last)
+			err := self.splitTransitionAt(candidateTrans, splitRange.Last, stateLinker)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 1)
+			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker)
 			// ^ we terminate here
 		case splitFirstLast:
-			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
+			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			runeRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionBy(candidateTrans, splitRange, stateLinker)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
+			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1, stateLinker)
 			if err != nil { return err }
-			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
+			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			runeRange.First = splitRange.Last + 1
 			candidateTrans += 2
@@ -101,7 +101,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 	// for the final part, we check if there's any remaining range left.
 	// if there is, we allocate it a completely new transition at the end
 	if runeRange.First > runeRange.Last { return nil }
-	return self.insertNewTransition(runeRange, ruleMatchIndex, stateLinker, 0)
+	return self.insertNewTransition(runeRange, ruleMatchIndex, stateLinker)
 }
 
 // ---- internal helper methods ----
@@ -142,7 +142,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange RuneRange) (spli
 	}
 }
 
-func (self *State) insertNewTransition(runeRange RuneRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *State) insertNewTransition(runeRange RuneRange, ruleMatchIndex RuleIndex, stateLinker StateLinker) error {
 	// insert new transition (only runeRange initialized)
 	index, err := self.unsafeInsertUninitializedTransition(runeRange)
 	if err != nil { return err }
@@ -150,7 +150,7 @@ func (self *State) insertNewTransition(runeRange RuneRange, ruleMatchIndex RuleI
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
 	if ruleMatchIndex == RuleNone {
-		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits)
+		self.Transitions[index].NextState, err = stateLinker.LinkState(StateNone)
 		return err
 	} else {
 		self.Transitions[index].NextState = StateNone
@@ -179,7 +179,7 @@ func (self *State) findRuneTransition(codePoint rune) (TransitionIndex, bool) {
 	return TransitionIndex(minIndex), found
 }
 
-func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre rune) error {
+func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre rune, stateLinker StateLinker) error {
 	// shorten existing transition and create new transition for the newly vacated range
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastRuneOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
@@ -189,15 +189,18 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre r
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
 	self.Transitions[newTransIndex].RuleMatch = self.Transitions[transIndex].RuleMatch
+	if self.Transitions[newTransIndex].NextState != StateNone {
+		stateLinker.AddStateUse(self.Transitions[newTransIndex].NextState)
+	}
 	return nil
 }
 
-func (self *State) splitTransitionBy(transIndex TransitionIndex, runeRange RuneRange) error {
+func (self *State) splitTransitionBy(transIndex TransitionIndex, runeRange RuneRange, stateLinker StateLinker) error {
 	// note: there are more efficient ways to do this, but this 
 	//       is comfy and kinda acceptable for the moment I guess
-	err := self.splitTransitionAt(transIndex, runeRange.First - 1)
+	err := self.splitTransitionAt(transIndex, runeRange.First - 1, stateLinker)
 	if err != nil { return err }
-	return self.splitTransitionAt(transIndex + 1, runeRange.Last)
+	return self.splitTransitionAt(transIndex + 1, runeRange.Last, stateLinker)
 }
 
 // Helper method for insertNewTransition() and splitTransition*.
diff --git a/internal/rerules/utf8rule/decision_tree_transition.go b/internal/rerules/utf8rule/decision_tree_transition.go
index b4b472d..9a31780 100644
--- a/internal/rerules/utf8rule/decision_tree_transition.go
+++ b/internal/rerules/utf8rule/decision_tree_transition.go
@@ -11,7 +11,7 @@ type Transition struct {
 	NextState StateIndex // StateNone (255) is reserved for "none"
 }
 
-func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinker) error {
 	if ruleMatchIndex != RuleNone { // on rule match, state addition stops
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
@@ -19,7 +19,7 @@ func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn
 		return nil
 	} else { // add next state
 		var err error
-		self.NextState, err = stateLinker(self.NextState, numSplits)
+		self.NextState, err = stateLinker.LinkState(self.NextState)
 		return err
 	}
 }
-- 
2.43.0


From 87f694b7079aa9ad936b577d8a420d5000c3087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 46/64] fix: decision tree states must survive reallocations
 while linking

---
 .../rerules/glyphrule/decision_tree_compiler.go   | 15 ++++++++++++---
 .../rerules/utf8rule/decision_tree_compiler.go    | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index a0e6703..c71c76b 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -120,19 +120,19 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				if glyphSet != GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-				err := self.states[state].AppendRange(glyphRange, matchRule, self)
+				err := self.appendRange(state, glyphRange, matchRule)
 				if err != nil { return err }
 			} else { // glyph set case
 				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
-					return self.states[state].AppendRange(glyphRange, matchRule, self)
+					return self.appendRange(state, glyphRange, matchRule)
 				})
 				if err != nil { return err }
 				err = set.EachListGlyph(func(glyphIndex ggfnt.GlyphIndex) error {
 					glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-					return self.states[state].AppendRange(glyphRange, matchRule, self)
+					return self.appendRange(state, glyphRange, matchRule)
 				})
 				if err != nil { return err }
 			}
@@ -151,6 +151,15 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 
 // ---- unexported ----
 
+func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex) error {
+	// the states slice might be reallocated while linking
+	// new states, so we have to operate on a state copy
+	state := self.states[stateIndex]
+	err := state.AppendRange(glyphRange, ruleMatchIndex, self)
+	self.states[stateIndex] = state
+	return err
+}
+
 func (self *DecisionTreeCompiler) freeUnusedStates() {
 	if self.run.Depth == 0 { return } // no state at depth 0
 
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 21041dc..459c77b 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -120,7 +120,7 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				if utf8Set != Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				runeRange := RuneRange{ First: codePoint, Last: codePoint }
-				err := self.states[state].AppendRange(runeRange, matchRule, self)
+				err := self.appendRange(state, runeRange, matchRule)
 				if err != nil { return err }
 			} else { // utf8 set case
 				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
@@ -128,12 +128,12 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-					return self.states[state].AppendRange(runeRange, matchRule, self)
+					return self.appendRange(state, runeRange, matchRule)
 				})
 				if err != nil { return err }
 				err = set.EachListRune(func(codePoint rune) error {
 					runeRange := RuneRange{ First: codePoint, Last: codePoint }
-					return self.states[state].AppendRange(runeRange, matchRule, self)
+					return self.appendRange(state, runeRange, matchRule)
 				})
 				if err != nil { return err }
 			}
@@ -152,6 +152,15 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 
 // ---- unexported ----
 
+func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, runeRange RuneRange, ruleMatchIndex RuleIndex) error {
+	// the states slice might be reallocated while linking
+	// new states, so we have to operate on a state copy
+	state := self.states[stateIndex]
+	err := state.AppendRange(runeRange, ruleMatchIndex, self)
+	self.states[stateIndex] = state
+	return err
+}
+
 func (self *DecisionTreeCompiler) freeUnusedStates() {
 	if self.run.Depth == 0 { return } // no state at depth 0
 
-- 
2.43.0


From 1f7a9b9b6cd43aea4b1bab5e7fb7f4ec52a0755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 47/64] fix: overlapping ranges within a set broke rule
 compilation

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 5 +++--
 internal/rerules/utf8rule/decision_tree_compiler.go  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index c71c76b..dfeeeee 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -259,8 +259,9 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
 			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
-			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			if rules[i] == self.run.RuleIndex { // rule already included
+				return referenceStateIndex
+			}
 		}
 	}
 
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 459c77b..83288a2 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -260,8 +260,9 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
 			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
-			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			if rules[i] == self.run.RuleIndex { // rule already included
+				return referenceStateIndex
+			}
 		}
 	}
 
-- 
2.43.0


From 08cc3c04816b067733b0c8dc398a0d3d4013d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 48/64] fix: avoid range overflows when compiling rules

---
 internal/rerules/glyphrule/decision_tree_state.go | 3 +++
 internal/rerules/utf8rule/decision_tree_state.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index 891ba64..f59dba0 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -64,6 +64,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		case noSplitPre:
 			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker)
 			if err != nil { return err }
+			if splitRange.Last == glyphRange.Last { return nil } // done, avoid overflows too
 			glyphRange.First = splitRange.Last + 1
 			// in theory we wouldn't want to change the candidateTrans, but we added
 			// a new transition that will be placed exactly on candidateTrans, so
@@ -77,6 +78,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		case splitFirstLast:
 			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
+			if splitRange.Last == glyphRange.Last { return nil } // done, avoid overflows too
 			glyphRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
@@ -89,6 +91,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
+			if splitRange.Last == glyphRange.Last { return nil } // done, avoid overflows too
 			glyphRange.First = splitRange.Last + 1
 			candidateTrans += 2
 		case noSplitPost:
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index fab7b44..13271ae 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -63,6 +63,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		case noSplitPre:
 			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker)
 			if err != nil { return err }
+			if splitRange.Last == runeRange.Last { return nil } // done, avoid overflows too
 			runeRange.First = splitRange.Last + 1
 			// in theory we wouldn't want to change the candidateTrans, but we added
 			// a new transition that will be placed exactly on candidateTrans, so
@@ -76,6 +77,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		case splitFirstLast:
 			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
+			if splitRange.Last == runeRange.Last { return nil } // done, avoid overflows too
 			runeRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
@@ -88,6 +90,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
+			if splitRange.Last == runeRange.Last { return nil } // done, avoid overflows too
 			runeRange.First = splitRange.Last + 1
 			candidateTrans += 2
 		case noSplitPost:
-- 
2.43.0


From 357e2029be9f16070e9ffa47630e413637bd45e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:18 +0000
Subject: [PATCH 49/64] fix: empty sets broke rule compilation

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 1 +
 internal/rerules/utf8rule/decision_tree_compiler.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index dfeeeee..81701e4 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -169,6 +169,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	// remaining state indices to fill any gaps created
 	var freedCount int = 0
 	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
+	if int(depth) >= len(self.run.TrackerStatesByDepth) { return } // possible with empty sets
 	
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 83288a2..54cabd8 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -170,6 +170,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	// remaining state indices to fill any gaps created
 	var freedCount int = 0
 	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
+	if int(depth) >= len(self.run.TrackerStatesByDepth) { return } // possible with empty sets
 	
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
-- 
2.43.0


From a2f43aad66f709adddba020dec49d697762f6101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 50/64] fix: rewrite rule scanner fragment control validation

---
 internal/rerules/glyphrule/rule_scanner.go | 9 ++++++---
 internal/rerules/utf8rule/rule_scanner.go  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index bb6446e..d8909fb 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -45,6 +45,9 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(self.rule.Data) || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.ErrInvalidReRule
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -54,9 +57,7 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -139,6 +140,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if int(self.dataIndex) >= len(self.rule.Data) { return rerules.ErrInvalidReRule }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets   = (ctrl & 0b1111_0000) >> 4
@@ -147,6 +149,7 @@ func (self *RuleScanner) parseFragmentControl() error {
 	self.accumulatedBlockGlyphs += self.remainingGlyphs
 	numElems := self.remainingSets + self.remainingGlyphs
 	if numElems == 0 {
+		if self.HasNext() { return rerules.ErrInvalidReRule } // only valid for empty tails
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs != self.rule.Data[1 + int(self.block)] {
 			return rerules.ErrInvalidReRule
 		}
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 9ee5366..32c2685 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -44,6 +44,9 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(self.rule.Data) || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.InvalidUtf8RuleErr(rule)
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -53,9 +56,7 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -137,6 +138,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if int(self.dataIndex) >= len(self.rule.Data) { return rerules.InvalidUtf8RuleErr(self.rule) }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets = (ctrl & 0b1111_0000) >> 4
@@ -145,6 +147,7 @@ func (self *RuleScanner) parseFragmentControl() error {
 	self.accumulatedBlockCodePoints += self.remainingCodePoints
 	numElems := self.remainingSets + self.remainingCodePoints
 	if numElems == 0 {
+		if self.HasNext() { return rerules.InvalidUtf8RuleErr(self.rule) } // only valid for empty tails
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints != self.rule.Data[1 + int(self.block)] {
 			return rerules.InvalidUtf8RuleErr(self.rule)
 		}
-- 
2.43.0


From 6b9c11193251ace48eab61aada89d50e578ca130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 51/64] fix: report rules with undefined sets instead of
 panicking

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 3 +++
 internal/rerules/utf8rule/decision_tree_compiler.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 81701e4..c90a9ae 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -125,6 +126,8 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 			} else { // glyph set case
 				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
+				numSets := self.run.Font.Rewrites().NumGlyphSets()
+				if uint8(glyphSet) >= numSets { return rerules.ErrInvalidReRule }
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
 					return self.appendRange(state, glyphRange, matchRule)
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 54cabd8..dd43c12 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -125,6 +126,8 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 			} else { // utf8 set case
 				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
 	
+				numSets := self.run.Font.Rewrites().NumUTF8Sets()
+				if uint8(utf8Set) >= numSets { return rerules.InvalidUtf8RuleErr(rule) }
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-- 
2.43.0


From 3d7151f98a33a838b5fdd7bde4ae9270444f1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 52/64] fix: report short writes at any point while exporting
 fonts

---
 font.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/font.go b/font.go
index 2274a19..c1aa30c 100644
--- a/font.go
+++ b/font.go
@@ -30,6 +30,7 @@ const invalidFontData = "invalid font data" // used for panics
 // --- general methods ---
 
 func (self *Font) Export(writer io.Writer) error {
+	writer = fullWriter{ writer } // (compressors don't check for short writes themselves)
 	n, err := writer.Write([]byte{'t', 'g', 'g', 'f', 'n', 't'})
 	if err != nil { return err }
 	if n != 6 { return errors.New("short write") }
@@ -41,6 +42,14 @@ func (self *Font) Export(writer io.Writer) error {
 	return gzipWriter.Close()
 }
 
+// Wrapper that reports writers accepting less data than given as errors.
+type fullWriter struct { writer io.Writer }
+func (self fullWriter) Write(buffer []byte) (int, error) {
+	n, err := self.writer.Write(buffer)
+	if err == nil && n < len(buffer) { err = io.ErrShortWrite }
+	return n, err
+}
+
 func (self *Font) RawSize() int {
 	return len(self.Data)
 }
-- 
2.43.0


From b0425278ba742a42106e9c23b59beca28a6c801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 53/64] fix: accept fonts with empty rewrite sets (the builder
 can export them)

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 64d6bf4..49567c8 100644
--- a/parse.go
+++ b/parse.go
@@ -353,7 +353,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		utf8SetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(utf8SetsLen) < 1 + int(numUtf8Sets)*5 {
+		if int(utf8SetsLen) < int(numUtf8Sets)*2 {
 			return &font, parser.NewError("UTF8SetEndOffsets declares UTF8Sets to end before allowed")
 		}
 
@@ -371,7 +371,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		glyphSetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(glyphSetsLen) < 1 + int(numGlyphSets)*3 {
+		if int(glyphSetsLen) < int(numGlyphSets)*2 {
 			return &font, parser.NewError("GlyphSetEndOffsets declares GlyphSets to end before allowed")
 		}
 
-- 
2.43.0


From b17eb1e87c83a6cc3a52f4c2c4a3dc9c3aa03293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:25 +0000
Subject: [PATCH 54/64] fix: fail instead of hanging when readers keep
 returning no data at the signature or in stored blocks

---
 builder/font_builder.go    |  2 +-
 internal/parsing_buffer.go | 12 ++++++++----
 parse.go                   |  2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 1c33635..72f1d80 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -699,7 +699,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 	parser.FileType = "ggwkfnt"
 
 	// read signature first (this is not gzipped, so it's important)
-	reader = bufio.NewReader(internal.NewSizeLimitedReader(reader)) // (bufio also protects from readers that keep returning 0 bytes and no error)
+	reader = bufio.NewReader(internal.NewSizeLimitedReader(reader))
 	_, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil {
 		return parser.NewError("failed to read file signature")
diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index ff59fe4..0d502a6 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -50,6 +50,7 @@ func (self *ParsingBuffer) EnsureEOF() error {
 
 // Reader wrapper that fails once the underlying reader goes beyond
 // [MaxFontDataSize] bytes, as the limit also applies to the total file size.
+// It also fails if the underlying reader keeps returning 0 bytes and no error.
 type SizeLimitedReader struct {
 	reader io.Reader
 	remaining int
@@ -62,10 +63,13 @@ func NewSizeLimitedReader(reader io.Reader) *SizeLimitedReader {
 func (self *SizeLimitedReader) Read(buffer []byte) (int, error) {
 	if self.remaining < 0 { return 0, errors.New("file size exceeds limit") }
 	if len(buffer) > self.remaining + 1 { buffer = buffer[ : self.remaining + 1] }
-	n, err := self.reader.Read(buffer)
-	self.remaining -= n
-	if self.remaining < 0 { return 0, errors.New("file size exceeds limit") }
-	return n, err
+	for retries := 0; retries < 100; retries++ {
+		n, err := self.reader.Read(buffer)
+		self.remaining -= n
+		if self.remaining < 0 { return 0, errors.New("file size exceeds limit") }
+		if n != 0 || err != nil || len(buffer) == 0 { return n, err }
+	}
+	return 0, io.ErrNoProgress
 }
 
 // utility function called to read more data
diff --git a/parse.go b/parse.go
index 49567c8..eb62e09 100644
--- a/parse.go
+++ b/parse.go
@@ -57,7 +57,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if traceParsing { fmt.Printf("starting parsing...\n") }
 
 	// read signature first (this is not gzipped, so it's important)
-	reader = bufio.NewReader(internal.NewSizeLimitedReader(reader)) // (bufio also protects from readers that keep returning 0 bytes and no error)
+	reader = bufio.NewReader(internal.NewSizeLimitedReader(reader))
 	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil {
 		if n == 0 {
-- 
2.43.0


From d745dfdb1bc50b4f7449d2b9d7b444a1f72295d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:46 +0000
Subject: [PATCH 55/64] fix: never use the same UID for a glyph and a glyph set

---
 builder/font_builder_props.go        | 3 ++-
 builder/font_builder_rewrite_sets.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index d9dfc95..7d2035e 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -203,7 +203,8 @@ func (self *Font) AddGlyph(glyphMask *image.Alpha) (uint64, error) {
 		glyphUID, err := internal.CryptoRandUint64()
 		if err != nil { return 0, err } // I'm not sure this can ever happen
 		_, alreadyExists := self.glyphData[glyphUID]
-		if !alreadyExists && glyphUID != uint64(ggfnt.GlyphMissing) {
+		_, isSet := self.rewriteGlyphSets[glyphUID] // (rewrite rules can use both glyphs and sets)
+		if !alreadyExists && !isSet && glyphUID != uint64(ggfnt.GlyphMissing) {
 			self.glyphData[glyphUID] = &glyphData{
 				Name: "",
 				Placement: ggfnt.GlyphPlacement{
diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index c97cbd6..f54e258 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -66,7 +66,8 @@ func (self *Font) CreateGlyphSet() (uint64, error) {
 	uid, err := internal.CryptoRandUint64()
 	if err != nil { return 0, err } // don't think this can ever happen
 	_, found := self.rewriteGlyphSets[uid]
-	if found { return 0, errors.New("failed to generate unique glyph set UID") } // *
+	_, isGlyph := self.glyphData[uid] // (rewrite rules can use both glyphs and sets)
+	if found || isGlyph { return 0, errors.New("failed to generate unique glyph set UID") } // *
 	// * if this is triggered, start playing the lottery more often
 	if self.rewriteGlyphSets == nil { self.rewriteGlyphSets = make(map[uint64]reGlyphSet) }
 	self.rewriteGlyphSets[uid] = reGlyphSet{}
-- 
2.43.0


From ff29189b9b6653710868d1e2f7eac10a7b51f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:24 +0000
Subject: [PATCH 56/64] fix: testers must be usable after callbacks that panic

---
 internal/rerules/glyphrule/tester.go | 18 ++++++++++++++++++
 internal/rerules/utf8rule/tester.go  | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 77c56c7..c24d28d 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -15,6 +15,7 @@ type Tester struct {
 	unflushedTail uint8
 	needsRecompile bool
 	isOperating bool
+	isInterrupted bool // a callback panicked while confirming elements
 }
 
 // --- general operations ---
@@ -117,6 +118,9 @@ func (self *Tester) Feed(glyphIndex ggfnt.GlyphIndex, fn GlyphConfirmationFunc)
 		return errors.New("unxpected control glyph index '" + strconv.Itoa(int(glyphIndex)) + "'")
 	}
 	
+	self.resumeIfInterrupted(fn)
+	self.isInterrupted = true // until proven otherwise
+
 	// feed glyph and see if we stopped running
 	self.accumulator.Push(glyphIndex)
 	detectionRunning := self.treesFeedUnrestrictedGlyph(glyphIndex)
@@ -130,12 +134,15 @@ func (self *Tester) Feed(glyphIndex ggfnt.GlyphIndex, fn GlyphConfirmationFunc)
 		for self.rerunDetection(fn) {}
 	}
 
+	self.isInterrupted = false
 	return nil
 }
 
 func (self *Tester) Break(fn GlyphConfirmationFunc) {
 	if !self.isOperating { panic(PreViolation) }
 	
+	self.resumeIfInterrupted(fn)
+	self.isInterrupted = true // until proven otherwise
 	for self.accumulator.Size() > uint16(self.unflushedTail) {
 		matchRuleIndex := self.treesGetBestMatch()
 		if matchRuleIndex == RuleNone {
@@ -151,6 +158,7 @@ func (self *Tester) Break(fn GlyphConfirmationFunc) {
 	self.accumulator.Clear()
 	self.unflushedTail = 0
 	self.treesRestartDetection()
+	self.isInterrupted = false
 }
 
 func (self *Tester) FinishSequence(fn GlyphConfirmationFunc) {
@@ -160,6 +168,16 @@ func (self *Tester) FinishSequence(fn GlyphConfirmationFunc) {
 
 // ---- internal helper methods ----
 
+// If the previous operation was interrupted by a panic on the callback, the
+// decision trees and the accumulator are out of sync. We need to run the
+// detection again for the elements that are still pending.
+func (self *Tester) resumeIfInterrupted(fn GlyphConfirmationFunc) {
+	if !self.isInterrupted { return }
+	self.treesRestartDetection()
+	for self.rerunDetection(fn) {}
+	self.isInterrupted = false
+}
+
 func (self *Tester) findTreeByCondition(condition uint8) (int, bool) {
 	numTrees := len(self.trees)
 	start, end := 0, numTrees
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index d279989..2633ab0 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -16,6 +16,7 @@ type Tester struct {
 	unflushedTail uint8
 	needsRecompile bool
 	isOperating bool
+	isInterrupted bool // a callback panicked while confirming elements
 }
 
 // --- general operations ---
@@ -117,6 +118,9 @@ func (self *Tester) Feed(codePoint rune, fn Utf8ConfirmationFunc) error {
 		return errors.New("invalid rune " + strconv.Itoa(int(codePoint)) + "")
 	}
 	
+	self.resumeIfInterrupted(fn)
+	self.isInterrupted = true // until proven otherwise
+
 	// feed code point and see if we stopped running
 	self.accumulator.Push(codePoint)
 	detectionRunning := self.treesFeedUnrestrictedRune(codePoint)
@@ -130,12 +134,15 @@ func (self *Tester) Feed(codePoint rune, fn Utf8ConfirmationFunc) error {
 		for self.rerunDetection(fn) {}
 	}
 
+	self.isInterrupted = false
 	return nil
 }
 
 func (self *Tester) Break(fn Utf8ConfirmationFunc) {
 	if !self.isOperating { panic(PreViolation) }
 	
+	self.resumeIfInterrupted(fn)
+	self.isInterrupted = true // until proven otherwise
 	for self.accumulator.Size() > uint16(self.unflushedTail) {
 		matchRuleIndex := self.treesGetBestMatch()
 		if matchRuleIndex == RuleNone {
@@ -151,6 +158,7 @@ func (self *Tester) Break(fn Utf8ConfirmationFunc) {
 	self.accumulator.Clear()
 	self.unflushedTail = 0
 	self.treesRestartDetection()
+	self.isInterrupted = false
 }
 
 func (self *Tester) FinishSequence(fn Utf8ConfirmationFunc) {
@@ -160,6 +168,16 @@ func (self *Tester) FinishSequence(fn Utf8ConfirmationFunc) {
 
 // ---- internal helper methods ----
 
+// If the previous operation was interrupted by a panic on the callback, the
+// decision trees and the accumulator are out of sync. We need to run the
+// detection again for the elements that are still pending.
+func (self *Tester) resumeIfInterrupted(fn Utf8ConfirmationFunc) {
+	if !self.isInterrupted { return }
+	self.treesRestartDetection()
+	for self.rerunDetection(fn) {}
+	self.isInterrupted = false
+}
+
 func (self *Tester) findTreeByCondition(condition uint8) (int, bool) {
 	numTrees := len(self.trees)
 	start, end := 0, numTrees
-- 
2.43.0


From 69b8e454a95e0395ed898fc05d6a8d75a8bf7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 57/64] fix: report rules with undefined conditions instead of
 panicking

---
 internal/rerules/glyphrule/tester.go | 10 ++++++++++
 internal/rerules/utf8rule/tester.go  | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index c24d28d..77402fd 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -197,6 +197,9 @@ func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCac
 	// base case, not needed in general, but allows font and settings to be nil
 	if condition == 255 { return true }
 
+	// undefined conditions can't be satisfied (reported on recompile)
+	if !self.isDefinedCondition(condition, font) { return false }
+
 	// general case
 	satisfied, cached := settingsCache.GetRewriteCondition(condition)
 	if !cached {
@@ -206,6 +209,10 @@ func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCac
 	return satisfied
 }
 
+func (self *Tester) isDefinedCondition(condition uint8, font *ggfnt.Font) bool {
+	return condition == 255 || condition < font.Rewrites().NumConditions()
+}
+
 func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	// assume no concurrent tester recompilations will happen.
 	// if they happen.. performance might struggle but behavior
@@ -233,6 +240,9 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 			for ruleIndex, _ := range self.rules {
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
+					if !self.isDefinedCondition(tree.Condition, font) {
+						return rerules.ErrInvalidReRule
+					}
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
 					if err != nil { return err }
 					numRulesFound += 1
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 2633ab0..858ad78 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -197,6 +197,9 @@ func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCac
 	// base case, not needed in general, but allows font and settings to be nil
 	if condition == 255 { return true }
 
+	// undefined conditions can't be satisfied (reported on recompile)
+	if !self.isDefinedCondition(condition, font) { return false }
+
 	// general case
 	satisfied, cached := settingsCache.GetRewriteCondition(condition)
 	if !cached {
@@ -206,6 +209,10 @@ func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCac
 	return satisfied
 }
 
+func (self *Tester) isDefinedCondition(condition uint8, font *ggfnt.Font) bool {
+	return condition == 255 || condition < font.Rewrites().NumConditions()
+}
+
 func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	// assume no concurrent tester recompilations will happen.
 	// if they happen.. performance might struggle but behavior
@@ -233,6 +240,9 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 			for ruleIndex, _ := range self.rules {
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
+					if !self.isDefinedCondition(tree.Condition, font) {
+						return rerules.InvalidUtf8RuleErr(self.rules[ruleIndex])
+					}
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
 					if err != nil { return err }
 					numRulesFound += 1
-- 
2.43.0


From 585ae3b0b0b03bfdae1bfbe590ae0980bc9c5408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 58/64] fix: report truncated rewrite rules instead of
 accepting them

---
 internal/rerules/glyphrule/rule_scanner.go | 1 +
 internal/rerules/utf8rule/rule_scanner.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index d8909fb..d88f70d 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -154,6 +154,7 @@ func (self *RuleScanner) parseFragmentControl() error {
 			return rerules.ErrInvalidReRule
 		}
 	} else {
+		if !self.HasNext() { return rerules.ErrInvalidReRule } // missing data
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs < self.accumulatedBlockSets {
 			return rerules.ErrInvalidReRule // ^ overflow
 		}
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 32c2685..d2f9859 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -152,6 +152,7 @@ func (self *RuleScanner) parseFragmentControl() error {
 			return rerules.InvalidUtf8RuleErr(self.rule)
 		}
 	} else {
+		if !self.HasNext() { return rerules.InvalidUtf8RuleErr(self.rule) } // missing data
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints < self.accumulatedBlockSets {
 			return rerules.InvalidUtf8RuleErr(self.rule) // ^ overflow
 		}
-- 
2.43.0


From e111dca0d12d1b748f364d9ee293014cd53ad58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:53 +0000
Subject: [PATCH 59/64] fix: report rewrite rules with the reserved set 255
 instead of panicking

---
 internal/rerules/glyphrule/rule_scanner.go | 3 +++
 internal/rerules/utf8rule/rule_scanner.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index d88f70d..b159386 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -82,6 +82,9 @@ func (self *RuleScanner) Next() (ggfnt.GlyphIndex, GlyphSetIndex, error) {
 		}
 
 		set := GlyphSetIndex(self.rule.Data[self.dataIndex])
+		if set == GlyphSetNone { // can't be defined
+			return GlyphNone, GlyphSetNone, rerules.ErrInvalidReRule
+		}
 		self.dataIndex += 1
 		if int(self.dataIndex) >= len(self.rule.Data) {
 			err := self.checkTermination()
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index d2f9859..b702d8d 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -80,6 +80,9 @@ func (self *RuleScanner) Next() (rune, Utf8SetIndex, error) {
 		}
 
 		set := Utf8SetIndex(self.rule.Data[self.dataIndex])
+		if set == Utf8SetNone { // can't be defined
+			return RuneError, Utf8SetNone, rerules.InvalidUtf8RuleErr(self.rule)
+		}
 		self.dataIndex += 1
 		if int(self.dataIndex) >= len(self.rule.Data) {
 			err := self.checkTermination()
-- 
2.43.0


From 12453e817f87850e663da521fd3e2e86e88e013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:26 +0000
Subject: [PATCH 60/64] fix: refuse mappings beyond the mapping entry limit

Mapping more code points than a font can hold was accepted by the
builder, and Build panicked afterwards with an invalid internal state.
---
 builder/font_builder_mapping.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 96fc253..b06bd53 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -134,6 +134,9 @@ func (self *Font) Map(codePoint rune, glyphUID uint64) error {
 		return errors.New("attempted to map '" + string(codePoint) + "' to an undefined glyph")
 	}
 
+	err := self.validateMapEntryLimit(codePoint)
+	if err != nil { return err }
+
 	// actual addition
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: 255,
@@ -157,6 +160,8 @@ func (self *Font) MapGroup(codePoint rune, animFlags ggfnt.AnimationFlags, glyph
 	// glyph UIDs validation
 	err := self.validateMapGlyphs(codePoint, glyphUIDs...)
 	if err != nil { return err }
+	err = self.validateMapEntryLimit(codePoint)
+	if err != nil { return err }
 
 	// actual addition
 	self.runeMapping[codePoint] = mappingEntry{
@@ -176,6 +181,15 @@ func (self *Font) validateMapGlyphs(codePoint rune, glyphUIDs ...uint64) error {
 	return nil
 }
 
+// Remapping code points is always possible.
+func (self *Font) validateMapEntryLimit(codePoint rune) error {
+	_, alreadyMapped := self.runeMapping[codePoint]
+	if !alreadyMapped && len(self.runeMapping) >= ggfnt.MaxGlyphs {
+		return errors.New("reached font mapping entry count limit")
+	}
+	return nil
+}
+
 func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUIDs ...uint64) error {
 	// basic validation
 	if codePoint < ' ' {
@@ -194,6 +208,8 @@ func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUID
 	
 	err := self.validateMapGlyphs(codePoint, glyphUIDs...)
 	if err != nil { return err }
+	err = self.validateMapEntryLimit(codePoint)
+	if err != nil { return err }
 
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for _, glyphUID := range glyphUIDs {
@@ -240,6 +256,8 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	if animFlagIndex != len(animFlags) {
 		return errors.New("number of animation flags doesn't match number of multi-glyph groups")
 	}
+	err := self.validateMapEntryLimit(codePoint)
+	if err != nil { return err }
 	
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for i, group := range glyphUIDs {
-- 
2.43.0


From be1e60e3d7f06f5aa364aa8bcd32d881f3d8bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:26 +0000
Subject: [PATCH 61/64] fix: refuse rewrite rules beyond the rule count limits

Adding more utf8 or glyph rewrite rules than a font can hold was
accepted by the builder, and Build panicked afterwards with an invalid
internal state.
---
 builder/font_builder_rewrite_rules.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index bf05a28..dae7eed 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -216,6 +216,7 @@ func (self *utf8RewriteRule) appendAccumulatedInBlock(data []byte, groups []uint
 func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) error {
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
+	if len(self.utf8Rules) >= 65535 { return errors.New("reached utf8 rewrite rule count limit") }
 	
 	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: slices.Clone(sequence), output: []rune{replacement} }
 	for i := 0; i < len(sequence); i++ {
@@ -250,6 +251,8 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 		if !found { return errors.New("invalid rewrite rule output glyph UID") }
 	}
 
+	if len(self.glyphRules) >= 65535 { return errors.New("reached glyph rewrite rule count limit") }
+
 	// create rule
 	rule := glyphRewriteRule{ condition: 255 }
 
-- 
2.43.0


From 62405a29b5fa3a1ee145db10fc500c8b120b6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:37 +0000
Subject: [PATCH 62/64] fix: encode masks that are part of a bigger image

Masks obtained with SubImage were accepted by the builder, and Build
panicked afterwards due to their stride.
---
 mask/encoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index 864b62f..1192015 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -119,9 +119,9 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 
 func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 	maskCopy := image.NewAlpha(mask.Rect)
-	copy(maskCopy.Pix, mask.Pix)
-	if mask.Stride != maskCopy.Stride {
-		panic("mask.Stride != maskCopy.Stride")
+	width := mask.Rect.Dx()
+	for row := 0; row < mask.Rect.Dy(); row++ { // strides can differ (e.g. sub-images)
+		copy(maskCopy.Pix[row*maskCopy.Stride : ], mask.Pix[row*mask.Stride : row*mask.Stride + width])
 	}
 
 	// find isolated pixels and diagonals (only down-left/down-right)
-- 
2.43.0


From 8b0330ac7285b637aba38287f172805317f23447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:07 +0000
Subject: [PATCH 63/64] fix: encode glyph masks with long distances instead of
 panicking

Masks with pixels more than 128 pixels away from the origin or from
each other, or with areas of more than 256 pixels in any direction
(fonts with big ascents, wide glyphs), were accepted by the builder, and
Build panicked afterwards.
---
 mask/encoder.go | 69 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 6 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index 1192015..6d604a8 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -3,6 +3,9 @@ package mask
 import "sort"
 import "image"
 
+const maxMoveDist = 128
+const maxDrawSize = 256
+
 type Encoder struct {
 	fragments []rasterFragment
 }
@@ -17,6 +20,9 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	// empty mask case
 	if len(self.fragments) == 0 { return data }
 
+	// fragments can't be bigger than the draw sizes that can be encoded
+	self.splitBigFragments()
+
 	// sort by palette index and (y, x)
 	sort.Slice(self.fragments, func(i, j int) bool {
 		if self.fragments[i].value > self.fragments[j].value { return true  } // higher value goes first
@@ -32,6 +38,16 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	value := uint8(255) // default palette index value
 	var payload [8]byte
 	for i := 0; i < len(self.fragments); i++ {
+		// encode separate moves if the target is too far for a single move
+		xDist, yDist := self.fragments[i].GetDistsFrom(x, y)
+		for max(xDist, -xDist, yDist, -yDist) > maxMoveDist {
+			xMove := max(min(xDist, maxMoveDist), -maxMoveDist)
+			yMove := max(min(yDist, maxMoveDist), -maxMoveDist)
+			data = appendMove(data, xMove, yMove)
+			x, y = x + xMove, y + yMove
+			xDist, yDist = xDist - xMove, yDist - yMove
+		}
+
 		// reset payload control code and payload size
 		var payloadSize int = 1
 		payload[0] = 0
@@ -47,9 +63,7 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 		}
 
 		// encode pre-moves to reach the target
-		xDist, yDist := self.fragments[i].GetDistsFrom(x, y)
 		if xDist != 0 {
-			if xDist < -128 || xDist > 128 { panic("distances > 128 unimplemented") } // not too hard to do
 			payload[0] |= 0b0000_0010
 			if xDist > 0 {
 				payload[payloadSize] = uint8(int8(xDist - 1)) // nzint8 conversion
@@ -63,7 +77,6 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 				payload[0] |= 0b0000_1000
 			} else {
 				payload[0] |= 0b0000_0100
-				if yDist < -128 || yDist > 128 { panic("distances > 128 unimplemented") } // not too hard to do
 				if yDist > 0 {
 					payload[payloadSize] = uint8(int8(yDist - 1)) // nzint8 conversion
 				} else {
@@ -81,7 +94,6 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 			payload[0] |= 0b0001_0000 // diagonal marker
 			if xDraw > 0 {
 				payload[0] |= 0b0010_0000
-				if xDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
 				payload[payloadSize] = uint8(xDraw - 1)
 				payloadSize += 1
 			}
@@ -93,14 +105,12 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 			if xDraw > 0 && (xDraw > 1 || yDraw <= 1) {
 				payload[0] |= 0b0010_0000
 				if yDraw == 1 { yDraw = 0 }
-				if xDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
 				payload[payloadSize] = uint8(xDraw - 1)
 				payloadSize += 1
 			}
 
 			if yDraw > 0 {
 				payload[0] |= 0b0100_0000
-				if yDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
 				payload[payloadSize] = uint8(yDraw - 1)
 				payloadSize += 1
 			}
@@ -117,6 +127,53 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	return data
 }
 
+// Encodes a move without drawing anything.
+func appendMove(data []byte, xMove, yMove int) []byte {
+	ctrlIndex := len(data)
+	data = append(data, 0)
+	if xMove != 0 {
+		data[ctrlIndex] |= ctrlFlagPreHorzMove
+		data = append(data, intAsNzint8(xMove))
+	}
+	if yMove != 0 {
+		data[ctrlIndex] |= ctrlFlagPreVertMove
+		data = append(data, intAsNzint8(yMove))
+	}
+	return data
+}
+
+func intAsNzint8(value int) uint8 {
+	if value > 0 { return uint8(int8(value - 1)) }
+	return uint8(int8(value))
+}
+
+func (self *Encoder) splitBigFragments() {
+	for i := 0; i < len(self.fragments); { // (new fragments can be added while iterating)
+		fragment := &self.fragments[i]
+		rest := *fragment
+		width, height := fragment.GetDrawSizes()
+		if width > maxDrawSize {
+			fragment.maxX = fragment.minX + maxDrawSize - 1
+			rest.minX = fragment.maxX + 1
+			switch fragment.diagonalType {
+			case diagAsc:
+				fragment.minY = fragment.maxY - maxDrawSize + 1
+				rest.maxY = fragment.minY - 1
+			case diagDesc:
+				fragment.maxY = fragment.minY + maxDrawSize - 1
+				rest.minY = fragment.maxY + 1
+			}
+			self.fragments = append(self.fragments, rest)
+		} else if height > maxDrawSize { // (diagonals always have the same width and height)
+			fragment.maxY = fragment.minY + maxDrawSize - 1
+			rest.minY = fragment.maxY + 1
+			self.fragments = append(self.fragments, rest)
+		} else {
+			i += 1
+		}
+	}
+}
+
 func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 	maskCopy := image.NewAlpha(mask.Rect)
 	width := mask.Rect.Dx()
-- 
2.43.0


From ab494d64b707ab995ef908e41c9c5b49133e52c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:04 +0000
Subject: [PATCH 64/64] fix: report read errors returned along data by readers
 that work afterwards

---
 internal/parsing_buffer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 0d502a6..b173e46 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -51,9 +51,12 @@ func (self *ParsingBuffer) EnsureEOF() error {
 // Reader wrapper that fails once the underlying reader goes beyond
 // [MaxFontDataSize] bytes, as the limit also applies to the total file size.
 // It also fails if the underlying reader keeps returning 0 bytes and no error.
+// Errors are kept, as the ones returned along data can be easily lost otherwise
+// (e.g. io.ReadFull ignores them if enough data has been read).
 type SizeLimitedReader struct {
 	reader io.Reader
 	remaining int
+	err error
 }
 
 func NewSizeLimitedReader(reader io.Reader) *SizeLimitedReader {
@@ -61,12 +64,14 @@ func NewSizeLimitedReader(reader io.Reader) *SizeLimitedReader {
 }
 
 func (self *SizeLimitedReader) Read(buffer []byte) (int, error) {
+	if self.err != nil { return 0, self.err }
 	if self.remaining < 0 { return 0, errors.New("file size exceeds limit") }
 	if len(buffer) > self.remaining + 1 { buffer = buffer[ : self.remaining + 1] }
 	for retries := 0; retries < 100; retries++ {
 		n, err := self.reader.Read(buffer)
 		self.remaining -= n
 		if self.remaining < 0 { return 0, errors.New("file size exceeds limit") }
+		self.err = err
 		if n != 0 || err != nil || len(buffer) == 0 { return n, err }
 	}
 	return 0, io.ErrNoProgress
-- 
2.43.0


From 51e242f75995a15f9f26287ab6f3e75a0eb6f669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:34 +0000
Subject: [PATCH 01/49] fix: Debug dereferences nil Verbose when used as a
 library

---
 pdf/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/logger.go b/pdf/logger.go
index 3349f53..ac20be5 100644
--- a/pdf/logger.go
+++ b/pdf/logger.go
@@ -8,7 +8,7 @@ import (
 var Verbose *bool
 
 func Debug(format string, a ...interface{}) {
-	if *Verbose {
+	if Verbose != nil && *Verbose {
 		if len(a) > 0 {
 			fmt.Fprintf(os.Stderr, format, a...)
 			fmt.Fprintln(os.Stderr, "")
-- 
2.43.0


From 710518663d07cfe5c8b9b9fb00f669bf4c29e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:35 +0000
Subject: [PATCH 02/49] fix: Output.Close never closes errors.txt

---
 pdf/output.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/output.go b/pdf/output.go
index d8b0066..fe1f173 100644
--- a/pdf/output.go
+++ b/pdf/output.go
@@ -71,7 +71,7 @@ func (output *Output) Close() {
 		output.Commands.Close()
 	}
 	if output.Errors != nil {
-		output.Files.Close()
+		output.Errors.Close()
 	}
 	if output.Files != nil {
 		output.Files.Close()
-- 
2.43.0


From 3e55b22e80a8099e8cf4db5eff26774a9575f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:36 +0000
Subject: [PATCH 03/49] fix: second and later fraction digits of real numbers
 have wrong weight

---
 pdf/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index e65b326..6fb00e2 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -880,14 +880,14 @@ func (parser *Parser) ReadNumber() Number {
 
 	// parse real part
 	if isReal {
-		for i := 1; true; i++ {
+		for scale := 10.0; true; scale *= 10 {
 			b, err = parser.ReadByte()
 			if err != nil {
 				break
 			}
 
 			if b >= '0' && b <= '9' {
-				number = Number(float64(number) + float64(b - '0') / (10 * float64(i)))
+				number = Number(float64(number) + float64(b - '0') / scale)
 			} else {
 				parser.UnreadByte()
 				break
-- 
2.43.0


From 2a77e6e04a21a2c164c6ce0d72f6cefac165ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:36 +0000
Subject: [PATCH 04/49] fix: ASCII85 partial final group is decoded one too low

---
 pdf/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index a67f300..d3d8bf9 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -106,10 +106,10 @@ func ASCII85Decode(data []byte) []byte {
 	for {
 		b, err := reader.ReadByte()
 		if err != nil || b == '~' {
-			// finish partial group by adding zeros
+			// finish partial group by padding with the highest digit
 			if n > 1 {
 				for m := n; m < 5; m++ {
-					v *= 85
+					v = v * 85 + 84
 				}
 
 				// write result in big endian order
-- 
2.43.0


From 77da5ab8b1286eb48730a7e05b66621f12ca1664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 05/49] fix: PNG predictors 10-14 ignore the algorithm tag of
 each row

---
 pdf/filters.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index d3d8bf9..5f6f98f 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -318,15 +318,10 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		d_row_width := row_width
 		row_width++
 
-		// determine the method
-		method := predictor - 10
-
 		// for each row
 		for r := 0; r < len(data); r += row_width {
-			// optimum predictor allows the method to change each row based on algorithm tag
-			if predictor == 15 {
-				method = int(data[r])
-			}
+			// algorithm tag determines the method of each row whatever the predictor value is
+			method := int(data[r])
 
 			// calculate start of row in decoded buffer
 			dr := (r / row_width) * (row_width - 1)
-- 
2.43.0


From 30c6adc022bd75e5b6d8ac106b739092d703f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:59 +0000
Subject: [PATCH 06/49] fix: PNG sub, average and paeth predictors ignore the
 pixel width

---
 pdf/filters.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index 5f6f98f..6b7dc54 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -314,6 +314,9 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		// allocate buffer for decoded data
 		decoded_data := make([]byte, 0, len(data))
 
+		// number of bytes per complete pixel, left neighbors are one pixel away
+		pixel_width := (bits_per_component * colors + 7) / 8
+
 		// png row includes an algorithm tag as first byte of each row
 		d_row_width := row_width
 		row_width++
@@ -337,8 +340,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 1 {
 					// sub predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					decoded_data = append(decoded_data, byte((int(data[r + c]) + left) % 256))
 				} else if method == 2 {
@@ -351,8 +354,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 3 {
 					// avg predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
@@ -363,16 +366,16 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 4 {
 					//paeth predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
 						up = int(decoded_data[dr + dc - d_row_width])
 					}
 					up_left := 0
-					if dr + dc - d_row_width - 1 >= 0 && dc > 0 {
-						up_left = int(decoded_data[dr + dc - d_row_width - 1])
+					if dr + dc - d_row_width - pixel_width >= 0 && dc >= pixel_width {
+						up_left = int(decoded_data[dr + dc - d_row_width - pixel_width])
 					}
 					p := left + up - up_left
 					p_left := int(math.Abs(float64(p - left)))
-- 
2.43.0


From 616a55a930cd1b8b6f44920598f6e0c8c1c2929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:00 +0000
Subject: [PATCH 07/49] fix: overflowing predictor parameters index out of
 range

---
 pdf/filters.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/filters.go b/pdf/filters.go
index 6b7dc54..b80be0f 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -276,6 +276,11 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		return data
 	}
 
+	// make sure row width is acceptable and does not overflow
+	if colors <= 0 || columns <= 0 || colors > math.MaxInt32 / bits_per_component / columns {
+		return data
+	}
+
 	// determine row widths in bytes
 	row_width := (bits_per_component * colors * columns) / 8
 	if (bits_per_component * colors * columns) % 8 > 0 {
-- 
2.43.0


From 872b28781693431d3517e46ae3cde3e059816626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:24 +0000
Subject: [PATCH 08/49] fix: hostile xref stream field widths panic or loop
 without consuming data

---
 pdf/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 6fb00e2..9b33822 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -326,6 +326,18 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 		return
 	}
 
+	// make sure each entry takes at least one byte and no field is wider than the data
+	entry_width := 0
+	for _, w := range []int{type_width, offset_width, generation_width} {
+		if w < 0 || w > len(object.Stream) {
+			return
+		}
+		entry_width += w
+	}
+	if entry_width == 0 {
+		return
+	}
+
 	// parse xref subsections
 	data_reader := bytes.NewReader(object.Stream)
 	for i := 0; i < len(index) - 1; i += 2 {
-- 
2.43.0


From e7f10cad9384f77a9d741243721393707fd05f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 09/49] fix: xref stream entries without a type field are not
 in use objects

---
 pdf/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 9b33822..5efac4a 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -357,6 +357,10 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 			if !ok {
 				return
 			}
+			if type_width == 0 {
+				// type defaults to in use object when the field is absent
+				xref_type = XrefTypeIndirectObject
+			}
 			offset, ok := ReadInt64(data_reader, offset_width)
 			if !ok {
 				return
-- 
2.43.0


From 77679ee1805d093182ca22d63329011ceb338ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 10/49] fix: short reads at buffer boundaries lose
 dictionaries, streams and startxref

---
 pdf/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 5efac4a..7742115 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -166,7 +166,7 @@ func (parser *Parser) getStartXrefOffset() (int64, bool) {
 	// read in buffer at offset
 	buffer := make([]byte, start_xref_scan_buffer_size)
 	parser.Seek(offset, io.SeekStart)
-	parser.Read(buffer)
+	io.ReadFull(parser, buffer)
 
 	// check for start xref
 	matches := start_xref_regexp.FindAllSubmatch(buffer, -1)
@@ -642,7 +642,7 @@ func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 
 	// read start of dictionary markers
 	b := make([]byte, 2)
-	_, err := parser.Read(b)
+	_, err := io.ReadFull(parser, b)
 	if err != nil || string(b) != "<<" {
 		return dictionary
 	}
@@ -953,7 +953,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	// read first 9 bytes to get started
 	end_buff := bytes.NewBuffer([]byte{})
 	buff := make([]byte, 9)
-	bytes_read, _ := parser.Read(buff)
+	bytes_read, _ := io.ReadFull(parser, buff)
 	if bytes_read > 0 {
 		end_buff.Write(buff[:bytes_read])
 	}
-- 
2.43.0


From 16bb562eb8d7903a091a34d659bf12944e3072c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:21 +0000
Subject: [PATCH 11/49] fix: stream dictionaries referencing their own stream
 recurse until the stack overflows

---
 pdf/parser.go    | 10 ++++++++++
 pdf/reference.go | 10 +++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 7742115..bae2130 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -384,6 +384,11 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 }
 
 func (parser *Parser) GetObject(number int) *IndirectObject {
+	return parser.getObject(number, true)
+}
+
+// getObject reads the object with the given number, the stream is only read if with_stream is true
+func (parser *Parser) getObject(number int, with_stream bool) *IndirectObject {
 	object := NewIndirectObject(number)
 
 	if xref_entry, ok := parser.Xref[number]; ok {
@@ -407,6 +412,11 @@ func (parser *Parser) GetObject(number int) *IndirectObject {
 			// get the value of the object
 			object.Value, _ = parser.ReadObject(string_decryptor)
 
+			// streams are not needed to resolve values, reading them could resolve this object again
+			if !with_stream {
+				return object
+			}
+
 			// get next keyword
 			if keyword := parser.ReadKeyword(); keyword == KEYWORD_STREAM {
 				// get stream dictionary
diff --git a/pdf/reference.go b/pdf/reference.go
index 20fd52b..fe24ae8 100644
--- a/pdf/reference.go
+++ b/pdf/reference.go
@@ -24,7 +24,7 @@ func (reference *Reference) Resolve() Object {
 	current_offset := reference.parser.CurrentOffset()
 
 	// resolve the referenced object value
-	object := reference.resolve(map[int]interface{}{})
+	object := reference.resolve(map[int]interface{}{}, false)
 
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
@@ -38,7 +38,7 @@ func (reference *Reference) ResolveStream() []byte {
 	current_offset := reference.parser.CurrentOffset()
 
 	// resolve the referenced object value
-	object := reference.resolve(map[int]interface{}{})
+	object := reference.resolve(map[int]interface{}{}, true)
 
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
@@ -47,7 +47,7 @@ func (reference *Reference) ResolveStream() []byte {
 	return object.Stream
 }
 
-func (reference *Reference) resolve(resolved_references map[int]interface{}) *IndirectObject {
+func (reference *Reference) resolve(resolved_references map[int]interface{}, with_stream bool) *IndirectObject {
 	// prevent infinite loop
 	if _, ok := resolved_references[reference.Number]; ok {
 		return NewIndirectObject(reference.Number)
@@ -55,11 +55,11 @@ func (reference *Reference) resolve(resolved_references map[int]interface{}) *In
 	resolved_references[reference.Number] = nil
 
 	// use parser to get object
-	object := reference.parser.GetObject(reference.Number)
+	object := reference.parser.getObject(reference.Number, with_stream)
 
 	// recursively resolve references
 	if ref, ok := object.Value.(*Reference); ok {
-		return ref.resolve(resolved_references)
+		return ref.resolve(resolved_references, with_stream)
 	}
 
 	// return the object
-- 
2.43.0


From 9cb5c00570260a658c502ecc3f5317c7520b3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:22 +0000
Subject: [PATCH 12/49] fix: GetStream reports a stream for references to
 objects without one

---
 pdf/array.go      | 4 +++-
 pdf/dictionary.go | 4 +++-
 pdf/parser.go     | 5 +++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pdf/array.go b/pdf/array.go
index 966d3b0..247b122 100644
--- a/pdf/array.go
+++ b/pdf/array.go
@@ -97,7 +97,9 @@ func (a Array) GetObject(index int) (Object, bool) {
 func (a Array) GetStream(index int) ([]byte, bool) {
 	if index >= 0 && index < len(a) {
 		if reference, ok := a[index].(*Reference); ok {
-			return reference.ResolveStream(), true
+			if stream := reference.ResolveStream(); stream != nil {
+				return stream, true
+			}
 		}
 	}
 	return []byte{}, false
diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 6e0e78c..89cafb4 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -166,7 +166,9 @@ func (d Dictionary) GetReference(key string) (*Reference, bool) {
 func (d Dictionary) GetStream(key string) ([]byte, bool) {
 	if object, ok := d[key]; ok {
 		if reference, ok := object.(*Reference); ok {
-			return reference.ResolveStream(), true
+			if stream := reference.ResolveStream(); stream != nil {
+				return stream, true
+			}
 		}
 	}
 	return []byte{}, false
diff --git a/pdf/parser.go b/pdf/parser.go
index bae2130..b827f70 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -1013,6 +1013,11 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		stream_data_bytes = DecodeStream(filter, stream_data_bytes, decode_parms)
 	}
 
+	// an empty stream is still a stream
+	if stream_data_bytes == nil {
+		stream_data_bytes = []byte{}
+	}
+
 	// return the decrypted and decoded stream
 	return stream_data_bytes
 }
-- 
2.43.0


From a7d9e1489616d5d4410cff2f25103cc3fa06a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:23 +0000
Subject: [PATCH 13/49] fix: stream data containing endstream or ending in a
 line break is cut

---
 pdf/parser.go | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index b827f70..ad554f5 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -13,6 +13,7 @@ import (
 var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)
+var end_stream_regexp = regexp.MustCompile(`^(\r\n|\r|\n)?endstream`)
 var xref_regexp = regexp.MustCompile(`xref`)
 var whitespace = []byte("\x00\t\n\f\r ")
 var delimiters = []byte("()<>[]/%")
@@ -476,8 +477,14 @@ func (parser *Parser) getObject(number int, with_stream bool) *IndirectObject {
 				}
 				stream_decryptor := crypt_filter.NewDecryptor(number, xref_entry.Generation)
 
+				// get the declared length
+				length, ok := d.GetInt64("Length")
+				if !ok {
+					length = -1
+				}
+
 				// read the stream
-				object.Stream = parser.ReadStream(stream_decryptor, filter_list, decode_parms_list)
+				object.Stream = parser.ReadStream(stream_decryptor, length, filter_list, decode_parms_list)
 			}
 		}
 	}
@@ -930,7 +937,7 @@ func (parser *Parser) ReadNumber() Number {
 	return number
 }
 
-func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_parms_list Array) []byte {
+func (parser *Parser) ReadStream(decryptor Decryptor, length int64, filter_list Array, decode_parms_list Array) []byte {
 	// create buffers for stream data
 	stream_data := bytes.NewBuffer([]byte{})
 
@@ -960,6 +967,10 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		}
 	}
 
+	// use declared length if the end marker follows so that markers and line breaks in the data are kept
+	data, closed := parser.readStreamData(length)
+	stream_data.Write(data)
+
 	// read first 9 bytes to get started
 	end_buff := bytes.NewBuffer([]byte{})
 	buff := make([]byte, 9)
@@ -969,7 +980,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	}
 
 	// read in stream data until endstream marker
-	for {
+	for !closed {
 		if end_buff.String() == "endstream" {
 			// truncate last new line from stream_data and stop reading stream data
 			l := stream_data.Len()
@@ -1022,6 +1033,30 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	return stream_data_bytes
 }
 
+// readStreamData reads length bytes if they are followed by the endstream marker
+func (parser *Parser) readStreamData(length int64) ([]byte, bool) {
+	if length < 0 {
+		return nil, false
+	}
+
+	// check for optional new line and endstream marker after the data
+	start := parser.CurrentOffset()
+	_, err := parser.Seek(start + length, io.SeekStart)
+	end, _ := parser.Peek(11)
+	parser.Seek(start, io.SeekStart)
+	if err != nil || !end_stream_regexp.Match(end) {
+		return nil, false
+	}
+
+	// read the data
+	data := make([]byte, length)
+	if _, err := io.ReadFull(parser, data); err != nil {
+		parser.Seek(start, io.SeekStart)
+		return nil, false
+	}
+	return data, true
+}
+
 func (parser *Parser) ReadString(decryptor Decryptor) String {
 	// consume any leading whitespace/comments
 	parser.consumeWhitespace()
-- 
2.43.0


From eb51d501cf4b312fd23414c53a957d251c1a8f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 14/49] fix: unclosed streams without data are not reported

---
 pdf/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index ad554f5..fd1d05c 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -945,6 +945,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, length int64, filter_list
 	for {
 		b, err := parser.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			return stream_data.Bytes()
 		}
 
@@ -957,6 +958,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, length int64, filter_list
 		if b == '\r' {
 			b, err := parser.ReadByte()
 			if err != nil {
+				parser.log_error(UnclosedStream)
 				return stream_data.Bytes()
 			}
 			// if not new line then put it back cause it is part of the stream data
@@ -999,6 +1001,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, length int64, filter_list
 		// add first byte of end_buff to stream_data
 		b, err := end_buff.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			break
 		}
 		stream_data.WriteByte(b)
-- 
2.43.0


From 7b524e9c0cc8a32808c52d95eb42646910b939f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 15/49] fix: deeply nested arrays and dictionaries exhaust the
 stack

---
 pdf/parser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index fd1d05c..614891d 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -15,6 +15,7 @@ var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)
 var end_stream_regexp = regexp.MustCompile(`^(\r\n|\r|\n)?endstream`)
 var xref_regexp = regexp.MustCompile(`xref`)
+var max_nesting_depth = 5000
 var whitespace = []byte("\x00\t\n\f\r ")
 var delimiters = []byte("()<>[]/%")
 
@@ -25,10 +26,11 @@ type Parser struct {
 	trailer Dictionary
 	security_handler *SecurityHandler
 	output *Output
+	depth int
 }
 
 func NewParser(readSeeker io.ReadSeeker, output *Output) *Parser {
-	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output}
+	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output, 0}
 }
 
 func (parser *Parser) Load(password string) error {
@@ -541,6 +543,20 @@ func (parser *Parser) ReadObject(decryptor Decryptor) (Object, error) {
 		return parser.ReadName(), nil
 	}
 
+	// ignore start of arrays and dictionaries that are nested too deep for the stack
+	if parser.depth >= max_nesting_depth {
+		if b[0] == '[' {
+			parser.Discard(1)
+			return KEYWORD_NULL, nil
+		}
+		if string(b) == "<<" {
+			parser.Discard(2)
+			return KEYWORD_NULL, nil
+		}
+	}
+	parser.depth++
+	defer func() { parser.depth-- }()
+
 	// handle arrays
 	if b[0] == '[' {
 		return parser.ReadArray(decryptor), nil
-- 
2.43.0


From c31bce00ed55150d0c3f25915209158e40285d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:06 +0000
Subject: [PATCH 16/49] fix: bfrange maps all codes to one value, ignores
 arrays and expands huge ranges

---
 pdf/font.go | 62 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/pdf/font.go b/pdf/font.go
index 6f911f1..d195c14 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -5,11 +5,21 @@ import (
 	"strings"
 )
 
-var FontDefault *Font = &Font{map[int]string{}, 1}
+var FontDefault *Font = &Font{map[int]string{}, 1, nil}
+
+// ranges of more codes are looked up instead of being expanded into the cmap
+const max_expanded_range = 256
 
 type Font struct {
 	Cmap map[int]string
 	Width int
+	ranges []fontRange
+}
+
+type fontRange struct {
+	start int
+	end int
+	value string
 }
 
 func NewFont(d Dictionary) *Font {
@@ -17,7 +27,7 @@ func NewFont(d Dictionary) *Font {
 	cmap := []byte(cmap_string)
 
 	// create new font object
-	font := &Font{map[int]string{}, 1}
+	font := &Font{map[int]string{}, 1, nil}
 
 	// create parser for parsing cmap
 	parser := NewParser(bytes.NewReader(cmap), nil)
@@ -45,13 +55,28 @@ func NewFont(d Dictionary) *Font {
 				}
 				end := BytesToInt([]byte(end_b))
 
-				value := parser.ReadHexString(noDecryptor)
-				if value == "" {
+				value, err := parser.ReadObject(noDecryptor)
+				if err != nil {
 					break
 				}
 
-				for j := start; j <= end; j++ {
-					font.Cmap[j] = string(value)
+				if values, ok := value.(Array); ok {
+					// each code has its own value
+					for j := 0; j < len(values) && j <= end - start; j++ {
+						if s, ok := values.GetString(j); ok {
+							font.Cmap[start + j] = s
+						}
+					}
+				} else if s, ok := value.(String); ok {
+					if end - start < max_expanded_range {
+						// values are consecutive
+						for j := 0; j <= end - start; j++ {
+							font.Cmap[start + j] = offsetBytes(string(s), j)
+						}
+					} else {
+						// large ranges are not expanded
+						font.ranges = append(font.ranges, fontRange{start, end, string(s)})
+					}
 				}
 			}
 		} else if command == KEYWORD_BEGIN_BF_CHAR {
@@ -77,12 +102,35 @@ func NewFont(d Dictionary) *Font {
 	return font
 }
 
+func (font *Font) lookup(k int) (string, bool) {
+	if v, ok := font.Cmap[k]; ok {
+		return v, true
+	}
+	for i := len(font.ranges) - 1; i >= 0; i-- {
+		if r := font.ranges[i]; k >= r.start && k <= r.end {
+			return offsetBytes(r.value, k - r.start), true
+		}
+	}
+	return "", false
+}
+
+// offsetBytes adds n to the big endian value of s
+func offsetBytes(s string, n int) string {
+	b := []byte(s)
+	for i := len(b) - 1; i >= 0 && n > 0; i-- {
+		n += int(b[i])
+		b[i] = byte(n)
+		n >>= 8
+	}
+	return string(b)
+}
+
 func (font *Font) Decode(b []byte) string {
 	var s strings.Builder
 	for i := 0; i + font.Width <= len(b); i += font.Width {
 		bs := b[i:i + font.Width]
 		k := BytesToInt(bs)
-		if v, ok := font.Cmap[k]; ok {
+		if v, ok := font.lookup(k); ok {
 			s.WriteString(v)
 		} else {
 			s.WriteString(string(bs))
-- 
2.43.0


From 868b74ff6a243d6c46030fdc6a88a2fc44a1ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:38 +0000
Subject: [PATCH 17/49] fix: TJ strings at odd array positions are dropped

---
 pdf/page.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/page.go b/pdf/page.go
index f1abfaa..b94cd2d 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -72,7 +72,7 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 					// decode positioned text with current font
 					var sb strings.Builder
 					a, _ := operands.GetArray(len(operands) - 1)
-					for i := 0; i < len(a); i += 2 {
+					for i := range a {
 						s, _ := a.GetString(i)
 						sb.WriteString(string(s))
 					}
-- 
2.43.0


From 8605646c8c1f178f09ab56da2a2d7d20d1b87dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:39 +0000
Subject: [PATCH 18/49] fix: text objects spanning several content streams are
 cut

---
 pdf/page.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf/page.go b/pdf/page.go
index b94cd2d..50cb11a 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -24,11 +24,15 @@ func (page Page) Extract(output *Output) {
 	if contents, ok := d.GetStream("Contents"); ok {
 		page.extract(output, font_map, contents)
 	} else if contents_array, ok := d.GetArray("Contents"); ok {
+		// streams of a contents array form a single content stream
+		var joined_contents bytes.Buffer
 		for i := range contents_array {
 			if contents, ok := contents_array.GetStream(i); ok {
-				page.extract(output, font_map, contents)
+				joined_contents.Write(contents)
+				joined_contents.WriteString("\n")
 			}
 		}
+		page.extract(output, font_map, joined_contents.Bytes())
 	}
 }
 
-- 
2.43.0


From 4d7519087adfa8d91ee424453752fdca5992daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:39 +0000
Subject: [PATCH 19/49] fix: font selected in an earlier text object or outside
 of one is forgotten

---
 pdf/page.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pdf/page.go b/pdf/page.go
index 50cb11a..f602f54 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -36,22 +36,35 @@ func (page Page) Extract(output *Output) {
 	}
 }
 
+func selectFont(font_map map[string]*Font, operands Array) *Font {
+	font_name, _ := operands.GetName(len(operands) - 2)
+	if font, ok := font_map[font_name]; ok {
+		return font
+	}
+	return FontDefault
+}
+
 func (page Page) extract(output *Output, font_map map[string]*Font, contents []byte) {
 	// create parser for parsing contents
 	page_parser := NewParser(bytes.NewReader(contents), nil)
 
+	// initial font is none, it is kept from one text block to the next
+	current_font := FontDefault
+
 	for {
 		// read next command
-		command, _, err := page_parser.ReadCommand()
+		command, operands, err := page_parser.ReadCommand()
 		if err == ReadError {
 			break
 		}
 
+		// handle font changes outside of text blocks
+		if command == KEYWORD_TEXT_FONT {
+			current_font = selectFont(font_map, operands)
+		}
+
 		// start of text block
 		if command == KEYWORD_TEXT {
-			// initial font is none
-			current_font := FontDefault
-
 			for {
 				command, operands, err := page_parser.ReadCommand()
 				// stop if end of stream or end of text block
@@ -61,12 +74,7 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 
 				// handle font changes
 				if command == KEYWORD_TEXT_FONT {
-					font_name, _ := operands.GetName(len(operands) - 2)
-					if font, ok := font_map[font_name]; ok {
-						current_font = font
-					} else {
-						current_font = FontDefault
-					}
+					current_font = selectFont(font_map, operands)
 				} else if command == KEYWORD_TEXT_SHOW_1 || command == KEYWORD_TEXT_SHOW_2 || command == KEYWORD_TEXT_SHOW_3 {
 					// decode text with current font font
 					s, _ := operands.GetString(len(operands) - 1)
-- 
2.43.0


From 9f5f28e63954cece9eece482cb8bb95e785d64cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:40 +0000
Subject: [PATCH 20/49] fix: fonts in resources inherited from the page tree
 are not found

---
 pdf/dictionary.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 89cafb4..f3fc2e5 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -145,6 +145,13 @@ func (d Dictionary) ResolveKids(resolved_kids map[int]interface{}) []Dictionary
 				// resolve
 				object := r.Resolve()
 				if kid_d, ok := object.(Dictionary); ok {
+					// resources are inherited
+					if resources, ok := d["Resources"]; ok {
+						if _, ok := kid_d["Resources"]; !ok {
+							kid_d["Resources"] = resources
+						}
+					}
+
 					// recursively resolve kids
 					kids_list = append(kids_list, kid_d.ResolveKids(resolved_kids)...)
 				}
-- 
2.43.0


From 54032799c3064d1c050262c4d29a7680ac38565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:41 +0000
Subject: [PATCH 21/49] fix: tree roots referenced by their own descendants are
 delivered twice

---
 pdf/dictionary.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index f3fc2e5..f7b5966 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -76,7 +76,11 @@ func (d Dictionary) GetName(key string) (string, bool) {
 
 func (d Dictionary) GetNameTreeMap(key string) Array {
 	if root, ok := d.GetDictionary(key); ok {
-		return root.getNameTreeMap(map[int]interface{}{})
+		resolved_kids := map[int]interface{}{}
+		if ref, ok := d.GetReference(key); ok {
+			resolved_kids[ref.Number] = nil
+		}
+		return root.getNameTreeMap(resolved_kids)
 	}
 	return Array{}
 }
@@ -126,7 +130,11 @@ func (d Dictionary) GetObject(key string) (Object, bool) {
 
 func (d Dictionary) GetPageTree(key string) ([]Dictionary, bool) {
 	if pageTree, ok := d.GetDictionary(key); ok {
-		return pageTree.ResolveKids(map[int]interface{}{}), true
+		resolved_kids := map[int]interface{}{}
+		if root, ok := d.GetReference(key); ok {
+			resolved_kids[root.Number] = nil
+		}
+		return pageTree.ResolveKids(resolved_kids), true
 	}
 	return []Dictionary{}, false
 }
-- 
2.43.0


From 39205017589452509304e215c625f9c077ef9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:41 +0000
Subject: [PATCH 22/49] fix: URL file specifications name the file system with
 a name, not a string

---
 pdf/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf/file.go b/pdf/file.go
index 17ef598..f958949 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -12,7 +12,10 @@ func (file File) Extract(output *Output, isCommand bool) {
 	d := Dictionary(file)
 
 	// file specification can be a url or file
-	fs, _ := d.GetString("FS")
+	fs, ok := d.GetName("FS")
+	if !ok {
+		fs, _ = d.GetString("FS")
+	}
 	if fs == "URL" {
 		if f, ok := d.GetString("F"); ok {
 			fmt.Fprintln(output.URLs, f)
-- 
2.43.0


From 2934b6e9df5e207b22cef2947e5736008820ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:42 +0000
Subject: [PATCH 23/49] fix: launch actions with a simple file specification
 are not logged as commands

---
 pdf/action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/action.go b/pdf/action.go
index 0bcfdfb..2ed7fb6 100644
--- a/pdf/action.go
+++ b/pdf/action.go
@@ -16,6 +16,9 @@ func (a Action) Extract(output *Output) {
 
 	// filespecification can be in either F or Win[F]
 	if f, ok := d.GetString("F"); ok {
+		if isCommand {
+			fmt.Fprintln(output.Commands, f)
+		}
 		fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 	} else if f, ok := d.GetDictionary("F"); ok {
 		File(f).Extract(output, isCommand)
-- 
2.43.0


From 434d809a1cd75c6e00b6101ae97c0c9f99f7b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:43 +0000
Subject: [PATCH 24/49] fix: contents of objects that are arrays are not
 extracted

---
 pdf/object.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdf/object.go b/pdf/object.go
index bda1c2d..72645c3 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -31,10 +31,7 @@ func (object *IndirectObject) String() string {
 }
 
 func (object *IndirectObject) Extract(output *Output) {
-	// get object dictionary
-	if d, ok := object.Value.(Dictionary); ok {
-		extract(d, output)
-	}
+	extract(object.Value, output)
 }
 
 func extract(o Object, output *Output) {
-- 
2.43.0


From fcbd8732476c2baf04e49491a41fca01f4b11724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:09 +0000
Subject: [PATCH 25/49] fix: commands without parameters are logged with a
 trailing space

---
 pdf/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/file.go b/pdf/file.go
index f958949..7c70a84 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -39,7 +39,7 @@ func (file File) Extract(output *Output, isCommand bool) {
 		}
 	} else if f, ok := d.GetString("F"); ok {
 		if isCommand {
-			fmt.Fprintf(output.Commands, "%s %s\n", f, p)
+			fmt.Fprintln(output.Commands, f)
 		}
 		fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 	}
-- 
2.43.0


From 86dc31e9ce10d1ec4089095f0d461c035943a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:09 +0000
Subject: [PATCH 26/49] fix: short U entry in encryption dictionary panics

---
 pdf/encryption.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 7aa55c4..e145d40 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -274,7 +274,7 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 		}
 
 		// compare to first 16 bytes of U entry
-		if string(u) != string(sh.u[:16]) {
+		if len(sh.u) < 16 || string(u) != string(sh.u[:16]) {
 			return EncryptionPasswordError
 		}
 	}
-- 
2.43.0


From 2c949f51e134e305d5fe077e282beca90e7d3142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 27/49] fix: crypt filter lengths in bits or out of range panic

---
 pdf/encryption.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index e145d40..8dec79a 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -297,6 +297,15 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 					if !ok {
 						length = sh.length
 					}
+					if length > 16 {
+						// length is in bits instead of bytes
+						length = length / 8
+					}
+					if length < 5 {
+						length = 5
+					} else if length > 16 {
+						length = 16
+					}
 
 					// create filter entry
 					if method == "None" {
-- 
2.43.0


From 81bcb7522923b1f41f686ae68750e93a7f8d852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:11 +0000
Subject: [PATCH 28/49] fix: crypt filters given by reference are ignored

---
 pdf/encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 8dec79a..115d670 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -289,8 +289,8 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 	// load additional crypt filters
 	if sh.r == 4 {
 		cf, _ := encrypt.GetDictionary("CF")
-		for k, entry := range cf {
-			if cfd, isDictionary := entry.(Dictionary); isDictionary {
+		for k := range cf {
+			if cfd, isDictionary := cf.GetDictionary(k); isDictionary {
 				if method, ok := cfd.GetName("CFM"); ok {
 					// get optional length
 					length, ok := cfd.GetInt("Length")
-- 
2.43.0


From bf126b30fd1bc75b7327416d958cbc095e6196e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:12 +0000
Subject: [PATCH 29/49] fix: embedded files use neither the EFF filter nor the
 stream filter by default

---
 pdf/encryption.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 115d670..18f0d36 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -330,7 +330,8 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 				sh.string_filter = filter
 			}
 		}
-		if name, ok := encrypt.GetName("EEF"); ok {
+		sh.file_filter = sh.stream_filter
+		if name, ok := encrypt.GetName("EFF"); ok {
 			if filter, exists := sh.crypt_filters[name]; exists {
 				sh.file_filter = filter
 			}
-- 
2.43.0


From 94d266451e06ea9bf7f2ee403fc0e29d16634b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:12 +0000
Subject: [PATCH 30/49] fix: documents of encryption version 4 without Length
 use 128 bit keys

---
 pdf/encryption.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 18f0d36..47fb069 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -200,6 +200,9 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 		sh.length, ok = encrypt.GetInt("Length")
 		if !ok {
 			sh.length = 40
+			if sh.v == 4 {
+				sh.length = 128
+			}
 		}
 	}
 	sh.length = sh.length/8
-- 
2.43.0


From 554fc29b9d330b746329d62df143e17215ad3ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:30 +0000
Subject: [PATCH 31/49] fix: AES decryption keeps the initialization vector and
 the padding

---
 pdf/encryption.go | 39 ++++++++++++++++++++++++---------------
 pdf/parser.go     | 13 ++++++-------
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 47fb069..4681da1 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -16,7 +16,7 @@ type CryptFilter interface {
 }
 
 type Decryptor interface {
-	Decrypt([]byte)
+	Decrypt([]byte) []byte
 }
 
 // No encryption
@@ -28,7 +28,9 @@ func (c *CryptFilterNone) NewDecryptor(n int, g int) Decryptor {
 
 type DecryptorNone struct {}
 
-func (d *DecryptorNone) Decrypt(data []byte) {}
+func (d *DecryptorNone) Decrypt(data []byte) []byte {
+	return data
+}
 
 // AES
 type CryptFilterAES struct {
@@ -73,27 +75,33 @@ type DecryptorAES struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorAES) Decrypt(data []byte) {
-	// catch crypt block panic
-	defer func() {
-		if err := recover(); err != nil {
-			Debug("recovered from panic: %s", err)
-		}
-	}()
-
+func (d *DecryptorAES) Decrypt(data []byte) []byte {
 	// create new cipher
-	block, _ := aes.NewCipher(d.encryption_key)
+	block, err := aes.NewCipher(d.encryption_key)
+	if err != nil {
+		Debug("failed to create cipher: %s", err)
+		return data
+	}
 
 	// no data to decrypt, first block is initialization vector
-	if len(data) <= aes.BlockSize {
-		return
+	if len(data) < aes.BlockSize {
+		return data
 	}
 
-	// set iv to first block and decrypt remaining blocks with cbc decryptor
+	// set iv to first block and decrypt remaining whole blocks with cbc decryptor
 	iv := data[:aes.BlockSize]
 	data = data[aes.BlockSize:]
+	data = data[:len(data) - len(data) % aes.BlockSize]
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(data, data)
+
+	// remove padding
+	if l := len(data); l > 0 {
+		if n := int(data[l - 1]); n >= 1 && n <= aes.BlockSize {
+			data = data[:l - n]
+		}
+	}
+	return data
 }
 
 // RC4
@@ -136,9 +144,10 @@ type DecryptorRC4 struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorRC4) Decrypt(data []byte) {
+func (d *DecryptorRC4) Decrypt(data []byte) []byte {
 	cipher, _ := rc4.NewCipher(d.encryption_key)
 	cipher.XORKeyStream(data, data)
+	return data
 }
 
 type SecurityHandler struct {
diff --git a/pdf/parser.go b/pdf/parser.go
index 614891d..2748194 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -740,7 +740,7 @@ func (parser *Parser) ReadHexString(decryptor Decryptor) String {
 					s.WriteByte(byte(val))
 				}
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
+				s_data = decryptor.Decrypt(s_data)
 				return String(s_data)
 			}
 			if !IsHex(b) {
@@ -1033,8 +1033,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, length int64, filter_list
 	}
 
 	// decrypt stream
-	stream_data_bytes := stream_data.Bytes()
-	decryptor.Decrypt(stream_data_bytes)
+	stream_data_bytes := decryptor.Decrypt(stream_data.Bytes())
 
 	// decode stream
 	for i := 0; i < len(filter_list); i++ {
@@ -1099,7 +1098,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 		if err != nil {
 			parser.log_error(UnclosedString)
 			s_data := []byte(s.String())
-			decryptor.Decrypt(s_data)
+			s_data = decryptor.Decrypt(s_data)
 			return String(s_data)
 		}
 
@@ -1111,7 +1110,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				parser.log_error(UnclosedStringEscape)
 				s.WriteByte('\\')
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
+				s_data = decryptor.Decrypt(s_data)
 				return String(s_data)
 			}
 
@@ -1125,7 +1124,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				if err != nil {
 					parser.log_error(UnclosedStringEscape)
 					s_data := []byte(s.String())
-					decryptor.Decrypt(s_data)
+					s_data = decryptor.Decrypt(s_data)
 					return String(s_data)
 				}
 				// if byte is not a new line then unread it
@@ -1212,7 +1211,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 
 	// return string
 	s_data := []byte(s.String())
-	decryptor.Decrypt(s_data)
+	s_data = decryptor.Decrypt(s_data)
 	return String(s_data)
 }
 
-- 
2.43.0


From 93abcaae48a9c21c6113fbba4e791ea1dccf93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:31 +0000
Subject: [PATCH 32/49] fix: xref repair replaces correct entries instead of
 broken ones

---
 pdf/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 2748194..c158607 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -63,8 +63,11 @@ func (parser *Parser) Load(password string) error {
 		if xref_entry, ok := parser.Xref[object_number]; ok {
 			// replace xref entry if it does not point to an object or points to the wrong object
 			parser.Seek(xref_entry.Offset, io.SeekStart)
-			if n, _, ok := parser.ReadObjectHeader(); ok || n != object_number {
+			if n, _, ok := parser.ReadObjectHeader(); !ok || n != object_number {
 				xref_entry.Offset = object.Offset
+				if xref_entry.Type == XrefTypeIndirectObject {
+					xref_entry.Generation = object.Generation
+				}
 			}
 		} else {
 			// add missing object to xref
-- 
2.43.0


From a60316983a3479dc0dd37736afa68a9797f3dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:32 +0000
Subject: [PATCH 33/49] fix: text that only resembles an object header is taken
 for an object

---
 pdf/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index c158607..fe6deef 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -140,7 +140,12 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 		parser.Seek(offset + int64(index[0]), io.SeekStart)
 
 		// get object number, generation
-		n, g, _ := parser.ReadObjectHeader()
+		n, g, ok := parser.ReadObjectHeader()
+		if !ok {
+			// not an object, skip to end of marker
+			offset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)
+			continue
+		}
 
 		// add xref entry
 		objects[n] = NewXrefEntry(offset + int64(index[0]), g, XrefTypeIndirectObject)
-- 
2.43.0


From 8e7b00764e01e1a0e1338c524232c0ebd1663289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:25 +0000
Subject: [PATCH 34/49] fix: unescaped carriage returns in strings are not read
 as line feeds

---
 pdf/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index fe6deef..2b5674f 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -1201,6 +1201,15 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 			continue
 		}
 
+		// unescaped line breaks \r and \r\n are read as \n
+		if b == '\r' {
+			b, err = parser.ReadByte()
+			if err == nil && b != '\n' {
+				parser.UnreadByte()
+			}
+			b = '\n'
+		}
+
 		// keep track of number of open parens
 		if b == '(' {
 			open_parens++
-- 
2.43.0


From abd4b3383c18eaa5db1faf0602dfcb65e3494e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:25 +0000
Subject: [PATCH 35/49] fix: xref streams listed in another xref section are
 decrypted

---
 pdf/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 2b5674f..d8728bd 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -69,6 +69,11 @@ func (parser *Parser) Load(password string) error {
 					xref_entry.Generation = object.Generation
 				}
 			}
+
+			// xref streams are never encrypted even if listed as an ordinary object
+			if object.IsXrefStream && xref_entry.Offset == object.Offset {
+				xref_entry.IsEncrypted = false
+			}
 		} else {
 			// add missing object to xref
 			parser.Xref[object_number] = object
-- 
2.43.0


From 919fb899ed3ea5d191cf996c055f234ebb9255a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:10 +0000
Subject: [PATCH 36/49] fix: keep the offset of a cross-reference stream at its
 object header

---
 pdf/parser.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index d8728bd..5be5578 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -218,7 +218,7 @@ func (parser *Parser) loadXref(offset int64, offsets map[int64]interface{}) {
 				parser.Xref[n].IsEncrypted = false
 
 				// read the xref object
-				parser.loadXrefStream(n, offsets)
+				parser.loadXrefStream(n, offset, offsets)
 			}
 		}
 	}
@@ -291,9 +291,7 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 	}
 }
 
-func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
-	xref_stream_offset := parser.CurrentOffset()
-
+func (parser *Parser) loadXrefStream(n int, xref_stream_offset int64, offsets map[int64]interface{}) {
 	// Get the xref stream object
 	object := parser.GetObject(n)
 
-- 
2.43.0


From b486872b8305e90f56a0d317c0d81909a6f34fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:13 +0000
Subject: [PATCH 37/49] fix: only read cross-reference streams as
 cross-reference streams

---
 pdf/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 5be5578..a8673b3 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -213,6 +213,14 @@ func (parser *Parser) loadXref(offset int64, offsets map[int64]interface{}) {
 			// if xref is a stream
 			parser.Seek(offset, io.SeekStart)
 			if n, g, ok := parser.ReadObjectHeader(); ok {
+				// offset may lead to some other object
+				d := parser.ReadDictionary(noDecryptor)
+				t, has_type := d.GetName("Type")
+				_, has_widths := d.GetArray("W")
+				if t != "XRef" && (has_type || !has_widths) {
+					return
+				}
+
 				// prevent decrypting xref streams
 				parser.Xref[n] = NewXrefEntry(offset, g, XrefTypeIndirectObject)
 				parser.Xref[n].IsEncrypted = false
-- 
2.43.0


From d62164e6b66a1b0bf3a33a7af1d5579e7ef1bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:19 +0000
Subject: [PATCH 38/49] fix: font is not restored together with the graphics
 state

---
 pdf/keyword.go |  2 ++
 pdf/page.go    | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index 88cb870..a505d93 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -20,6 +20,8 @@ const (
 	KEYWORD_TEXT_SHOW_1 = Keyword("Tj")
 	KEYWORD_TEXT_SHOW_2 = Keyword("'")
 	KEYWORD_TEXT_SHOW_3 = Keyword("\"")
+	KEYWORD_SAVE_STATE = Keyword("q")
+	KEYWORD_RESTORE_STATE = Keyword("Q")
 	KEYWORD_BEGIN_BF_RANGE = Keyword("beginbfrange")
 	KEYWORD_BEGIN_BF_CHAR = Keyword("beginbfchar")
 )
diff --git a/pdf/page.go b/pdf/page.go
index f602f54..f65eed9 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -51,6 +51,9 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 	// initial font is none, it is kept from one text block to the next
 	current_font := FontDefault
 
+	// fonts to return to when the graphics state is restored
+	saved_fonts := []*Font{}
+
 	for {
 		// read next command
 		command, operands, err := page_parser.ReadCommand()
@@ -63,6 +66,14 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 			current_font = selectFont(font_map, operands)
 		}
 
+		// the font is part of the graphics state
+		if command == KEYWORD_SAVE_STATE {
+			saved_fonts = append(saved_fonts, current_font)
+		} else if command == KEYWORD_RESTORE_STATE && len(saved_fonts) > 0 {
+			current_font = saved_fonts[len(saved_fonts) - 1]
+			saved_fonts = saved_fonts[:len(saved_fonts) - 1]
+		}
+
 		// start of text block
 		if command == KEYWORD_TEXT {
 			for {
-- 
2.43.0


From 6f1c8771fab2078b626e7e11b3ee1a92eb003632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:20 +0000
Subject: [PATCH 39/49] fix: data of inline images are read as page commands

---
 pdf/keyword.go |  1 +
 pdf/page.go    |  8 ++++++++
 pdf/parser.go  | 22 ++++++++++++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index a505d93..a55f9e7 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -22,6 +22,7 @@ const (
 	KEYWORD_TEXT_SHOW_3 = Keyword("\"")
 	KEYWORD_SAVE_STATE = Keyword("q")
 	KEYWORD_RESTORE_STATE = Keyword("Q")
+	KEYWORD_INLINE_IMAGE_DATA = Keyword("ID")
 	KEYWORD_BEGIN_BF_RANGE = Keyword("beginbfrange")
 	KEYWORD_BEGIN_BF_CHAR = Keyword("beginbfchar")
 )
diff --git a/pdf/page.go b/pdf/page.go
index f65eed9..41a2345 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -54,6 +54,9 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 	// fonts to return to when the graphics state is restored
 	saved_fonts := []*Font{}
 
+	// set when no end of an inline image is left
+	no_image_end := false
+
 	for {
 		// read next command
 		command, operands, err := page_parser.ReadCommand()
@@ -74,6 +77,11 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 			saved_fonts = saved_fonts[:len(saved_fonts) - 1]
 		}
 
+		// the data of inline images are not commands
+		if command == KEYWORD_INLINE_IMAGE_DATA && !no_image_end {
+			no_image_end = !page_parser.SkipInlineImage()
+		}
+
 		// start of text block
 		if command == KEYWORD_TEXT {
 			for {
diff --git a/pdf/parser.go b/pdf/parser.go
index a8673b3..c73ec34 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -1290,6 +1290,28 @@ func (parser *Parser) consumeComment() {
 	}
 }
 
+// SkipInlineImage moves past the data and the end of an inline image, it stays where it is if there is no end
+func (parser *Parser) SkipInlineImage() bool {
+	start := parser.CurrentOffset()
+	var b [4]byte
+	for {
+		next, err := parser.ReadByte()
+		if err != nil {
+			next = ' '
+		}
+
+		// end is a keyword of its own
+		b = [4]byte{b[1], b[2], b[3], next}
+		if b[1] == 'E' && b[2] == 'I' && (b[0] == '>' || bytes.IndexByte(whitespace, b[0]) >= 0) && bytes.IndexByte(whitespace, next) >= 0 {
+			return true
+		}
+		if err != nil {
+			parser.Seek(start, io.SeekStart)
+			return false
+		}
+	}
+}
+
 func (parser *Parser) log_error(message string) {
 	if parser.output != nil {
 		parser.output.Error(message)
-- 
2.43.0


From daff1ff1dc268f7d224ae4953a0ae5df5bd04e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:01 +0000
Subject: [PATCH 40/49] fix: dangling links at the output path are overwritten
 without -f

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 5a34372..78231bf 100644
--- a/main.go
+++ b/main.go
@@ -43,7 +43,7 @@ func init() {
 
 func main() {
 	// check if output directory already exists
-	if _, err := os.Stat(flag.Arg(1)); !os.IsNotExist(err) && !*overwrite {
+	if _, err := os.Lstat(flag.Arg(1)); !os.IsNotExist(err) && !*overwrite {
 		fmt.Printf("output directory \"%s\" already exists, use -f to overwrite\n", flag.Arg(1))
 		return
 	}
-- 
2.43.0


From 3209b97c11ec369ad8a07591ecd786cdc9e882d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:50 +0000
Subject: [PATCH 41/49] fix: reading restarts at the beginning of the file when
 its position is unknown

---
 pdf/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index c73ec34..05808bd 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -521,7 +521,8 @@ func (parser *Parser) Seek(offset int64, whence int) (int64, error) {
 func (parser *Parser) CurrentOffset() int64 {
 	offset, err := parser.seeker.Seek(0, io.SeekCurrent)
 	if err != nil {
-		return 0
+		// returning to an unknown offset must fail instead of reading the file again from the start
+		return -1
 	}
 	return offset - int64(parser.Buffered())
 }
-- 
2.43.0


From 9430ac64dbea277383f638bf66acbb67e115f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:51 +0000
Subject: [PATCH 42/49] fix: scans for objects and xrefs start over when
 seeking fails

---
 pdf/parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 05808bd..1ab6b83 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -107,9 +107,9 @@ func (parser *Parser) findXrefOffsets() []int64 {
 	offsets := []int64{}
 
 	// jump to start of file
-	offset, _ := parser.Seek(0, io.SeekStart)
+	offset, err := parser.Seek(0, io.SeekStart)
 
-	for {
+	for err == nil {
 		// scan for xref table marker
 		index := xref_regexp.FindReaderIndex(parser)
 		if index == nil {
@@ -120,7 +120,7 @@ func (parser *Parser) findXrefOffsets() []int64 {
 		offsets = append(offsets, offset + int64(index[0]))
 
 		// seek to end of xref marker
-		offset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)
+		offset, err = parser.Seek(offset + int64(index[1]), io.SeekStart)
 	}
 
 	return offsets
@@ -132,9 +132,9 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 	objects := map[int]*XrefEntry{}
 
 	// jump to start of file
-	offset, _ := parser.Seek(0, io.SeekStart)
+	offset, err := parser.Seek(0, io.SeekStart)
 
-	for {
+	for err == nil {
 		// scan for object start marker
 		index := start_obj_regexp.FindReaderIndex(parser)
 		if index == nil {
@@ -148,7 +148,7 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 		n, g, ok := parser.ReadObjectHeader()
 		if !ok {
 			// not an object, skip to end of marker
-			offset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)
+			offset, err = parser.Seek(offset + int64(index[1]), io.SeekStart)
 			continue
 		}
 
@@ -163,7 +163,7 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 		}
 
 		// seek to end of object start marker
-		offset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)
+		offset, err = parser.Seek(offset + int64(index[1]), io.SeekStart)
 	}
 
 	return objects
-- 
2.43.0


From d3551026175322b1dfd1bf15040752f5d0c9d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:16 +0000
Subject: [PATCH 43/49] fix: long chains of references, xref sections and tree
 nodes exhaust the stack

---
 pdf/dictionary.go | 93 +++++++++++++++++++++++++++++------------------
 pdf/parser.go     |  5 ++-
 pdf/reference.go  | 38 ++++++++++---------
 3 files changed, 81 insertions(+), 55 deletions(-)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index f7b5966..84ad940 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -87,23 +87,31 @@ func (d Dictionary) GetNameTreeMap(key string) Array {
 
 func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 	nameTreeMap := Array{}
-	if names, ok := d.GetArray("Names"); ok {
-		// append names to name tree map
-		nameTreeMap = append(nameTreeMap, names...)
-	}
-	if kids, ok := d.GetArray("Kids"); ok {
-		for i := range kids {
-			// prevent infinite resolve reference loop
-			if r, ok := kids[i].(*Reference); ok {
-				if _, resolved := resolved_kids[r.Number]; resolved {
-					continue
-				}
-				resolved_kids[r.Number] = nil
+
+	// nodes left to visit, next one last, trees can be too deep for recursion
+	nodes := Array{d}
+	for len(nodes) > 0 {
+		node := nodes[len(nodes) - 1:]
+		nodes = nodes[:len(nodes) - 1]
+
+		// prevent infinite resolve reference loop
+		if r, ok := node[0].(*Reference); ok {
+			if _, resolved := resolved_kids[r.Number]; resolved {
+				continue
 			}
+			resolved_kids[r.Number] = nil
+		}
 
-			// get child dictionary
-			kid, _ := kids.GetDictionary(i)
-			nameTreeMap = append(nameTreeMap, kid.getNameTreeMap(resolved_kids)...)
+		// get node dictionary
+		node_d, _ := node.GetDictionary(0)
+		if names, ok := node_d.GetArray("Names"); ok {
+			// append names to name tree map
+			nameTreeMap = append(nameTreeMap, names...)
+		}
+		if kids, ok := node_d.GetArray("Kids"); ok {
+			for i := len(kids) - 1; i >= 0; i-- {
+				nodes = append(nodes, kids[i])
+			}
 		}
 	}
 	return nameTreeMap
@@ -141,29 +149,44 @@ func (d Dictionary) GetPageTree(key string) ([]Dictionary, bool) {
 
 func (d Dictionary) ResolveKids(resolved_kids map[int]interface{}) []Dictionary {
 	kids_list := []Dictionary{d}
-	if kids, ok := d.GetArray("Kids"); ok {
-		for i := range kids {
+
+	// kids left to visit, next one last, trees can be too deep for recursion
+	references := []*Reference{}
+	parents := []Dictionary{}
+	push := func(parent Dictionary) {
+		kids, _ := parent.GetArray("Kids")
+		for i := len(kids) - 1; i >= 0; i-- {
 			if r, ok := kids[i].(*Reference); ok {
-				// ignore circular references
-				if _, resolved := resolved_kids[r.Number]; resolved {
-					continue
-				}
-				resolved_kids[r.Number] = nil
-
-				// resolve
-				object := r.Resolve()
-				if kid_d, ok := object.(Dictionary); ok {
-					// resources are inherited
-					if resources, ok := d["Resources"]; ok {
-						if _, ok := kid_d["Resources"]; !ok {
-							kid_d["Resources"] = resources
-						}
-					}
-
-					// recursively resolve kids
-					kids_list = append(kids_list, kid_d.ResolveKids(resolved_kids)...)
+				references = append(references, r)
+				parents = append(parents, parent)
+			}
+		}
+	}
+
+	push(d)
+	for len(references) > 0 {
+		r, parent := references[len(references) - 1], parents[len(parents) - 1]
+		references, parents = references[:len(references) - 1], parents[:len(parents) - 1]
+
+		// ignore circular references
+		if _, resolved := resolved_kids[r.Number]; resolved {
+			continue
+		}
+		resolved_kids[r.Number] = nil
+
+		// resolve
+		object := r.Resolve()
+		if kid_d, ok := object.(Dictionary); ok {
+			// resources are inherited
+			if resources, ok := parent["Resources"]; ok {
+				if _, ok := kid_d["Resources"]; !ok {
+					kid_d["Resources"] = resources
 				}
 			}
+
+			// resolve kids of kid
+			kids_list = append(kids_list, kid_d)
+			push(kid_d)
 		}
 	}
 	return kids_list
diff --git a/pdf/parser.go b/pdf/parser.go
index 1ab6b83..ad06570 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -16,6 +16,7 @@ var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00
 var end_stream_regexp = regexp.MustCompile(`^(\r\n|\r|\n)?endstream`)
 var xref_regexp = regexp.MustCompile(`xref`)
 var max_nesting_depth = 5000
+var max_xref_chain_length = 100000
 var whitespace = []byte("\x00\t\n\f\r ")
 var delimiters = []byte("()<>[]/%")
 
@@ -201,8 +202,8 @@ func (parser *Parser) getStartXrefOffset() (int64, bool) {
 }
 
 func (parser *Parser) loadXref(offset int64, offsets map[int64]interface{}) {
-	// dont load same xref twice
-	if _, ok := offsets[offset]; !ok {
+	// dont load same xref twice and stop before the chain is too long for the stack
+	if _, ok := offsets[offset]; !ok && len(offsets) < max_xref_chain_length {
 		offsets[offset] = nil
 
 		// if xref is a table
diff --git a/pdf/reference.go b/pdf/reference.go
index fe24ae8..58a3478 100644
--- a/pdf/reference.go
+++ b/pdf/reference.go
@@ -24,7 +24,7 @@ func (reference *Reference) Resolve() Object {
 	current_offset := reference.parser.CurrentOffset()
 
 	// resolve the referenced object value
-	object := reference.resolve(map[int]interface{}{}, false)
+	object := reference.resolve(false)
 
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
@@ -38,7 +38,7 @@ func (reference *Reference) ResolveStream() []byte {
 	current_offset := reference.parser.CurrentOffset()
 
 	// resolve the referenced object value
-	object := reference.resolve(map[int]interface{}{}, true)
+	object := reference.resolve(true)
 
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
@@ -47,21 +47,23 @@ func (reference *Reference) ResolveStream() []byte {
 	return object.Stream
 }
 
-func (reference *Reference) resolve(resolved_references map[int]interface{}, with_stream bool) *IndirectObject {
-	// prevent infinite loop
-	if _, ok := resolved_references[reference.Number]; ok {
-		return NewIndirectObject(reference.Number)
+func (reference *Reference) resolve(with_stream bool) *IndirectObject {
+	resolved_references := map[int]interface{}{}
+	for {
+		// prevent infinite loop
+		if _, ok := resolved_references[reference.Number]; ok {
+			return NewIndirectObject(reference.Number)
+		}
+		resolved_references[reference.Number] = nil
+
+		// use parser to get object
+		object := reference.parser.getObject(reference.Number, with_stream)
+
+		// return the object unless it is a reference that needs to be resolved too
+		ref, ok := object.Value.(*Reference)
+		if !ok {
+			return object
+		}
+		reference = ref
 	}
-	resolved_references[reference.Number] = nil
-
-	// use parser to get object
-	object := reference.parser.getObject(reference.Number, with_stream)
-
-	// recursively resolve references
-	if ref, ok := object.Value.(*Reference); ok {
-		return ref.resolve(resolved_references, with_stream)
-	}
-
-	// return the object
-	return object
 }
-- 
2.43.0


From 57da78ca82e73848d0a335975430f2bc9fa245cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:46 +0000
Subject: [PATCH 44/49] fix: small streams can decode to more data than fits
 into memory

---
 pdf/filters.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index b80be0f..da0430b 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -11,6 +11,9 @@ import (
 	tiff_lzw "golang.org/x/image/tiff/lzw"
 )
 
+// decoded data is cut off here, small streams can decode to more data than fits into memory
+const max_decoded_size = 1 << 28
+
 func DecodeStream(filter string, data []byte, decode_parms Dictionary) []byte {
 	// do nothing if data is empty
 	if len(data) == 0 {
@@ -164,7 +167,7 @@ func ASCII85Decode(data []byte) []byte {
 
 func RunLengthDecode(data []byte) []byte {
 	var decoded_data bytes.Buffer
-	for i := 0; i < len(data); {
+	for i := 0; i < len(data) && decoded_data.Len() < max_decoded_size; {
 		// get length byte
 		length := int(data[i])
 
@@ -218,7 +221,7 @@ func FlateDecode(data []byte, decode_parms Dictionary) []byte {
 
 	// decode data with zlib reader and return
 	var decoded_data bytes.Buffer
-	bytes_read, err := decoded_data.ReadFrom(zlib_reader)
+	bytes_read, err := decoded_data.ReadFrom(io.LimitReader(zlib_reader, max_decoded_size))
 	if bytes_read == 0 && err != nil {
 		return data
 	}
@@ -243,7 +246,7 @@ func LZWDecode(data []byte, decode_parms Dictionary) []byte {
 
 	// decode data with lzw reader and return
 	var decoded_data bytes.Buffer
-	bytes_read, err := decoded_data.ReadFrom(lzw_reader)
+	bytes_read, err := decoded_data.ReadFrom(io.LimitReader(lzw_reader, max_decoded_size))
 	if bytes_read == 0 && err != nil {
 		return data
 	}
-- 
2.43.0


From 8ca00dfd628938e05356fd050a8868d42b98259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:30 +0000
Subject: [PATCH 45/49] fix: name trees that loop through a shared array of
 kids never end

---
 pdf/dictionary.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 84ad940..1698d89 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -108,6 +108,13 @@ func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 			// append names to name tree map
 			nameTreeMap = append(nameTreeMap, names...)
 		}
+		// kids are written in place in an array that may be part of a loop itself
+		if r, ok := node_d.GetReference("Kids"); ok {
+			if _, resolved := resolved_kids[r.Number]; resolved {
+				continue
+			}
+			resolved_kids[r.Number] = nil
+		}
 		if kids, ok := node_d.GetArray("Kids"); ok {
 			for i := len(kids) - 1; i >= 0; i-- {
 				nodes = append(nodes, kids[i])
-- 
2.43.0


From 09d45e17ad4f9670f49708d0395a5ffa097090fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:22 +0000
Subject: [PATCH 46/49] fix: an xref table entry that is cut short marks its
 object as free

---
 pdf/keyword.go | 1 +
 pdf/parser.go  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index a55f9e7..8d0bcd2 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -7,6 +7,7 @@ const (
 	KEYWORD_STREAM = Keyword("stream")
 	KEYWORD_R = Keyword("R")
 	KEYWORD_N = Keyword("n")
+	KEYWORD_F = Keyword("f")
 	KEYWORD_NULL = Keyword("null")
 	KEYWORD_TRUE = Keyword("true")
 	KEYWORD_FALSE = Keyword("false")
diff --git a/pdf/parser.go b/pdf/parser.go
index ad06570..d23011c 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -268,6 +268,9 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 			xref_type := XrefTypeFreeObject
 			if flag == KEYWORD_N {
 				xref_type = XrefTypeIndirectObject
+			} else if flag != KEYWORD_F {
+				// entry is cut short or damaged, it must not hide the object
+				continue
 			}
 
 			// determine object number from subsection start
-- 
2.43.0


From bc1ef70305ca06b896d04cd4618782575ce221fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:46 +0000
Subject: [PATCH 47/49] fix: trailers of stray xref sections decide whether a
 document is encrypted

---
 pdf/parser.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index d23011c..91f3f36 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -49,16 +49,26 @@ func (parser *Parser) Load(password string) error {
 	}
 	sort.Slice(xref_offsets, func(i, j int) bool { return xref_offsets[i] < xref_offsets[j] })
 
-	// add start xref offset as last entry in xref_offsets so it overrides xref entries
-	if start_xref_offset, ok := parser.getStartXrefOffset(); ok {
-		xref_offsets = append(xref_offsets, start_xref_offset)
-	}
-
 	// load all xrefs
 	for i := range xref_offsets {
 		parser.loadXref(xref_offsets[i], map[int64]interface{}{})
 	}
 
+	// load start xref last so it overrides xref entries
+	if start_xref_offset, ok := parser.getStartXrefOffset(); ok {
+		trailer := parser.trailer
+		parser.trailer = Dictionary{}
+		parser.loadXref(start_xref_offset, map[int64]interface{}{})
+
+		// trailers of other xrefs are only needed if this one is incomplete
+		if _, ok := parser.trailer["Root"]; !ok {
+			for key, value := range parser.trailer {
+				trailer[key] = value
+			}
+			parser.trailer = trailer
+		}
+	}
+
 	// repair broken and missing xref entries
 	for object_number, object := range objects {
 		if xref_entry, ok := parser.Xref[object_number]; ok {
-- 
2.43.0


From b2d731104b3bc1ab3c5e947d2b6c2617265e8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:47 +0000
Subject: [PATCH 48/49] fix: pages whose Resources entry is null do not inherit
 resources

---
 pdf/dictionary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 1698d89..c524901 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -186,7 +186,7 @@ func (d Dictionary) ResolveKids(resolved_kids map[int]interface{}) []Dictionary
 		if kid_d, ok := object.(Dictionary); ok {
 			// resources are inherited
 			if resources, ok := parent["Resources"]; ok {
-				if _, ok := kid_d["Resources"]; !ok {
+				if own, _ := kid_d.GetObject("Resources"); own == KEYWORD_NULL {
 					kid_d["Resources"] = resources
 				}
 			}
-- 
2.43.0


From ba0ca0d8fe3a7661b30cd84d253ed469879a6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:47 +0000
Subject: [PATCH 49/49] fix: documents whose trailer says /Encrypt null are
 refused as encrypted

---
 pdf/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 91f3f36..ac4e35e 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -92,7 +92,7 @@ func (parser *Parser) Load(password string) error {
 	}
 
 	// setup security handler if pdf is encrypted
-	if encrypt, ok := parser.trailer["Encrypt"]; ok {
+	if encrypt, ok := parser.trailer["Encrypt"]; ok && encrypt != KEYWORD_NULL {
 		// make sure we don't decrypt the encryption dictionary
 		if ref, ok := encrypt.(*Reference); ok {
 			if xref_entry, ok := parser.Xref[ref.Number]; ok {
-- 
2.43.0


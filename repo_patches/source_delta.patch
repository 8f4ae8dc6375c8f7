From 76b1deed6b3aa3aa60ee431325eb431397de8f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 01/19] fix: post() called the non-existent encodeCrc and
 always threw

---
 index.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/index.js b/index.js
index 9be2d49..4ef554a 100644
--- a/index.js
+++ b/index.js
@@ -199,12 +199,11 @@ module.exports = {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
 		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
-		var e = encodeCrc(data, line_size);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
-			e.output,
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + e.crc32.toString('hex'))
+			y.encode(data, line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + y.crc32(data).toString('hex'))
 		]);
 	},
 	multi_post: function(filename, size, parts, line_size) {
-- 
2.43.0


From 41fc1fdc72953d77da9b894a1fd4e7ced4b2a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 02/19] fix: strip every CR, LF and NUL from filenames, not
 just the CR-LF-NUL sequence

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 4ef554a..c19ac32 100644
--- a/index.js
+++ b/index.js
@@ -6,7 +6,7 @@ var toBuffer = Buffer.alloc ? Buffer.from : Buffer;
 var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray : Buffer.prototype.slice;
 
 var nl = toBuffer([13, 10]);
-var RE_BADCHAR = /\r\n\0/g;
+var RE_BADCHAR = /[\r\n\0]/g;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
-- 
2.43.0


From 117d587970162319f7ebb3536f56f82b9af88451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 03/19] fix: honour the encoding setting when writing filenames

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index c19ac32..1044dcd 100644
--- a/index.js
+++ b/index.js
@@ -198,7 +198,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
@@ -363,7 +363,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From 70261885d304170ad928226443d7e29c4860ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 04/19] fix: decodeChunk threw for states which are not an
 exact known state

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 1044dcd..c3c8e97 100644
--- a/index.js
+++ b/index.js
@@ -151,7 +151,7 @@ module.exports = {
 		};
 		var state = decodePrev.indexOf(prev);
 		if(state < 0) {
-			for(var l=-3; l<0; i++) {
+			for(var l=-3; l<0; l++) {
 				state = decodePrev.indexOf(prev.slice(l));
 				if(state >= 0) break;
 			}
-- 
2.43.0


From 1a0235d2d7568d147b0f6035e7d40adc89b666c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 05/19] fix: decodeChunk ignored the output buffer when
 arguments were in the documented order

---
 index.js | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/index.js b/index.js
index c3c8e97..07fe9d9 100644
--- a/index.js
+++ b/index.js
@@ -130,11 +130,12 @@ module.exports = {
 	decode: y.decode,
 	decodeTo: y.decodeTo,
 	
-	decodeChunk: function(data, output, prev) {
-		// both output and prev are optional
-		if(typeof output !== 'undefined' && !Buffer.isBuffer(output)) {
-			prev = output;
-			output = null;
+	decodeChunk: function(data, prev, output) {
+		// both prev and output are optional, and can be supplied in either order
+		if(Buffer.isBuffer(prev) || ((prev === null || typeof prev === 'undefined') && !Buffer.isBuffer(output))) {
+			var tmp = output;
+			output = prev;
+			prev = tmp;
 		}
 		if(prev === null || typeof prev === 'undefined')
 			prev = '\r\n';
-- 
2.43.0


From 2586d4cd442a95ccd2ae059eeff33daa6d328f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 06/19] fix: decodeChunk with empty data returned a non-boolean
 ended and not the supplied output

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 07fe9d9..8cc571d 100644
--- a/index.js
+++ b/index.js
@@ -146,8 +146,8 @@ module.exports = {
 		if(data.length == 0) return {
 			read: 0,
 			written: 0,
-			output: toBuffer([]),
-			ended: 0,
+			output: output || toBuffer([]),
+			ended: false,
 			state: prev
 		};
 		var state = decodePrev.indexOf(prev);
-- 
2.43.0


From e00e3184b075e1063f13fef7f8dbde4f04ae212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 07/19] fix: decodeTo silently returned 0 instead of throwing
 if the destination is too small

---
 src/yencode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index c971dbf..be6e5b8 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -266,7 +266,7 @@ FUNC(DecodeTo) {
 	
 	// check that destination buffer has enough space
 	if(node::Buffer::Length(args[1]) < arg_len)
-		RETURN_VAL( Integer::New(ISOLATE 0) );
+		RETURN_ERROR("Destination buffer does not have enough space");
 	
 	bool isRaw = false;
 	if (args.Length() > 2)
-- 
2.43.0


From 9f54740e7c7933c70a4f38c16a671cd6b68721f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 08/19] fix: crc32_zeroes truncated the length to 32 bits

---
 src/yencode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index be6e5b8..a8accad 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -400,7 +400,7 @@ FUNC(CRC32Zeroes) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int len = ARG_TO_INT(args[0]);
+	int64_t len = ARG_TO_INT(args[0]);
 	if(len < 0)
 		crc1 = crc32_unzero(crc1, -len);
 	else
-- 
2.43.0


From 2c7a3a3276456162a81bc0c78df423da714cdc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 09/19] fix: crc32_shift truncated the bit count to 32 bits

---
 src/yencode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index a8accad..8bdd479 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -436,7 +436,7 @@ FUNC(CRC32Shift) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int n = ARG_TO_INT(args[0]);
+	int64_t n = ARG_TO_INT(args[0]);
 	if(n < 0)
 		crc1 = crc32_shift(crc1, ~crc32_powmod(-n));
 	else
-- 
2.43.0


From cf101b4137b7c05f13727792dc92036723a12848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 10/19] fix: encodeIncr checked the destination size before the
 line size was known

---
 src/yencode.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 8bdd479..7cc1eb6 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -184,10 +184,6 @@ FUNC(EncodeIncr) {
 		if(node::Buffer::HasInstance(args[1])) {
 			// grab destination
 			allocResult = false;
-			// check that destination buffer has enough space
-			size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
-			if(node::Buffer::Length(args[1]) < dest_len)
-				RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 			result = (unsigned char*)node::Buffer::Data(args[1]);
 			argp++;
 		}
@@ -215,10 +211,14 @@ FUNC(EncodeIncr) {
 		RETURN_VAL( ret );
 	}
 	
+	size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 	if(allocResult) {
 		// allocate enough memory to handle worst case requirements
-		size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 		result = (unsigned char*) malloc(dest_len);
+	} else {
+		// check that destination buffer has enough space
+		if(node::Buffer::Length(args[1]) < dest_len)
+			RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	}
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
-- 
2.43.0


From acc567806292428eebf4cf6e662aa5a3776d1e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 11/19] fix: from_post mishandled line tags and properties
 named like Object.prototype members

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 8cc571d..e33c9cb 100644
--- a/index.js
+++ b/index.js
@@ -75,7 +75,7 @@ else
 var decoderParseLines = function(lines, ydata) {
 	var warnings = [];
 	for(var i=0; i<lines.length; i++) {
-		var yprops = {};
+		var yprops = Object.create(null);
 		
 		var line = lines[i].substring(2); // cut off '=y'
 		// parse tag
@@ -252,7 +252,7 @@ module.exports = {
 		if(!ret.dataStart && !ret.yencEnd) // reached end of data but '=yend' not found
 			return DecoderError('no_end_found', 'yEnd end marker not found');
 		
-		var ydata = {};
+		var ydata = Object.create(null);
 		var warnings = decoderParseLines(lines, ydata);
 		
 		if(!ret.yencEnd) {
-- 
2.43.0


From e333b774706159b74e166efa63742f1901fff02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 12/19] fix: raw decoding lost an escaped CR at the end of the
 data

When the vectorised part of decode() stopped right after a '=', and the data
ended in CR or CR LF, the scalar code wrote the unescaped CR but returned 0
rather than the number of bytes written.
---
 src/decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 6dda4ef..2b0cbe7 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -29,7 +29,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				i++;
 				if(c == '\r') {
 					*state = YDEC_STATE_CR;
-					if(i >= 0) return 0;
+					if(i >= 0) return p - dest;
 				} else {
 					*state = YDEC_STATE_NONE;
 					break;
@@ -39,7 +39,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				if(es[i] != '\n') break;
 				i++;
 				*state = YDEC_STATE_CRLF;
-				if(i >= 0) return 0;
+				if(i >= 0) return p - dest;
 				// Else fall-thru
 			case YDEC_STATE_CRLF:
 				// skip past first dot
-- 
2.43.0


From 5c34d16aeb31595bd82c44c0842d2415f4462f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 13/19] fix: line sizes and columns outside the int range
 wrapped around

e.g. a line size of -4294967295 was accepted as 1, rather than rejected
---
 src/yencode.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 7cc1eb6..3bae437 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -3,6 +3,8 @@
 #include <node_buffer.h>
 #include <node_version.h>
 #include <v8.h>
+#include <limits.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -101,6 +103,14 @@ static inline size_t YENC_MAX_SIZE(size_t len, size_t line_size) {
 #endif
 
 
+// JS integers can exceed the range of an int; saturate instead of wrapping around
+static inline int clamp_int(int64_t v) {
+	if (v == INT64_MIN) return 0; // not an integer (undefined, NaN etc), use the default
+	if (v > INT_MAX) return INT_MAX;
+	if (v < INT_MIN) return INT_MIN;
+	return (int)v;
+}
+
 // encode(str, line_size, col)
 FUNC(Encode) {
 	FUNC_START;
@@ -114,12 +124,12 @@ FUNC(Encode) {
 	
 	int line_size = 128, col = 0;
 	if (args.Length() >= 2) {
-		line_size = (int)ARG_TO_INT(args[1]);
+		line_size = clamp_int(ARG_TO_INT(args[1]));
 		if (line_size == 0) line_size = 128; // allow this case
 		if (line_size < 0)
 			RETURN_ERROR("Line size must be at least 1 byte");
 		if (args.Length() >= 3) {
-			col = (int)ARG_TO_INT(args[2]);
+			col = clamp_int(ARG_TO_INT(args[2]));
 			if (col > line_size || col < 0)
 				RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 			if (col == line_size) col = 0; // allow this case
@@ -148,12 +158,12 @@ FUNC(EncodeTo) {
 	
 	int line_size = 128, col = 0;
 	if (args.Length() >= 3) {
-		line_size = (int)ARG_TO_INT(args[2]);
+		line_size = clamp_int(ARG_TO_INT(args[2]));
 		if (line_size == 0) line_size = 128; // allow this case
 		if (line_size < 0)
 			RETURN_ERROR("Line size must be at least 1 byte");
 		if (args.Length() >= 4) {
-			col = (int)ARG_TO_INT(args[3]);
+			col = clamp_int(ARG_TO_INT(args[3]));
 			if (col > line_size || col < 0)
 				RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 			if (col == line_size) col = 0; // allow this case
@@ -188,13 +198,13 @@ FUNC(EncodeIncr) {
 			argp++;
 		}
 		if (args.Length() > argp) {
-			line_size = (int)ARG_TO_INT(args[argp]);
+			line_size = clamp_int(ARG_TO_INT(args[argp]));
 			if (line_size == 0) line_size = 128; // allow this case
 			if (line_size < 0)
 				RETURN_ERROR("Line size must be at least 1 byte");
 			argp++;
 			if (args.Length() > argp) {
-				col = (int)ARG_TO_INT(args[argp]);
+				col = clamp_int(ARG_TO_INT(args[argp]));
 				if (col > line_size || col < 0)
 					RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 				if (col == line_size) col = 0; // allow this case
-- 
2.43.0


From e27b8a88247cc1f2e9b954ee88718d6d97659ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 14/19] fix: lengths over 2^31 were returned as negative
 numbers

encodeTo, decodeTo and decodeChunk converted sizes to 32-bit integers
---
 src/yencode.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 3bae437..3e9999f 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -176,7 +176,7 @@ FUNC(EncodeTo) {
 		RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, true);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( Number::New(ISOLATE (double)len) );
 }
 
 FUNC(EncodeIncr) {
@@ -233,7 +233,7 @@ FUNC(EncodeIncr) {
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
 		result = (unsigned char*)realloc(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
@@ -283,7 +283,7 @@ FUNC(DecodeTo) {
 		isRaw = ARG_TO_BOOL(args[2]);
 	
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, NULL);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( Number::New(ISOLATE (double)len) );
 }
 
 
@@ -330,8 +330,8 @@ FUNC(DecodeIncr) {
 #endif
 	
 	Local<Object> ret = NEW_OBJECT;
-	SET_OBJ(ret, "read", Integer::New(ISOLATE sp - src));
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "read", Number::New(ISOLATE (double)(sp - src)));
+	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
-- 
2.43.0


From dd96aef42202207dbad9b974231ab690b791416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 15/19] fix: header lines could be injected through file names
 in single-byte encodings

Encodings such as latin1 truncate characters to a byte, so that e.g. U+010A
became a LF after CR, LF and NUL had already been removed.
---
 index.js | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index e33c9cb..b0f73be 100644
--- a/index.js
+++ b/index.js
@@ -118,6 +118,12 @@ var decoderParseLines = function(lines, ydata) {
 	return warnings;
 };
 
+var encodeFilename = function(filename) {
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+	// some encodings (e.g. latin1 with U+010A) turn other characters into these bytes
+	return toBuffer(filename.toString('binary').replace(RE_BADCHAR, ''), 'binary');
+};
+
 var propIsNotValidNumber = function(prop) {
 	return prop && !RE_NUMBER.test(prop);
 };
@@ -199,7 +205,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+		filename = encodeFilename(filename);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
@@ -364,7 +370,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+	filename = encodeFilename(filename);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From 53f49def4cdcd60dbfcfe48cb8c9ffa9880330dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 16/19] fix: a rejected part corrupted the state of a
 multi-part encoder

When encode() threw, the part number (and possibly the CRC) had already been
updated, so that retrying with correct data skipped a part number or produced a
wrong CRC of the whole file.
---
 index.js | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/index.js b/index.js
index b0f73be..18c9da7 100644
--- a/index.js
+++ b/index.js
@@ -391,20 +391,22 @@ YEncoder.prototype = {
 	encode: function(data) {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		this.part++;
-		if(this.part > this.parts)
+		var part = this.part + 1;
+		if(part > this.parts)
 			throw new Error('Exceeded number of specified yEnc parts');
 		var end = this.pos + data.length;
 		if(end > this.size)
 			throw new Error('Exceeded total file size');
 		
 		var yInfo = this.yInfo;
+		if(part == this.parts && end != this.size)
+			throw new Error('File size doesn\'t match total data length');
+		
 		var crc = y.crc32(data), fullCrc = '';
+		this.part = part;
 		this.crc = y.crc32_combine(this.crc, crc, data.length);
-		if(this.part == this.parts) {
+		if(part == this.parts) {
 			// final part treated slightly differently
-			if(end != this.size)
-				throw new Error('File size doesn\'t match total data length');
 			fullCrc = ' crc32='+this.crc.toString('hex');
 			this.yInfo = null;
 		}
-- 
2.43.0


From ebdcba1e45521bcc36a5311f28ca81ef6c287efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 17/19] fix: decoding to nothing returned a Buffer over a
 detached ArrayBuffer

malloc'd results were realloc'd to 0 bytes, which frees them and passes NULL
to Buffer::New; Node then detaches the ArrayBuffer, so subarray/slice throw.
---
 src/yencode.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 3e9999f..9f78f76 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -259,6 +259,10 @@ FUNC(Decode) {
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
+	if (len == 0) { // realloc to 0 frees the memory, and NULL data gives a detached Buffer
+		free(result);
+		RETURN_VAL( NEW_BUFFER(0) );
+	}
 	result = (unsigned char*)realloc(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
@@ -323,7 +327,7 @@ FUNC(DecodeIncr) {
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
-	if(allocResult) result = (unsigned char*)realloc(result, len);
+	if(allocResult && len) result = (unsigned char*)realloc(result, len);
 	
 #ifdef DBG_ALIGN_SOURCE
 	free(newSrc);
@@ -332,7 +336,10 @@ FUNC(DecodeIncr) {
 	Local<Object> ret = NEW_OBJECT;
 	SET_OBJ(ret, "read", Number::New(ISOLATE (double)(sp - src)));
 	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
-	if(allocResult) {
+	if(allocResult && len == 0) {
+		free(result);
+		SET_OBJ(ret, "output", NEW_BUFFER(0));
+	} else if(allocResult) {
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
 	}
-- 
2.43.0


From 2080fe1244247d0027977467a461d6d6daa3c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 18/19] fix: minSize counted a newline after a full last line,
 which encode does not write

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 18c9da7..659f73f 100644
--- a/index.js
+++ b/index.js
@@ -178,7 +178,7 @@ module.exports = {
 	minSize: function(length, line_size) {
 		if(!length) return 0;
 		return length // no characters escaped
-			+ 2 * Math.floor(length / (line_size||128)); // newlines
+			+ 2 * Math.floor((length-1) / (line_size||128)); // newlines (none follows a full last line)
 	},
 	maxSize: function(length, line_size, esc_ratio) {
 		if(!length) return 0;
-- 
2.43.0


From af5510c8cbc1e9ab1aa30e0fbe270ac646e008f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 19/19] fix: integers beyond the int64 range were taken as the
 default line length or column

---
 src/yencode.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 9f78f76..44b9782 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -56,11 +56,13 @@ static inline size_t YENC_MAX_SIZE(size_t len, size_t line_size) {
 #  define NEW_STRING(s) String::NewFromOneByte(isolate, (const uint8_t*)(s), NewStringType::kNormal).ToLocalChecked()
 #  define RETURN_ERROR(e) { isolate->ThrowException(Exception::Error(String::NewFromOneByte(isolate, (const uint8_t*)(e), NewStringType::kNormal).ToLocalChecked())); return; }
 #  define ARG_TO_INT(a) (a).As<Integer>()->Value()
+#  define ARG_TO_DOUBLE(a) (a).As<Number>()->Value()
 #  define ARG_TO_BOOL(a) (a).As<Boolean>()->Value()
 # else
 #  define NEW_STRING(s) String::NewFromUtf8(isolate, s)
 #  define RETURN_ERROR(e) { isolate->ThrowException(Exception::Error(String::NewFromUtf8(isolate, e))); return; }
 #  define ARG_TO_INT(a) (a)->ToInteger()->Value()
+#  define ARG_TO_DOUBLE(a) (a)->NumberValue()
 #  define ARG_TO_BOOL(a) (a)->ToBoolean()->Value()
 # endif
 # define NEW_OBJECT Object::New(isolate)
@@ -84,6 +86,7 @@ static inline size_t YENC_MAX_SIZE(size_t len, size_t line_size) {
 #define NEW_OBJECT Object::New()
 #define NEW_BUFFER(...) Local<Object>::New(node::Buffer::New(ISOLATE __VA_ARGS__)->handle_)
 #define ARG_TO_INT(a) (a)->ToInteger()->Value()
+#define ARG_TO_DOUBLE(a) (a)->NumberValue()
 #define ARG_TO_BOOL(a) (a)->ToBoolean()->Value()
 
 #define RETURN_ERROR(e) \
@@ -104,10 +107,10 @@ static inline size_t YENC_MAX_SIZE(size_t len, size_t line_size) {
 
 
 // JS integers can exceed the range of an int; saturate instead of wrapping around
-static inline int clamp_int(int64_t v) {
-	if (v == INT64_MIN) return 0; // not an integer (undefined, NaN etc), use the default
-	if (v > INT_MAX) return INT_MAX;
-	if (v < INT_MIN) return INT_MIN;
+static inline int clamp_int(double v) {
+	if (v >= INT_MAX) return INT_MAX;
+	if (v <= INT_MIN) return INT_MIN;
+	if (v != v) return 0; // not a number (undefined, NaN etc), use the default
 	return (int)v;
 }
 
@@ -124,12 +127,12 @@ FUNC(Encode) {
 	
 	int line_size = 128, col = 0;
 	if (args.Length() >= 2) {
-		line_size = clamp_int(ARG_TO_INT(args[1]));
+		line_size = clamp_int(ARG_TO_DOUBLE(args[1]));
 		if (line_size == 0) line_size = 128; // allow this case
 		if (line_size < 0)
 			RETURN_ERROR("Line size must be at least 1 byte");
 		if (args.Length() >= 3) {
-			col = clamp_int(ARG_TO_INT(args[2]));
+			col = clamp_int(ARG_TO_DOUBLE(args[2]));
 			if (col > line_size || col < 0)
 				RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 			if (col == line_size) col = 0; // allow this case
@@ -158,12 +161,12 @@ FUNC(EncodeTo) {
 	
 	int line_size = 128, col = 0;
 	if (args.Length() >= 3) {
-		line_size = clamp_int(ARG_TO_INT(args[2]));
+		line_size = clamp_int(ARG_TO_DOUBLE(args[2]));
 		if (line_size == 0) line_size = 128; // allow this case
 		if (line_size < 0)
 			RETURN_ERROR("Line size must be at least 1 byte");
 		if (args.Length() >= 4) {
-			col = clamp_int(ARG_TO_INT(args[3]));
+			col = clamp_int(ARG_TO_DOUBLE(args[3]));
 			if (col > line_size || col < 0)
 				RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 			if (col == line_size) col = 0; // allow this case
@@ -198,13 +201,13 @@ FUNC(EncodeIncr) {
 			argp++;
 		}
 		if (args.Length() > argp) {
-			line_size = clamp_int(ARG_TO_INT(args[argp]));
+			line_size = clamp_int(ARG_TO_DOUBLE(args[argp]));
 			if (line_size == 0) line_size = 128; // allow this case
 			if (line_size < 0)
 				RETURN_ERROR("Line size must be at least 1 byte");
 			argp++;
 			if (args.Length() > argp) {
-				col = clamp_int(ARG_TO_INT(args[argp]));
+				col = clamp_int(ARG_TO_DOUBLE(args[argp]));
 				if (col > line_size || col < 0)
 					RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 				if (col == line_size) col = 0; // allow this case
-- 
2.43.0


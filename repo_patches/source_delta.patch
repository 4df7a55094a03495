From 8af7008854d5e0aef674d25b44a1e147123c00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 01/23] fix: post() threw for every input as it called the
 removed encodeCrc function

---
 index.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/index.js b/index.js
index 9be2d49..4ef554a 100644
--- a/index.js
+++ b/index.js
@@ -199,12 +199,11 @@ module.exports = {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
 		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
-		var e = encodeCrc(data, line_size);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
-			e.output,
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + e.crc32.toString('hex'))
+			y.encode(data, line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + y.crc32(data).toString('hex'))
 		]);
 	},
 	multi_post: function(filename, size, parts, line_size) {
-- 
2.43.0


From 5c55d676dbef0007448ca9f4826f2c700bfac620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 02/23] fix: honour the `encoding` setting when writing
 filenames in post/multi_post

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 4ef554a..b9a16e5 100644
--- a/index.js
+++ b/index.js
@@ -198,7 +198,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
@@ -363,7 +363,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From cf131ec472e2c4b796746aed91f1145e7339b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 03/23] fix: strip each CR, LF and NUL from filenames, not only
 the sequence of all three

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index b9a16e5..1044dcd 100644
--- a/index.js
+++ b/index.js
@@ -6,7 +6,7 @@ var toBuffer = Buffer.alloc ? Buffer.from : Buffer;
 var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray : Buffer.prototype.slice;
 
 var nl = toBuffer([13, 10]);
-var RE_BADCHAR = /\r\n\0/g;
+var RE_BADCHAR = /[\r\n\0]/g;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
-- 
2.43.0


From 2f0bc298e7aee77b9b5616bd5b5ec11245ca5723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 04/23] fix: decodeChunk threw a ReferenceError when the state
 ends with, but isn't exactly, a known state

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 1044dcd..c3c8e97 100644
--- a/index.js
+++ b/index.js
@@ -151,7 +151,7 @@ module.exports = {
 		};
 		var state = decodePrev.indexOf(prev);
 		if(state < 0) {
-			for(var l=-3; l<0; i++) {
+			for(var l=-3; l<0; l++) {
 				state = decodePrev.indexOf(prev.slice(l));
 				if(state >= 0) break;
 			}
-- 
2.43.0


From 3e233b42e20fc9efc1d0febaacd20a938ead4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 05/23] fix: decodeChunk ignored the output buffer when given
 in the documented position

---
 index.js | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index c3c8e97..e29e2c0 100644
--- a/index.js
+++ b/index.js
@@ -131,10 +131,16 @@ module.exports = {
 	decodeTo: y.decodeTo,
 	
 	decodeChunk: function(data, output, prev) {
-		// both output and prev are optional
-		if(typeof output !== 'undefined' && !Buffer.isBuffer(output)) {
-			prev = output;
-			output = null;
+		// both output and prev are optional, and can be given in either order
+		if(!Buffer.isBuffer(output)) {
+			var state_arg = output;
+			if(Buffer.isBuffer(prev)) {
+				output = prev;
+				prev = state_arg;
+			} else if(typeof state_arg !== 'undefined') {
+				prev = state_arg;
+				output = null;
+			}
 		}
 		if(prev === null || typeof prev === 'undefined')
 			prev = '\r\n';
-- 
2.43.0


From 11ca178fa7236855634d6cad6589ea8ecb763c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 06/23] fix: decodeChunk on an empty chunk must return the
 supplied output, and a boolean for `ended`

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index e29e2c0..0846cdd 100644
--- a/index.js
+++ b/index.js
@@ -151,8 +151,8 @@ module.exports = {
 		if(data.length == 0) return {
 			read: 0,
 			written: 0,
-			output: toBuffer([]),
-			ended: 0,
+			output: output || toBuffer([]),
+			ended: false,
 			state: prev
 		};
 		var state = decodePrev.indexOf(prev);
-- 
2.43.0


From e09b619b32eb131f25ac6c247433c3630b5b9833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 07/23] fix: decodeTo must throw, as documented, when the
 output buffer is too small

---
 src/yencode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index c971dbf..be6e5b8 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -266,7 +266,7 @@ FUNC(DecodeTo) {
 	
 	// check that destination buffer has enough space
 	if(node::Buffer::Length(args[1]) < arg_len)
-		RETURN_VAL( Integer::New(ISOLATE 0) );
+		RETURN_ERROR("Destination buffer does not have enough space");
 	
 	bool isRaw = false;
 	if (args.Length() > 2)
-- 
2.43.0


From d6b6f735525cb8ede6062985fd732bd7cce6901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 08/23] fix: crc32_zeroes/crc32_shift truncated their length to
 32 bits

---
 src/yencode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index be6e5b8..8bdd479 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -400,7 +400,7 @@ FUNC(CRC32Zeroes) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int len = ARG_TO_INT(args[0]);
+	int64_t len = ARG_TO_INT(args[0]);
 	if(len < 0)
 		crc1 = crc32_unzero(crc1, -len);
 	else
@@ -436,7 +436,7 @@ FUNC(CRC32Shift) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int n = ARG_TO_INT(args[0]);
+	int64_t n = ARG_TO_INT(args[0]);
 	if(n < 0)
 		crc1 = crc32_shift(crc1, ~crc32_powmod(-n));
 	else
-- 
2.43.0


From a761c37e0e95bef369786cd173f94846c09e5ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 09/23] fix: lengths of 2GB or more were returned as negative
 numbers

---
 src/yencode.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 8bdd479..68031f4 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -166,7 +166,7 @@ FUNC(EncodeTo) {
 		RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, true);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( Number::New(ISOLATE (double)len) );
 }
 
 FUNC(EncodeIncr) {
@@ -223,7 +223,7 @@ FUNC(EncodeIncr) {
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
 		result = (unsigned char*)realloc(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
@@ -273,7 +273,7 @@ FUNC(DecodeTo) {
 		isRaw = ARG_TO_BOOL(args[2]);
 	
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, NULL);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( Number::New(ISOLATE (double)len) );
 }
 
 
@@ -320,8 +320,8 @@ FUNC(DecodeIncr) {
 #endif
 	
 	Local<Object> ret = NEW_OBJECT;
-	SET_OBJ(ret, "read", Integer::New(ISOLATE sp - src));
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "read", Number::New(ISOLATE (double)(sp - src)));
+	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
-- 
2.43.0


From d19903fd784a91c2ffc83ccf05fe493ec853e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 10/23] fix: a multi_post part rejected with an error must not
 be counted or hashed

---
 index.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index 0846cdd..49616a7 100644
--- a/index.js
+++ b/index.js
@@ -390,20 +390,21 @@ YEncoder.prototype = {
 	encode: function(data) {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		this.part++;
-		if(this.part > this.parts)
+		// check everything before changing any state, so that a rejected call has no effect
+		if(this.part >= this.parts)
 			throw new Error('Exceeded number of specified yEnc parts');
 		var end = this.pos + data.length;
 		if(end > this.size)
 			throw new Error('Exceeded total file size');
+		if(this.part+1 == this.parts && end != this.size)
+			throw new Error('File size doesn\'t match total data length');
 		
+		this.part++;
 		var yInfo = this.yInfo;
 		var crc = y.crc32(data), fullCrc = '';
 		this.crc = y.crc32_combine(this.crc, crc, data.length);
 		if(this.part == this.parts) {
 			// final part treated slightly differently
-			if(end != this.size)
-				throw new Error('File size doesn\'t match total data length');
 			fullCrc = ' crc32='+this.crc.toString('hex');
 			this.yInfo = null;
 		}
-- 
2.43.0


From 4c9c9542fa7cb56289494e3cc80bb23aa3771192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 11/23] fix: minSize exceeded the actual size if the length is
 a multiple of the line size

---
 README.md | 2 --
 index.js  | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/README.md b/README.md
index ade7422..543a927 100644
--- a/README.md
+++ b/README.md
@@ -72,8 +72,6 @@ For usage with *encodeTo*, the *escape_ratio* must be 1.
 
 Returns the minimum possible size for a raw yEnc encoded message of *length* bytes. Unlike `maxSize`, this does not include alignment provisions for *yencode*‘s implementation of yEnc.
 
-This is equivalent to `maxSize(length, line_size, 0) - 2` (`maxSize` adds a 2 to provision for an early end-of-line due to a line offset being used).
-
 ### Buffer decode(Buffer data, bool stripDots=false)
 
 Performs raw yEnc decoding on *data* returning the result.  
diff --git a/index.js b/index.js
index 49616a7..0d7a844 100644
--- a/index.js
+++ b/index.js
@@ -177,7 +177,7 @@ module.exports = {
 	minSize: function(length, line_size) {
 		if(!length) return 0;
 		return length // no characters escaped
-			+ 2 * Math.floor(length / (line_size||128)); // newlines
+			+ 2 * Math.floor((length-1) / (line_size||128)); // newlines (none after the last line)
 	},
 	maxSize: function(length, line_size, esc_ratio) {
 		if(!length) return 0;
-- 
2.43.0


From 9e9dc814b16415a1ed72d8855fda939377305607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 12/23] fix: from_post gave bogus warnings for, or lost,
 properties named like built-in object properties

---
 index.js | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index 0d7a844..5e73917 100644
--- a/index.js
+++ b/index.js
@@ -72,6 +72,14 @@ else
 		return -1;
 	};
 
+// properties/tags come from the post, so may coincide with names of built-in object properties
+var hasOwn = function(obj, key) {
+	return Object.prototype.hasOwnProperty.call(obj, key);
+};
+var setOwn = function(obj, key, value) {
+	Object.defineProperty(obj, key, {value: value, configurable: true, enumerable: true, writable: true});
+};
+
 var decoderParseLines = function(lines, ydata) {
 	var warnings = [];
 	for(var i=0; i<lines.length; i++) {
@@ -100,20 +108,20 @@ var decoderParseLines = function(lines, ydata) {
 				val = (p<0 ? line.substring(valPos) : line.substring(valPos, p));
 				line = line.substring(valPos + val.length +1);
 			}
-			if(prop in yprops) {
+			if(hasOwn(yprops, prop)) {
 				warnings.push(DecoderWarning('duplicate_property', 'Duplicate property encountered: `' + prop + '`'));
 			}
-			yprops[prop] = val;
+			setOwn(yprops, prop, val);
 			m = line.match(RE_YPROP);
 		}
 		if(line != '') {
 			warnings.push(DecoderWarning('ignored_line_data', 'Unknown additional end-of-line data ignored: "' + line + '"'));
 		}
 		
-		if(tag in ydata) {
+		if(hasOwn(ydata, tag)) {
 			warnings.push(DecoderWarning('duplicate_line', 'Duplicate line encountered: `' + tag + '`'));
 		}
-		ydata[tag] = yprops;
+		setOwn(ydata, tag, yprops);
 	}
 	return warnings;
 };
-- 
2.43.0


From 049eaa484a4abdbb110347289c1ff82b1017f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 13/23] fix: decoding to nothing returned an unusable Buffer on
 a detached ArrayBuffer

---
 src/yencode.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 68031f4..ae0f132 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -249,6 +249,11 @@ FUNC(Decode) {
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
+	if (len == 0) {
+		// all input consumed without output; a Buffer can't be wrapped around nothing
+		free(result);
+		RETURN_VAL( NEW_BUFFER(0) );
+	}
 	result = (unsigned char*)realloc(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
@@ -313,7 +318,7 @@ FUNC(DecodeIncr) {
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
-	if(allocResult) result = (unsigned char*)realloc(result, len);
+	if(allocResult && len > 0) result = (unsigned char*)realloc(result, len);
 	
 #ifdef DBG_ALIGN_SOURCE
 	free(newSrc);
@@ -322,7 +327,11 @@ FUNC(DecodeIncr) {
 	Local<Object> ret = NEW_OBJECT;
 	SET_OBJ(ret, "read", Number::New(ISOLATE (double)(sp - src)));
 	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
-	if(allocResult) {
+	if(allocResult && len == 0) {
+		// a Buffer can't be wrapped around nothing
+		free(result);
+		SET_OBJ(ret, "output", NEW_BUFFER(0));
+	} else if(allocResult) {
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
 	}
-- 
2.43.0


From 521fd674c7d57eebfdc499691480dd4a32c645bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 14/23] fix: decoding with dot-unstuffing lost an escaped CR
 that ends the data just after a vector boundary

---
 src/decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 6dda4ef..2b0cbe7 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -29,7 +29,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				i++;
 				if(c == '\r') {
 					*state = YDEC_STATE_CR;
-					if(i >= 0) return 0;
+					if(i >= 0) return p - dest;
 				} else {
 					*state = YDEC_STATE_NONE;
 					break;
@@ -39,7 +39,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				if(es[i] != '\n') break;
 				i++;
 				*state = YDEC_STATE_CRLF;
-				if(i >= 0) return 0;
+				if(i >= 0) return p - dest;
 				// Else fall-thru
 			case YDEC_STATE_CRLF:
 				// skip past first dot
-- 
2.43.0


From bae2f591d778fc170a4585fc94090b0dceb87300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 15/23] fix: throw when memory for the output cannot be
 allocated

The results of malloc were used unchecked, so that encode, decode and
decodeChunk of data too large for the available memory wrote through a null
pointer and ended the process.
---
 src/yencode.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/yencode.cc b/src/yencode.cc
index ae0f132..2a535cb 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -130,6 +130,8 @@ FUNC(Encode) {
 	size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 	
 	unsigned char *result = (unsigned char*) malloc(dest_len);
+	if (!result)
+		RETURN_ERROR("Failed to allocate memory for the output");
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, true);
 	result = (unsigned char*)realloc(result, len);
 	MARK_EXT_MEM(len);
@@ -219,6 +221,8 @@ FUNC(EncodeIncr) {
 		// allocate enough memory to handle worst case requirements
 		size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 		result = (unsigned char*) malloc(dest_len);
+		if (!result)
+			RETURN_ERROR("Failed to allocate memory for the output");
 	}
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
@@ -248,6 +252,8 @@ FUNC(Decode) {
 		isRaw = ARG_TO_BOOL(args[1]);
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
+	if (!result)
+		RETURN_ERROR("Failed to allocate memory for the output");
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
 	if (len == 0) {
 		// all input consumed without output; a Buffer can't be wrapped around nothing
@@ -315,6 +321,8 @@ FUNC(DecodeIncr) {
 #endif
 	
 	if(allocResult) result = (unsigned char*) malloc(arg_len);
+	if(allocResult && !result)
+		RETURN_ERROR("Failed to allocate memory for the output");
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
-- 
2.43.0


From aefacc1c5ef9b1b9bf36ab9bb95104d74345ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 16/23] fix: crc32_combine truncated its length to 32 bits on
 32-bit systems

---
 src/yencode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 2a535cb..cc1d1f8 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -399,7 +399,7 @@ FUNC(CRC32Combine) {
 		RETURN_ERROR("You must supply a 4 byte Buffer for the first two arguments");
 	
 	uint32_t crc1 = read_crc32(args[0]), crc2 = read_crc32(args[1]);
-	size_t len = (size_t)ARG_TO_INT(args[2]);
+	uint64_t len = (uint64_t)ARG_TO_INT(args[2]);
 	
 	crc1 = crc32_combine(crc1, crc2, len);
 	RETURN_VAL(pack_crc32(ISOLATE crc1));
-- 
2.43.0


From 29d9fc1bb3502a33af69607a3801774213135410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 17/23] fix: line breaks were corrupted on big-endian systems
 if the byte after was 214 or above

---
 src/encoder.cc       | 2 +-
 src/encoder_common.h | 2 +-
 src/encoder_neon.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/encoder.cc b/src/encoder.cc
index b0642fb..ebe2e5c 100644
--- a/src/encoder.cc
+++ b/src/encoder.cc
@@ -122,7 +122,7 @@ size_t RapidYenc::do_encode_generic(int line_size, int* colOffset, const unsigne
 			col = 2;
 		} else {
 			// another option may be to just write the EOL and let the first char be handled by the faster methods above, but it appears that writing the extra byte here is generally faster...
-			uint32_t w = UINT32_PACK('\r', '\n', (uint32_t)(c+42), 0);
+			uint32_t w = UINT32_PACK('\r', '\n', (uint32_t)(uint8_t)(c+42), 0);
 			memcpy(p, &w, sizeof(w));
 			p += 3;
 			col = 1;
diff --git a/src/encoder_common.h b/src/encoder_common.h
index 8e4975c..df2b34f 100644
--- a/src/encoder_common.h
+++ b/src/encoder_common.h
@@ -79,7 +79,7 @@ static size_t do_encode_simd(int line_size, int* colOffset, const unsigned char*
 				p += 4;
 				*colOffset = 2;
 			} else {
-				uint32_t w = UINT32_PACK('\r', '\n', (uint32_t)(c+42), 0);
+				uint32_t w = UINT32_PACK('\r', '\n', (uint32_t)(uint8_t)(c+42), 0);
 				memcpy(p, &w, sizeof(w));
 				p += 3;
 				*colOffset = 1;
diff --git a/src/encoder_neon.cc b/src/encoder_neon.cc
index e3faab2..9e1aac4 100644
--- a/src/encoder_neon.cc
+++ b/src/encoder_neon.cc
@@ -296,7 +296,7 @@ HEDLEY_ALWAYS_INLINE void do_encode_neon(int line_size, int* colOffset, const ui
 				p += 4;
 				col = 2-line_size + 1;
 			} else {
-				uint32_t v = UINT32_PACK('\r', '\n', (uint32_t)(c+42), 0);
+				uint32_t v = UINT32_PACK('\r', '\n', (uint32_t)(uint8_t)(c+42), 0);
 				memcpy(p, &v, sizeof(v));
 				p += 3;
 				col = 2-line_size;
-- 
2.43.0


From df13668cdfb3debea78becd936cb17c8cf50fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 18/23] fix: CRC32 of 8 to 15 unaligned bytes could raise an
 alignment fault on AArch32

---
 src/crc_arm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crc_arm.cc b/src/crc_arm.cc
index 6eb6815..cf58ce3 100644
--- a/src/crc_arm.cc
+++ b/src/crc_arm.cc
@@ -96,7 +96,7 @@ static uint32_t crc32_multiply_arm(uint32_t a, uint32_t b) {
 static uint32_t arm_crc_calc(uint32_t crc, const unsigned char *src, long len) {
 	
 	// initial alignment
-	if (len >= 16) { // 16 is an arbitrary number; it just needs to be >=8
+	if (len >= 8) { // needs to be >=8 for alignment to be possible, but not more as pairs of words, which AArch32 requires to be aligned, are loaded from there
 		if ((uintptr_t)src & sizeof(uint8_t)) {
 			crc = __crc32b(crc, *src);
 			src++;
-- 
2.43.0


From e7e7a5544d103f926a4bbcab7ec0a3622c95b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 19/23] fix: decoding runs of = signs hung, or gave wrong
 results, with RISC-V vectors of 512 bits or more

---
 src/decoder_rvv.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/decoder_rvv.cc b/src/decoder_rvv.cc
index d2315ff..3664559 100644
--- a/src/decoder_rvv.cc
+++ b/src/decoder_rvv.cc
@@ -31,10 +31,11 @@ static inline vbool4_t mask_lshift(vbool4_t m, unsigned shiftIn, size_t vl) {
 }
 template<int shift>
 static inline vbool64_t mask_lshift(vbool64_t m, unsigned shiftIn, size_t vl) {
+	size_t vl8 = (vl+7)/8; // may only be part of a byte
 	vuint8m1_t mv = RV_VEC_CAST(64, 8, m);
-	vuint8m1_t mvl = RV(vsll_vx_u8m1)(mv, shift, vl/8);
-	vuint8m1_t mvr = RV(vsrl_vx_u8m1)(mv, 8-shift, vl/8);
-	mvr = RV(vslide1up_vx_u8m1)(mvr, shiftIn, vl/8);
+	vuint8m1_t mvl = RV(vsll_vx_u8m1)(mv, shift, vl8);
+	vuint8m1_t mvr = RV(vsrl_vx_u8m1)(mv, 8-shift, vl8);
+	mvr = RV(vslide1up_vx_u8m1)(mvr, shiftIn, vl8);
 	
 	return RV(vmor_mm_b64)(
 		RV_MASK_CAST(64, 8, mvl), RV_MASK_CAST(64, 8, mvr), vl
@@ -226,9 +227,10 @@ HEDLEY_ALWAYS_INLINE void do_decode_rvv(const uint8_t* src, long& len, unsigned
 					unsigned vl64 = vl2/64;
 					vbool64_t carry = RV(vmadc_vv_u64m1_b64)(cmpEq64, evenStart64, vl64);
 					carry = mask_lshift<1>(carry, 0, vl64);
-					oddGroups64 = RV(vadd_vv_u64m1)(cmpEq64, evenStart64, 1);
+					oddGroups64 = RV(vadd_vv_u64m1)(cmpEq64, evenStart64, vl64);
 					while(RV(vcpop_m_b64)(carry, vl64)) {
-						vbool64_t nextCarry = RV(vmadc_vx_u64m1_b64)(oddGroups64, 1, vl64);
+						// adding the carry only carries further if all bits are set
+						vbool64_t nextCarry = RV(vmand_mm_b64)(RV(vmseq_vx_u64m1_b64)(oddGroups64, ~(uint64_t)0, vl64), carry, vl64);
 						oddGroups64 = RV(vadd_vx_u64m1_mu)(carry, oddGroups64, oddGroups64, 1, vl64);
 						carry = mask_lshift<1>(nextCarry, 0, vl64);
 					}
-- 
2.43.0


From 048067821e76bd98a263703bf2156c9f5bb0754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 20/23] fix: line breaks could be missing with line sizes
 within 6 of the largest int, in the generic encoder

---
 src/encoder.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/encoder.cc b/src/encoder.cc
index ebe2e5c..5cd988f 100644
--- a/src/encoder.cc
+++ b/src/encoder.cc
@@ -47,7 +47,7 @@ size_t RapidYenc::do_encode_generic(int line_size, int* colOffset, const unsigne
 	}
 	while(i < 0) {
 		// main line
-		unsigned char* sp = NULL;
+		unsigned char* sp;
 		while (i < -1-8 && line_size-col-1 > 8) {
 			// 8 cycle unrolled version
 			sp = p;
@@ -69,15 +69,15 @@ size_t RapidYenc::do_encode_generic(int line_size, int* colOffset, const unsigne
 			DO_THING(7);
 			
 			i += 8;
+			if((int)(p - sp) >= line_size-1-col) {
+				// TODO: consider revert optimisation from SIMD code
+				// we overflowed - need to revert and use slower method :(
+				p = sp;
+				i -= 8;
+				break;
+			}
 			col += (int)(p - sp);
 		}
-		if(sp && col >= line_size-1) {
-			// TODO: consider revert optimisation from SIMD code
-			// we overflowed - need to revert and use slower method :(
-			col -= (int)(p - sp);
-			p = sp;
-			i -= 8;
-		}
 		// handle remaining chars
 		while(col < line_size-1) {
 			c = es[i++], escaped = RapidYenc::escapeLUT[c];
-- 
2.43.0


From 3a8a8e2e3b6aed277dfd5464b397843e6d9865ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:34 +0000
Subject: [PATCH 21/23] fix: from_post failed if called detached from the
 module object

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 5e73917..90d9f71 100644
--- a/index.js
+++ b/index.js
@@ -248,7 +248,7 @@ module.exports = {
 		var sp = yencStart;
 		var p = bufferFind(data, '\r\n', yencStart+8);
 		while(p > 0) {
-			var line = bufferSlice.call(data, sp, p).toString(this.encoding).trim();
+			var line = bufferSlice.call(data, sp, p).toString(module.exports.encoding).trim();
 			lines.push(line);
 			sp = p+2;
 			if(line.substring(0, 6) == '=yend ') { // no data in post
@@ -282,7 +282,7 @@ module.exports = {
 				ret.yencEnd = p;
 			} else
 				ret.yencEnd = p+2;
-			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(this.encoding).trim();
+			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(module.exports.encoding).trim();
 			
 			warnings = warnings.concat(decoderParseLines([endLine], ydata));
 		}
-- 
2.43.0


From 32ab897e3caa755eac5e1ef22aa2c93e70ef5478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:37 +0000
Subject: [PATCH 22/23] fix: a multi_post part for which there's not enough
 memory must not be counted or hashed

---
 index.js | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/index.js b/index.js
index 90d9f71..24be6cc 100644
--- a/index.js
+++ b/index.js
@@ -407,25 +407,28 @@ YEncoder.prototype = {
 		if(this.part+1 == this.parts && end != this.size)
 			throw new Error('File size doesn\'t match total data length');
 		
-		this.part++;
-		var yInfo = this.yInfo;
+		var part = this.part+1;
 		var crc = y.crc32(data), fullCrc = '';
-		this.crc = y.crc32_combine(this.crc, crc, data.length);
-		if(this.part == this.parts) {
+		var totalCrc = y.crc32_combine(this.crc, crc, data.length);
+		if(part == this.parts) {
 			// final part treated slightly differently
-			fullCrc = ' crc32='+this.crc.toString('hex');
-			this.yInfo = null;
+			fullCrc = ' crc32='+totalCrc.toString('hex');
 		}
 		
 		var ret = Buffer.concat([
-			toBuffer('=ybegin part='+this.part),
-			yInfo,
+			toBuffer('=ybegin part='+part),
+			this.yInfo,
 			toBuffer('=ypart begin='+( this.pos+1 )+' end='+end+'\r\n'),
 			y.encode(data, this.line_size),
-			toBuffer('\r\n=yend size='+data.length+' part='+this.part+' pcrc32='+crc.toString('hex')+fullCrc)
+			toBuffer('\r\n=yend size='+data.length+' part='+part+' pcrc32='+crc.toString('hex')+fullCrc)
 		]);
 		
+		// making the article fails if there's not enough memory, so only now is the part accepted
+		this.part = part;
 		this.pos = end;
+		this.crc = totalCrc;
+		if(part == this.parts)
+			this.yInfo = null;
 		return ret;
 	},
 	
@@ -434,18 +437,19 @@ YEncoder.prototype = {
 		
 		if(this.size != data.length)
 			throw new Error('File size doesn\'t match total data length');
-		this.encode = singleEncodeError;
 		
+		var crc = y.crc32(data);
+		var ret = Buffer.concat([
+			this.yInfo,
+			y.encode(data, this.line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + crc.toString('hex'))
+		]);
+		
+		this.encode = singleEncodeError;
 		this.part = 1;
 		this.pos = data.length;
-		this.crc = y.crc32(data);
-		
-		var yInfo = this.yInfo;
+		this.crc = crc;
 		this.yInfo = null;
-		return Buffer.concat([
-			yInfo,
-			y.encode(data, this.line_size),
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + this.crc.toString('hex'))
-		]);
+		return ret;
 	}
 };
-- 
2.43.0


From 3f36d61aa2938da7a25b93f9c801a84d8443e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:13 +0000
Subject: [PATCH 23/23] fix: line sizes and columns of 2^31 and above were
 truncated to 32 bits

---
 src/yencode.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index cc1d1f8..28ccf21 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -3,6 +3,7 @@
 #include <node_buffer.h>
 #include <node_version.h>
 #include <v8.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -94,6 +95,14 @@ static inline size_t YENC_MAX_SIZE(size_t len, size_t line_size) {
 #define MARK_EXT_MEM V8::AdjustAmountOfExternalAllocatedMemory
 #endif
 
+// line sizes and column offsets are ints here, but numbers outside of its range must not wrap around
+static inline int clamp_to_int(double val) {
+	if (val >= INT_MAX) return INT_MAX;
+	if (val <= INT_MIN) return INT_MIN;
+	return val == val ? (int)val : 0;
+}
+#define ARG_TO_CLAMPED_INT(a) ((a)->IsNumber() ? clamp_to_int((a).As<Number>()->Value()) : (int)ARG_TO_INT(a))
+
 #if NODE_VERSION_AT_LEAST(12, 0, 0)
 # define SET_OBJ(obj, key, val) (obj)->Set(isolate->GetCurrentContext(), NEW_STRING(key), val).Check()
 #else
@@ -114,12 +123,12 @@ FUNC(Encode) {
 	
 	int line_size = 128, col = 0;
 	if (args.Length() >= 2) {
-		line_size = (int)ARG_TO_INT(args[1]);
+		line_size = ARG_TO_CLAMPED_INT(args[1]);
 		if (line_size == 0) line_size = 128; // allow this case
 		if (line_size < 0)
 			RETURN_ERROR("Line size must be at least 1 byte");
 		if (args.Length() >= 3) {
-			col = (int)ARG_TO_INT(args[2]);
+			col = ARG_TO_CLAMPED_INT(args[2]);
 			if (col > line_size || col < 0)
 				RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 			if (col == line_size) col = 0; // allow this case
@@ -150,12 +159,12 @@ FUNC(EncodeTo) {
 	
 	int line_size = 128, col = 0;
 	if (args.Length() >= 3) {
-		line_size = (int)ARG_TO_INT(args[2]);
+		line_size = ARG_TO_CLAMPED_INT(args[2]);
 		if (line_size == 0) line_size = 128; // allow this case
 		if (line_size < 0)
 			RETURN_ERROR("Line size must be at least 1 byte");
 		if (args.Length() >= 4) {
-			col = (int)ARG_TO_INT(args[3]);
+			col = ARG_TO_CLAMPED_INT(args[3]);
 			if (col > line_size || col < 0)
 				RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 			if (col == line_size) col = 0; // allow this case
@@ -194,13 +203,13 @@ FUNC(EncodeIncr) {
 			argp++;
 		}
 		if (args.Length() > argp) {
-			line_size = (int)ARG_TO_INT(args[argp]);
+			line_size = ARG_TO_CLAMPED_INT(args[argp]);
 			if (line_size == 0) line_size = 128; // allow this case
 			if (line_size < 0)
 				RETURN_ERROR("Line size must be at least 1 byte");
 			argp++;
 			if (args.Length() > argp) {
-				col = (int)ARG_TO_INT(args[argp]);
+				col = ARG_TO_CLAMPED_INT(args[argp]);
 				if (col > line_size || col < 0)
 					RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 				if (col == line_size) col = 0; // allow this case
-- 
2.43.0


#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit and re-validate).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Encoding produces exactly the yEnc encoding",
 "For every Buffer, line size >= 1 and column offset, encode returns, and encodeTo writes and counts, exactly the yEnc encoding: each byte plus 42 modulo 256, prefixed by '=' and increased by 64 when it is NUL, LF, CR or '=', when it is a TAB or SPACE in the first or last column of a line or as the very last byte, or when it is a '.' in the first column. A CRLF is inserted before a byte exactly when the current line already holds at least line_size characters (an escape pair started in the last column stays whole), and never after the last byte. The two functions agree, omitted or zero line size means 128, and line sizes and columns above 2^31-1 count as 2^31-1.",
 ["inputs","configurations"],"all byte strings of any length, all line sizes, all column offsets 0..line_size, all memory alignments, and every instruction-set level the library can select",
 "The tests compare against a reference for a few hundred hand-picked or random inputs at a handful of line sizes and a handful of CPU models; where line ends, escapes and vector-block boundaries fall relative to one another is an unbounded space.",
 ["src/encoder.cc","src/encoder_sse_base.h","src/encoder_avx_base.h","src/encoder_common.h","src/yencode.cc"],
 [("scalar encoder and escape tables","src/encoder.cc do_encode_generic"),("SSE/AVX kernels with line-end handling","src/encoder_sse_base.h, src/encoder_avx_base.h"),("argument defaults and output sizing","src/yencode.cc Encode, EncodeTo")],
 ["return value of encode/encodeTo","bytes written to the output Buffer"],
 [("column","number of characters already on the current output line","src/encoder*.{cc,h} colOffset")])

prop("C02","Encoded data is always safe to transport",
 "Whatever the data, line size and column offset, encoded output contains NUL never, CR and LF only as the CRLF pairs that end lines, and '=' only as the first character of an escape pair, which is never split across lines and never dangling. Every line but the last holds line_size characters, or line_size+1 if an escape pair started in the last column (the first line is shorter by the column offset); the last line holds between 1 and line_size+1. No line begins with '.' , TAB or SPACE, no line ends with a TAB or SPACE, and the output does not end in a line break.",
 ["inputs","configurations"],"all byte strings, line sizes, column offsets, and instruction-set levels",
 "Existing tests compare whole outputs on samples; a violation needs a particular byte to meet a particular column and vector-lane position, which samples rarely hit.",
 ["src/encoder.cc","src/encoder_sse_base.h","src/encoder_avx_base.h"],
 [("escape decision per column class","src/encoder.cc escapeLUT/escapedLUT"),("vector line-end handling","src/encoder_sse_base.h encode_eol_handle_pre, src/encoder_avx_base.h")],
 ["return value of encode","bytes written by encodeTo"])

prop("C03","Decoding inverts encoding",
 "For every byte string, line size and column offset, decoding the encoded form gives back exactly the original bytes, whether decoded in one go with or without dot-unstuffing (after NNTP dot-stuffing has been applied, in the former case), into a new Buffer, a supplied one or in place, or fed to decodeChunk in arbitrary chunks. Dot-stuffing an encoded message never changes it at line starts other than the first, because no encoded line starts with '.'. This holds across any combination of the implementations that produced and consumed the data.",
 ["inputs","configurations","histories"],"all byte strings, line sizes, column offsets, chunkings and pairs of instruction-set levels",
 "No existing test runs encode and decode against each other over the input space; each side is only sampled against its own reference.",
 ["src/encoder.cc","src/decoder.cc","src/encoder_sse_base.h","src/decoder_sse_base.h","src/decoder_avx2_base.h","src/encoder_avx_base.h","index.js"],
 [("encoder","src/encoder*.h"),("decoder","src/decoder*.h"),("JS wrappers","index.js encode/decode/decodeChunk")],
 ["decode(encode(x))","decodeChunk over chunks of encode(x)"])

prop("C04","Decoding arbitrary bytes follows the yEnc decoding rules",
 "For every byte string (well-formed or not), decode returns, and decodeTo writes and counts, exactly: CR and LF dropped unless escaped, '=' dropped and the byte after it reduced by 106, every other byte reduced by 42 (modulo 256), and a trailing lone '=' dropped. With stripDots set, additionally the first '.' of a line is dropped, a line start being the start of the data or any position after CRLF, where a CR that was consumed as an escaped byte still counts as a CR. The result does not depend on whether a new, a supplied or the same Buffer receives the output.",
 ["inputs","configurations"],"all byte strings including malformed ones (runs of '=', dots, bare CR/LF, escapes across line ends), both stripDots settings, all alignments, all instruction-set levels, separate and in-place output",
 "The tests sample a few dozen patterns; malformed sequences straddling vector-block boundaries at each alignment are combinatorially many.",
 ["src/decoder.cc","src/decoder_common.h","src/decoder_sse_base.h","src/decoder_avx2_base.h","src/yencode.cc"],
 [("scalar decoder","src/decoder.cc do_decode_noend_scalar"),("SIMD driver: alignment prefix, lookahead, tail","src/decoder_common.h _do_decode_simd"),("escape-run resolution","src/decoder_common.h fix_eqMask")],
 ["return value of decode/decodeTo","output Buffer contents"],
 [("decoder state","which of CRLF, '=', CR, none precedes the next byte","src/decoder.h YencDecoderState")])

prop("C05","Incremental decoding does not depend on the chunking",
 "For every byte stream and every way of cutting it into chunks (empty chunks included), feeding the chunks to decodeChunk with each returned state passed on gives the same concatenated output, the same total number of bytes read, the same final ended flag and the same final state as feeding the stream whole. Every intermediate state is exactly the state reached by the prefix fed so far, so a decode may be resumed from it in another call, Buffer or process.",
 ["histories","inputs","configurations"],"all byte streams, all chunkings, every reachable state as starting point, all alignments and instruction-set levels, separate and in-place output",
 "The tests feed short sequences split at a few fixed points through the raw native call and never start from a non-initial state or check intermediate states; the product of streams and chunkings cannot be enumerated by examples.",
 ["src/decoder.cc","src/decoder_common.h","src/decoder_sse_base.h","src/decoder_avx2_base.h","index.js"],
 [("state carried between calls","src/decoder.cc do_decode_end_scalar; src/decoder_common.h boundary switch"),("state string mapping","index.js decodePrev, decodeChunk")],
 ["result objects of decodeChunk"],
 [("state","last characters that affect decoding of the next","index.js decodeChunk state string")])

prop("C06","The end of the data is detected exactly, and nothing after it is consumed",
 "decodeChunk reports ended if and only if the stream so far contains a line that starts with '=y' (possibly dot-stuffed, as '.=y') or that consists of a single '.', taking the start of a fresh decode as a line start; an '=' followed by 'y' elsewhere in a line never ends the data. It stops at the first such terminator: read counts the bytes up to and including its last byte (the 'y', or the LF), the output holds only what precedes it, and the state names which of the two terminators was met. Without a terminator the whole chunk is read.",
 ["inputs","histories","configurations"],"all byte streams and chunkings, all terminator kinds at every position and alignment, near-miss sequences, all instruction-set levels",
 "End detection has dedicated code per boundary position (vector interior, vector edge, alignment prefix, tail, chunk edge); tests place terminators at a few offsets only.",
 ["src/decoder.cc","src/decoder_common.h","src/decoder_sse_base.h","src/decoder_avx2_base.h","index.js"],
 [("scalar end search","src/decoder.cc do_decode_end_scalar"),("vector end search","src/decoder_sse_base.h, src/decoder_avx2_base.h searchEnd branches"),("straddled end sequences","src/decoder_common.h switch on state")],
 ["read, ended, state and output of decodeChunk"])

prop("C07","decodeChunk's calling convention and result shape",
 "decodeChunk accepts the data alone, or with a state (null or absent meaning the start of an article) and/or an output Buffer in any of its documented positions, and always returns read, written, output, a boolean ended and a string state. A supplied output Buffer is returned by reference and receives the data, its bytes beyond those needed stay untouched, and a too-small one is rejected without decoding. A state is interpreted by its longest suffix (of up to 4 characters) that is a meaningful state, '\\r\\n.=' meaning the same as '\\r\\n='; an empty chunk reads and writes nothing and preserves the state.",
 ["inputs","programs"],"all combinations of argument forms, state strings (including ones never returned by the library), output Buffers and chunks",
 "No existing test calls decodeChunk at all; they call the native function underneath.",
 ["index.js","src/yencode.cc"],
 [("argument juggling and state mapping","index.js decodeChunk"),("native entry point","src/yencode.cc DecodeIncr")],
 ["result of decodeChunk"])

prop("C08","CRC32 of any data is the standard CRC32",
 "For every Buffer and every 4-byte initial value, crc32 returns the standard reflected CRC32 (polynomial 0x04C11DB7, initial and final complement), big-endian, of that data appended to whatever data the initial value is the CRC32 of. Hence hashing data in any number of consecutive pieces, each started with the previous result, equals hashing it whole. The result depends on nothing else: not on alignment, length class or CPU.",
 ["inputs","histories","configurations"],"all byte strings of all lengths and alignments, all initial values, all splits into pieces, every CRC implementation the library can select",
 "Tests compare a few dozen lengths at one alignment each; folding kernels have separate code per length class modulo 16/32/64/128/256 and alignment.",
 ["src/crc.cc","src/crc_folding.cc","src/crc_folding_256.cc","crcutil-1.0/code","src/yencode.cc"],
 [("generic CRC","src/crc.cc do_crc32_incremental_generic, crcutil"),("CLMUL folding","src/crc_folding.cc"),("VPCLMUL folding","src/crc_folding_256.cc")],
 ["return value of crc32"])

prop("C09","CRC32 arithmetic functions obey the algebra of the CRC field",
 "crc32_combine(crc32(a), crc32(b), length of b) equals crc32 of a followed by b; crc32_zeroes(n, c) is the CRC after appending n null bytes to data with CRC c and, for negative n, the exact inverse of appending; crc32_multiply is the commutative, associative multiplication of polynomials modulo the CRC polynomial with 80000000 as one; crc32_shift(n, c) is c multiplied by x to the power n, for any sign of n. All hold for arbitrary 4-byte values and for every integer length a JavaScript number can represent exactly.",
 ["inputs","configurations"],"all 4-byte operands and all integers n of either sign (including beyond 32 bits), on every CRC implementation the library can select",
 "Tests use small positive lengths and a few constants; the functions are defined over 2^32 x 2^32 operands and 2^54 exponents.",
 ["src/crc.cc","src/crc.h","src/crc_folding.cc","src/yencode.cc"],
 [("exponent reduction","src/crc.h crc32_powmod, crc32_bytepow"),("multiply/shift","src/crc.cc, src/crc_folding.cc crc32_multiply_*, crc32_shift_*"),("argument conversion","src/yencode.cc CRC32Zeroes, CRC32Shift, CRC32Combine")],
 ["return values of crc32_combine/zeroes/multiply/shift"])

prop("C10","minSize and maxSize bound the encoded size and gate encodeTo",
 "For every length and line size, every encoding of that many bytes (any content, any column offset) has a size of at most maxSize and, at offset 0, at least minSize, and minSize is attained when nothing needs escaping. encodeTo accepts exactly the output Buffers of at least maxSize bytes and decodeTo exactly those at least as long as the data; anything smaller is rejected with an error before anything is written. With an escape ratio r, maxSize scales to that ratio, is monotonic in it, and rejects ratios outside 0..1; lengths at and above 2 GiB are handled and reported without wrap-around.",
 ["inputs"],"all lengths, line sizes, escape ratios, data contents and output Buffer sizes",
 "No existing test calls minSize, and maxSize is only used to size buffers; the bound must hold for worst-case content at every length and line size.",
 ["index.js","src/yencode.cc"],
 [("size formulas","index.js minSize, maxSize"),("size gate","src/yencode.cc YENC_MAX_SIZE, EncodeTo, DecodeTo")],
 ["return values of minSize/maxSize","acceptance or rejection by encodeTo/decodeTo"])

prop("C11","Only the documented memory is read or written",
 "No call writes outside its output Buffer, or reads anything outside its input Buffers but the rest of an aligned vector that holds some of their bytes (which it ignores), so none faults even when these end at the edge of mapped memory; inputs are never modified except where the same Buffer is passed as output. encodeTo writes only within the first maxSize(length) bytes of its output, and decodeTo and decodeChunk only within the first length-of-data bytes. A Buffer once returned is never changed by later calls, and a rejected call writes nothing.",
 ["inputs","histories","configurations"],"all lengths, alignments and positions of the Buffers relative to page boundaries, all contents, all instruction-set levels, all call sequences",
 "Vector code loads and stores whole registers; ordinary tests use heap Buffers where small overruns go unnoticed.",
 ["src/encoder_sse_base.h","src/encoder_avx_base.h","src/decoder_common.h","src/decoder_sse_base.h","src/decoder_avx2_base.h","src/crc_folding.cc","src/crc_folding_256.cc","src/yencode.cc"],
 [("output over-allocation for vector stores","src/yencode.cc YENC_MAX_SIZE"),("decoder lookahead bound","src/decoder_common.h lenBuffer"),("partial loads","src/crc_folding.cc partial_fold, src/crc_folding_256.cc")],
 ["guard pages around Buffers","canary bytes in and around output Buffers"])

prop("C12","post and single-part articles are well formed",
 "post(name, data, line_size) returns a '=ybegin line=.. size=.. name=..' line, the yEnc encoding of the data at that line size, and a '=yend size=.. crc32=..' line, CRLF-separated, with the true size and CRC32 of the data, for data given as a Buffer or anything Buffer.from accepts. The file name appears on its own line end intact, except that CR, LF and NUL are removed and it is limited to 256 characters, so that no name can alter the structure of the article; it is written in the configured encoding, if that can represent it. A multi_post with at most one part yields the identical article.",
 ["inputs","configurations"],"all file names (including control characters and over-long ones), data, data types, line sizes and encoding settings",
 "No existing test calls post or multi_post (post did not work at all).",
 ["index.js"],
 [("article rendering","index.js post, YEncoder, YEncoder._encodeSingle"),("name sanitising","index.js RE_BADCHAR")],
 ["return value of post and of YEncoder.encode"])

prop("C13","Multi-part posts partition the file and reject inconsistent use",
 "For every sequence of encode calls on a multi_post, the k-th accepted part carries part=k, the total, line size and file size, the 1-based byte range that continues exactly where the previous part ended, its own size and pcrc32, and, in the last part only, the crc32 of the whole file; part, pos and crc always reflect exactly the accepted parts. A call is rejected with an error exactly when it would exceed the number of parts or the file size, or would complete the last part with a total other than the file size; every call after the last part is rejected. A rejected call leaves the encoder as if it had not been made.",
 ["histories","inputs"],"all sequences of accepted and rejected encode calls, part sizes, part counts, file sizes",
 "No existing test calls multi_post; the guarantee is about histories, including failing calls in the middle.",
 ["index.js"],
 [("part state machine","index.js YEncoder.prototype.encode"),("running CRC","index.js YEncoder.crc via crc32_combine")],
 ["returned articles","part, pos, crc, size, parts, line_size properties","thrown errors"],
 [("part/pos/crc","accepted parts, bytes and CRC so far","index.js YEncoder")])

prop("C14","Generated articles parse back to the same file, without warnings",
 "For every file, name, part split with non-empty parts and line size, each article produced by post or multi_post (terminated by a CRLF), parsed with from_post either as is or after NNTP dot-stuffing with stripDots set, yields no warnings, the exact properties written, the exact data of that part and its CRC32. Concatenating the parsed parts by their ranges reproduces the file, and combining their pcrc32 values yields the whole-file crc32 of the last part. This holds with arbitrary text before the article and trailing text after it.",
 ["inputs","histories"],"all files, names without trailing white space, part splits, line sizes, dot-stuffing on or off, surrounding text",
 "No existing test connects generation and parsing.",
 ["index.js","src/encoder.cc","src/decoder.cc","src/crc.cc"],
 [("generation","index.js post, YEncoder"),("parsing and checking","index.js from_post")],
 ["result of from_post on generated articles"])

prop("C15","from_post locates, splits and decodes any article, or says why not",
 "For any Buffer, from_post returns (never throws) either an error with code no_start_found (no line starts with '=ybegin '), no_end_found (no '=yend ' line after the header lines) or missing_required_properties (line, size or name missing in the =ybegin line, or size in the =yend line), or a result. In a result, the offsets delimit the first =ybegin line, the data following the run of =y header lines, and the last =yend line; data is the decoding of exactly that data range with the requested dot handling and crc32 is its CRC32. props holds, per header line, every key=value property with its value up to the next space, except that name takes the rest of the line.",
 ["inputs"],"all byte strings as articles: missing, repeated, reordered or garbled header lines, arbitrary property names, embedded yEnc-like lines in the data, absent final line break, both dot settings",
 "Tests parse about ten fixed articles.",
 ["index.js"],
 [("line splitting and offsets","index.js from_post"),("property parsing","index.js decoderParseLines")],
 ["result object or error of from_post"])

prop("C16","from_post reports every inconsistency of an article, and no others",
 "A parsed article's warnings state exactly which checks failed: duplicate lines or properties, stray text in header lines, non-numeric or zero numeric properties, malformed CRC values, inconsistent part numbers, ranges, totals and sizes, a missing final line break, decoded data whose length differs from the =yend size, and data whose CRC32 differs from the article's pcrc32 (or, in single-part articles, crc32). In particular any corruption of the data that changes its CRC32 or its length is reported whenever the article carries that value, whichever case its hex digits are in. Articles that pass all checks carry no warnings.",
 ["inputs","fault_sequences"],"all combinations of header property values (numeric, zero, absent, non-numeric, out of range) and all corruptions of data, sizes and checksums",
 "Tests exercise each warning once at most, and in isolation; the checks interact.",
 ["index.js"],
 [("property cross-checks","index.js from_post"),("checksum comparison","index.js from_post pcrc32/crc32")],
 ["warnings codes of from_post"])

prop("C17","Invalid arguments are rejected, and valid ones never are",
 "encode, encodeTo, decode, decodeTo and the crc32 functions throw an Error when a required Buffer is missing or not a Buffer (or, for CRC values, is not exactly 4 bytes long) and, unless the data is empty, when the line size is negative or when the column offset is negative or exceeds the line size; they never crash. A column offset equal to the line size counts as 0, and a line size of 0 as 128; numbers beyond 32 bits never count as smaller ones, but as 2^31-1 (or as negative). No call with valid arguments throws, and a rejected call has no effect on any Buffer or on later calls.",
 ["inputs","histories"],"all argument lists built from Buffers of all lengths, typed arrays, numbers, undefined, null, strings and objects in every position",
 "Tests only make valid calls.",
 ["src/yencode.cc","index.js"],
 [("argument checks","src/yencode.cc Encode, EncodeTo, Decode, DecodeTo, CRC32*")],
 ["thrown errors","process survival"])

prop("C18","Calls are independent of each other, of threads and of contexts",
 "The result of every call depends only on its arguments: any number of threads or contexts may load the module concurrently, call it concurrently and terminate in any order, and every call in every one of them, including the first ones made while other threads are still loading the module and those made after other threads have ended, gives the same result as when made alone. Decoders and encoders in progress in different places do not influence one another. Results already returned stay valid and unchanged.",
 ["schedules","histories"],"all interleavings of loading, calling and terminating in any number of worker threads and contexts, and all call histories",
 "Tests run single-threaded, in one context, with each process making calls in one fixed order.",
 ["src/yencode.cc","src/encoder.cc","src/decoder.cc","src/crc.cc"],
 [("once-only initialisation","src/yencode.cc uv_once init_all"),("function-pointer dispatch and lookup tables","src/encoder.cc, src/decoder.cc, src/crc.cc init")],
 ["results in worker threads"],
 [("dispatch pointers and tables","selected implementation, lookup tables, CRC state","src/*_init")])

prop("C19","Results do not depend on the CPU, the build options or the code path",
 "For any CPU feature combination and any supported build configuration (portable or natively tuned, with 256-bit code or the bundled CRC library disabled), all functions give identical results. The implementation chosen at load time never needs an instruction-set extension that the CPU or the operating system does not offer, and some correct implementation is chosen for every combination.",
 ["configurations","inputs"],"all CPU feature combinations (SSE2 through AVX512-VBMI2/AVX10, CLMUL, VPCLMUL, OS-enabled or not, special CPU families), all build options, all inputs",
 "CI runs one build type on five CPU models with the sampled inputs of the unit tests.",
 ["src/platform.cc","src/common.h","src/encoder.cc","src/decoder.cc","src/crc.cc","binding.gyp"],
 [("feature detection","src/platform.cc cpu_supports_isa, cpu_supports_crc_isa"),("dispatch","src/encoder.cc encoder_init, src/decoder.cc decoder_init, src/crc.cc crc32_init")],
 ["results under simulated CPUs and alternative builds"])

prop("C20","Memory is given back exactly once, and lacking it is an error",
 "Every Buffer a call returns owns its memory, which stays as it is for as long as the Buffer is referenced and is given back once, after the Buffer is no longer referenced or when the thread it belongs to ends. A call that returns no Buffer of its own (because it was rejected, had nothing to work on, produced nothing or was given an output Buffer) leaves no memory behind, and neither do abandoned encoders. So any number of calls, in any mix, needs only bounded memory. When memory for a result cannot be had the call throws an Error instead of ending the process, changes no Buffer of the caller's, and the same call works again once memory can be had.",
 ["histories","faults"],"all histories of calls of every kind and outcome and of result sizes from none to hundreds of megabytes, results held or dropped, threads ending with results held, and failure to obtain memory at each call that needs it",
 "Tests never look at memory in use, never run out of it and end before a leak matters; which path leaks or fails to check depends on outcomes that they hardly produce.",
 ["src/yencode.cc","index.js"],
 [("allocation, shrinking and hand-over of results","src/yencode.cc Encode, Decode, DecodeIncr"),("release","src/yencode.cc free_buffer"),("encoder objects","index.js YEncoder")],
 ["memory in use after rounds of calls","thrown errors"])

prop("C21","The same results on every architecture Node runs on",
 "On 64- and 32-bit ARM, RISC-V (with vectors of 128 to 1024 bits, or none), 32-bit x86 and big-endian systems, as on x86-64, encoding, decoding, chunked decoding with end detection, CRC32 and CRC32 arithmetic give exactly the results that yEnc and the documentation define, for every input, length, alignment, line size and column; no call writes outside its output or hangs. An implementation that needs an optional processor feature is used only where the system reports that feature.",
 ["configurations","inputs"],"all inputs, lengths and alignments; systems of either byte order and word size; optional features (NEON, ARM CRC32 and PMULL; RISC-V V at 128 to 1024 bits, Zbc, Zbkc) present or absent, and reported or not",
 "Tests run on one machine of one architecture, where the sources for all others are not even compiled.",
 ["src/encoder.cc","src/encoder_neon.cc","src/encoder_rvv.cc","src/decoder_neon.cc","src/decoder_neon64.cc","src/decoder_rvv.cc","src/decoder_common.h","src/crc.cc","src/crc_arm.cc","src/crc_arm_pmull.cc","src/crc_riscv.cc","src/platform.cc","src/common.h"],
 [("kernels","src/*_neon*.cc, src/*_rvv.cc, src/crc_arm*.cc, src/crc_riscv.cc"),("scalar code and byte order","src/encoder.cc, src/decoder_common.h, src/crc.cc, src/common.h"),("feature detection","src/platform.cc, src/crc.cc crc32_init")],
 ["results and executed instructions of the sources compiled for other architectures, under emulation"])

def main():
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
    with open(out,'w') as f:
        for p in P: f.write(json.dumps(p)+"\n")
    try:
        import jsonschema
        s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in P: jsonschema.validate(p,s)
    except ImportError: pass
    for p in P: assert len(p['title'])<=80,p['id']
    print(len(P),'properties')
main()

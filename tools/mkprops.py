#!/usr/bin/env python3
"""writes /verif/properties.jsonl (source of truth for the property texts)"""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
ENC=["src/encoder.cc","src/encoder_common.h","src/encoder_sse_base.h","src/encoder_avx_base.h","src/encoder_sse2.cc","src/encoder_ssse3.cc","src/encoder_avx.cc","src/encoder_avx2.cc","src/encoder_vbmi2.cc"]
DEC=["src/decoder.cc","src/decoder_common.h","src/decoder_sse_base.h","src/decoder_avx2_base.h","src/decoder_sse2.cc","src/decoder_ssse3.cc","src/decoder_avx.cc","src/decoder_avx2.cc","src/decoder_vbmi2.cc"]
CRC=["src/crc.cc","src/crc.h","src/crc_folding.cc","src/crc_folding_256.cc"]
prop("E01","Encoded output is exactly the yEnc encoding of the input",
 "For every byte sequence, line length and starting column, encoding yields exactly the yEnc form: each byte plus 42 modulo 256; NUL, LF, CR and '=' escaped everywhere, TAB and space also at the start and end of a line and at the end of the output, '.' also at the start of a line; and CR-LF inserted as soon as a line has reached the line length. The result is the same whichever CPU-specific implementation runs and whatever the memory alignment of the buffers.",
 ["inputs","configurations"],"all byte strings of any length, all line sizes 1 to 2^30, all start columns 0..line size, all x86 code paths (generic, SSE2, SSSE3, AVX, AVX2, VBMI2)",
 "The tests sample a few thousand strings and about twenty line sizes per CPU level; escapes meeting the line end at every vector lane and column cannot be sampled.",
 ENC,[("scalar encoder and lookup tables","src/encoder.cc"),("SIMD wrapper: kernel, then scalar tail","src/encoder_common.h"),("SIMD kernels","src/encoder_sse_base.h, src/encoder_avx_base.h")],
 ["return value of encode()","bytes written by encodeTo()"],[("column","column of the next output character","src/encoder_common.h")])
prop("E02","Encoded output is safe to send over NNTP",
 "Encoded output started at column 0 never contains a NUL, never contains a CR or LF except as the CR-LF pair that ends a full line, no line begins with '.', TAB or space or ends with TAB or space, and every '=' is followed by a character which is not 'y'. Every line but the last has line-length or line-length+1 characters, and the last has at most line-length+1.",
 ["inputs","configurations"],"all byte strings, all line sizes 1 to 2^30, all x86 code paths",
 "Tests compare against a reference on samples; the guarantee is over all inputs and all line positions.",
 ENC,[("escape decisions by column","src/encoder.cc, src/encoder_common.h")],["return value of encode()"])
prop("E03","Encoding never writes outside the space that was sized for it",
 "The length reported by maxSize (escape ratio 1) is always at least the space encodeTo insists on, which is at least every byte the encoder may touch; minSize never exceeds and maxSize is never below the real encoded length. encodeTo throws instead of writing when the destination is smaller than required, and no byte beyond the required size is ever written.",
 ["inputs","configurations"],"all lengths (including beyond 2^32 for the size arithmetic), line sizes up to 2^30, columns, contents and x86 code paths",
 "A handful of concrete sizes is tested; integer-division rounding and vector over-store margins need all lengths and line sizes.",
 ENC+["src/yencode.cc","index.js"],[("size bound","src/yencode.cc (YENC_MAX_SIZE), index.js (maxSize, minSize)"),("destination check","src/yencode.cc")],["bytes around the destination","values of maxSize/minSize","thrown errors"])
prop("E04","Decoding an encoded message returns the original bytes",
 "For every byte sequence, line length and starting column, decoding the encoded form gives back the original bytes, both as is and with dot-unstuffing enabled when the encoding started at column 0, on every CPU-specific implementation.",
 ["inputs","configurations"],"all byte strings, line sizes up to 2^30, columns, encoder/decoder code path pairs",
 "Tests round-trip only a sample; losslessness is a statement about all inputs.",
 ENC+DEC,[("encoder","src/encoder_common.h"),("decoder","src/decoder_common.h")],["decode(encode(x))"])
prop("D01","Plain decoding implements the yEnc decoding rule exactly",
 "Without dot-unstuffing, decoding any byte sequence drops every unescaped CR and LF, turns '=' followed by a byte into that byte minus 106, turns every other byte into itself minus 42 (modulo 256), and ignores a trailing lone '='. A byte following '=' is always consumed as escaped, including CR, LF and another '='; the result is independent of the CPU-specific implementation and of memory alignment.",
 ["inputs","configurations"],"all byte strings of any length (well-formed or not), all alignments, all x86 code paths",
 "The tests use random and a few hand-made strings; malformed escape runs across vector boundaries have exponentially many shapes.",
 DEC,[("scalar decoder","src/decoder.cc"),("SIMD decoder","src/decoder_common.h, src/decoder_sse_base.h, src/decoder_avx2_base.h")],["return value of decode()/decodeTo()"])
prop("D02","Raw decoding removes exactly the stuffed dots",
 "With dot-unstuffing, decoding any byte sequence is the plain decoding rule except that a '.' at the start of the input or directly after CR-LF is dropped, where the CR may itself be the byte after an '='. No other byte is dropped or changed, on every CPU-specific implementation and alignment.",
 ["inputs","configurations"],"all byte strings, alignments, x86 code paths",
 "CR-LF-dot sequences can straddle any vector or alignment boundary and mix with escapes; tests reach a sample.",
 DEC,[("raw scalar decoder","src/decoder.cc"),("raw SIMD decoder","src/decoder_common.h, src/decoder_sse_base.h, src/decoder_avx2_base.h")],["return value of decode(data, true)"])
prop("D03","Chunked decoding does not depend on how the stream is split",
 "Feeding a stream to decodeChunk in any sequence of pieces, passing each returned state to the next call, gives the same concatenated output, the same end position and end type, and the same final state as decoding it in one call.",
 ["inputs","histories","configurations"],"all streams, all ways to cut them (including empty and one-byte pieces), all x86 code paths",
 "No test exercises chunked decoding; the number of splits is exponential in the stream length.",
 DEC+["src/yencode.cc","index.js"],[("incremental decoder","src/decoder.cc, src/decoder_common.h"),("binding","src/yencode.cc"),("state mapping","index.js")],["objects returned by decodeChunk"],
 [("state","last significant input characters","src/decoder.h")])
prop("D04","The end of the data is found at the first terminator, and nowhere else",
 "decodeChunk stops at the first CR-LF-'=y' (optionally dot-stuffed) or CR-LF-'.'-CR-LF of the stream, counting the start of the stream as following CR-LF, and only there: it then reports ended=true, the bytes read up to and including the terminator, and the matching terminator as state. Otherwise it reports ended=false, reads everything, and reports the state implied by the last characters; written always equals the number of decoded bytes produced before the end.",
 ["inputs","histories","configurations"],"all streams and prior states, all alignments, all x86 code paths",
 "Untested today; terminators can straddle every vector, alignment and chunk boundary.",
 DEC+["src/yencode.cc","index.js"],[("end detection","src/decoder.cc, src/decoder_common.h, src/decoder_avx2_base.h, src/decoder_sse_base.h"),("result object","src/yencode.cc, index.js")],["read, written, ended, state of decodeChunk"])
prop("D05","Decoding stays inside its buffers and works in place",
 "Decoding never writes outside the first input-length bytes of the destination and never faults reading around the source, for any content; and when source and destination are the same buffer the decoded bytes are the same as with separate buffers.",
 ["inputs","configurations"],"all byte strings, lengths, alignments, source==destination or disjoint, all x86 code paths",
 "Over-reads and over-writes show only at particular lengths and alignments, and in-place clobbering only at particular contents.",
 DEC+["src/yencode.cc"],[("write positions never pass read positions","src/decoder_avx2_base.h, src/decoder_sse_base.h, src/decoder.cc"),("destination size checks","src/yencode.cc")],["bytes around the destination","memory faults","output when in place"])
prop("C01","crc32 is the standard CRC-32 for every input and incremental split",
 "crc32 of any buffer, at any alignment and with any initial value, is the CRC-32 (IEEE 802.3) of the data appended to the data the initial value stands for, so that hashing a stream piecewise equals hashing it whole; every CPU-specific implementation gives the same value.",
 ["inputs","histories","configurations"],"all buffers of any length and alignment, all 2^32 initial values, all x86 code paths",
 "Tests hash a few strings; folding code has a separate path per alignment, per remaining length and per block count.",
 CRC+["src/yencode.cc"],[("folding","src/crc_folding.cc, src/crc_folding_256.cc"),("generic","src/crc.cc"),("binding","src/yencode.cc")],["return value of crc32()"])
prop("C02","Combining two CRCs equals the CRC of the concatenation",
 "For all byte sequences a and b, combining crc32(a), crc32(b) and the length of b gives crc32 of a followed by b, for every length up to the largest exactly representable integer.",
 ["inputs","configurations"],"all pairs of CRC values, all lengths 0..2^53",
 "Four combinations are tested; the exponent arithmetic wraps only for large lengths.",
 CRC+["src/yencode.cc"],[("exponent reduction and shift","src/crc.h"),("shift implementations","src/crc.cc, src/crc_folding.cc")],["return value of crc32_combine()"])
prop("C03","Appending and removing zero bytes in a CRC are exact and inverse",
 "crc32_zeroes(n, c) is the CRC obtained by appending n zero bytes to the data behind c, for every non-negative n, and with negative n removes as many zero bytes, so that the two are inverse for every CRC value and every count up to the largest exactly representable integer.",
 ["inputs","configurations"],"all CRC values, all integers n with |n| <= 2^53, all x86 code paths",
 "A few small counts are tested; large counts and removal are not.",
 CRC+["src/yencode.cc"],[("zeros/unzero","src/crc.h"),("argument conversion","src/yencode.cc")],["return value of crc32_zeroes()"])
prop("C04","CRC field multiplication and shifting are exact",
 "crc32_multiply is multiplication in GF(2)[x] modulo the CRC-32 polynomial (bit-reflected), and crc32_shift(n, c) multiplies c by x to the n, with negative n giving the inverse, for all operands and all integer n up to the largest exactly representable; all CPU-specific implementations agree.",
 ["inputs","configurations"],"all pairs of 32-bit values, all integers |n| <= 2^53, all x86 code paths",
 "Tests try about ten pairs out of 2^64.",
 CRC+["src/yencode.cc"],[("multiply","src/crc.cc, src/crc_folding.cc"),("shift","src/crc.cc, src/crc_folding.cc")],["return values of crc32_multiply(), crc32_shift()"])
prop("P01","A generated single-part post is well formed and reads back exactly",
 "For any data, any file name and any line length, the post consists of one =ybegin line with the line length, data size and name (at most 256 characters, with CR, LF and NUL removed, in the selected character encoding), the encoded data, and a =yend line with the size and the data's CRC-32; no other header lines can be introduced through the file name. A post made by post() and by a one-part multi-part encoder are byte-identical.",
 ["inputs"],"all data, file names, line sizes and supported encodings",
 "post() has no test at all; file names are unbounded attacker-controlled text.",
 ["index.js","src/yencode.cc"],[("post assembly","index.js (post, YEncoder)")],["return value of post() and of the encoder's encode()"])
prop("P02","A multi-part post covers the file exactly, part after part",
 "A multi-part encoder numbers parts from 1, gives each the byte range directly following the previous one, the part's own size and CRC, and writes the CRC of the whole concatenated file in the last part only. A call that would exceed the number of parts or the total size, or that ends the last part with the total size not reached, throws and leaves the encoder as it was.",
 ["inputs","histories"],"all file sizes, part counts, ways to cut the data into parts (including empty parts), and call sequences",
 "Untested; the guarantee is over call histories.",
 ["index.js","src/yencode.cc","src/crc.h"],[("part state machine","index.js (YEncoder)")],["posts returned by the encoder","its part, pos and crc properties"],
 [("part, pos, crc","progress through the file","index.js")])
prop("P03","Parsing a post recovers its data, offsets and properties",
 "For every message that contains a yEnc block, from_post reports the offsets of the header, of the first data byte, of the end of data and of the end of the trailer such that the data between them decodes to the returned data, and the returned properties are exactly the key/value pairs on the yEnc lines, whatever the surrounding bytes and whatever the tag and property names are. A missing start, a missing end, or missing required properties is reported as the corresponding error and never as an exception.",
 ["inputs"],"all byte strings, with and without dot-unstuffing",
 "Tests parse about twenty fixed posts; inputs are arbitrary network bytes.",
 ["index.js"],[("post parsing","index.js (from_post, decoderParseLines)")],["object returned by from_post"])
prop("P04","Corruption and inconsistencies in a post are always reported",
 "from_post never returns a result without warnings when the decoded size differs from the trailer's size, when a part CRC (or a whole-file CRC of a single-part post) differs from the CRC of the decoded data, when part numbers or the part range contradict each other or the sizes, or when a non-empty numeric or CRC field is malformed; and it gives no warning of these kinds for a consistent post.",
 ["inputs"],"all parsed property values and all decoded contents",
 "Tests cover one example per warning; combinations of present, absent, zero and malformed fields are not covered.",
 ["index.js"],[("consistency checks","index.js (from_post)")],["warnings returned by from_post"])
prop("A01","Invalid arguments are rejected with an error before any work is done",
 "Calling an encoding, decoding or checksum function without the required buffers, with a checksum argument that is not a 4-byte buffer, with a negative line length, a negative column or a column beyond the line length, or with a destination that is too small throws an error and leaves the destination untouched; line length 0 means 128 and a column equal to the line length means column 0; valid calls never throw. Integers that do not fit 32 bits act like the nearest 32-bit integer.",
 ["inputs"],"all argument counts, types, buffer lengths, and all integers for line sizes and columns",
 "No test passes invalid arguments.",
 ["src/yencode.cc"],[("argument checks","src/yencode.cc")],["thrown errors","destination contents"])
prop("X01","The selected implementation only needs what the CPU and OS support",
 "For every combination of CPU feature bits, OS-enabled register state and vendor, the implementations selected at load time for encoding, decoding and CRC require only instruction-set features that are reported as available and enabled.",
 ["configurations"],"all values of the CPUID and XGETBV words that are consulted",
 "Tests run on the host CPU and five emulated models out of 2^n feature combinations.",
 ["src/platform.cc","src/encoder.cc","src/decoder.cc","src/crc.cc","src/common.h"],[("feature detection","src/platform.cc"),("dispatch","src/encoder.cc, src/decoder.cc, src/crc.cc")],["selected instruction-set level"])
prop("X02","Loading the module from several threads at once is safe",
 "When several worker threads load the module or use it concurrently, the shared lookup tables and function selections are fully initialised exactly once before any use, and every call returns the same result as in a single-threaded program.",
 ["schedules"],"all interleavings of module initialisation and calls in worker threads",
 "Tests are single-threaded.",
 ["src/yencode.cc"],[("one-time initialisation","src/yencode.cc (module init)")],["results of calls in worker threads"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json')) if __import__('os').path.exists('/root/.vp/PROPERTIES.schema.json') else None
if S:
    for p in P:
        jsonschema.validate(p,S); n=p['statement'].count('. ')+1
        if n>3: print(p['id'],'sentences',n)
        if len(p['title'])>80: print('title',p['id'])
print(len(P))

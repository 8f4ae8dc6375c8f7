TRUSTED=['clang 18 front end (C++ to LLVM IR); the shipped binary is built by g++ from the same sources','the semantics of JavaScript and the contracts of Buffer, String and Math in lib/units_js.py (P01-P04, D03, E03)','the x86-64 instruction semantics in lib/ (checked against this CPU)','the verifier itself (lib/)','Linux/x86-64 memory model: accesses inside a page that holds an addressable byte do not fault']
NAT=dict(native=True,api=True)
PROPS={}
for p in 'E01 E02 E03 E04 D01 D02 D03 D04 D05 C01 C02 C03 C04'.split(): PROPS[p]=dict(native=True,api=True,level='exploration',units=[],procs=2)
for p in 'E01 E02 E03 E04'.split(): PROPS[p].update(procs=4,secs={'quick':40,'thorough':300})
for p in 'P01 P02 P03 P04 A01'.split(): PROPS[p]=dict(native=False,api=True,level='exploration',units=[],procs=3)
for p,m in dict(D01='plain',D02='raw',D03='end',D04='end',D05='plain raw end').items(): PROPS[p]['units']=[('units_simd',m),('units_dec',m)]
for p,m in dict(C01='crc',C02='shift',C03='shift',C04='mul shift').items(): PROPS[p]['units']=[('units_crc',m)]
for p,m in dict(E01='',E02='nntp',E03='space',E04='round').items(): PROPS[p]['units']=[('units_enc',m)]
_ENC='encode,encodeTo,encodeIncr'
_BIND=dict(E01=_ENC+':args+result',E02=_ENC+':args+result',E04=_ENC+':args+result decode:args+result',E03=_ENC+':space+args',
 D01='decode,decodeTo:args+result',D02='decode,decodeTo:args+result',D03='decodeIncr:args+result',D04='decodeIncr:args+result',D05='decode,decodeTo,decodeIncr:space+result',
 C01='crc32:args+result',C02='crc32_combine:args+exponent+result lemmas',C03='crc32_zeroes:args+exponent+result lemmas',C04='crc32_multiply,crc32_shift:args+exponent+result lemmas',
 A01=_ENC+',decode,decodeTo,decodeIncr,crc32,crc32_combine,crc32_zeroes,crc32_multiply,crc32_shift:reject')
for p,m in _BIND.items(): PROPS[p]['units']=PROPS[p]['units']+[('units_bind',m)]
PROPS['X01']=dict(native=False,api=False,isa=True,level='proof',units=[('units_isa','')],procs=0,secs={'quick':5,'thorough':60})
_CV='contract-based deductive verification by symbolic execution of the LLVM IR of the real functions (own verifier lib/irv: path splitting, loop invariants at cut points, callee contracts; discharged by z3, GF(2) linear algebra and complete evaluation)'
def _lv(ps,level,tech,note):
    for p in ps.split(): PROPS[p].update(level=level,technique=tech,level_note=note)
_lv('C02 C03 C04','proof',_CV,'every obligation is discharged for all operands and all integer arguments: binding, exponent arithmetic, multiplication and shift of the generic and the PCLMULQDQ implementations; the concrete search only looks for inputs that show a failed obligation on the real code')
_lv('C01','proof',_CV,'both folding implementations and the binding are proved for all lengths, contents, alignments and initial values; the table-driven fallback (crcutil_template) for CPUs without PCLMULQDQ is a bounded differential search only')
_lv('A01','proof',_CV,'all argument counts, types and values of the eleven exported functions, against contracts of the Node C++ API (lib/units_bind.py EXT)')
_DV='all streams, lengths, states and alignments: the scalar decoder (the loop specialised per state), the five vector kernels (SSE2, SSSE3, AVX, AVX2, VBMI2) with inferred and checked loop invariants, and the binding; the decoder that is selected is decided by X01. '
_lv('D01','proof',_CV,_DV+'Concrete search only to find failing inputs.')
_lv('D02','proof',_CV,_DV+'Concrete search only to find failing inputs.')
_lv('D03 D04','proof',_CV,_DV+'Chunk independence follows as every call computes the fold of one state machine from the given state and returns the state reached.')
_lv('D05','proof',_CV,_DV+'Every store within the input length and, in place, never on a byte still to be read; every load inside the source buffer.')
_JV='contract-based deductive verification by symbolic execution of the syntax tree of index.js (lib/units_js.py: every path, one loop cut at its head, natives and built-ins by contract; z3)'
_lv('P01','proof',_JV,'the bytes of post() and of a one-part encoder for all data, names, line sizes and encodings, over the contracts of the natives (decided by E01, C01) and of Buffer; numbers up to 2^50')
_lv('P02','proof',_JV,'constructor and one call of encode in every reachable state of the encoder (the invariant is the state after the accepted calls), so all call histories; over the contracts of the natives (E01, C01, C02) and of Buffer; numbers up to 2^50')
_lv('P03 P04','exploration',_JV+'; bounded differential search for decoderParseLines','proved for every outcome of the parsing of the property lines and every position of the markers: offsets, data, errors and warnings of from_post; bounded: decoderParseLines itself and the searches for the markers (assumed as contracts in the proof)')
for p in 'P01 P02 P03 P04 D03 E03'.split(): PROPS[p]['units']=PROPS[p]['units']+[('units_js',p)]
_EV='Proved for all inputs: the binding, the scalar encoder, the scalar part of the five vector encoders (the vector kernel by its contract KERN)%s. The vector kernels themselves are bounded: all 65536 escape masks of 16 bytes around line ends on every ISA level, and generated inputs.'
for p,m in dict(E01='',E02=' and the lemma that output of the specification is NNTP-safe',E03=' and the lemma that every store lies in the space required',E04=' and the lemma that decoding the specified output is the identity (with D01 and D02 for the decoder)').items(): _lv(p,'exploration',_CV+'; bounded exhaustive search for the vector kernels',_EV%m)
_lv('X01','proof',_CV,'all values of the CPUID/XGETBV words')
NA={'X02':'a property of thread schedules: contracts on the sequential code cannot express it (no contract on the thread library or on uv_once is within reach of the verifier)'}
NOTES='see DESIGN.md'

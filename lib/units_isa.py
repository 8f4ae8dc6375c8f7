"""Contracts for the dispatch (X01). cpuid and xgetbv are symbolic; every setter may only be called where the features its
translation unit is compiled for are reported by the CPU and enabled by the OS."""
import time, re, z3
import build
from irv import ir
from irv.ir import Unsupported
from irv.val import *
from irv.sym import *
from units_dec import Fail, Unknown, Prover
NS = '_ZN9RapidYenc'
def V(leaf, sub, reg): return z3.BitVec('cpuid_%x_%s_%s' % (leaf, 'any' if sub is None else '%x' % sub, reg), 32)
XCR = z3.BitVec('xcr0', 32)
def has(leaf, sub, reg, mask): return V(leaf, sub, reg) & z3.BitVecVal(mask, 32) == z3.BitVecVal(mask, 32)
def xcr(mask): return XCR & z3.BitVecVal(mask, 32) == z3.BitVecVal(mask, 32)
SUBLEAF = (4, 7, 0xb, 0xd, 0xf, 0x10, 0x14, 0x18, 0x1f, 0x24)   # leaves whose answer depends on ecx
OSX, ABM = has(1, None, 'ecx', 1 << 27), has(0x80000001, None, 'ecx', 1 << 5)
FEAT = {   # compiler flag -> what must be reported and enabled
    '-msse2': True, '-mssse3': has(1, None, 'ecx', 1 << 9), '-msse4.1': has(1, None, 'ecx', 1 << 19), '-mpclmul': has(1, None, 'ecx', 1 << 1),
    '-mavx': z3.And(has(1, None, 'ecx', 1 << 28), OSX, xcr(6)), '-mpopcnt': z3.Or(has(1, None, 'ecx', 1 << 23), ABM), '-mlzcnt': ABM,
    '-mbmi': has(7, 0, 'ebx', 1 << 3), '-mbmi2': has(7, 0, 'ebx', 1 << 8), '-mvpclmulqdq': has(7, 0, 'ecx', 1 << 10)}
FEAT['-mavx2'] = z3.And(FEAT['-mavx'], has(7, 0, 'ebx', 1 << 5))
AVX10 = z3.And(has(7, 1, 'edx', 1 << 19), z3.UGE(V(0x24, 0, 'ebx') & 255, z3.BitVecVal(1, 32)))
EVEX = z3.And(FEAT['-mavx2'], xcr(0xe6))
def avx512(ebx, ecx, h):
    # h: the unit was compiled without 512-bit instructions, so AVX10 with 256-bit vectors is enough
    w = z3.Or(has(0x24, 0, 'ebx', 1 << 18), z3.And(h, has(0x24, 0, 'ebx', 1 << 17)))
    return z3.And(EVEX, z3.Or(z3.And(has(7, 0, 'ebx', ebx | 1 << 16), has(7, 0, 'ecx', ecx)), z3.And(AVX10, w)))
REFS = {}   # unit -> units it references (closed under reference)
def req(unit, h):
    """what must hold for `unit` and for every unit it references"""
    r = []
    for f in sorted({x for u in REFS.get(unit, {unit}) for x in build.ISA_FLAGS[u]}):
        r.append(avx512(0, 1 << 6, h) if f == '-mavx512vbmi2' else avx512(1 << 31, 0, h) if f == '-mavx512vl' else avx512(1 << 30, 0, h) if f == '-mavx512bw' else FEAT[f])
    return z3.And(*[boolz(x) for x in r])
SETTERS = dict(encoder_vbmi2_init='encoder_vbmi2.cc', encoder_avx2_init='encoder_avx2.cc', encoder_avx_init='encoder_avx.cc', encoder_ssse3_init='encoder_ssse3.cc', encoder_sse2_init='encoder_sse2.cc',
    decoder_set_vbmi2_funcs='decoder_vbmi2.cc', decoder_set_avx2_funcs='decoder_avx2.cc', decoder_set_avx_funcs='decoder_avx.cc', decoder_set_ssse3_funcs='decoder_ssse3.cc', decoder_set_sse2_funcs='decoder_sse2.cc',
    crc_clmul256_set_funcs='crc_folding_256.cc', crc_clmul_set_funcs='crc_folding.cc')
def plain(name):
    """RapidYenc::f -> f"""
    m = re.match(r'_ZN9RapidYenc(\d+)(\w+)', name)
    return m.group(2)[:int(m.group(1))] if m else None
class IsaHooks(Hooks):
    def __init__(s, pr, plat=None): s.pr = pr; s.plat = plat; s.calls = 0
    def header(s, ex, st, f, blk): return False
    def global_obj(s, ex, st, name):
        if name.endswith('_has_avx10E'):
            class H(Cells):
                def load(q, ex, st, off, t): return zext(Cat([z3.Bool('has_avx10')], 1), 1, 8) if t[1] > 1 else z3.Bool('has_avx10')
                def store(q, *a): raise Fail('a constant is written')
            return H()
        if name not in ex.mod.globals or ' constant ' not in ' ' + ex.mod.globals[name].split('\n')[0][:120]: return Free()
        return None
    def call(s, ex, st, name, args, i):
        if name == 'asm':
            tm, cons = i.extra[1]
            if 'xgetbv' in tm:
                s.pr.require(st.pc, OSX, 'xgetbv is executed although OSXSAVE is not reported'); s.calls += 1
                if i.args[0][0][1] != 32 or s.arg(st, args[0]) != 0: raise Unsupported('xgetbv of another register')
                return ('val', XCR)
            if 'cpuid' in tm:
                leaf = s.arg(st, args[0]); sub = s.arg(st, args[1]) if len(args) > 1 else None; s.calls += 1
                if leaf not in SUBLEAF: sub = None
                elif sub is None: raise Unsupported('cpuid leaf with an undefined subleaf')
                if '={ax},=r,={cx},={dx}' not in cons.replace('"', ''): raise Unsupported('cpuid constraints ' + cons)
                return ('val', [V(leaf, sub, r) for r in ('eax', 'ebx', 'ecx', 'edx')])
            raise Unsupported('inline asm ' + tm)
        if name in (NS + '16cpu_supports_isaEv', NS + '20cpu_supports_crc_isaEv') and s.plat and name not in ex.mod.funcs:
            e2 = Exec(s.plat, s); s2 = State(); s2.pc = list(st.pc); e2.enter(s2, s.plat.funcs[name], []); e2.explore([s2]); r = []
            for x in e2.done:
                y = st.clone(); y.pc = x.pc; r.append((y, x.ret))
            return r
        if plain(name) in SETTERS:
            u = SETTERS[plain(name)]; st.g['set'] = st.g['set'] + [u]
            s.pr.require(st.pc, req(u, z3.Bool('has_avx10')), '%s is selected on a CPU or OS without what it is compiled for' % u)
            return 'void'
        if name in ex.mod.funcs: return None
        if name.startswith('llvm.'): return None
        if s.plat is None or plain(name) and re.search('init|set_|isa|supports', plain(name)): raise Unsupported('call to ' + name)
        # every other external function (crcutil's table set-up) is assumed not to select implementations
        t = i.ty
        return ('val', Ptr('opaque', 0) if t == ir.PTR else ex.fresh(t[1]) if t[0] == 'i' else None)
    def arg(s, st, v):
        if type(v) is not int: raise Unsupported('cpuid with a computed leaf')
        return v
class Free:
    """memory whose content does not matter here: loads give fresh values"""
    def load(s, ex, st, off, t): return Ptr('opaque', ex.fresh(64)) if t == ir.PTR else [ex.fresh(t[2][1]) for _ in range(t[1])] if t[0] == 'v' else ex.freshb() if t[1] == 1 else ex.fresh(t[1])
    def store(s, ex, st, off, t, v): return s
def run_init(f, fn, want):
    t = time.time(); pr = Prover(); o = dict(name='DISPATCH: %s %s' % (f, fn), functions=[fn, NS + ('20cpu_supports_crc_isaEv' if 'crc' in fn else '16cpu_supports_isaEv')], backend='irv+z3 (QF_BV)')
    try:
        mod = ir.parse(build.llvm_ir(f)); plat = ir.parse(build.llvm_ir('platform.cc')); h = IsaHooks(pr, plat); ex = Exec(mod, h); ex.unroll = 0
        st = State(); st.g = {'set': []}; st.mem['opaque'] = Free()
        # loops that only build tables are not followed: they are cut, and their body must not call a setter
        h.header = lambda e, s, fu, blk: cut(h, e, s, fu, blk)
        ex.enter(st, mod.funcs[fn], []); ex.explore([st]); n = 0
        for x in ex.done:
            n += 1; pr.n += 1
            if len(x.g['set']) > 1: raise Fail('more than one implementation is selected')
            if want and not x.g['set']: raise Fail('no implementation is selected')
        seen = {u for x in ex.done for u in x.g['set']}
        if h.calls == 0 or not seen: raise Unsupported('no dispatch decision found')
        o.update(status='proved', count=pr.n, detail='%d paths; selects %s' % (n, ', '.join(sorted(seen))))
    except Fail as e: o.update(status='refuted', count=max(1, pr.n), detail='%s; model %s' % (e.what, str(e.model)[:800]))
    except Unknown as e: o.update(status='unknown', count=max(1, pr.n), detail=str(e))
    except Unsupported as e: o.update(status='unsupported', count=max(1, pr.n), detail=str(e))
    o['time'] = time.time() - t; return [o]
def cut(h, ex, st, f, blk):
    if blk not in ir.cutpoints(f): return False
    fr = st.frames[-1]; key = (f.name, blk)
    if key in st.g.get('cut', ()): return True      # second arrival: the havocked state already covers it
    st.g['cut'] = st.g.get('cut', ()) + (key,)
    tm = ex.tymap(f)
    for ph in f.blocks[blk]:
        if ph.op != 'phi': break
        t = ph.ty; fr.env[ph.res] = Ptr('opaque', ex.fresh(64)) if t == ir.PTR else ex.fresh(t[1]) if t[0] == 'i' and t[1] > 1 else ex.freshb() if t[0] == 'i' else [ex.fresh(t[2][1]) for _ in range(t[1])]
    for k in list(st.mem):
        if k.startswith(('a:', 'g:')) and isinstance(st.mem[k], Cells) and not k.endswith('has_avx10E'): st.mem[k] = Free()
    return False
UNITS = [('encoder.cc', NS + '12encoder_initEv', True), ('decoder.cc', NS + '12decoder_initEv', True), ('crc.cc', NS + '10crc32_initEv', False)]
def refs():
    irs = dict(zip(BASEU := [f for f in build.ISA_FLAGS if f != 'yencode.cc'], build.pmap(build.llvm_ir, BASEU))); defs = {}
    for f, tx in irs.items():
        for l in tx.split('\n'):
            if l.startswith('define ') and not re.search(r'internal|linkonce|private|weak', l.split('@')[0]): defs[re.search(r'@([\w.$]+)', l).group(1)] = f
    for f, tx in irs.items():
        REFS[f] = {f} | {defs[g] for g in set(re.findall(r'@([\w.$]+)', tx)) if g in defs and not (plain(g) in SETTERS and f in ('encoder.cc', 'decoder.cc', 'crc.cc'))}
    ch = True
    while ch:
        ch = False
        for f in REFS:
            n = set().union(*[REFS[u] for u in REFS[f]])
            if n != REFS[f]: REFS[f] = n; ch = True
    return irs
def run_all():
    t = time.time(); own = {}; bad = []; n = 0; h = z3.Bool('has_avx10')
    try:
        irs = refs()
        # no function that the linker merges across translation units is emitted with different instruction-set flags
        for f, tx in irs.items():
            for l in tx.split('\n'):
                if l.startswith('define ') and ('linkonce' in l.split('@')[0] or 'weak' in l.split('@')[0]):
                    own.setdefault(l.split('@', 1)[1].split('(')[0], []).append(f)
        for k, fs in own.items():
            n += 1
            if len({tuple(build.ISA_FLAGS[f]) for f in fs}) > 1: bad.append('%s in %s' % (k, ', '.join(fs)))
        # units that run on every CPU reach units compiled for more only through the dispatch
        for f in irs:
            if f in ('encoder.cc', 'decoder.cc', 'crc.cc', 'platform.cc', 'encoder_sse2.cc', 'decoder_sse2.cc'):
                n += 1; so = z3.Solver(); so.add(z3.Not(req(f, h)))
                if so.check() != z3.unsat: bad.append('%s uses a function compiled for more than the baseline' % f)
        o = dict(status='refuted' if bad else 'proved', count=n, detail='; '.join(bad)[:600] or '%d mergeable functions and baseline units' % n)
    except build.BuildError as e: return [dict(name='DISPATCH', status='unsupported', backend='-', time=0, detail=str(e)[-500:])]
    o.update(name='DISPATCH: references between translation units', functions=[], backend='IR linkage scan + z3', time=time.time() - t); r = [o]
    for u in UNITS: r += run_init(*u)
    return r
def tasks(arg, tier): return [('dispatch', run_all, ())]
if __name__ == '__main__':
    for o in run_all(): print(o)

"""x86-64 and generic LLVM intrinsics"""
from .ir import Unsupported
from .val import *
from . import ir
import z3
def popc(x, w):
    if type(x) is int: return bin(x).count('1')
    r = 0
    n = max(1, w.bit_length())
    b = [q for q in bits(x, w) if q is not False]
    if any(isinstance(q, (Lin, Anf)) for q in b): raise Unsupported('ctpop of GF(2) forms')
    if w < 32: raise Unsupported('ctpop width')
    d = {}; c = 0
    for q in b:
        if q is True: c += 1; continue
        t = z3.If(q, z3.BitVecVal(1, w), z3.BitVecVal(0, w)); i = t.get_id()
        d[i] = (t, d[i][1] + 1 if i in d else 1)
    return unlin(c, d, w)
def pshufb(ex, data, idx):
    """one 16-byte lane"""
    r = ex.hooks.shuffle(ex, data, idx, 16)
    if r is not None: return r
    out = []
    for q in idx:
        if q is UNDEF: out.append(UNDEF); continue
        if type(q) is int: out.append(0 if q & 128 else data[q & 15]); continue
        b = bits(q, 8)
        vals = list(data)
        for k in range(4): vals = [ite(b[k], vals[2*j+1], vals[2*j], 8) for j in range(len(vals) // 2)]
        out.append(ite(b[7], 0, vals[0], 8))
    return out
def clmul(a, b, wa=64):
    """carry-less product of two 64-bit values, 128 bits"""
    x, y = bits(a, 64), bits(b, 64); r = [False] * 128
    for i in range(64):
        if x[i] is False: continue
        for j in range(64):
            if y[j] is False: continue
            r[i+j] = bxor(r[i+j], band(x[i], y[j]))
    return mkbits(r)
def run(ex, st, name, a, i):
    t = i.ty; n = name[5:]
    if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'prefetch', 'invariant', 'stacksave', 'stackrestore')):
        if n.startswith('assume') and hasattr(ex.hooks, 'assume'): ex.hooks.assume(ex, st, a[0])
        return None
    if n.startswith('x86.'): return x86(ex, st, n[4:], a, i)
    parts = n.split('.')
    def lanes(f):
        if t[0] == 'v':
            return [UNDEF if any(y is UNDEF for y in xs) else f(t[2][1], *xs) for xs in zip(*[q if isinstance(q, list) else [q] * t[1] for q in a])]
        if any(x is UNDEF for x in a): return UNDEF
        return f(t[1], *a)
    k = parts[0]
    if k in ('umin', 'umax', 'smin', 'smax'):
        pr = dict(umin='ult', umax='ugt', smin='slt', smax='sgt')[k]; return lanes(lambda w, x, y: ite(icmp(pr, x, y, w), x, y, w))
    if k in ('usub', 'uadd') and parts[1] == 'sat':
        if k == 'usub': return lanes(lambda w, x, y: ite(icmp('ugt', x, y, w), sub(x, y, w), 0, w))
        return lanes(lambda w, x, y: ite(icmp('ult', add(x, y, w), x, w), (1 << w) - 1, add(x, y, w), w))
    if k == 'ctpop': return lanes(lambda w, x: popc(x, w) if w >= 32 else trunc(popc(zext(x, w, 64), 64), 64, w))
    if k in ('ctlz', 'cttz'):
        a = a[:1]
        def f(w, x):
            if type(x) is int: 
                if x == 0: return w
                return w - x.bit_length() if k == 'ctlz' else (x & -x).bit_length() - 1
            b = bits(x, w); r = w
            for j in (range(w) if k == 'ctlz' else range(w - 1, -1, -1)): r = ite(b[j], w - 1 - j if k == 'ctlz' else j, r, w)
            return r
        return lanes(f)
    if k == 'bswap': return lanes(lambda w, x: cat(split(x, w, 8)[::-1], 8))
    if k == 'bitreverse': return lanes(lambda w, x: mkbits(bits(x, w)[::-1]))
    if k in ('fshl', 'fshr'):
        def f(w, x, y, z):
            if type(z) is not int: raise Unsupported('variable funnel shift')
            z %= w
            if k == 'fshr': z = (w - z) % w if z else w
            # result = top w bits of (x:y) << z
            return x if z == 0 else y if z == w else logic('or', shift('shl', x, z, w), shift('lshr', y, w - z, w), w)
        return lanes(f)
    if k == 'abs': return lanes(lambda w, x, *_: ite(icmp('slt', x, 0, w), neg(x, w), x, w))
    if k == 'vector' and parts[1] == 'reduce':
        o = parts[2]; at = i.args[0][0]; r = a[0][0]
        for x in a[0][1:]: r = ex.bin(o, r, x, at[2][1])
        return r
    if k == 'expect': return a[0]
    if k == 'memcpy' or k == 'memmove':
        for q in range(ex.concretize(st, a[2])):
            v = ex.load(st, ex.gep(st, ir.I8, a[1], [(ir.I64, q)]), ir.I8); ex.store(st, ex.gep(st, ir.I8, a[0], [(ir.I64, q)]), ir.I8, v)
        return None
    if k == 'memset':
        for q in range(ex.concretize(st, a[2])): ex.store(st, ex.gep(st, ir.I8, a[0], [(ir.I64, q)]), ir.I8, a[1])
        return None
    if k == 'masked' and parts[1] in ('compressstore', 'expandload'): return ex.hooks.compress(ex, st, parts[1], a, i)
    if k == 'uadd' or k == 'usub' or k == 'umul':
        if parts[1] == 'with':
            w = t[1][0][1]; x, y = a
            if k == 'uadd': r = add(x, y, w); return [r, icmp('ult', r, x, w)]
            if k == 'usub': return [sub(x, y, w), icmp('ult', x, y, w)]
    raise Unsupported('intrinsic ' + name)
def x86(ex, st, n, a, i):
    t = i.ty
    if n in ('avx.vzeroupper', 'avx.vzeroall'): return None
    if n in ('sse2.pmovmskb.128', 'avx2.pmovmskb'): return mkbits([bits(x, 8)[7] for x in a[0]] + [False] * (32 - len(a[0])))
    if n == 'ssse3.pshuf.b.128': return pshufb(ex, a[0], a[1])
    if n == 'avx2.pshuf.b': return pshufb(ex, a[0][:16], a[1][:16]) + pshufb(ex, a[0][16:], a[1][16:])
    if n in ('sse41.pblendvb', 'avx2.pblendvb'): return [ite(bits(m, 8)[7], y, x, 8) for x, y, m in zip(*a)]
    if n == 'pclmulqdq' :
        x, y = a[0][a[2] & 1], a[1][(a[2] >> 4) & 1]; r = clmul(x, y); return [ext(r, 0, 64, 128), ext(r, 64, 64, 128)]
    if n == 'pclmulqdq.256':
        out = []
        for h in (0, 2):
            r = clmul(a[0][h + (a[2] & 1)], a[1][h + ((a[2] >> 4) & 1)]); out += [ext(r, 0, 64, 128), ext(r, 64, 64, 128)]
        return out
    if n.startswith('avx512.mask.compress'): return ex.hooks.compress(ex, st, 'compress', a, i)
    if n.startswith('avx512.mask.expand'): return ex.hooks.compress(ex, st, 'expand', a, i)
    if n in ('sse2.packuswb.128', 'avx2.packuswb', 'sse2.packsswb.128', 'avx2.packsswb'):
        us = 'us' in n
        def sat(x):
            if us: return ite(icmp('slt', x, 0, 16), 0, ite(icmp('sgt', x, 255, 16), 255, ext(x, 0, 8, 16), 8), 8)
            return ite(icmp('slt', x, 0xff80, 16), 0x80, ite(icmp('sgt', x, 127, 16), 127, ext(x, 0, 8, 16), 8), 8)
        out = []
        for h in range(0, len(a[0]), 8): out += [sat(x) for x in a[0][h:h+8]] + [sat(x) for x in a[1][h:h+8]]
        return out
    if n == 'sse2.psad.bw':
        out = []
        for h in (0, 8):
            s = 0
            for x, y in zip(a[0][h:h+8], a[1][h:h+8]):
                X, Y = zext(x, 8, 64), zext(y, 8, 64); d = ite(icmp('ugt', x, y, 8), sub(X, Y, 64), sub(Y, X, 64), 64); s = add(s, d, 64)
            out.append(s)
        return out
    if n in ('bmi.pext.32', 'bmi.pext.64', 'bmi.pdep.32', 'bmi.pdep.64'): return ex.hooks.pext(ex, st, n, a) if hasattr(ex.hooks, 'pext') else _u(n)
    if n in ('sse42.crc32.32.8',): return _u(n)
    if n.startswith('avx512.pternlog'):
        w = t[2][1]; imm = a[3]
        def tern(x, y, z):
            r = 0; M = (1 << w) - 1
            for k in range(8):
                if not (imm >> k) & 1: continue
                q = M
                for v, on in ((x, k & 4), (y, k & 2), (z, k & 1)): q = logic('and', q, v if on else logic('xor', v, M, w), w)
                r = logic('or', r, q, w)
            return r
        return [tern(x, y, z) for x, y, z in zip(*a[:3])]
    if n.startswith(('ssse3.pmadd', 'sse2.pmadd')): return _u(n)
    if n in ('avx512.vpshrd', ): return _u(n)
    return _u(n)
def _u(n): raise Unsupported('x86 intrinsic ' + n)

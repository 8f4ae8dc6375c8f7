"""Symbolic values. int: constant | z3 BitVec | Cat(parts) little-endian parts (pw==1: booleans / GF(2) forms).
i1: python bool | z3 Bool | GF(2) form. vectors: python lists of lane values. pointers: Ptr / PIte."""
import z3
from .ir import Unsupported
BoolRef = z3.BoolRef; BVRef = z3.BitVecRef
class Cat:
    __slots__ = ('p', 'pw')
    def __init__(s, p, pw): s.p = p; s.pw = pw
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __repr__(s): return 'Ptr(%s,%s)' % (s.obj, s.off)
class PIte:
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts      # [(cond, Ptr)], last cond True
class Undef: pass
UNDEF = Undef()
class Lin:
    """affine form over GF(2): bit 0 of m is the constant, bit k+1 the k-th variable"""
    __slots__ = ('m',)
    def __init__(s, m): s.m = m
class Anf:
    """polynomial over GF(2): frozenset of monomials (frozenset of variable numbers)"""
    __slots__ = ('m',)
    def __init__(s, m): s.m = m
class FNum:
    """a double as (is it NaN, its floor as a signed 80-bit number saturated at +-2^78, has it a fractional part)"""
    __slots__ = ('nan', 'fl', 'frac')
    def __init__(s, nan, fl, frac): s.nan = nan; s.fl = fl; s.frac = frac
class FInt:
    """the double nearest to an integer value"""
    __slots__ = ('sg', 'v')
    def __init__(s, sg, v): s.sg = sg; s.v = v
def fcmp(pr, a, c):
    if isinstance(a, float) and isinstance(c, FNum):
        pr = pr[0] + dict(lt='gt', gt='lt', le='ge', ge='le').get(pr[1:], pr[1:]); a, c = c, a
    if pr in ('uno', 'ord') and isinstance(a, FNum):
        if isinstance(c, FNum): n = bor(a.nan, c.nan)
        else: n = a.nan
        return n if pr == 'uno' else bnot(n)
    if not isinstance(a, FNum) or not isinstance(c, float) or c != int(c) or abs(c) > 2.0**70: raise Unsupported('floating point comparison')
    k = z3.BitVecVal(int(c), 80); eq = z3.And(a.fl == k, z3.Not(a.frac)); lt = a.fl < k
    r = dict(eq=eq, ne=z3.Not(eq), lt=lt, le=z3.Or(lt, eq), gt=z3.Not(z3.Or(lt, eq)), ge=z3.Not(lt))[pr[1:]]
    return z3.And(z3.Not(a.nan), r) if pr[0] == 'o' else z3.Or(a.nan, r)
def ftrunc(a):
    """towards zero, 80 bits"""
    return z3.If(z3.And(a.fl < 0, a.frac), a.fl + 1, a.fl)
def toanf(a):
    if isinstance(a, Anf): return a.m
    if isinstance(a, Lin):
        r = set(); m = a.m; k = 0
        while m:
            if m & 1: r.add(frozenset() if k == 0 else frozenset([k-1]))
            m >>= 1; k += 1
        return frozenset(r)
    if a is True: return frozenset([frozenset()])
    if a is False: return frozenset()
    raise Unsupported('mixed bit domains')
# ------------------------------------------------------------ bits
def bnot(a):
    if isinstance(a, bool): return not a
    if isinstance(a, Lin): return Lin(a.m ^ 1)
    if isinstance(a, Anf): return Anf(a.m ^ frozenset([frozenset()]))
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def beqs(a, b):
    return a is b or (not isinstance(a, (bool, Lin, Anf)) and not isinstance(b, (bool, Lin, Anf)) and a.eq(b))
def band(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    if isinstance(a, (Lin, Anf)) or isinstance(b, (Lin, Anf)):
        if isinstance(a, Lin) and isinstance(b, Lin):
            if a.m == b.m: return a
            if a.m == b.m ^ 1: return False
            if a.m <= 1: return b if a.m else False
            if b.m <= 1: return a if b.m else False
        x, y = toanf(a), toanf(b); r = set()
        if len(x) * len(y) > 200000: raise Unsupported('ANF too large')
        for p in x:
            for q in y: r ^= {p | q}
        return Anf(frozenset(r))
    if a.eq(b): return a
    return z3.And(a, b)
def bor(a, b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    if isinstance(a, (Lin, Anf)) or isinstance(b, (Lin, Anf)): return bnot(band(bnot(a), bnot(b)))
    if a.eq(b): return a
    return z3.Or(a, b)
def bxor(a, b):
    if a is False: return b
    if b is False: return a
    if a is True: return bnot(b)
    if b is True: return bnot(a)
    if isinstance(a, Lin) and isinstance(b, Lin):
        return norm(Lin(a.m ^ b.m))
    if isinstance(a, (Lin, Anf)) or isinstance(b, (Lin, Anf)):
        r = toanf(a) ^ toanf(b)
        return Anf(r) if r else False
    if a.eq(b): return False
    return z3.Xor(a, b)
def norm(l): return False if l.m == 0 else True if l.m == 1 else l
def bite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else bnot(c)
    if isinstance(c, (Lin, Anf)) or isinstance(a, (Lin, Anf)) or isinstance(b, (Lin, Anf)): return bxor(b, band(c, bxor(a, b)))
    if a is True: return bor(c, b)
    if a is False: return band(bnot(c), b)
    if b is True: return bor(bnot(c), a)
    if b is False: return band(c, a)
    if a.eq(b): return a
    return z3.If(c, a, b)
# ------------------------------------------------------------ ints
def isc(x): return type(x) is int
def bv(x, w):
    """as a z3 bit-vector"""
    if type(x) is int: return z3.BitVecVal(x, w)
    if isinstance(x, Cat):
        if x.pw == 1:
            if any(isinstance(b, (Lin, Anf)) for b in x.p): raise Unsupported('GF(2) form used as an integer')
            p = x.p
            if w > 1 and not isinstance(p[0], bool) and all(beqs(p[0], q) for q in p[1:]):
                return z3.If(p[0], z3.BitVecVal((1 << w) - 1, w), z3.BitVecVal(0, w))
            # group constants at both ends
            k = len(p)
            while k > 0 and p[k-1] is False: k -= 1
            lo = 0
            while lo < k and p[lo] is False: lo += 1
            if k == 0: return z3.BitVecVal(0, w)
            mid = [z3.BitVecVal(int(q), 1) if isinstance(q, bool) else z3.If(q, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for q in p[lo:k]]
            t = z3.Concat(*mid[::-1]) if len(mid) > 1 else mid[0]
            if lo: t = z3.Concat(t, z3.BitVecVal(0, lo))
            if k < w: t = z3.ZeroExt(w - k, t)
            return t
        ps = [bv(q, x.pw) for q in x.p]
        return z3.Concat(*ps[::-1]) if len(ps) > 1 else ps[0]
    if isinstance(x, (bool, BoolRef)):
        if w == 1: return z3.If(boolz(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    if isinstance(x, BVRef): return x
    raise Unsupported('bv of %s' % type(x))
def boolz(c): return z3.BoolVal(c) if isinstance(c, bool) else c
def bits(x, w):
    """list of w bits"""
    if type(x) is int: return [bool((x >> k) & 1) for k in range(w)]
    if isinstance(x, Cat):
        if x.pw == 1: return x.p
        r = []
        for q in x.p: r += bits(q, x.pw)
        return r
    if w == 1 and isinstance(x, (bool, BoolRef, Lin, Anf)): return [x]
    if isinstance(x, BVRef):
        return [bitof(x, k) for k in range(w)]
    raise Unsupported('bits of %s' % type(x))
def bitof(x, k):
    e = ext(x, k, 1, x.size())
    if type(e) is int: return bool(e)
    if isinstance(e, Cat): return e.p[0]
    if isinstance(e, (bool, BoolRef)): return e
    if e.decl().kind() == z3.Z3_OP_ITE and isflag(e): return e.arg(0)
    return e == z3.BitVecVal(1, 1)
def mkbits(l):
    if all(isinstance(b, bool) for b in l): return sum(1 << k for k, b in enumerate(l) if b)
    return Cat(list(l), 1)
def cat(parts, pw):
    """little-endian concatenation of parts of width pw"""
    if len(parts) == 1: return parts[0]
    if all(type(q) is int for q in parts): return sum(q << (k * pw) for k, q in enumerate(parts))
    if pw == 1: return Cat([bits(q, 1)[0] if not isinstance(q, (bool, BoolRef, Lin, Anf)) else q for q in parts], 1)
    if all(type(q) is int or (isinstance(q, Cat) and q.pw == 1) for q in parts):
        r = []
        for q in parts: r += bits(q, pw)
        return mkbits(r)
    if pw > 8 and all(type(q) is int or (isinstance(q, Cat) and q.pw == 8) for q in parts) and pw % 8 == 0:
        r = []
        for q in parts: r += split(q, pw, 8)
        return Cat(r, 8)
    return Cat(parts, pw)
def ext(x, lo, n, w):
    """bits lo..lo+n-1 of the w-bit value x"""
    if lo == 0 and n == w: return x
    if type(x) is int: return (x >> lo) & ((1 << n) - 1)
    if isinstance(x, Cat):
        if x.pw == 1: return mkbits(x.p[lo:lo+n])
        if lo % x.pw == 0 and n % x.pw == 0: return cat(x.p[lo // x.pw:(lo + n) // x.pw], x.pw)
        if lo // x.pw == (lo + n - 1) // x.pw: return ext(x.p[lo // x.pw], lo % x.pw, n, x.pw)
        x = bv(x, w)
    k = x.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        o = w
        for a in x.children():
            o -= a.size()
            if lo >= o and lo + n <= o + a.size(): return ext(a, lo - o, n, a.size())
    elif k == z3.Z3_OP_ZERO_EXT:
        a = x.arg(0)
        if lo + n <= a.size(): return ext(a, lo, n, a.size())
        if lo >= a.size(): return 0
    elif k == z3.Z3_OP_BNUM: return (x.as_long() >> lo) & ((1 << n) - 1)
    elif k == z3.Z3_OP_EXTRACT:
        h, l = x.params(); return ext(x.arg(0), l + lo, n, x.arg(0).size())
    elif k == z3.Z3_OP_SIGN_EXT:
        a = x.arg(0)
        if lo + n <= a.size(): return ext(a, lo, n, a.size())
    elif k == z3.Z3_OP_ITE:
        if x.arg(1).decl().kind() == z3.Z3_OP_BNUM and x.arg(2).decl().kind() == z3.Z3_OP_BNUM:
            a, b = ext(x.arg(1), lo, n, w), ext(x.arg(2), lo, n, w)
            if a == b: return a
            if n == 1: return Cat([x.arg(0) if a else bnot(x.arg(0))], 1)
            return z3.If(x.arg(0), z3.BitVecVal(a, n), z3.BitVecVal(b, n))
    return z3.Extract(lo + n - 1, lo, x)
def split(x, w, pw):
    if w == pw: return [x]
    if isinstance(x, Cat) and x.pw == pw: return x.p
    return [ext(x, k, pw, w) for k in range(0, w, pw)]
def zext(x, w, w2):
    if w == 1: x = Cat([tobool(x)], 1) if not type(x) is int else x
    if isinstance(x, bool): x = int(x)
    if type(x) is int: return x
    if isinstance(x, Cat):
        if x.pw == 1: return Cat(x.p + [False] * (w2 - w), 1)
        if (w2 - w) % x.pw == 0: return Cat(list(x.p) + [0] * ((w2 - w) // x.pw), x.pw)
        x = bv(x, w)
    return z3.ZeroExt(w2 - w, x)
def sext(x, w, w2):
    if w == 1:
        if isinstance(x, bool): return (1 << w2) - 1 if x else 0
        if type(x) is int: return (1 << w2) - 1 if x else 0
        return Cat([x] * w2, 1)
    if type(x) is int: return x | (((1 << w2) - (1 << w)) if x >> (w - 1) else 0)
    if isinstance(x, Cat) and x.pw == 1: return Cat(x.p + [x.p[-1]] * (w2 - w), 1)
    return z3.SignExt(w2 - w, bv(x, w))
def trunc(x, w, w2):
    r = ext(x, 0, w2, w)
    if w2 == 1: return tobool(r)
    return r
def tobool(r):
    if isinstance(r, (bool, BoolRef, Lin, Anf)): return r
    if type(r) is int: return bool(r)
    if isinstance(r, Cat): return r.p[0]
    return bitof(r, 0)
def sgn(x, w): return x - (1 << w) if x >> (w - 1) else x
_lin = {}
def lin(x, w=64):
    """linear decomposition of a z3 bit-vector / int: (const, {id: (term, coeff)})"""
    M = (1 << w) - 1
    if type(x) is int: return x & M, {}
    if isinstance(x, Cat): x = bv(x, w)
    key = (x.get_id(), w)
    if key in _lin and _lin[key][0].eq(x): return _lin[key][1]
    k = x.decl().kind(); ch = x.children()
    if k == z3.Z3_OP_BNUM: r = (x.as_long(), {})
    elif k == z3.Z3_OP_BADD:
        c = 0; d = {}
        for a in ch:
            c2, d2 = lin(a, w); c += c2
            for i, (t, q) in d2.items():
                n = (d[i][1] if i in d else 0) + q & M
                if n: d[i] = (t, n)
                else: d.pop(i, None)
        r = (c & M, d)
    elif k == z3.Z3_OP_BSUB and len(ch) == 2:
        c, d = lin(ch[0], w); c2, d2 = lin(ch[1], w); d = dict(d)
        for i, (t, q) in d2.items():
            n = (d[i][1] if i in d else 0) - q & M
            if n: d[i] = (t, n)
            else: d.pop(i, None)
        r = ((c - c2) & M, d)
    elif k == z3.Z3_OP_BNEG:
        c, d = lin(ch[0], w); r = (-c & M, {i: (t, -q & M) for i, (t, q) in d.items()})
    elif k == z3.Z3_OP_BMUL and len(ch) == 2 and (z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1])):
        m, y = (ch[0], ch[1]) if z3.is_bv_value(ch[0]) else (ch[1], ch[0]); m = m.as_long()
        c, d = lin(y, w); r = (c * m & M, {i: (t, q * m & M) for i, (t, q) in d.items() if q * m & M})
    elif k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
        m = 1 << ch[1].as_long(); c, d = lin(ch[0], w); r = (c * m & M, {i: (t, q * m & M) for i, (t, q) in d.items() if q * m & M})
    elif k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT): r = _linext(x, ch[0], k == z3.Z3_OP_SIGN_EXT, w) or (0, {x.get_id(): (x, 1)})
    else: r = (0, {x.get_id(): (x, 1)})
    _lin[key] = (x, r)
    return r
def isflag(t):
    return t.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(t.arg(1)) and z3.is_bv_value(t.arg(2)) and t.arg(1).as_long() == 1 and t.arg(2).as_long() == 0
def _linext(x, y, signed, w):
    """extension of a small sum of flags (population counts): distributes where the narrow sum cannot wrap"""
    n = y.size(); c, d = lin(y, n)
    if not d or len(d) > 130: return None
    lo = hi = sgn(c, n)
    for t, q in d.values():
        if not isflag(t): return None
        q = sgn(q, n)
        if q > 0: hi += q
        else: lo += q
    if not ((-(1 << (n - 1)) if signed else 0) <= lo and hi < (1 << (n - 1))): return None
    M = (1 << w) - 1; r = {}
    for t, q in d.values():
        t2 = z3.If(t.arg(0), z3.BitVecVal(1, w), z3.BitVecVal(0, w)); r[t2.get_id()] = (t2, sgn(q, n) & M)
    return sgn(c, n) & M, r
def unlin(c, d, w=64):
    M = (1 << w) - 1
    if not d: return c & M
    ts = []
    for i in sorted(d):
        t, q = d[i]
        ts.append(t if q == 1 else z3.BitVecVal(q, w) * t)
    r = ts[0]
    for t in ts[1:]: r = r + t
    return r + z3.BitVecVal(c, w) if c & M else r
def add(a, b, w):
    M = (1 << w) - 1
    if type(a) is int and type(b) is int: return (a + b) & M
    if type(a) is int and a == 0: return b
    if type(b) is int and b == 0: return a
    if (isinstance(a, Cat) and a.pw == 1 or type(a) is int) and (isinstance(b, Cat) and b.pw == 1 or type(b) is int): return addbits(a, b, w)
    if NAME[0]:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Cat) and x.pw == 1 and isinstance(y, (Cat, BVRef)) and sum(not isinstance(q, bool) for q in x.p) > 2:
                z = bits(y, w)
                if sum(not isinstance(q, bool) for q in z) <= 2: return addbits(x, mkbits(z), w)
    if w >= 32:
        c1, d1 = lin(a, w); c2, d2 = lin(b, w); d = dict(d1)
        for i, (t, q) in d2.items():
            n = (d[i][1] if i in d else 0) + q & M
            if n: d[i] = (t, n)
            else: d.pop(i, None)
        return unlin((c1 + c2) & M, d, w)
    return bv(a, w) + bv(b, w)
NAME = [None]     # when set: gives a complex flag a name (a variable with a definition the solver layer knows)
def addbits(a, b, w, cin=False):
    x, y = bits(a, w), bits(b, w); c = cin; r = []
    for k in range(w):
        p = bxor(x[k], y[k]); r.append(bxor(p, c)); c = bor(band(x[k], y[k]), band(c, p))
        if NAME[0] and isinstance(c, BoolRef): c = NAME[0](c)
    return mkbits(r)
def neg(a, w):
    if type(a) is int: return -a & ((1 << w) - 1)
    if isinstance(a, Cat) and a.pw == 1: return addbits(0, mkbits([bnot(q) for q in a.p]), w, True)
    if w >= 32:
        c, d = lin(a, w); M = (1 << w) - 1
        return unlin(-c & M, {i: (t, -q & M) for i, (t, q) in d.items()}, w)
    return -bv(a, w)
def sub(a, b, w):
    if type(a) is int and type(b) is int: return (a - b) & ((1 << w) - 1)
    if type(b) is int: return add(a, -b & ((1 << w) - 1), w)
    if isinstance(b, Cat) and b.pw == 1 and (type(a) is int or isinstance(a, Cat) and a.pw == 1):
        return addbits(a, mkbits([bnot(q) for q in b.p]), w, True)
    if w >= 32: return add(a if not isinstance(a, Cat) else bv(a, w), neg(bv(b, w), w), w)
    return bv(a, w) - bv(b, w)
def logic(op, a, b, w):
    if type(a) is int and type(b) is int: return a & b if op == 'and' else a | b if op == 'or' else a ^ b
    if type(a) is int: a, b = b, a
    M = (1 << w) - 1
    if type(b) is int:
        if op == 'and' and b == 0: return 0
        if op == 'and' and b == M: return a
        if op == 'or' and b == 0: return a
        if op == 'or' and b == M: return M
        if op == 'xor' and b == 0: return a
    if isinstance(a, Cat) or isinstance(b, Cat):
        pw = min(x.pw for x in (a, b) if isinstance(x, Cat)); other = [x for x in (a, b) if isinstance(x, BVRef)]
        if pw == 1:
            f = band if op == 'and' else bor if op == 'or' else bxor
            return mkbits([f(x, y) for x, y in zip(bits(a, w), bits(b, w))])
        return cat([logic(op, x, y, pw) for x, y in zip(split(a, w, pw), split(b, w, pw))], pw)
    x, y = bv(a, w), bv(b, w)
    if x.eq(y): return 0 if op == 'xor' else x
    if type(b) is int and op == 'and':
        # contiguous low/high masks as extracts
        if b & (b + 1) == 0: n = b.bit_length(); return zext(ext(x, 0, n, w), n, w)
    return x & y if op == 'and' else x | y if op == 'or' else x ^ y
def shift(op, a, b, w):
    M = (1 << w) - 1
    if type(b) is int:
        if b >= w:
            if op == 'ashr': b = w - 1
            else: return 0
        if type(a) is int: return (a << b) & M if op == 'shl' else a >> b if op == 'lshr' else (sgn(a, w) >> b) & M
        if b == 0: return a
        if isinstance(a, Cat):
            if a.pw > 1 and (b % a.pw or op == 'ashr'):
                if op == 'ashr' or any(isinstance(q, Cat) and q.pw == 1 for q in a.p): a = Cat(bits(a, w), 1)
            if a.pw == 1:
                p = a.p
                return mkbits([False] * b + p[:w-b] if op == 'shl' else p[b:] + [False if op == 'lshr' else p[-1]] * b)
            if b % a.pw == 0 and op != 'ashr':
                k = b // a.pw; n = len(a.p)
                return cat([0] * k + list(a.p[:n-k]) if op == 'shl' else list(a.p[k:]) + [0] * k, a.pw)
        x = bv(a, w)
        if op == 'shl':
            if w >= 32: return unlin(*_mulc(lin(x, w), 1 << b, w), w)
            return x << b
        if op == 'lshr': return zext(ext(x, b, w - b, w), w - b, w)
        return sext(ext(x, b, w - b, w), w - b, w)
    x, y = bv(a, w), bv(b, w)
    return x << y if op == 'shl' else z3.LShR(x, y) if op == 'lshr' else x >> y
def _mulc(l, m, w):
    M = (1 << w) - 1; c, d = l
    return c * m & M, {i: (t, q * m & M) for i, (t, q) in d.items() if q * m & M}
def mul(a, b, w):
    M = (1 << w) - 1
    if type(a) is int and type(b) is int: return a * b & M
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if b == 0: return 0
        if b == 1: return a
        if b & (b - 1) == 0: return shift('shl', a, b.bit_length() - 1, w)
        if w >= 32: return unlin(*_mulc(lin(a, w), b, w), w)
    return bv(a, w) * bv(b, w)
def icmp(pr, a, b, w):
    if w == 1:
        x, y = tobool(a), tobool(b)
        if pr == 'eq': return bnot(bxor(x, y))
        if pr == 'ne': return bxor(x, y)
        raise Unsupported('i1 icmp ' + pr)
    if type(a) is int and type(b) is int:
        if pr[0] == 's': a, b = sgn(a, w), sgn(b, w)
        return dict(eq=a == b, ne=a != b, lt=a < b, le=a <= b, gt=a > b, ge=a >= b)[pr[-2:]]
    if pr in ('eq', 'ne'):
        if type(a) is int: a, b = b, a
        if isinstance(a, Cat) and (type(b) is int or isinstance(b, Cat) and b.pw == a.pw) and (a.pw == 1 or w > 64):
            r = True
            for x, y in zip(split(a, w, a.pw) if a.pw > 1 else a.p, split(b, w, a.pw) if a.pw > 1 else bits(b, w)):
                r = band(r, bnot(bxor(x, y)) if a.pw == 1 else icmp('eq', x, y, a.pw))
            return r if pr == 'eq' else bnot(r)
        if w >= 32:
            c, d = lin(sub(a, b, w), w)
            if not d: return (c == 0) == (pr == 'eq')
            if len(d) == 1:
                t, q = list(d.values())[0]
                if q == 1: r = t == z3.BitVecVal(-c & ((1 << w) - 1), w); return r if pr == 'eq' else z3.Not(r)
                if q == (1 << w) - 1: r = t == z3.BitVecVal(c, w); return r if pr == 'eq' else z3.Not(r)
        x, y = bv(a, w), bv(b, w)
        if x.eq(y): return pr == 'eq'
        return x == y if pr == 'eq' else z3.Not(x == y)
    if isinstance(a, Cat) and a.pw == 1 and type(b) is int and pr in ('slt', 'sgt'):
        if pr == 'slt' and b == 0: return a.p[-1]
        if pr == 'sgt' and b == (1 << w) - 1: return bnot(a.p[-1])
    x, y = bv(a, w), bv(b, w)
    f = dict(ult=z3.ULT, ule=z3.ULE, ugt=z3.UGT, uge=z3.UGE, slt=lambda p, q: p < q, sle=lambda p, q: p <= q, sgt=lambda p, q: p > q, sge=lambda p, q: p >= q)[pr]
    if x.eq(y): return pr[1:] in ('le', 'ge')
    return f(x, y)
def ite(c, a, b, w):
    if c is True: return a
    if c is False: return b
    if w == 1: return bite(c, tobool(a), tobool(b))
    if type(a) is int and type(b) is int and a == b: return a
    if isinstance(c, (Lin, Anf)) or (isinstance(a, Cat) and a.pw == 1) or (isinstance(b, Cat) and b.pw == 1):
        return mkbits([bite(c, x, y) for x, y in zip(bits(a, w), bits(b, w))])
    if isinstance(a, Cat) or isinstance(b, Cat):
        pw = min(x.pw for x in (a, b) if isinstance(x, Cat))
        return cat([ite(c, x, y, pw) for x, y in zip(split(a, w, pw), split(b, w, pw))], pw)
    x, y = bv(a, w), bv(b, w)
    if x.eq(y): return a
    return z3.If(c, x, y)
def iteany(c, a, b, t):
    """ite over a value of IR type t"""
    if c is True: return a
    if c is False: return b
    if a is UNDEF: return b
    if b is UNDEF: return a
    if t[0] == 'v':
        return [iteany(c, x, y, t[2]) for x, y in zip(a, b)]
    if t[0] == 'ptr':
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return Ptr(a.obj, ite(c, a.off, b.off, 64))
        A = a.alts if isinstance(a, PIte) else [(True, a)]; B = b.alts if isinstance(b, PIte) else [(True, b)]
        return mkpite([(band(c, q), p) for q, p in A] + [(band(bnot(c), q), p) for q, p in B])
    if t[0] == 's': return [iteany(c, x, y, e) for x, y, e in zip(a, b, t[1])]
    if t[0] == 'double':
        if isinstance(a, FNum) and isinstance(b, FNum): return FNum(z3.If(c, a.nan, b.nan), z3.If(c, a.fl, b.fl), z3.If(c, a.frac, b.frac))
        raise Unsupported('choice between doubles')
    return ite(c, a, b, t[1])
def mkpite(alts):
    g = []
    for c, p in alts:
        if c is False: continue
        for k, (c2, p2) in enumerate(g):
            if p2.obj == p.obj:
                g[k] = (bor(c2, c), Ptr(p.obj, ite(c, p.off, p2.off, 64))); break
        else: g.append((c, p))
    if len(g) == 1: return g[0][1]
    return PIte(g)

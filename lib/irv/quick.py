"""Complete decision procedures for the two easy query shapes: constraints over at most two bytes (exhaustive evaluation)
and difference constraints over positions (shortest paths). Anything else goes to the bit-vector solver."""
import z3, numpy as np
from .val import lin
A = np.arange(256, dtype=np.int64)
_ev = {}; _keep = []
class No(Exception): pass
def ev(f, vs):
    """value of f for all values of the byte variables vs (<=2): array"""
    key = (f.get_id(), vs)
    if key in _ev: return _ev[key]
    r = ev2(f, vs); _ev[key] = r; _keep.append(f); return r
def ev2(f, vs):
    k = f.decl().kind(); ch = f.children()
    if k == z3.Z3_OP_UNINTERPRETED:
        i = f.get_id()
        if i not in vs or not z3.is_bv(f): raise No
        return A if len(vs) == 1 else A[:, None] if vs[0] == i else A[None, :]
    if k == z3.Z3_OP_BNUM: return np.int64(f.as_long()) if f.size() <= 32 else (_ for _ in ()).throw(No())
    if k == z3.Z3_OP_TRUE: return np.bool_(True)
    if k == z3.Z3_OP_FALSE: return np.bool_(False)
    if k == z3.Z3_OP_AND:
        r = ev(ch[0], vs)
        for c in ch[1:]: r = r & ev(c, vs)
        return r
    if k == z3.Z3_OP_OR:
        r = ev(ch[0], vs)
        for c in ch[1:]: r = r | ev(c, vs)
        return r
    if k == z3.Z3_OP_NOT: return ~ev(ch[0], vs)
    if k == z3.Z3_OP_IMPLIES: return ~ev(ch[0], vs) | ev(ch[1], vs)
    if k == z3.Z3_OP_XOR: return ev(ch[0], vs) ^ ev(ch[1], vs)
    if k == z3.Z3_OP_ITE: return np.where(ev(ch[0], vs), ev(ch[1], vs), ev(ch[2], vs))
    if k == z3.Z3_OP_EQ: return ev(ch[0], vs) == ev(ch[1], vs)
    if z3.is_bv(f) and f.size() > 32: raise No
    if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
        a, b = ev(ch[0], vs), ev(ch[1], vs); w = ch[0].size()
        if w > 32: raise No
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT): h = 1 << (w - 1); a, b = (a ^ h), (b ^ h)
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ): return a <= b
        if k in (z3.Z3_OP_ULT, z3.Z3_OP_SLT): return a < b
        if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_SGEQ): return a >= b
        return a > b
    if not z3.is_bv(f): raise No
    M = (1 << f.size()) - 1
    if k == z3.Z3_OP_BADD:
        r = ev(ch[0], vs)
        for c in ch[1:]: r = (r + ev(c, vs)) & M
        return r
    if k == z3.Z3_OP_BSUB: return (ev(ch[0], vs) - ev(ch[1], vs)) & M
    if k == z3.Z3_OP_BNEG: return -ev(ch[0], vs) & M
    if k == z3.Z3_OP_BAND: return ev(ch[0], vs) & ev(ch[1], vs)
    if k == z3.Z3_OP_BOR: return ev(ch[0], vs) | ev(ch[1], vs)
    if k == z3.Z3_OP_BXOR: return ev(ch[0], vs) ^ ev(ch[1], vs)
    if k == z3.Z3_OP_BNOT: return ~ev(ch[0], vs) & M
    if k == z3.Z3_OP_ZERO_EXT: return ev(ch[0], vs)
    if k == z3.Z3_OP_SIGN_EXT: w = ch[0].size(); h = 1 << (w - 1); return ((ev(ch[0], vs) ^ h) - h) & M
    if k == z3.Z3_OP_EXTRACT: h, l = f.params(); return (ev(ch[0], vs) >> l) & M
    if k == z3.Z3_OP_CONCAT:
        r = np.int64(0)
        for c in ch: r = (r << c.size()) | ev(c, vs)
        return r
    raise No
def bytes_decide(fs, vs):
    """True/False: satisfiable? None: not this shape"""
    try:
        r = np.bool_(True)
        for f in fs:
            r = r & ev(f, vs)
            if not np.any(r): return False
        return True
    except No: return None
# ---------------------------------------------------------------- difference constraints
BIG = 1 << 66
_dp = {}; _atom = {}
def dparse(f):
    """list of ('u'|'s', lin a, lin b, strict, width) meaning a <= b (or a < b), ('e', ..), ('n', ..), ('or', [lists], .., ..); None if not of that shape"""
    k = f.get_id()
    if k in _dp: return _dp[k][1]
    r = dparse2(f, False); _dp[k] = (f, r); return r
def dparse2(f, neg):
    k = f.decl().kind(); ch = f.children()
    if k == z3.Z3_OP_NOT: return dparse2(ch[0], not neg)
    if k == z3.Z3_OP_TRUE and not neg or k == z3.Z3_OP_FALSE and neg: return []
    if k == z3.Z3_OP_AND and not neg or k == z3.Z3_OP_OR and neg:
        r = []
        for c in ch:
            x = dparse2(c, neg)
            if x is None: return None
            r += x
        return r
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        r = [dparse2(c, neg) for c in ch]
        return None if None in r else [('or', r)]
    if len(ch) == 2 and z3.is_bv(ch[0]) and ch[0].size() in (32, 64):
        a, b = ch; w = a.size()
        if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT): a, b = b, a
        strict = k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT, z3.Z3_OP_SLT, z3.Z3_OP_SGT)
        sg = 's' if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT) else 'u'
        if k == z3.Z3_OP_EQ: return [('n' if neg else 'e', tolin(a, w), tolin(b, w), False, w)]
        if k not in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT): return None
        if neg: a, b = b, a; strict = not strict
        return [(sg, tolin(a, w), tolin(b, w), strict, w)]
    return None
def tolin(x, w=64):
    m = 1 << w; c, d = lin(x, w); c = c - m if c >> (w - 1) else c
    for i, (t, q) in d.items():
        if i not in _atom: _atom[i] = (t, z3.is_const(t), w)
    return c, {i: (q - m if q >> (w - 1) else q) for i, (t, q) in d.items()}
class DBM:
    def __init__(s): s.d = {}; s.nodes = [0]; s.bad = False     # d[x,y]: x - y <= d
    def node(s, x):
        if x not in s.nodes:
            s.nodes.append(x)
            # 64-bit variables by their unsigned value, 32-bit ones by their signed value
            s.d[0, x], s.d[x, 0] = (0, (1 << 64) - 1) if _atom[x][2] == 64 else (1 << 31, (1 << 31) - 1)
            for y in s.nodes[1:-1]: s.d[x, y] = s.get(x, 0) + s.get(0, y); s.d[y, x] = s.get(y, 0) + s.get(0, x)
    def clone(s): D = DBM(); D.d = dict(s.d); D.nodes = list(s.nodes); D.bad = s.bad; return D
    def get(s, x, y): return 0 if x == y else s.d.get((x, y), BIG)
    def leq(s, x, y, k):
        """x - y <= k"""
        if x == y:
            if k < 0: s.bad = True
            return False
        if s.get(x, y) <= k: return False
        s.d[x, y] = k
        if k + s.get(y, x) < 0: s.bad = True; return True
        for a in s.nodes:
            ax = s.get(a, x)
            for b in s.nodes:
                if a != b:
                    v = ax + k + s.get(y, b)
                    if v < s.get(a, b): s.d[a, b] = v
                    if v + s.get(b, a) < 0: s.bad = True
        return True
    def ends(s, d):
        """(x, y) of a form x - y, or None"""
        x = y = 0
        for i, q in d.items():
            if q == 1 and not x: x = i
            elif q == -1 and not y: y = i
            else: return None
        return x, y
    def rng(s, l):
        e = s.ends(l[1])
        if e is None: return None
        x, y = e
        return l[0] - s.get(y, x), l[0] + s.get(x, y)
def diff_range(fs, a, b):
    """range of a - b implied by the difference constraints among fs; None if unsatisfiable"""
    D = DBM()
    if diff_decide(fs, D) is False: return None
    c, d = tolin(a); c2, d2 = tolin(b); d = dict(d)
    for i, q in d2.items():
        n = d.get(i, 0) - q
        if n: d[i] = n
        else: d.pop(i, None)
    for i in d: D.node(i)
    return D.rng((c - c2, d))
def diff_decide(fs, D=None):
    """False: unsatisfiable; True: satisfiable (all constraints understood); None: unknown"""
    D = D or DBM(); todo = []; full = True
    for f in fs:
        p = dparse(f)
        if p is None: full = False; continue
        todo += p
    return decide(todo, D, full, [60])
def decide(todo, D, full, fuel):
    ors = [c for c in todo if c[0] == 'or']; todo = [c for c in todo if c[0] != 'or']
    while True:
        for c in todo:
            for l in (c[1], c[2]):
                for i in l[1]:
                    D.node(i)
                    if not _atom[i][1]: full = False
        while todo:
            rest = []; ch = False
            for c in todo:
                op, a, b, strict, w = c; ra, rb = D.rng(a), D.rng(b)
                d = dict(a[1])
                for i, q in b[1].items():
                    n = d.get(i, 0) - q
                    if n: d[i] = n
                    else: d.pop(i, None)
                k = a[0] - b[0]; e = D.ends(d); H = 1 << (w - 1)
                if ra is None or rb is None or e is None: full = False; continue
                if op == 's': ok = ra[0] >= -H and rb[0] >= -H and ra[1] < H and rb[1] < H
                elif op == 'u': ok = ra[0] >= 0 and rb[0] >= 0 and ra[1] < 2 * H and rb[1] < 2 * H
                else: r = D.rng((k, d)); ok = r[0] > -2 * H and r[1] < 2 * H
                if not ok: rest.append(c); continue
                x, y = e
                if op == 'n':
                    lo, hi = D.rng((k, d))
                    if lo == 0 == hi: return False
                    if lo == 0: D.leq(y, x, k - 1); ch = True          # d + k >= 1
                    elif hi == 0: D.leq(x, y, -k - 1); ch = True
                    elif lo > 0 or hi < 0: pass
                    else: rest.append(c)
                elif op == 'e': D.leq(x, y, -k); D.leq(y, x, k); ch = True
                else: D.leq(x, y, -k - (1 if strict else 0)); ch = True
                if D.bad: return False
            todo = rest
            if not ch: break
        if D.bad: return False
        # disjunctions: alternatives that contradict the rest fall away
        r2 = []; unit = None
        for o in ors:
            if unit is not None: r2.append(o); continue
            fuel[0] -= 1
            if fuel[0] < 0: return None
            alts = [a for a in o[1] if decide(list(a), D.clone(), False, fuel) is not False]
            if not alts: return False
            if [] in alts: continue
            if len(alts) == 1: unit = alts[0]
            else: r2.append(('or', alts))
        ors = r2
        if unit is None: break
        ors += [c for c in unit if c[0] == 'or']; todo = todo + [c for c in unit if c[0] != 'or']
    if ors:
        if not full: return None
        u = False
        for a in ors[0][1]:
            fuel[0] -= 1
            if fuel[0] < 0: return None
            r = decide(todo + list(a) + ors[1:], D.clone(), True, fuel)
            if r: return True
            if r is None: u = True
        return None if u else False
    full = full and all(c[0] == 'n' for c in todo) and len(todo) <= 1
    return True if full else None

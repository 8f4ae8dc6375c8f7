"""Contracts for the CRC functions (C01..C04).
All data values are GF(2)-affine (or quadratic) forms over symbolic bits, so every verification condition is an identity of forms
that holds for all inputs. Loops are cut at their heads. The loop invariant is "value(state) * x^rest == final result", where
value() is not guessed: it is the function the code itself computes from the loop state when nothing is left to do.
Contracts:  CRC(data,len,init) = fold of step over data;  MUL(a,b) = a*b mod P;  SHIFT(a,n) = a*x^n mod P (bit-reflected)."""
import os
for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS'): os.environ.setdefault(_v, '1')
import time, re, sys, z3, traceback, functools
import numpy as np
import build
from irv import ir
from irv.ir import Unsupported
from irv.val import *
from irv.sym import *
from irv.inc import INC
from units_dec import Fail, Unknown, Prover
POLY = 0xEDB88320
ORDER = 0xFFFFFFFF
# ------------------------------------------------------------ specification
def xtimes(a): return (a >> 1) ^ (POLY if a & 1 else 0)
def gmul(a, b):
    r = 0
    for k in range(31, -1, -1):
        if b >> k & 1: r ^= a
        a = xtimes(a)
    return r
@functools.lru_cache(None)
def xpow(n):
    r = 0x80000000; b = 0x40000000
    while n:
        if n & 1: r = gmul(r, b)
        b = gmul(b, b); n >>= 1
    return r
@functools.lru_cache(None)
def mulmat(c):
    """columns: image of bit i under multiplication by c"""
    return [gmul(1 << i, c) for i in range(32)]
def step_byte(s, d):
    """CRC register (32 GF(2) forms as masks) after one data byte (8 masks); the bitwise definition of CRC-32"""
    s = list(s)
    for k in range(8):
        fb = s[0] ^ d[k]; s = s[1:] + [0]
        for i in range(32):
            if POLY >> i & 1: s[i] ^= fb
    return s
def matvec(cols, v):
    """apply a 32-column matrix to 32 forms given as masks"""
    return [xorall(v[i] for i in range(32) if cols[i] >> k & 1) for k in range(32)]
def xorall(it):
    r = 0
    for x in it: r ^= x
    return r
# ------------------------------------------------------------ forms
def mask(b):
    """GF(2) affine form of a bit as an integer mask (bit 0 constant)"""
    if b is True: return 1
    if b is False: return 0
    if isinstance(b, Lin): return b.m
    return None
def anf(b):
    if isinstance(b, (bool, Lin, Anf)): return toanf(b)
    raise Unsupported('result is not a polynomial of the data')
class Quad:
    """32 polynomials of degree <= 2 over the variables `vs` (list of variable numbers) as matrices over (1, vars)"""
    def __init__(s, vs, q): s.vs = vs; s.q = q
    @staticmethod
    def of(bits_):
        ms = [anf(b) for b in bits_]; vs = sorted({v for m in ms for p in m for v in p}); ix = {v: k + 1 for k, v in enumerate(vs)}; n = len(vs) + 1
        q = np.zeros((32, n, n), np.uint8)
        for k, m in enumerate(ms):
            for p in m:
                p = sorted(p)
                if len(p) > 2: raise Unsupported('degree %d' % len(p))
                a = ix[p[0]] if len(p) == 2 else 0; b = ix[p[-1]] if p else 0
                q[k, a, b] ^= 1
        return Quad(vs, q)
    def subst(s, forms, nv):
        """replace variable v by the affine form forms[v] over nv variables; -> (32, nv+1, nv+1) normalised"""
        t = np.zeros((len(s.vs) + 1, nv + 1), np.float32); t[0, 0] = 1
        for k, v in enumerate(s.vs):
            m = forms[v]; j = 0
            while m:
                if m & 1: t[k + 1, j] = 1
                m >>= 1; j += 1
        n = len(s.vs) + 1
        if not hasattr(s, 'qf'): s.qf = s.q.astype(np.float32).reshape(-1, n)
        a = (s.qf @ t).astype(np.int32) & 1                       # (32*n, nv+1)
        a = a.reshape(32, n, nv + 1).transpose(0, 2, 1).reshape(-1, n).astype(np.float32)
        r = ((a @ t).astype(np.int32) & 1).astype(np.uint8).reshape(32, nv + 1, nv + 1)
        return norm_q(r.transpose(0, 2, 1))
def norm_q(r):
    r = r.copy(); n = r.shape[1]; up = np.triu(r, 1) ^ np.tril(r, -1).transpose(0, 2, 1); d = np.diagonal(r, axis1=1, axis2=2)
    up[:, 0, 1:] ^= d[:, 1:]; up[:, 0, 0] = d[:, 0]; return up
# ------------------------------------------------------------ memory
class Data:
    """the input buffer: eight GF(2) variables per byte"""
    def __init__(s, h, base=0, name='src'): s.h = h; s.name = name; s.v = {}; s.base = base
    def byte(s, k):
        """byte k from the current position (k may be negative)"""
        if k not in s.v: s.v[k] = s.h.newvars(8)
        return s.v[k]
    def load(s, ex, st, off, t):
        n = ir.sizeof(ex.mod, t); h = s.h; L = h.L
        if t == ir.PTR: raise Unsupported('pointer load from the input')
        o = bv(off, 64); al = ex.align
        if al > 1: h.pr.require(st.pc, (o + ex.addr(s.name)) & z3.BitVecVal(al - 1, 64) == 0, 'an aligned load of %d bytes from an address that may be unaligned' % n)
        inb = z3.And(z3.ULE(o, L), z3.ULE(o + z3.BitVecVal(n, 64), L))
        if not h.pr.valid(st.pc, inb):
            # a load that crosses the end must stay in the aligned block of an addressable byte
            h.pr.require(st.pc, z3.Or(inb, z3.And(z3.ULT(o, L), (o + ex.addr(s.name)) & z3.BitVecVal(n - 1, 64) == 0)), 'a load outside the buffer')
        b = []; o = sgn(ex.concretize(st, sub(off, s.base, 64)), 64)
        for k in range(n): b += s.byte(o + k)
        return ex.unflat(mkbits(b), 8 * n, t)
    def store(s, *a): raise Fail('the input is written')
class Cell0(Cells):
    pass
class CHooks(Hooks):
    def __init__(s, pr, L=None): s.pr = pr; s.nv = 0; s.L = L; s.defs = []; s.head = None; s.nocut = {}; s.arr = []; s.through = False
    def newvars(s, n):
        r = [Lin(1 << (s.nv + k + 1)) for k in range(n)]; s.nv += n; return r
    def junk(s, w): return mkbits(s.newvars(w)) if w > 1 else s.newvars(1)[0]
    def alloca(s, ex, st, i): return Cells()
    def table_load(s, ex, st, obj, off, t): return obj.load(ex, st, ex.concretize(st, off), t)
    def symshift(s, ex, st, op, a, b, w):
        if type(a) is int and a == 0: return 0
        if not (isinstance(a, Cat) and a.pw == 1 and any(isinstance(q, (Lin, Anf)) for q in a.p)):
            if any(isinstance(q, (Lin, Anf)) for q in (a.p if isinstance(a, Cat) else ())): raise Unsupported('shift')
            return shift(op, a, b, w)
        c, d = st.lin(b, w)
        if not d: return shift(op, a, c, w)
        if any(not isinstance(q, (Lin, bool)) for q in a.p): raise Unsupported('shift of a non-linear value')
        g = s.newvars(w); s.defs.append((g, a, bv(b, w), op, w)); return mkbits(g)
    def counted(s, ex, f, blk):
        """loop with a constant number of iterations: executed, not cut"""
        key = (id(f), blk)
        if key not in s.nocut: s.nocut[key] = counted(f, blk)
        return s.nocut[key]
    def header(s, ex, st, f, blk):
        if s.through or blk not in cuts(f) or s.counted(ex, f, blk): return False
        if len(st.frames) != 1: raise Unsupported('loop in a called function')
        s.arr.append((blk, st)); return True
def cuts(f):
    if not hasattr(f, 'cuts_'): f.cuts_ = ir.cutpoints(f)
    return f.cuts_
def counted(f, h):
    body = ir.loops(f).get(h)
    if not body: return False
    for ph in f.blocks[h]:
        if ph.op != 'phi': break
        outs = [v for v, l in ph.args if l not in body]; ins = [v for v, l in ph.args if l in body]
        if len(ins) != 1 or not outs or any(v[0] != 'int' for v in outs) or ins[0][0] != 'loc': continue
        upd = [i for b in body for i in f.blocks[b] if i.res == ins[0][1]]
        if not upd or upd[0].op not in ('add', 'sub', 'shl', 'lshr') or upd[0].args[0][1] != ('loc', ph.res) or upd[0].args[1][1][0] != 'int': continue
        for b in body:
            t = f.blocks[b][-1]
            if t.op == 'br' and len(t.extra) == 2 and any(x not in body for x in t.extra) and t.args[0][1][0] == 'loc':
                c = [i for q in body for i in f.blocks[q] if i.res == t.args[0][1][1]]
                if c and c[0].op == 'icmp' and c[0].args[0][1] in (('loc', ph.res), ins[0]) and c[0].args[1][1][0] == 'int': return True
    return False
def reach(f, h):
    seen = set(); todo = [h]
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b); todo += ir.succs(f.blocks[b][-1])
    return seen
def livein(f, h):
    """values live at the start of block h (after its phi nodes), phi results of h included"""
    if not hasattr(f, 'live_'):
        use, dfn, pu = {}, {}, {}
        def coll(v, r, d):
            if v[0] == 'loc' and v[1] not in d: r.add(v[1])
            elif v[0] == 'vec':
                for x in v[1]: coll(x, r, d)
        for b, ins in f.blocks.items():
            u, d = set(), set(); use[b], dfn[b] = u, d
            for i in ins:
                if i.op == 'phi':
                    for v, l in i.args: coll(v, pu.setdefault((l, b), set()), ())
                else:
                    for a in i.args:
                        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple): coll(a[1], u, d)
                if i.res: d.add(i.res)
        phid = {b: {i.res for i in ins if i.op == 'phi'} for b, ins in f.blocks.items()}
        after = {b: set() for b in f.blocks}; ch = True      # live after the phi nodes of b
        while ch:
            ch = False
            for b in f.blocks:
                o = set()
                for q in ir.succs(f.blocks[b][-1]): o |= (after[q] - phid[q]) | pu.get((b, q), set())
                n = use[b] | (o - (dfn[b] - phid[b]))
                if not n <= after[b]: after[b] |= n; ch = True
        # use[b] excludes names defined earlier in b, so phi results of b used in b have to be added back
        for b, ins in f.blocks.items():
            u = set()
            for i in ins:
                if i.op != 'phi':
                    for a in i.args:
                        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple): coll(a[1], u, ())
            after[b] |= u & phid[b]
        f.live_ = after
    return f.live_[h]
def same(a, b):
    if a is b: return True
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and same(a.off, b.off)
    if type(a) is int and type(b) is int: return a == b
    if isinstance(a, BVRef) and isinstance(b, BVRef): return a.eq(b)
    if isinstance(a, Cat) and isinstance(b, Cat): return a.pw == b.pw and len(a.p) == len(b.p) and all(same(x, y) for x, y in zip(a.p, b.p))
    if isinstance(a, Lin) and isinstance(b, Lin): return a.m == b.m
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    return False
def hasdata(v):
    if isinstance(v, list): return any(hasdata(x) for x in v)
    if isinstance(v, Cat): return any(hasdata(x) for x in v.p)
    return isinstance(v, (Lin, Anf))
def flatbits(v, t):
    if t[0] == 'v':
        r = []
        for x in v: r += [None] * t[2][1] if x is UNDEF else bits(x, t[2][1])
        return r
    return bits(v, t[1])
class Redo(Exception): pass
class LoopProof:
    """kind 'crc': (data, len, init);  kind 'shift': (crc, n)"""
    def __init__(s, mod, fn, kind, deadline=300):
        s.mod = mod; s.f = ir.materialize(mod, mod.funcs[fn]); s.kind = kind; s.pr = Prover(); s.end = time.time() + deadline; s.classes = {}; s.measures = {}; s.dropped = set(); s.npaths = 0
    def newex(s):
        L = z3.BitVec('len', 64); h = CHooks(s.pr, L); h.nv = s.base_nv if hasattr(s, 'base_nv') else 0
        ex = Exec(s.mod, h); ex.deadline = s.end; return ex
    def base(s, ex):
        st = State(); h = ex.hooks
        if not hasattr(s, 'init'):
            s.init = [Lin(1 << (k + 1)) for k in range(32)]; h.nv = 32; s.base_nv = 32
        if s.kind == 'crc':
            L = h.L; st.pc = [z3.ULE(L, z3.BitVecVal(1 << 62, 64))]; st.mem['src'] = Data(h)
            args = [Ptr('src', 0), L, mkbits(s.init)]
        else: s.N = z3.BitVec('n', 32); args = [mkbits(s.init), s.N]
        ex.enter(st, s.f, args); return st
    def run(s):
        while True:
            try: return s.run1()
            except Redo: 
                if time.time() > s.end: raise Unsupported('time limit')
    # --- one attempt with the current classification of loop variables
    def run1(s):
        s.pr.n = 0; s.npaths = 0
        if s.kind == 'shift' : pass
        ex = s.newex(); st = s.base(ex); ex.explore([st]); s.entry = (ex, list(ex.hooks.arr), list(ex.done))
        s.heads = {}; s.values = {}; order = []
        todo = {}
        for blk, a in ex.hooks.arr: todo.setdefault(blk, []).append(a)
        while todo:
            blk = next(iter(todo)); arrs = todo.pop(blk)
            if blk in s.heads: continue
            s.make_head(blk, arrs, ex); order.append(blk)
            for b2, a in s.heads[blk]['arr']:
                if b2 not in s.heads: todo.setdefault(b2, []).append(a)
        for blk in order[::-1]: s.value_of(blk)
        # verification conditions
        for s.phase in (0, 1):
            for blk in [None] + order: s.check_paths(blk)
        return s.pr.n
    def rest(s, a, blk, phi):
        """what is left to do in arrival state a at cut blk"""
    def make_head(s, blk, arrs, exa):
        f = s.f; ex = s.newex(); h = ex.hooks; st = s.base(ex); fr = st.frames[-1]; a0 = arrs[0]; tm = ex.tymap(f)
        fr.blk = blk; fr.prev = None; phis = [i for i in f.blocks[blk] if i.op == 'phi']; fr.i = len(phis)
        names = {i.res: i.ty for i in phis}
        for n in livein(f, blk):
            if all(n in a.frames[-1].env for a in arrs):
                v = a0.frames[-1].env[n]
                if n in fr.env or (all(same(v, a.frames[-1].env[n]) for a in arrs) and not hasdata(v)): fr.env[n] = v
                else: names[n] = tm[n]
        for k in a0.mem:
            if k.startswith('a:'): st.mem[k] = Cells()
        H = dict(blk=blk, ex=ex, st=st, data={}, ctl={}, names=names); s.heads[blk] = H
        cl = s.classes.setdefault(blk, {})
        for n, t in names.items():
            vals = [a.frames[-1].env[n] for a in arrs]
            if n not in cl: cl[n] = 'data' if t[0] == 'v' or any(hasdata(v) for v in vals) else 'ptr' if t == ir.PTR else 'ctl'
            elif cl[n] != 'data' and any(hasdata(v) for v in vals): cl[n] = 'data'; raise Redo
        if s.kind == 'crc':
            ps = [n for n in names if cl[n] == 'ptr']
            if len(ps) < 1: raise Unsupported('no data pointer in the loop')
            R = z3.BitVec('rest', 64); L = h.L; H['R'] = R; H['pos'] = ps[0]
            st.pc += [z3.ULE(R, L)]; st.mem['src'] = Data(h, sub(L, R, 64))
        for n, t in names.items():
            c = cl[n]
            if c == 'data':
                w = t[1] if t[0] == 'i' else t[1] * t[2][1]; v = h.newvars(w); H['data'][n] = v
                fr.env[n] = mkbits(v) if t[0] == 'i' else [mkbits(v[k * t[2][1]:(k + 1) * t[2][1]]) for k in range(t[1])]
            elif c == 'ptr':
                offs = [s.relation(a, n, H, a0) for a in arrs]
                if any(o is None or o != offs[0] for o in offs): raise Unsupported('pointer in the loop')
                fr.env[n] = Ptr('src', add(sub(h.L, H['R'], 64), offs[0], 64)); H['ctl'][n] = ('ptr', offs[0])
            elif s.kind == 'crc' and t == ir.I64 and (blk, n, 'rel') not in s.dropped:
                offs = [s.relation(a, n, H, a0) for a in arrs]
                if any(o is None or o != offs[0] for o in offs): s.dropped.add((blk, n, 'rel')); raise Redo
                fr.env[n] = add(H['R'], offs[0], 64); H['ctl'][n] = ('rel', offs[0])
            else:
                fr.env[n] = ex.fresh(t[1], 'h' + n[1:]) if t[1] > 1 else ex.freshb('h'); H['ctl'][n] = ('free', None)
        # candidate facts
        H['cand'] = []
        if s.kind == 'crc':
            ad = ex.addr('src') + h.L - H['R']
            H['cand'] += [('align%d' % a, lambda g, ad_, a=a: ad_ & z3.BitVecVal(a - 1, 64) == 0) for a in (16, 32, 64)]
            ks = sorted({i.args[1][1][1] for b in f.blocks.values() for i in b if i.op == 'icmp' and i.args[0][0] == ir.I64 and i.args[1][1][0] == 'int' and i.args[1][1][1] < 1 << 20})
            for k in ks: H['cand'] += [('rest>%d' % k, lambda g, ad_, k=k: g > z3.BitVecVal(k, 64)), ('rest>=%d' % k, lambda g, ad_, k=k: g >= z3.BitVecVal(k, 64))]
            H['facts'] = [(n, fn) for n, fn in H['cand'] if (blk, n) not in s.dropped]
            for n, fn in H['facts']: st.pc.append(fn(H['R'], ad))
        else:
            free = [n for n in names if cl[n] == 'ctl' and names[n] == ir.I32]
            ms = [('id', n) for n in free] + [('shl', n, p) for n in free for p in free if n != p]
            if not ms: raise Unsupported('no loop counter')
            H['meas'] = ms[s.measures.setdefault(blk, 0)] if s.measures.setdefault(blk, 0) < len(ms) else None
            if H['meas'] is None: raise Unsupported('no loop counter')
            H['nmeas'] = len(ms); H['R'] = s.measure(H['meas'], fr.env)
            H['cand'] = [('nz:' + n, lambda e, n=n: bv(e[n], 32) != 0) for n in free] + [('m31:' + n, lambda e, n=n: bv(e[n], 32) & z3.BitVecVal(31, 32) == 0) for n in free] + [('le32:' + n, lambda e, n=n: z3.ULE(bv(e[n], 32), z3.BitVecVal(32, 32))) for n in free] + \
                [('fit:%s:%s' % (n, p), lambda e, n=n, p=p: z3.LShR(bv(e[n], 32) << bv(e[p], 32), bv(e[p], 32)) == bv(e[n], 32)) for n in free for p in free if n != p] + [('rz:%s:%s' % (n, p), lambda e, n=n, p=p: z3.Or(bv(e[n], 32) == 0, z3.ULT(bv(e[p], 32), z3.BitVecVal(32, 32)))) for n in free for p in free if n != p]
            H['facts'] = [(n, fn) for n, fn in H['cand'] if (blk, n) not in s.dropped]
            for n, fn in H['facts']: st.pc.append(fn(fr.env))
        H['nv0'] = h.nv; H['st0'] = st.clone()
        ex.explore([st]); H['arr'] = list(h.arr); H['done'] = list(ex.done)
        s.npaths += len(H['arr']) + len(H['done'])
        for b2, a in H['arr']:
            if b2 == blk:
                for n in names:
                    if cl[n] in ('ctl',) and hasdata(a.frames[-1].env[n]): cl[n] = 'data'; raise Redo
    def measure(s, m, env):
        n = bv(env[m[1]], 32); return n if m[0] == 'id' else n << bv(env[m[2]], 32)
    def relation(s, a, n, H, a0):
        """constant c with value(n) == rest + c (or offset == len - rest + c)"""
        e = a.frames[-1].env; L = z3.BitVec('len', 64); p = e[H['pos']]
        if not isinstance(p, Ptr) or p.obj != 'src': return None
        if isinstance(e[n], Ptr): return a.diff(e[n].off, p.off) if e[n].obj == 'src' else None
        return a.diff(e[n], sub(L, p.off, 64))
    def value_of(s, blk):
        """the value of the loop state: what the code returns from here when nothing is left"""
        H = s.heads[blk]; ex = s.newex(); ex.hooks.nv = H['nv0']; st = H['st0'].clone(); h = ex.hooks
        st.mem = dict(st.mem)
        if s.kind == 'crc': st.mem['src'] = Data(h, sub(h.L, H['R'], 64))
        st.assume(H['R'] == z3.BitVecVal(0, H['R'].size()))
        if INC.check(st.pc) == z3.unsat:
            bad = [n for n, fn in H['facts'] if INC.check([fn(st.frames[-1].env) if s.kind == 'shift' else fn(H['R'], ex.addr('src') + ex.hooks.L - H['R']), H['R'] == z3.BitVecVal(0, H['R'].size())]) == z3.unsat]
            if bad: s.dropped |= {(blk, n) for n in bad}; raise Redo
            raise Unsupported('the loop is never left with nothing remaining')
        h.through = True; ex.explore([st])
        if h.defs: raise Unsupported('shift on the exit path')
        if ex.done:
            r = bits(ex.done[0].ret, 32); H['F'] = s.form(r); return
        raise Unsupported('no exit path')
    def form(s, r):
        if all(mask(b) is not None for b in r): return ('lin', [mask(b) ^ (1 if s.kind == 'crc' else 0) for b in r])
        if s.kind == 'crc': raise Unsupported('the result is not linear in the data')
        return ('quad', Quad.of(r))
    # --- checking
    def check_paths(s, blk):
        if blk is None: ex, arr, done = s.entry; H = None
        else: H = s.heads[blk]; ex, arr, done = H['ex'], H['arr'], H['done']
        if s.phase:
            for x in done: s.wsplit(ex, x, lambda y: s.check_ret(ex, H, y))
        for b2, x in arr: s.wsplit(ex, x, lambda y: s.check_arrival(ex, H, b2, y))
    def wsplit(s, ex, st, fn):
        try: return fn(st)
        except Split as e:
            for x in ex.split(st.clone(), e): s.wsplit(ex, x, fn)
    def src_rest(s, H):
        if H is None: return z3.BitVec('len', 64) if s.kind == 'crc' else s.N
        return H['R']
    def src_value(s, H):
        if H is None: return ('lin', [(1 << (k + 1)) ^ (1 if s.kind == 'crc' else 0) for k in range(32)])
        return H['F']
    def where(s, H): return 'from the start' if H is None else 'from the loop head %s' % H['blk']
    def check_ret(s, ex, H, st):
        if s.kind == 'crc':
            k = ex.concretize(st, s.src_rest(H)); s.crc_identity(ex, H, st, k, [mask(b) for b in bits(st.ret, 32)], 'returned value with %d bytes left' % k)
        else: s.shift_identity(ex, H, st, s.src_rest(H), ('val', bits(st.ret, 32)), 'returned value')
    def crc_identity(s, ex, H, st, k, res, what, flip=1):
        kind, reg = s.src_value(H); s.pr.n += 1
        if any(b is None for b in res): raise Unsupported('the result is not linear in the data')
        d = st.mem['src']
        if k > 4096: raise Unsupported('too many bytes')
        for j in range(k): reg = step_byte(reg, [mask(b) for b in d.byte(j)])
        if [m ^ flip for m in res] != reg:
            raise Fail('%s %s is not the CRC of the data' % (what, s.where(H)), s.model(st))
    def model(s, st):
        so = z3.SolverFor('QF_BV'); so.add(*st.pc)
        return so.model() if so.check() == z3.sat else None
    def check_arrival(s, ex, H, b2, st):
        T = s.heads[b2]; env = st.frames[-1].env; cl = s.classes[b2]
        if s.kind == 'crc':
            p = env[T['pos']]
            if not isinstance(p, Ptr) or p.obj != 'src': raise Unsupported('data pointer')
            R2 = sub(ex.hooks.L, p.off, 64); k = ex.concretize(st, sub(s.src_rest(H), R2, 64)); k = sgn(k, 64)
            if k < 0: raise Unsupported('the data pointer moves back')
            s.pr.require(st.pc, z3.And(z3.ULE(bv(R2, 64), ex.hooks.L)), 'the data pointer leaves the buffer')
            if H is not None and H['blk'] == b2 and k == 0: raise Unsupported('no progress')
            for n, (c, o) in T['ctl'].items():
                if c == 'ptr' and st.diff(env[n].off, p.off) != o: raise Unsupported('pointer relation')
                if c == 'rel' and st.diff(env[n], R2) != o:
                    s.dropped.add((b2, n, 'rel')); raise Redo
            ad = ex.addr('src') + bv(p.off, 64)
            s.houdini(b2, T, st, lambda fn: fn(bv(R2, 64), ad))
        else:
            s.houdini(b2, T, st, lambda fn: fn(env))
        if not s.phase: return
        forms = {}
        for n, v in T['data'].items():
            bs = flatbits(env[n], T['names'][n])
            for q, b in zip(v, bs):
                m = None if b is None else mask(b)
                forms[q.m.bit_length() - 2] = m
        if s.kind == 'crc':
            res = [s.subst(m, forms) ^ 1 for m in T['F'][1]]
            s.crc_identity(ex, H, st, k, res, 'state at the loop head %s' % b2)
        else:
            R2 = s.measure(T['meas'], env); D = sub(s.src_rest(H), R2, 32)
            try: s.shift_identity(ex, H, st, D, ('form', T['F'], forms), 'state at the loop head %s' % b2)
            except (Fail, Unsupported):
                if T['nmeas'] > s.measures[b2] + 1: s.measures[b2] += 1; raise Redo
                raise
    def houdini(s, b2, T, st, inst):
        drop = False
        for n, fn in T['facts']:
            if not s.pr.valid(st.pc, inst(fn)): s.dropped.add((b2, n)); drop = True
        if drop: raise Redo
    def subst(s, m, forms):
        r = m & 1; m >>= 1; j = 0
        while m:
            if m & 1:
                f = forms.get(j)
                if f is None: raise Unsupported('undefined value used')
                r ^= f
            m >>= 1; j += 1
        return r
    # shift: target value == source value * x^D, D possibly depending on deferred shift counts
    def shift_identity(s, ex, H, st, D, target, what):
        defs = ex.hooks.defs; s.pr.n += 1
        c, d = st.lin(D, 32); Dt = bv(D, 32)
        if not d: return s.shift_check(ex, H, st, c, {}, target, what)
        if Dt.get_id() in st.eqs: return s.shift_check(ex, H, st, st.eqs[Dt.get_id()][1], {}, target, what)
        # deferred shifts used by the target
        used = [df for df in defs if s.uses(target, df)]
        if len({df[2].get_id() for df in used}) > 1: raise Unsupported('several symbolic shifts')
        if used:
            t = used[0][2]; t32 = bv(ext(t, 0, 32, t.size()), 32) if t.size() > 32 else t
            so = z3.SolverFor('QF_BV'); so.add(*st.pc)
            if so.check() != z3.sat: return
            c = so.model().eval(bv(D, 32) - t32, model_completion=True).as_long()
            if s.pr.valid(st.pc, bv(D, 32) - t32 == z3.BitVecVal(c, 32)):
                ref = s.__dict__.setdefault('refs', {}).setdefault((id(ex), t.get_id()), [])
                g = s.got_form(target, {})
                for g0, c0, vs0 in ref:
                    # value == x^(c-c0) * a value already checked for every shift count the path condition allows
                    if s.scaled(g0, g, (c - c0) % ORDER) and s.within(ex, st, t, vs0): return
                vs = ex.values(st, t, t.size()); ref.append((g, c, set(vs)))
                for v in vs:
                    s.shift_check(ex, H, st, (c + v) & 0xffffffff, {v2: b for df in used for v2, b in zip([q.m.bit_length() - 2 for q in df[0]], bits(shift(df[3], df[1], v, df[4]), df[4]))}, target, what)
                return
        raise Split(Dt, 32)
    def uses(s, target, df):
        lo = df[0][0].m; M = sum(q.m for q in df[0])
        if target[0] == 'val':
            for b in target[1]:
                if isinstance(b, Lin) and b.m & M: return True
                if isinstance(b, Anf) and any(M >> (v + 1) & 1 for p in b.m for v in p): return True
            return False
        return any(m is not None and m & M for m in target[2].values())
    def expand(s, q, allv):
        k = (id(q), tuple(allv)); d = s.__dict__.setdefault('exp', {})
        if k not in d: ix = {v: n for n, v in enumerate(allv)}; d[k] = (q, q.subst({v: 1 << (ix[v] + 1) for v in q.vs}, len(allv)))
        return d[k][1]
    def within(s, ex, st, t, vs):
        k = (t.get_id(), len(vs)); d = s.__dict__.setdefault('always', {})
        if k not in d: d[k] = (t, s.pr.valid([], z3.Or([t == z3.BitVecVal(v, t.size()) for v in vs])))
        return d[k][1] or set(ex.values(st, t, t.size())) <= vs
    def got_form(s, target, sb):
        if target[0] == 'val': q = Quad.of(target[1]); fm = {v: 1 << (v + 1) for v in q.vs}
        else:
            F = target[1]; q = F[1] if F[0] == 'quad' else Quad.of([Lin(m) if m > 1 else bool(m) for m in F[1]]); fm = target[2]
        if any(fm.get(v) is None for v in q.vs): raise Unsupported('undefined value used')
        allv = sorted({j for v in q.vs for j in vars_of(fm[v])}); ix = {v: k for k, v in enumerate(allv)}
        ren = lambda m: (m & 1) | sum(1 << (ix[j] + 1) for j in vars_of(m))
        return tuple(allv), q.subst({v: ren(fm[v]) for v in q.vs}, len(allv))
    def scaled(s, a, b, D):
        if a[0] != b[0]: return False
        C = mulmat(xpow(D)); M = np.array([[C[i] >> k & 1 for i in range(32)] for k in range(32)], np.float32)
        return np.array_equal((M @ a[1].reshape(32, -1).astype(np.float32)) % 2, b[1].reshape(32, -1))
    def shift_check(s, ex, H, st, D, sub_, target, what):
        s.pr.n += 1
        nv = ex.hooks.nv
        def sb(m):
            """replace deferred variables"""
            if m is None: return None
            r = m
            for v, b in sub_.items():
                if r >> (v + 1) & 1: r ^= 1 << (v + 1); r ^= mask(b)
            return r
        C = mulmat(xpow(D)); sv = s.src_value(H)
        if target[0] == 'form': F, forms = target[1], {v: sb(m) for v, m in target[2].items()}
        ok = None
        if sv[0] == 'lin' and (target[0] == 'val' and all(mask(b) is not None for b in target[1]) or target[0] == 'form' and F[0] == 'lin'):
            got = [sb(mask(b)) for b in target[1]] if target[0] == 'val' else [s.subst(m, forms) for m in F[1]]
            ok = got == matvec(C, sv[1])
        else:
            if target[0] == 'val': tq = Quad.of(target[1]); fm = {v: sb(1 << (v + 1)) for v in tq.vs}
            else:
                tq = F[1] if F[0] == 'quad' else Quad.of([Lin(m) if m > 1 else bool(m) for m in F[1]]); fm = forms
            sq = sv[1] if sv[0] == 'quad' else Quad.of([Lin(m) if m > 1 else bool(m) for m in sv[1]])
            if any(fm.get(v) is None for v in tq.vs): raise Unsupported('undefined value used')
            # variables that occur
            allv = sorted(set(sq.vs) | {j for v in tq.vs for j in vars_of(fm[v])}); ix = {v: k for k, v in enumerate(allv)}
            ren = lambda m: (m & 1) | sum(1 << (ix[j] + 1) for j in vars_of(m))
            got = tq.subst({v: ren(fm[v]) for v in tq.vs}, len(allv)); src = s.expand(sq, allv)
            M = np.array([[C[i] >> k & 1 for i in range(32)] for k in range(32)], np.float32)
            ok = np.array_equal(got.reshape(32, -1), (M @ src.reshape(32, -1).astype(np.float32)) % 2)
        if not ok: raise Fail('%s %s is not the value multiplied by x^%d' % (what, s.where(H), D), s.model(st))
def vars_of(m):
    m >>= 1; j = 0; r = []
    while m:
        if m & 1: r.append(j)
        m >>= 1; j += 1
    return r
# ------------------------------------------------------------ functions without symbolic loops
def prove_mul(mod, fn):
    pr = Prover(); h = CHooks(pr); ex = Exec(mod, h); f = mod.funcs[fn]; a, b = h.newvars(32), h.newvars(32); st = State(); ex.enter(st, f, [mkbits(a), mkbits(b)]); ex.explore([st])
    if h.arr: raise Unsupported('loop without a constant trip count')
    want = [set() for _ in range(32)]
    for i in range(32):
        for j in range(32):
            v = xpow(62 - i - j)
            for k in range(32):
                if v >> k & 1: want[k].add(frozenset([i, 32 + j]))
    if not ex.done: raise Unsupported('no return')
    for x in ex.done:
        for k, q in enumerate(bits(x.ret, 32)):
            pr.n += 1
            got = anf(q)
            if got != want[k]: raise Fail('bit %d of the product differs from multiplication in the field' % k)
    return pr.n
def prove_loop(mod, fn, kind): return LoopProof(mod, fn, kind).run()
# ------------------------------------------------------------ finding the functions
NOROT = ('-mllvm', '-rotation-max-header-size=0')
def functions():
    """[(unit, variable, function)]: every function the CRC function pointers can hold"""
    r = []
    for u in ('crc.cc', 'crc_folding.cc', 'crc_folding_256.cc'):
        tx = build.llvm_ir(u, NOROT)
        for g in ('_do_crc32_incremental', '_crc32_multiply', '_crc32_shift'):
            for m in re.finditer(r'store ptr @([\w.$]+), ptr @_ZN9RapidYenc\d+%sE\b' % g, tx): r.append((u, g, m.group(1)))
            m = re.search(r'(?m)^@_ZN9RapidYenc\d+%sE = [^\n]*global ptr @([\w.$]+)' % g, tx)
            if m: r.append((u, g, m.group(1)))
    return r
def obligation(name, fns, fn, *args):
    t = time.time(); o = dict(name=name, functions=fns, backend='GF(2) form identities + z3 (QF_BV)')
    try: n = fn(*args); o.update(status='proved', count=n)
    except Fail as e: o.update(status='refuted', count=1, detail='%s; path model %s' % (e.what, str(e.model)[:400]))
    except OutOfBounds as e: o.update(status='refuted', count=1, detail=str(e))
    except Unknown as e: o.update(status='unknown', count=1, detail=str(e))
    except (Unsupported, KeyError, AttributeError, TypeError, z3.Z3Exception, RecursionError, IndexError) as e: o.update(status='unsupported', count=1, detail=('%s: ' % type(e).__name__) + str(e) + ('' if isinstance(e, Unsupported) else traceback.format_exc()[-600:]))
    o['time'] = time.time() - t; return [o]
def task(u, g, fn):
    mod = ir.parse(build.llvm_ir(u, NOROT)); nm = {'_do_crc32_incremental': 'CRC', '_crc32_multiply': 'MUL', '_crc32_shift': 'SHIFT'}[g]
    name = '%s: %s %s' % (nm, u, fn)
    if g == '_crc32_multiply': return obligation(name, [fn], prove_mul, mod, fn)
    return obligation(name, [fn], prove_loop, mod, fn, 'crc' if nm == 'CRC' else 'shift')
def tasks(arg, tier):
    sel = set(arg.split()); out = []
    for u, g, fn in functions():
        k = {'_do_crc32_incremental': 'crc', '_crc32_multiply': 'mul', '_crc32_shift': 'shift'}[g]
        if k in sel and not (k == 'crc' and u == 'crc.cc'): out.append(('%s %s' % (u, g), task, (u, g, fn)))
    return out
if __name__ == '__main__':
    for n, f, a in tasks(' '.join(sys.argv[1:]) or 'crc mul shift', 'quick'):
        for o in f(*a): print(o)

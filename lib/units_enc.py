"""Contracts and proofs for the encoder (E01..E04).
Contract ENC of every encode function (line, *col, src, dest, len, doEnd), 1 <= line < 2^31, 0 <= *col < line, 1 <= len <= 2^62: the bytes written to dest
are the fold of the source bytes through the encoder specification `enc_steps`, followed (doEnd) by the escaping of a trailing space or tab; the
result is their number; every load lies in the source (or on a byte of dest written before), every store ends at or below
w + 2*(bytes still to be encoded) + 64, w being the output position (lemma SPACE turns this into the size the binding reserves).
Contract KERN of the vector kernels (line, *col, srcEnd, *dest, *len), line >= 12: some prefix of the source is encoded, *col, *dest and *len
are moved accordingly."""
import time, re, z3
import build
from irv import ir
from irv.ir import Unsupported
from irv.val import *
from irv.sym import *
from irv.inc import INC
from units_dec import Fail, Unknown, Prover, NeedChoice, distance, same, cell_ptr, ir_loops
MIDC = (214, 224, 227, 19)          # NUL, LF, CR and '=' minus 42
LASTC = (223, 246)                  # tab and space
FIRSTC = LASTC + (4,)               # and '.'
N32 = z3.BitVec('N', 32)
def anyb(b, l): return z3.Or(*[bv(b, 8) == v for v in l])
def B64(v): return z3.BitVecVal(v, 64)
def base_pc(L): return [z3.ULE(L, B64(1 << 62)), z3.UGE(L, B64(1)), N32 >= 1]
def col_ok(col): return z3.And(bv(col, 32) >= 0, z3.Or(bv(col, 32) <= N32, z3.And(N32 == 1, bv(col, 32) == 2)))
def one_step(ex, st):
    """alternatives of encoding the byte at the ghost cursor: [(state, emitted bytes)]"""
    b = st.mem['src'].byte(st, st.g['c']); out = []
    todo = []
    col = st.g['col']; pend = icmp('sge', col, N32, 32)
    for cond, cr in ((pend, True), (bnot(pend), False)):
        if cond is False or cond is not True and not ex.sat(st, cond): continue
        y = st.clone(); y.assume(cond)
        if cr: y.g['col'] = 0; y.g['nl'] += 1
        todo.append((y, [13, 10] if cr else []))
    for y, em in todo:
        col = y.g['col']; first = icmp('eq', col, 0, 32); last = icmp('eq', col, sub(N32, 1, 32), 32); rest = []
        for kind, cond, chars in (('first', first, MIDC + FIRSTC), ('last', last, MIDC + LASTC), ('mid', True, MIDC)):
            for r in rest: cond = band(cond, r)
            if kind != 'mid': rest = rest + [bnot(first if kind == 'first' else last)]
            if cond is False or cond is not True and not ex.sat(y, cond): continue
            z = y.clone(); z.assume(cond); esc = anyb(b, chars)
            for val, e in ((True, esc), (False, z3.Not(esc))):
                if not ex.sat(z, e): continue
                x = z.clone(); x.assume(e); n = 2 if val else 1
                x.g['col'] = N32 if kind == 'last' else add(col, n, 32)
                x.g['c'] = add(x.g['c'], 1, 64)
                e2 = em + ([61, b + 106] if val else [b + 42])
                x.g['lastb'] = e2[-1]; out.append((x, e2))
    return out
def enc_steps(ex, st, k):
    todo = [(st, [])]
    for j in range(k): todo = [(z, em + e2) for y, em in todo for z, e2 in one_step(ex, y)]
    return todo
class EncLog(Log):
    """the output buffer: stores since the last cut; the byte before the ghost output position is known at a cut"""
    def store(s, ex, st, off, t, v):
        n = ir.sizeof(ex.mod, t); g = st.g; pr = ex.hooks.pr
        # every store lies within the space the contract allows
        rest = (g['L'] - bv(g['c'], 64)) * 2 + 64; k = st.diff(off, g['w'])
        if k is not None:
            if k < -1: raise Fail('a store before the output position')
            if k + n > 64: pr.require(st.pc, z3.UGE(rest, B64(k + n)), 'a store beyond the space required for the output')
        else:
            d = bv(sub(off, g['w'], 64), 64)
            pr.require(st.pc, z3.And(z3.ULE(d, B64(1 << 63)), z3.ULE(d + n, rest)), 'a store beyond the space required for the output')
        return EncLog(s.log + ((off, t, v),))
    def load(s, ex, st, off, t):
        n = ir.sizeof(ex.mod, t); out = []
        for k in range(n):
            o = add(off, k, 64)
            for o2, t2, v2 in reversed(s.log):
                m = ir.sizeof(ex.mod, t2); d = st.diff(o, o2)
                if d is None: raise Unsupported('load from the output at an unrelated position')
                if 0 <= d < m: out.append(ext(v2, 8 * d, 8, 8 * m) if t2[0] == 'i' else v2[d]); break
            else:
                if st.diff(o, st.g['w']) != -1: raise Unsupported('load from the output buffer')
                ex.hooks.pr.require(st.pc, z3.UGE(bv(st.g['c'], 64), B64(1)), 'a load before the output buffer'); out.append(st.g['lastb'])
        return ex.unflat(cat(out, 8), 8 * n, t)
def emits(pr, st, em, wend, fix=None, final=False):
    """the stores since the last cut write exactly the bytes em at the output position, which advances over them (bytes beyond are scratch)"""
    w = st.g['w']; cells = {}
    m = distance(pr, st, wend, w, 'output position')
    if m != len(em): raise Fail('%d bytes were output where the specification outputs %d' % (m, len(em)))
    for off, t, v in st.mem['dest'].log:
        n = ir.sizeof(None, t); d = distance(pr, st, off, w, 'store at a position unrelated to the output position')
        for k in range(n): cells[d + k] = ext(v, 8 * k, 8, 8 * n) if t[0] == 'i' else v[k]
    want = dict(enumerate(em))
    if fix is not None: want[-1] = fix
    for k in sorted(cells):
        if k < 0 and k not in want: pr.require(st.pc, z3.BoolVal(False) if k < -1 else icmp('eq', cells[k], st.g['lastb0'], 8), 'a store before the output position')
    for k, e in want.items():
        if k not in cells: raise Fail('an output byte was not written')
        if cells[k] is UNDEF: raise Fail('an output byte is undefined')
        pr.require(st.pc, icmp('eq', cells[k], e, 8), 'output byte differs from the specification')
    st.g['w'] = wend; st.mem['dest'] = EncLog(); st.g['lastb0'] = st.g['lastb']
_tabs = {}
def table_value(b, data, off, stride, n):
    """the n bytes at off + stride*b of a constant table as functions of the byte b"""
    out = []
    for j in range(n):
        col = [data[off + stride * v + j] for v in range(256)]
        cnt = {}
        for v in range(256):
            cnt[('c', col[v])] = cnt.get(('c', col[v]), 0) + 1; q = ('a', (col[v] - v) & 255); cnt[q] = cnt.get(q, 0) + 1
        kind, k = max(cnt, key=lambda q: cnt[q]); r = k if kind == 'c' else b + k if k else b
        exc = {}
        for v in range(256):
            if col[v] != (k if kind == 'c' else (v + k) & 255): exc.setdefault(col[v], []).append(v)
        for c, vs in sorted(exc.items()):
            a = [v for v in vs]; adds = {(c - v) & 255 for v in a}
            r = z3.If(anyb(b, a), z3.BitVecVal(c, 8), bv(r, 8))
        out.append(r)
    return out
class EncHooks(Hooks):
    fork_bool = True
    def __init__(s, pr, glob, kernel=None): s.pr = pr; s.arr = []; s.glob = glob; s.kernel = kernel
    def header(s, ex, st, f, blk):
        if blk in ir_loops(f): s.arr.append(st); return True
        return False
    def alloca(s, ex, st, i): return Cells()
    def global_obj(s, ex, st, name):
        if name in s.glob: return Const(name, s.glob[name])
    def table_load(s, ex, st, obj, off, t):
        c, d = st.lin(off)
        if len(d) != 1: raise Unsupported('symbolic index into ' + obj.name)
        x, q = list(d.values())[0]; k = x.decl().kind()
        if k == z3.Z3_OP_ZERO_EXT and x.arg(0).size() == 8: b = x.arg(0)
        else: raise Unsupported('symbolic index into ' + obj.name)
        n = ir.sizeof(ex.mod, t); q = sgn(q, 64); c = sgn(c, 64)
        if q <= 0 or c < 0 or c + 255 * q + n > len(obj.data): raise OutOfBounds('a read outside the constant ' + obj.name)
        key = (obj.name, b.get_id(), c, q, n)
        if key not in _tabs: _tabs[key] = (b, table_value(b, obj.data, c, q, n))
        return ex.unflat(cat(_tabs[key][1], 8), 8 * n, t)
    def call(s, ex, st, name, args, inst):
        if name.startswith('llvm.memcpy'): return s.memcpy(ex, st, args)
        if name == s.kernel: return s.kern(ex, st, args)
        if name in DELEGATE:     # another encode function: by its contract
            g = st.g
            if g['w'] != 0 or g['c'] != 0 or st.mem['dest'].log: raise Unsupported('encode function called in the middle')
            line, colp, src, dest, ln, de = args
            ok = [icmp('eq', line, N32, 32), icmp('eq', ln, g['L'], 64), icmp('eq', de, g['doEnd'], 32)]
            for o in ok: s.pr.require(st.pc, o, 'the encode function is called with other arguments')
            for p, o in ((colp, 'colp'), (src, 'src'), (dest, 'dest')):
                if not isinstance(p, Ptr) or p.obj != o or st.diff(p.off, 0) != 0: raise Fail('the encode function is called with other arguments')
            s.pr.require(st.pc, GENPRE, 'the encode function is called outside its precondition')
            s.pr.require(st.pc, icmp('eq', st.mem['colp'].d[0][1], g['col'], 32), 'the encode function is called with another column')
            r = ex.fresh(64, 'r'); st.g['delegated'] = r; return ('val', r)
        return None
    def memcpy(s, ex, st, args):
        d, sr, n = args[0], args[1], args[2]
        if type(n) is not int or n > 8: raise Unsupported('memcpy')
        for k in range(n): ex.store(st, Ptr(d.obj, add(d.off, k, 64)), ir.I8, ex.load(st, Ptr(sr.obj, add(sr.off, k, 64)), ir.I8))
        return 'void'
    def kern(s, ex, st, args):
        """callee contract KERN"""
        g = st.g; line, colp, es, dp, lp = args; pr = s.pr
        pr.require(st.pc, icmp('eq', line, N32, 32), 'kernel called with another line length')
        pr.require(st.pc, N32 >= 12, 'kernel called with a short line')
        if not isinstance(colp, Ptr) or colp.obj != 'colp' or st.diff(colp.off, 0) != 0: raise Fail('kernel called with another column pointer')
        if st.mem['dest'].log: raise Unsupported('output before the kernel')
        c0 = st.mem['colp'].d[0][1]
        pr.require(st.pc, icmp('eq', c0, g['col'], 32), 'kernel called with another column')
        pr.require(st.pc, z3.And(bv(c0, 32) >= 0, bv(c0, 32) < N32), 'kernel called with a column outside the line')
        if not isinstance(es, Ptr) or es.obj != 'src': raise Fail('kernel called with another source')
        pr.require(st.pc, icmp('eq', es.off, g['L'], 64), 'kernel called with another source end')
        dv = ex.load(st, dp, ir.PTR); lv = ex.load(st, lp, ir.I64)
        if not isinstance(dv, Ptr) or dv.obj != 'dest': raise Fail('kernel called with another destination')
        pr.require(st.pc, icmp('eq', dv.off, g['w'], 64), 'kernel called with another output position')
        pr.require(st.pc, icmp('eq', lv, sub(g['L'], g['c'], 64), 64), 'kernel called with another length')
        c, w, col = ex.fresh(64, 'c'), ex.fresh(64, 'w'), ex.fresh(32, 'col'); lb = ex.fresh(8, 'lastb')
        st.assume(z3.And(z3.ULE(bv(g['c'], 64), c), z3.ULE(c, g['L']), z3.Or(c != 0, w == 0))); st.assume(col_ok(col))
        st.assume(z3.Implies(c == bv(g['c'], 64), z3.And(w == bv(g['w'], 64), bv(col, 32) == bv(g['col'], 32))))
        st.assume(z3.ULE(w, B64(1 << 63)))
        g.update(c=c, w=w, col=col, lastb=lb, lastb0=lb)
        st.mem['colp'] = Cells({0: (ir.I32, col)}); ex.store(st, dp, ir.PTR, Ptr('dest', w)); ex.store(st, lp, ir.I64, sub(g['L'], c, 64))
        return 'void'
GENERIC = '_ZN9RapidYenc17do_encode_genericEiPiPKhPhmi'
DELEGATE = set(); DEBUG = False
def entry_state():
    st = State(); L = z3.BitVec('len', 64); de = z3.BitVec('doEnd', 32); c0 = z3.BitVec('col0', 32)
    st.pc = base_pc(L) + [c0 >= 0, c0 < N32]
    def chk(ex, st, off, n, kind): ex.hooks.pr.require(st.pc, z3.And(z3.ULE(bv(add(off, n, 64), 64), L), z3.ULT(bv(off, 64), L)), 'read outside the source')
    st.mem['src'] = Bytes('src', chk); st.mem['dest'] = EncLog(); cell_ptr(st, 'colp', ir.I32, c0)
    lb = z3.BitVec('lastb0', 8)
    st.g = dict(c=0, w=0, col=c0, lastb=lb, lastb0=lb, L=L, doEnd=de, nl=0, keys={}, delegated=None)
    return st, [N32, Ptr('colp', 0), Ptr('src', 0), Ptr('dest', 0), L, de]
def post(ex, pr, st, L):
    """postcondition of ENC at a return"""
    if st.ret is UNDEF:
        if INC.check(st.pc) == z3.unsat: return
        raise Fail('the result is undefined')
    if st.g['delegated'] is not None:
        pr.require(st.pc, icmp('eq', st.ret, st.g['delegated'], 64), 'the result of the encode function is not returned'); return
    k = distance(pr, st, L, st.g['c'], 'source end position')
    if k < 0: raise Fail('more than the input was encoded')
    for y, em in enc_steps(ex, st, k):
        de = icmp('ne', y.g['doEnd'], 0, 32); last = y.g['lastb']; sp = z3.Or(bv(last, 8) == 9, bv(last, 8) == 32)
        for cond, fixed in ((band(de, sp), True), (bnot(band(de, sp)), False)):
            if cond is False or cond is not True and not ex.sat(y, cond): continue
            z = y.clone(); z.assume(cond)
            if not fixed: emits(pr, z, em, z.ret, final=True)
            elif em: emits(pr, z, em[:-1] + [61, bv(last, 8) + 64], z.ret, final=True)
            else: emits(pr, z, [bv(last, 8) + 64], z.ret, fix=61, final=True)
def consts(f):
    """the small constants the function compares with (and their neighbours): candidates for bounds"""
    r = {0, 1, 2, 3}; q = {1, 2, 3}
    for b in f.blocks.values():
        for i in b:
            if i.op == 'icmp' and i.args[0][0] in (ir.I32, ir.I64):
                for t, v in i.args:
                    if v[0] == 'int':
                        k = abs(sgn(v[1], t[1]))
                        if k <= 300: (r if t == ir.I64 else q).update((k, k + 1))
    return sorted(r), sorted(q)
def facts(K):
    F = []
    def col(f): return lambda st, L: f(bv(st.g['col'], 32))
    def pos(f): return lambda st, L: f(bv(st.g['c'], 64), L)
    F += [('col=0', col(lambda c: c == 0)), ('col>=1', col(lambda c: c >= 1)), ('col<N', col(lambda c: c < N32)), ('col<N-1', col(lambda c: c < N32 - 1)), ('col>=1 or end', lambda st, L: z3.Or(bv(st.g['col'], 32) >= 1, bv(st.g['c'], 64) == L)), ('col>=N-1', col(lambda c: c >= N32 - 1)), ('col ok', col(col_ok))]
    for k in K[1]:
        if k > 1: F.append(('col<N-%d' % k, lambda st, L, k=k: z3.And(N32 > k, bv(st.g['col'], 32) < N32 - k)))
    for k in K[0]: F.append(('pos<=len-%d' % k, pos(lambda c, L, k=k: z3.And(z3.UGE(L, B64(k)), z3.ULE(c, L - k)))))
    F += [('pos>=1', pos(lambda c, L: z3.UGE(c, B64(1)))), ('out<=2^63', lambda st, L: z3.ULE(bv(st.g['w'], 64), B64(1 << 63)))]
    for k in (2, 3, 12, 16): F.append(('N>=%d' % k, lambda st, L, k=k: N32 >= k))
    return F
def rank(n):
    """(family, strength): within a family a stronger fact implies the weaker ones"""
    for p in ('col<N-', 'pos<=len-', 'N>='):
        if n.startswith(p): return p, int(n[len(p):])
    return ('col<N-', 0) if n == 'col<N' else (n, 0)
class ELoops:
    """inductive invariants at all cut points; choice: cut point -> (register tracking the source, kind, register tracking the output)"""
    def __init__(s, ex, hooks, pr, L, info, choice, K, pre=()): s.pre = list(pre); s.ex, s.hooks, s.pr, s.L, s.info, s.choice = ex, hooks, pr, L, info, choice; s.base = {}; s.inv = {}; s.pending = []; s.K = consts(K)
    def slots(s, st):
        """loop-carried values: phis and the cells of locals and out parameters: [(name, type, value)]"""
        fr = st.frames[-1]; r = [(ph.res, ph.ty, fr.env[ph.res]) for ph in fr.f.blocks[fr.blk] if ph.op == 'phi']
        for o in sorted(k for k, m in st.mem.items() if isinstance(m, Cells)):
            for off, (t, v) in sorted(st.mem[o].d.items()): r.append((('mem', o, off), t, v))
        return r
    def setslot(s, st, n, t, v):
        if isinstance(n, tuple): st.mem[n[1]] = Cells(dict(st.mem[n[1]].d, **{})); st.mem[n[1]].d[n[2]] = (t, v)
        else: st.frames[-1].env[n] = v
    def cands(s, st):
        sl = s.slots(st); cur = []; outs = []
        for n, t, v in sl:
            if isinstance(v, Ptr) and v.obj == 'src': cur.append((n, 0, True))
            elif t == ir.I64: cur += [(n, neg(s.L, 64), False), (n, 0, False)]
            if isinstance(v, Ptr) and v.obj == 'dest': outs.insert(0, n)
            elif t == ir.I64: outs.append(n)
        r = []
        for c in cur:
            for o in outs:
                if o == c[0]: continue
                try: s.sync(st.clone(), (c, o)); r.append((c, o))
                except (Fail, Unsupported) as e:
                    if DEBUG: print('cand', st.frames[-1].blk, c, o, e, getattr(e, 'what', ''))
        return r
    def sync(s, st, ch=None):
        """ghost catches up with the code -> [(configuration, state)]; the column registers are matched with the ghost column"""
        fr = st.frames[-1]; cur, out = ch or s.choice[fr.blk]; pr = s.pr; sv = {n: v for n, t, v in s.slots(st)}
        if cur[0] not in sv or out not in sv: raise Unsupported('another set of locals')
        v = sv[cur[0]]
        if v is UNDEF or cur[2] != (isinstance(v, Ptr) and v.obj == 'src'): raise Unsupported('cursor of another kind')
        x = v.off if cur[2] else sub(v, cur[1], 64); v = sv[out]; o = v.off if isinstance(v, Ptr) else v
        k = distance(pr, st, x, st.g['c'], 'cursor step')
        if k < 0 or k > 12: raise Fail('cursor moved by %d' % k)
        m = distance(pr, st, o, st.g['w'], 'output position'); r = []; last = None
        for y, em in enc_steps(s.ex, st.clone(), k):
            if m == len(em) + 2:
                # the line end was written ahead of the next character
                pr.require(y.pc, icmp('sge', y.g['col'], N32, 32), 'line end before the line is full'); pr.require(y.pc, z3.ULT(bv(y.g['c'], 64), s.L), 'line end after the last character')
                y.g.update(col=0, lastb=10); em = em + [13, 10]
            emits(pr, y, em, o); r.append((s.config(y, cur, out), y))
        return r
    def config(s, y, cur, out):
        b = s.base.get(y.frames[-1].blk); bs = {n: (v,) for n, t, v in s.slots(b[0])} if b else {}
        return (y.frames[-1].blk, tuple((n, t, s.template(y, v, t, bs.get(n))) for n, t, v in s.slots(y) if n not in (cur[0], out)))
    def template(s, y, v, ty, b):
        g = y.g
        if v is UNDEF: return ('junk',)
        if ty == ir.I32:
            k = y.diff(v, g['col'], 32)
            if k is not None and abs(k) < 4: return ('col', k)
            k = y.diff(sub(v, g['col'], 32), sub(0, N32, 32), 32)
            if k is not None and abs(k) < 4: return ('coln', k)
            if s.pr.valid(y.pc, icmp('eq', v, g['col'], 32)): return ('col', 0)
        if b is not None and same(v, b[0]): return ('same',)
        if ty == ir.PTR or isinstance(v, Ptr):
            if isinstance(v, Ptr) and v.obj is None: return ('null',)
            for n, b in (('src', g['c']), ('dest', g['w'])):
                if isinstance(v, Ptr) and v.obj == n:
                    k = y.diff(v.off, b)
                    if k is not None and abs(k) < 80: return (n, k)
            return ('junk',)
        if ty == ir.I64:
            for n, b in (('c', g['c']), ('c-L', sub(g['c'], s.L, 64)), ('L-c', sub(s.L, g['c'], 64))):
                k = y.diff(v, b)
                if k is not None and abs(k) < 200: return (n, k)
        if type(v) is int or isinstance(v, bool): return ('const', v)
        return ('junk',)
    def value(s, t, st, ty):
        g = st.g; K = (1 << 64) - 1
        if t[0] == 'col': return add(g['col'], t[1] & 0xffffffff, 32)
        if t[0] == 'coln': return add(sub(g['col'], N32, 32), t[1] & 0xffffffff, 32)
        if t[0] == 'null': return Ptr(None, 0)
        if t[0] in ('src', 'dest'): return Ptr(t[0], add(g['c' if t[0] == 'src' else 'w'], t[1] & K, 64))
        if t[0] == 'c': return add(g['c'], t[1] & K, 64)
        if t[0] == 'c-L': return add(sub(g['c'], s.L, 64), t[1] & K, 64)
        if t[0] == 'L-c': return add(sub(s.L, g['c'], 64), t[1] & K, 64)
        if t[0] == 'const': return t[1]
        if ty[0] == 'i': return s.ex.fresh(ty[1]) if ty[1] > 1 else s.ex.freshb()
        return UNDEF
    def arrive(s, st):
        fr = st.frames[-1]; blk = fr.blk
        if blk not in s.choice: raise NeedChoice(blk, s.cands(st))
        envs = [dict(f.env) for f in st.frames]; new = blk not in s.base
        if new: s.base[blk] = (st.clone(), envs, [set() for _ in envs])
        else:
            b, keep, drop = s.base[blk]; ch = False
            for d, e in enumerate(keep):
                for k in list(e):
                    if k not in envs[d]: del e[k]; ch = True
                    elif k not in drop[d] and not same(e[k], envs[d][k]): drop[d].add(k); ch = True
            if ch: s.pending += [c for c in s.inv if c[0] == blk and c not in s.pending]
        for cfg, y in s.sync(st):
            new = cfg not in s.inv
            if new:
                if len(s.inv) > 60: raise Unsupported('too many invariant configurations')
                s.inv[cfg] = dict(facts(s.K))
            ch = False
            iv = s.inv[cfg]; ok = {}
            for n in sorted(iv, key=lambda n: -rank(n)[1]):   # the strongest of a family decides the weaker ones
                fam, k = rank(n)
                if fam in ok: continue
                if s.pr.valid(y.pc, iv[n](y, s.L)): ok[fam] = 1
                else: del iv[n]; ch = True
            if (new or ch) and cfg not in s.pending: s.pending.append(cfg)
    def head(s, cfg):
        blk, ts = cfg; b, keep, drop = s.base[blk]; ex = s.ex; L = s.L
        st = b.clone(); st.pc = base_pc(L) + s.pre; st.eqs = {}; st.steps = 0
        c, w, col, lb = ex.fresh(64, 'c'), ex.fresh(64, 'w'), ex.fresh(32, 'col'), ex.fresh(8, 'lastb')
        st.g.update(c=c, w=w, col=col, lastb=lb, lastb0=lb, keys={}, nl=0)
        cur, out = s.choice[blk]
        for d, fr in enumerate(st.frames):
            tm = ex.tymap(fr.f); fr.env = dict(keep[d])
            for k in drop[d]:
                t = tm[k]; fr.env[k] = (ex.fresh(t[1]) if t[1] > 1 else ex.freshb()) if t and t[0] == 'i' else UNDEF
        fr = st.frames[-1]; phis = [i for i in fr.f.blocks[blk] if i.op == 'phi']
        for n, t, v in s.slots(st):
            if n == cur[0]: s.setslot(st, n, t, Ptr('src', c) if cur[2] else add(c, cur[1], 64))
            elif n == out: s.setslot(st, n, t, Ptr('dest', w) if t == ir.PTR else w)
        for n, t, tp in ts:
            if tp[0] != 'same': s.setslot(st, n, t, s.value(tp, st, t))
        st.mem['dest'] = EncLog()
        seen = set()
        for n, fn in sorted(s.inv[cfg].items(), key=lambda x: -rank(x[0])[1]):
            if rank(n)[0] not in seen: st.assume(fn(st, L)); seen.add(rank(n)[0])
        fr.i = len(phis); return st
    def run(s, ent):
        for a in ent: s.arrive(a.clone())
        iters = 0
        while s.pending:
            iters += 1
            if iters > 400: raise Unsupported('invariant inference did not converge')
            cfg = s.pending.pop(0); s.hooks.arr = []; s.ex.done = []; s.ex.explore([s.head(cfg)])
            for y in s.hooks.arr: s.arrive(y)
        for cfg in s.inv:
            s.hooks.arr = []; s.ex.done = []; s.ex.explore([s.head(cfg)])
            for x in s.ex.done: post(s.ex, s.pr, x, s.L); s.info['paths'] += 1
        s.info['configs'] += len(s.inv); s.info['facts'] += sum(len(v) for v in s.inv.values()); s.info['inv'].update({str(k): sorted(v) for k, v in s.inv.items()})
def prove_enc(mod, fname, pr, deadline, glob, kernel=None, pre=()):
    f = mod.funcs[fname]; info = dict(configs=0, facts=0, paths=0, inv={})
    hooks = EncHooks(pr, glob, kernel); ex = Exec(mod, hooks); ex.deadline = deadline; ir.materialize(mod, f)
    st, args = entry_state(); L = st.g['L']; st.pc += list(pre); hooks.arr = []; ex.done = []
    ex.enter(st, f, args); ex.explore([st])
    for x in ex.done: post(ex, pr, x, L); info['paths'] += 1
    ent = hooks.arr; todo = [{}]; errs = []; ok = not ent
    while todo and not ok:
        ch = todo.pop(0)
        try: ELoops(ex, hooks, pr, L, info, ch, f, pre).run(ent); ok = True
        except NeedChoice as n:
            if n.cands: todo = [dict(ch, **{n.blk: c}) for c in n.cands] + todo
            else: errs.append(Unsupported('no cursor recognised at ' + n.blk))
        except (Fail, Unsupported) as e:
            errs.append(e)
            if DEBUG: print(ch, e, getattr(e, 'what', ''))
    if not ok:
        fl = [e for e in errs if isinstance(e, Fail)]
        raise fl[0] if fl else errs[0]
    return info
def const_global(mod, name):
    ex = Exec(mod, Hooks()); return ex.initial_global(name).data
# do_encode_generic keeps the column in an int that runs up to 16 ahead of the line length
GENPRE = N32 <= (1 << 31) - 64
LUTS = ('_ZN9RapidYenc9escapeLUTE', '_ZN9RapidYenc10escapedLUTE')
PTR_ENC = '_ZN9RapidYenc10_do_encodeE'
def ptr_target(mod): return re.search(r'@([\w.$]+)', re.sub(r'^.*?(global|constant)', '', mod.globals[PTR_ENC])).group(1)
def outcome(o, pr, fn):
    t = time.time()
    try: o.update(status='proved', detail=fn())
    except Fail as e: o.update(status='refuted', detail='%s; model %s' % (e.what, str(e.model)[:800]))
    except Unknown as e: o.update(status='unknown', detail=str(e))
    except Unsupported as e: o.update(status='unsupported', detail=str(e))
    o['count'] = max(1, pr.n); o['time'] = time.time() - t; return [o]
def task_generic(limit):
    pr = Prover(); mod = ir.parse(build.llvm_ir('encoder.cc')); fn = ptr_target(mod)
    def go():
        glob = {n: const_global(mod, n) for n in LUTS if n in mod.globals}
        i = prove_enc(mod, fn, pr, time.time() + limit, glob, None, [GENPRE])
        return '%d invariant configurations, %d facts, %d paths to a return' % (i['configs'], i['facts'], i['paths'])
    return outcome(dict(name='ENC: encoder.cc ' + fn, functions=[fn], backend='irv+z3 (QF_BV)'), pr, go)
def task_wrapper(unit, limit):
    pr = Prover(); name = 'do_encode_simd'
    o = dict(name='ENC: %s (scalar head, tail and end; the kernel by its contract)' % unit, functions=[], backend='irv+z3 (QF_BV)')
    def go():
        text, fn, kern = build.llvm_ir_kernel(unit); o['functions'] = [fn]; mod = ir.parse(text)
        g = ir.parse(build.llvm_ir('encoder.cc')); DELEGATE.add(ptr_target(g)); glob = {n: const_global(g, n) for n in LUTS if n in g.globals}
        i = prove_enc(mod, fn, pr, time.time() + limit, glob, kern)
        return '%d invariant configurations, %d facts, %d paths to a return' % (i['configs'], i['facts'], i['paths'])
    return outcome(o, pr, go)
# ---------------------------------------------------------------- lemmas over the specification
def spec_state(*js):
    """an arbitrary reachable position of the specification: column and last byte are unknowns restricted by the invariant js"""
    pr = Prover(); ex = Exec(ir.parse(''), EncHooks(pr, {})); st, _ = entry_state()
    col, lb = z3.BitVec('colg', 32), z3.BitVec('lastg', 8); st.pc = base_pc(st.g['L'])
    st.g.update(col=col, lastb=lb, lastb0=lb, nl=0); return pr, ex, st, col, lb
def ws(b): return z3.Or(bv(b, 8) == 9, bv(b, 8) == 32)
def J(n, col, lb):
    """n characters stand on the current line: the column is n, or the last character was an escape sequence that went one beyond a full line"""
    n2 = z3.ZeroExt(32, N32); col = bv(col, 32); c2 = z3.ZeroExt(32, col)
    return z3.And(col >= 0, z3.Or(z3.And(n == c2, z3.Or(col < N32, z3.And(col == N32, z3.Not(ws(lb))))), z3.And(n == n2 + 1, z3.Or(col == N32, z3.And(N32 == 1, col == 2)), z3.Not(ws(lb)))))
def lemma_nntp():
    """E02 follows from ENC: the form of every line the specification writes"""
    def go():
        pr_, ex, st, col, lb = spec_state(); n = z3.BitVec('n', 64); n2 = z3.ZeroExt(32, N32); k = 0
        st.assume(J(n, col, lb))
        for x, em in one_step(ex, st):
            m = n; k += 1; g = x.g; R = lambda c, what: pr.require(x.pc, c, what)
            if em[0] == 13:
                R(em[:2] == [13, 10], 'line end'); R(z3.Or(n == n2, n == n2 + 1), 'a line of another length'); R(z3.Not(ws(lb)), 'space at the end of a line'); em = em[2:]; m = B64(0)
            first = bv(em[0], 8)
            R(z3.And(*[first != v for v in (0, 10, 13)]), 'a reserved byte'); R(z3.Implies(m == 0, z3.And(z3.Not(ws(first)), first != 46)), 'line start')
            if len(em) == 2: R(first == 61, 'escape'); R(z3.And(*[bv(em[1], 8) != v for v in (0, 10, 13, 61, 0x79)]), 'escaped byte')
            else: R(z3.And(first != 61, z3.BoolVal(len(em) == 1)), 'escape')
            R(J(m + len(em), g['col'], bv(em[-1], 8)), 'line length')
        # the end: a trailing space or tab becomes an escape sequence
        pr.require(st.pc, z3.ULE(n, n2 + 1), 'last line'); pr.require(st.pc + [ws(lb)], z3.And(z3.ULE(n + 1, n2), lb + 64 != 0x79, lb + 64 != 13, lb + 64 != 10, lb + 64 != 0), 'last line')
        return '%d cases of the specification step; invariant: characters on the line against the column' % k
    pr = Prover(); return outcome(dict(name='LEMMA nntp: the output of the encoder specification is safe for NNTP', functions=[], backend='z3 (QF_BV)'), pr, go)
def lemma_space():
    """E03 follows from ENC: stores end below REQ = 2*len + 2*floor(2*len/line) + 66"""
    def go():
        import units_bind
        pr_, ex, st, col, lb = spec_state(); Z = lambda v: z3.ZeroExt(80 - v.size(), v); T, P, C0, C = [z3.BitVec(v, 80) for v in 'TP0C']; k = 0; W = 1 << 70
        def inv(T, P, C, col, nl): return z3.And(col >= 0, z3.Or(col < N32, col == N32, z3.And(N32 == 1, col == 2)), z3.ULE(P, 2 * C), z3.ULE(nl, C + 1), z3.Or(N32 == 1, z3.ULE(T + Z(col), P + C0)))
        nl = z3.BitVec('nl', 80); n80 = Z(N32); st.assume(z3.And(z3.ULT(C0, n80), *[z3.ULT(v, z3.BitVecVal(W, 80)) for v in (T, P, C, nl)])); 
        # nl <= C once a character is written: nl counts the line ends, at most one before each character
        st.assume(inv(T, P, C, col, nl)); st.assume(z3.ULE(nl, C))
        for x, em in one_step(ex, st):
            cr = em[:2] == [13, 10]; ch = len(em) - (2 if cr else 0); k += 1
            pr.require(x.pc, z3.And(inv(T + n80 if cr else T, P + ch, C + 1, bv(x.g['col'], 32), nl + (1 if cr else 0)), z3.ULE(nl + (1 if cr else 0), C + 1)), 'output size'); pr.require(x.pc, z3.BoolVal(1 <= ch <= 2), 'two characters at most')
        # base: nothing written, column C0
        pr.require([z3.ULT(C0, n80), col == z3.Extract(31, 0, C0), N32 >= 1, T == 0, P == 0, C == 0, nl == 0], inv(T, P, C, col, nl), 'initially')
        # arithmetic: T = nl*N, T <= P + C0, P <= 2C, C <= len, C0 < N  =>  nl <= floor(2*len/N) + 1
        N, L, n, q, r, t, p, c, c0 = z3.Ints('N L nl q r T P C C0'); S = z3.Solver(); S.set('timeout', 60000)
        S.add(N >= 1, L >= 1, n >= 0, 2 * L == q * N + r, 0 <= r, r < N, q >= 0, c <= L, n <= c, p <= 2 * c, z3.Or(N == 1, t <= p + c0), c0 < N, t == n * N, n >= q + 2)
        d = z3.Int('d'); S.add(d == n - q - 2, d >= 0, N * d >= 0, t == N * d + q * N + 2 * N); pr.n += 1
        if S.check() != z3.unsat: raise Unknown('arithmetic')
        # the largest store end: output position P + 2*nl, then 2*(len - C) + 64
        S = z3.Solver(); S.add(L >= 1, c <= L, p <= 2 * c, n <= q + 1, p + 2 * n + 2 * (L - c) + 64 > 2 * L + 2 + 64 + 2 * q); pr.n += 1
        if S.check() != z3.unsat: raise Unknown('arithmetic')
        # REQ, as the binding contract uses it, is that number
        l64 = z3.BitVec('l', 64); pr.require([], units_bind.REQ(l64, N32) == 2 * l64 + 2 + 64 + 2 * z3.UDiv(2 * l64, z3.ZeroExt(32, N32)), 'REQ')
        return '%d cases of the specification step; invariant: line length times line ends + column <= characters + starting column' % k
    pr = Prover(); return outcome(dict(name='LEMMA space: every store of ENC lies within the space the binding requires', functions=[], backend='z3 (QF_BV, nonlinear integers)'), pr, go)
def lemma_round():
    """E04 follows from ENC and DEC: the decoder specification maps what the encoder specification writes for a byte to that byte"""
    def go():
        from units_dec import fsm, CRLF, NONE, CR
        total = 0
        for raw in (False, True):
            pr_, ex, st, col, lb = spec_state(); n = z3.BitVec('n', 64)
            # raw: encoding started at column 0. At a line start the decoder is in CRLF (any state that writes nothing: NONE too, when not unstuffing)
            st.assume(J(n, col, lb))
            for x, em in one_step(ex, st):
                b = st.mem['src'].byte(st, st.g['c'])
                for s0 in (CRLF, NONE):
                    if raw and s0 == NONE: start = [] if em[0] == 13 else [col != 0]
                    elif raw: start = [z3.BoolVal(False)] if em[0] == 13 else [col == 0]
                    else: start = []
                    todo = [(s0, x.pc + start, [])]
                    for e in em:
                        nx = []
                        for s, pc, outp in todo:
                            for cond, s2, emit, ended in fsm(s, bv(e, 8), raw, False):
                                if INC.check(list(pc) + [cond]) == z3.unsat: continue
                                if ended: raise Fail('the decoder ends early')
                                nx.append((s2, list(pc) + [cond], outp + ([emit] if emit is not None else [])))
                        todo = nx
                    for s, pc, outp in todo:
                        total += 1
                        if len(outp) != 1: raise Fail('%d bytes decoded' % len(outp))
                        pr.require(pc, bv(outp[0], 8) == b, 'another byte is decoded')
                        if s != NONE: raise Fail('decoder state %d after a character' % s)
        # the end: '=' and the byte + 64 in the place of a trailing space or tab decode to the same byte; nothing else follows
        for raw in (False, True):
            for s0 in (CRLF, NONE):
                lb = z3.BitVec('lastg', 8)
                for cond, s2, emit, ended in fsm(s0, z3.BitVecVal(61, 8), raw, False):
                    if INC.check([cond]) == z3.unsat: continue
                    for c3, s3, e3, d3 in fsm(s2, lb + 64, raw, False):
                        if INC.check([ws(lb), c3]) == z3.unsat: continue
                        total += 1; pr.require([ws(lb), c3], e3 == lb - 42, 'the escaped end decodes to another byte')
        return '%d decoder paths over the cases of the specification step' % total
    pr = Prover(); return outcome(dict(name='LEMMA round trip: decoder specification after encoder specification is the identity', functions=[], backend='z3 (QF_BV)'), pr, go)
UNITS = ('encoder_sse2.cc', 'encoder_ssse3.cc', 'encoder_avx.cc', 'encoder_avx2.cc', 'encoder_vbmi2.cc')
def bounded_kernel(unit):
    return [dict(name='KERN: %s (vector kernel): bounded, harness/diff.cc runs the real kernel on all 16-bit escape masks around line ends (E01-E04) and on generated inputs' % unit, functions=['kernel of ' + unit], backend='exhaustive enumeration of escape masks, bounded', status='bounded', count=1, time=0, detail='not proved')]
def tasks(arg, tier):
    lim = 420 if tier == 'quick' else 850
    r = [('enc:generic', task_generic, (lim,))] + [('enc:' + u, task_wrapper, (u, lim)) for u in UNITS] + [('kern:' + u, bounded_kernel, (u,)) for u in UNITS]
    for k, f in (('nntp', lemma_nntp), ('space', lemma_space), ('round', lemma_round)):
        if k in arg.split(): r.append(('lemma:' + k, f, ()))
    return r

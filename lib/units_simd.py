"""Contracts and proofs for the vector decoders (D01..D05, E04): each do_decode_simd<mode, width, kernel> satisfies DEC(mode)
of units_dec.py, the scalar decoder being called through its contract. One cut point per kernel loop; the ghost state at it is
(c: position in the stream, w: output position, e: is the next byte escaped, H: the four bytes before c)."""
import sys, time, re, z3
import build
from irv import ir
from irv.ir import Unsupported
from irv.val import *
from irv.sym import *
from irv.inc import INC
from units_dec import CRLF, EQ, CR, NONE, DT, DTCR, CEQ, MODES, STATES, PTRS, fsm, Fail, Unknown, Prover, eqb, ghost_steps, ptr_target, cell_ptr, distance, ir_loops
UNITS = {'decoder_sse2.cc': 'RapidYenc::decoder_set_sse2_funcs()', 'decoder_ssse3.cc': 'RapidYenc::decoder_set_ssse3_funcs()', 'decoder_avx.cc': 'RapidYenc::decoder_set_avx_funcs()', 'decoder_avx2.cc': 'RapidYenc::decoder_set_avx2_funcs()', 'decoder_vbmi2.cc': None}
LOOK = {'plain': 0, 'raw': 2, 'end': 4}
K = lambda v: z3.BitVecVal(ord(v) if isinstance(v, str) else v, 8)
def Z(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def And(*a): return z3.And(*[Z(x) for x in a])
def Or(*a): return z3.Or(*[Z(x) for x in a])
def Not(a): return z3.Not(Z(a))
def isb(b, ch): return bv(b, 8) == K(ch)
def pat(bs, s): return And(*[isb(b, ch) for b, ch in zip(bs, s)])
TERM = ('\r\n=y', '\r\n.=y', '\r\n.\r\n')
VIRT = {CRLF: 'aa\r\n', EQ: 'aaa=', CR: 'aaa\r', NONE: 'aaaa', DT: 'a\r\n.', DTCR: '\r\n.\r', CEQ: 'a\r\n='}   # a history that leads to the state, oldest byte first
def virtual(s): return s in (EQ, CEQ), [ord(ch) for ch in VIRT[s][::-1]]
def sigma(e, H, mode):
    """the FSM state after a history: [(condition, state)], disjoint"""
    raw, end = MODES[mode]; H1, H2, H3, H4 = H; r = []; done = False
    def alt(c, s):
        nonlocal done
        r.append((And(c, Not(done)), s)); done = Or(done, c)
    if end: alt(And(e, Or(pat((H3, H2), '\r\n'), pat((H4, H3, H2), '\r\n.'))), CEQ)
    alt(Z(e), EQ)
    if raw:
        alt(pat((H2, H1), '\r\n'), CRLF)
        if end: alt(pat((H3, H2, H1), '\r\n.'), DT); alt(pat((H4, H3, H2, H1), '\r\n.\r'), DTCR)
        alt(isb(H1, '\r'), CR)
    alt(z3.BoolVal(True), NONE); return r
def drops(e, H1, H2, b, raw):
    d = Or(isb(b, '\r'), isb(b, '\n'), isb(b, '='))
    if raw: d = Or(d, And(isb(b, '.'), isb(H1, '\n'), isb(H2, '\r')))
    return And(Not(e), d)
def emits(e, b): return bv(b, 8) - z3.If(Z(e), K(106), K(42))
def einv(e, H):
    """what is known of 'the next byte is escaped' and the bytes before it"""
    return And(z3.Implies(Z(e), isb(H[0], '=')), z3.Implies(And(isb(H[0], '='), Not(isb(H[1], '='))), Z(e)))
def lemma_fsm(mode):
    """the decoder specification is pointwise: the FSM run equals, byte by byte, drops/emits/TERM over (is the byte escaped, the four bytes before it)"""
    t = time.time(); raw, end = MODES[mode]; n = 0
    b, H = z3.BitVec('b', 8), [z3.BitVec('H%d' % k, 8) for k in range(1, 5)]; e = z3.Bool('e'); inv = einv(e, H)
    o = dict(name='lemma: pointwise form of the %s decoder specification' % mode, functions=[], backend='z3 (QF_BV)')
    def must(p, g):
        nonlocal n
        so = z3.SolverFor('QF_BV'); so.add(inv, *p); so.add(z3.Not(g)); n += 1
        if so.check() != z3.unsat: raise Fail('the lemma does not hold')
    try:
        e2 = And(isb(b, '='), Not(e)); term = Or(*[pat(([b] + H)[:len(p)][::-1], p) for p in TERM[:2]], pat([b] + H, TERM[2][::-1])) if end else z3.BoolVal(False)
        # '=' of a terminator is unescaped: it follows LF or a dot
        must([], Or(*[c for c, _ in sigma(e, H, mode)])); must([], einv(e2, [b] + H[:3]))
        for c, s in sigma(e, H, mode):
            rest = []
            for cond, s2, em, ended in fsm(s, b, raw, end):
                p = [c, cond]
                must(p, term if ended else Not(term))
                if ended: continue
                must(p, Not(drops(e, H[0], H[1], b, raw)) if em is not None else drops(e, H[0], H[1], b, raw))
                if em is not None: must(p, em == emits(e, b))
                must(p, Or(*[cc for cc, ss in sigma(e2, [b] + H[:3], mode) if ss == s2 or not raw and {ss, s2} <= {CRLF, NONE}]))
                rest.append(cond)
        for s in STATES[mode]:     # the virtual history of every state leads to it
            ve, vh = virtual(s)
            must([], einv(z3.BoolVal(ve), [K(x) for x in vh]))
            must([], Or(*[c for c, ss in sigma(ve, vh, mode) if ss == s or not raw and {ss, s} <= {CRLF, NONE}]))
        o.update(status='proved', count=n)
    except Fail as x: o.update(status='refuted', detail=x.what)
    o['time'] = time.time() - t; return [o]
# ---------------------------------------------------------------- lookup tables
class Lut(Const):
    """contents known; entries recognised by complete evaluation of the table"""
    def __init__(s, data): s.name = 'lookups'; s.data = data; s.seen = {}
    def compact_at(s, base):
        if ('c', base) not in s.seen:
            bad = []; n = 0
            for m in range(32768):
                row = s.data[base + 16 * m: base + 16 * m + 16]
                keep = bytes(k for k in range(16) if not (m >> k) & 1)
                if row[:len(keep)] != keep: bad.append(m)
                elif any(x < 128 and x > 15 for x in row): bad.append(m)
            s.seen[('c', base)] = bad
        return s.seen[('c', base)]
class SHooks(Hooks):
    fork_bool = True
    def __init__(s, pr, mode, callee, others, lutdata, gname):
        s.pr = pr; s.mode = mode; s.raw, s.end = MODES[mode]; s.arr = []; s.callee = callee; s.others = others; s.shuf = {}; s.comp = {}; s.keep = []; s.lutdata = lutdata; s.gname = gname; s.nc = 0; s.kern = None; s.seen = {}
    def alloca(s, ex, st, i): return Cells()
    def junk(s, w): s.nc += 1; return z3.BitVec('junk%d' % s.nc, w)
    def header(s, ex, st, f, blk):
        if blk not in ir_loops(f): return False
        if compaction_loop(f, blk): return run_compaction(s, ex, st, f, blk)
        s.arr.append(st); return True
    def global_obj(s, ex, st, name):
        d = ex.mod.globals.get(name, '')
        if 'lookups' in name and re.search(r'\bglobal ptr\b', d) and s.lutdata is not None:
            st.mem['lut'] = s.lutdata; return Cells({0: (ir.PTR, Ptr('lut', 0))})
        return None
    # ---- tables
    def table_load(s, ex, st, obj, off, t):
        if obj.name != 'lookups': raise Unsupported('symbolic index into ' + obj.name)
        n = ir.sizeof(ex.mod, t); c, d = st.lin(off)
        if len(d) != 1: raise Unsupported('table index')
        term, q = list(d.values())[0]
        if q & (q - 1): raise Unsupported('table index scale')
        b = [False] * (q.bit_length() - 1) + bits(term, 64); b = b[:64]
        pos = [k for k in range(64) if b[k] is not False]
        if not pos or pos[-1] - pos[0] > 15: raise Unsupported('table index range')
        lo = pos[0]
        if c + sum(1 << k for k in pos) + n > len(obj.data): raise Fail('a read outside the lookup tables')
        al = ex.align
        if al > 1 and (min(al, 16) > (1 << lo) or c % min(al, 16)): raise Fail('an unaligned access to the lookup tables by an aligned load')
        if n == 16 and lo == 4 and pos[-1] <= 18:
            bad = obj.compact_at(c)
            if len(bad) > 3000: raise Unsupported('the table is not a compaction table')
            if bad: raise Fail('entry %d of the compaction table is wrong' % bad[0])
            s.nc += 1; key = s.nc; m = (b + [False] * 19)[4:19]; lanes = []
            for j in range(16):
                v = z3.BitVec('shuf%d_%d' % (key, j), 8); s.shuf[v.get_id()] = (key, j, m); s.keep.append(v); lanes.append(v)
            return ex.unflat(cat(lanes, 8), 128, t)
        if pos[-1] - lo > 8 or n > 16: raise Unsupported('table shape')
        idx = [b[k] for k in range(lo, lo + 8)] if lo + 8 <= 64 else None
        w = max(pos) - lo + 1; rows = [obj.data[c + (k << lo): c + (k << lo) + n] for k in range(1 << w)]
        if n == 1:
            k0 = rows[0][0]; dl = [(rows[1 << j][0] - k0) for j in range(w)]
            if all(rows[i][0] == (k0 + sum(dl[j] for j in range(w) if (i >> j) & 1)) & 255 for i in range(1 << w)) and any(dl):
                r = z3.BitVecVal(k0, 8)
                for j in range(w):
                    if dl[j] and b[lo + j] is not False: r = r + z3.BitVecVal(dl[j] & 255, 8) * z3.If(Z(b[lo + j]), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                return r
        out = []
        for k in range(n):
            col = [r[k] for r in rows]
            if len(set(col)) == 1: out.append(col[0]); continue
            for j in range(w):
                if all(col[i] == col[((i >> j) & 1) << j] for i in range(1 << w)): out.append(z3.If(Z(b[lo + j]), K(col[1 << j]), K(col[0]))); break
            else:
                r = K(col[0]); good = sum(1 for i in range(1 << w) for _ in [0])
                raise Fail('a table byte depends on more than one mask bit') if near_single(col, w) else Unsupported('table content')
        return ex.unflat(cat(out, 8), 8 * n, t)
    def shuffle(s, ex, data, idx, n):
        if all(isinstance(q, z3.ExprRef) and q.get_id() in s.shuf for q in idx):
            k, j0, m = s.shuf[idx[0].get_id()]
            if all(s.shuf[q.get_id()][:2] == (k, j) for j, q in enumerate(idx)): return s.compacted(list(data), list(m), n)
            raise Unsupported('mixed compaction masks')
        if all(type(q) is int for q in data) and any(type(q) is not int for q in idx):
            cnt = {}
            for q in data: cnt[q] = cnt.get(q, 0) + 1
            d = max(cnt, key=cnt.get); out = []
            for q in idx:
                if q is UNDEF: out.append(UNDEF); continue
                if type(q) is int: out.append(0 if q & 128 else data[q & 15]); continue
                q = bv(q, 8); r = K(d); low = z3.Extract(3, 0, q)
                for k in range(16):
                    if data[k] != d: r = z3.If(low == k, K(data[k]), r)
                out.append(z3.If(z3.ULT(q, 128), r, K(0)))
            return out
        return None
    def compacted(s, data, m, n):
        s.nc += 1; key = s.nc; out = []
        for j in range(n):
            v = z3.BitVec('comp%d_%d' % (key, j), 8); s.comp[v.get_id()] = (key, j, data, m); s.keep.append(v); out.append(v)
        return out
    def compress(s, ex, st, kind, a, i):
        if kind != 'compress' or i.ty[0] != 'v' or i.ty[2] != ir.I8: raise Unsupported('compress')
        return s.compacted(list(a[0]), [bnot(q) for q in a[2]], i.ty[1])
    # ---- the scalar decoder, through its contract
    def call(s, ex, st, name, args, inst):
        if name in s.callee: return s.scalar(ex, st, args)
        if name in s.others: raise Fail('calls the scalar decoder of mode ' + s.others[name])
        return None
    def scalar(s, ex, st, args):
        pr = s.pr; g = st.g
        if g['final'] is not None: raise Unsupported('a second call after the end')
        if args[0] != 'x' and not (isinstance(args[0], Ptr) and args[0].obj == 'srcp' and isinstance(args[1], Ptr) and args[1].obj == 'destp'): raise Unsupported('arguments of the scalar decoder')
        so = st.mem['srcp'].d[0][1]; do = st.mem['destp'].d[0][1]; n = args[2]; L = g['L']
        if not isinstance(so, Ptr) or so.obj != 'src' or not isinstance(do, Ptr) or do.obj != 'dest': raise Fail('the scalar decoder is called with other buffers')
        if s.kern is not None:
            if s.kern.dry: return []
            s.kern.settle(st, so.off, do.off); do = st.mem['destp'].d[0][1]
        pr.require(st.pc, icmp('eq', so.off, g['c'], 64), 'the scalar decoder is called at another source position')
        s.flush(ex, st, do.off)
        end = add(so.off, n, 64)
        pr.require(st.pc, z3.And(z3.ULE(bv(so.off, 64), L), z3.ULE(bv(n, 64), L - bv(so.off, 64))), 'the scalar decoder is given more than the input')
        pr.require(st.pc, z3.ULE(bv(g['w'], 64), bv(so.off, 64)), 'in place: output beyond the source position')
        sp = args[3]
        if isinstance(sp, Ptr) and sp.obj is None: code = CRLF; null = True
        elif isinstance(sp, Ptr) and sp.obj in st.mem and isinstance(st.mem[sp.obj], Cells): code = st.mem[sp.obj].load(ex, st, 0, ir.I32); null = False
        else: raise Unsupported('state pointer of the scalar call')
        compat(ex, pr, st, code, s.mode, L)
        last = pr.valid(st.pc, icmp('eq', end, L, 64)) or pr.valid(st.pc, icmp('eq', end, L, 64), exact=True)
        ret = ex.fresh(32, 'ret'); mark = (Ptr('src', ex.fresh(64, 'srcend')), Ptr('dest', ex.fresh(64, 'destend')))
        def done(x, stop):
            x.mem['srcp'] = Cells({0: (ir.PTR, mark[0])}); x.mem['destp'] = Cells({0: (ir.PTR, mark[1])}); x.g['final'] = (ret, mark, sp, stop)
            if not null: x.mem[sp.obj] = Cells({0: (ir.I32, ex.fresh(32, 'sfin'))}); x.g['sfin'] = x.mem[sp.obj]
            return x
        if last: return [(done(st, False), ret)]
        out = []
        if s.end:
            x = done(st.clone(), True); x.assume(z3.Or(ret == 1, ret == 2)); out.append((x, ret))
        for s2 in STATES[s.mode]:
            x = st.clone(); w2 = ex.fresh(64, 'w'); x.assume(z3.And(z3.ULE(bv(g['w'], 64), w2), z3.ULE(w2, bv(g['w'], 64) + bv(n, 64))))
            x.mem['srcp'] = Cells({0: (ir.PTR, Ptr('src', end))}); x.mem['destp'] = Cells({0: (ir.PTR, Ptr('dest', w2))})
            if null: raise Unsupported('a null state in a partial call')
            x.mem[sp.obj] = Cells({0: (ir.I32, s2)}); e, H = virtual(s2); x.g.update(c=end, w=w2, s=s2, e=e, H=H)
            k = s.snapshot(x)
            if k in s.seen: continue      # the contract forgets the past: this very state has been explored already
            s.seen[k] = x; out.append((x, 0))
        return out
    def cid(s, v):
        if v is UNDEF or isinstance(v, (int, bool, str, type(None))): return (type(v).__name__, v)
        if isinstance(v, z3.ExprRef): s.keep.append(v); return ('z', v.get_id())
        if isinstance(v, Ptr): return ('p', v.obj, s.cid(v.off))
        if isinstance(v, Cat): return ('c', v.pw) + tuple(s.cid(q) for q in v.p)
        if isinstance(v, (list, tuple)): return tuple(s.cid(q) for q in v)
        if isinstance(v, Cells): return tuple((o, str(t), s.cid(q)) for o, (t, q) in sorted(v.d.items()))
        if isinstance(v, Log): return tuple(s.cid(q) for q in v.log)
        if isinstance(v, dict): return tuple((q, s.cid(w)) for q, w in sorted(v.items()))
        return ('o', id(v))
    def snapshot(s, x):
        fr = x.frames[-1]; live = set()
        for i in fr.f.blocks[fr.blk][fr.i:]: live |= set(regs(i))
        lv = live_in(fr.f)
        for b in ir.succs(fr.f.blocks[fr.blk][-1]): live |= lv[b]
        cid = s.cid
        if len(x.frames) > 1: return ('unique', id(x))
        return (fr.f.name, fr.blk, fr.i, tuple((r, cid(fr.env.get(r, UNDEF))) for r in sorted(live)), tuple(sorted(c.get_id() for c in INC.flat(x.pc))), tuple((m, cid(o)) for m, o in sorted(x.mem.items()) if m != 'src' and not m.startswith('g:')), cid(x.g))
    def flush(s, ex, st, wend):
        """before the kernel or after it, no output may be pending"""
        if st.mem['dest'].log: raise Unsupported('stores outside the kernel loop')
        s.pr.require(st.pc, icmp('eq', wend, st.g['w'], 64), 'the output position is wrong')
        order(s.pr, st)
def near_single(col, w):
    best = 0
    for j in range(w):
        a = [col[i] for i in range(1 << w) if (i >> j) & 1]; b = [col[i] for i in range(1 << w) if not (i >> j) & 1]
        best = max(best, max(a.count(x) for x in set(a)) + max(b.count(x) for x in set(b)))
    return best >= 0.9 * (1 << w)
def order(pr, st):
    ev = [(k, limits(st, o)[1] if k == 'S' else o, n) for k, o, n in st.g['ev']]
    for o in {id(x[1]): x[1] for x in ev if x[0] == 'L'}.values(): pr.require(st.pc, z3.UGE(bv(o, 64), bv(st.g['c'], 64)), 'in-place decoding: a source byte behind the current position is read')
    for i, (k, o, n) in enumerate(ev):
        if k != 'S': continue
        for k2, o2, n2 in ev[i+1:]:
            if k2 == 'L': pr.require(st.pc, z3.ULE(bv(add(o, n, 64), 64), bv(o2, 64)), 'in-place decoding: a source byte is read after it was overwritten')
    st.g['ev'] = []
def truestates(st, mode):
    if st.g['s'] is not None: return [(True, st.g['s'])]
    return sigma(st.g['e'], st.g['H'], mode)
def closure(V):
    V = set(V); loc = []; todo = [v for v in V if v in INC.defs]; seen = set()
    while todo:
        v = todo.pop()
        if v in seen: continue
        seen.add(v); d = INC.defs[v]; loc.append(d); new = INC.vars(d) - V; V |= new; todo += [u for u in new if u in INC.defs]
    return V, loc
def lsat(st, q, wide=False):
    """may q hold, judging only by what is known about the variables in q? (no implies no)"""
    V = INC.vars(q); pc = list(INC.flat(st.pc))
    if wide:
        W = set(V)
        for f in pc:
            v = INC.vars(f)
            if len(v) <= 8 and v & closure(V)[0]: W |= v
        V = W
    V, loc = closure(V)
    return INC.raw([f for f in pc if INC.vars(f) <= V] + [q], 20000) != z3.unsat
def lsat2(st, q): return lsat(st, q, True)
MISS = []
def compat(ex, pr, st, code, mode, L):
    """going on from the state the code has equals going on from the state of the specification"""
    raw, end = MODES[mode]
    for c, t in truestates(st, mode):
        for s in STATES[mode]:
            q = And(c, icmp('eq', code, s, 32) if not (type(code) is int) else code == s)
            if z3.is_false(z3.simplify(q)) or not lsat(st, q): continue
            x = st.clone(); x.assume(q)
            try: bisim(ex, pr, x, s, t, 0, mode, L, lsat); continue
            except Fail as e: pass
            if not lsat2(st, q): continue
            try: bisim(ex, pr, x, s, t, 0, mode, L, lsat2); continue
            except Fail as e: MISS.append((s, t, code, e.what))
            if ex.sat(st, q): bisim(ex, pr, x, s, t, 0, mode, L, ex.sat)
    pr.require(st.pc, Or(*[icmp('eq', code, s, 32) for s in STATES[mode]]), 'the state passed to the scalar decoder is not one of its states')
def bisim(ex, pr, st, s, t, j, mode, L, sat):
    raw, end = MODES[mode]
    if s == t or not raw and {s, t} <= {CRLF, NONE}: return
    c = st.g['c']
    if j >= LOOK[mode] or not sat(st, z3.ULT(bv(add(c, j, 64), 64), L)): raise Fail('the decoder goes on in state %d where the stream is in state %d' % (s, t), None if sat in (lsat, lsat2) else pr_model(pr, st))
    pr.require(st.pc, z3.ULT(bv(add(c, j, 64), 64), L), 'the input may end in a different state')
    b = st.mem['src'].byte(st, add(c, j, 64))
    for c1, s1, e1, n1 in fsm(s, b, raw, end):
        for c2, t1, e2, n2 in fsm(t, b, raw, end):
            q = z3.And(c1, c2)
            if not sat(st, q): continue
            x = st.clone(); x.assume(q)
            if n1 != n2 or (e1 is None) != (e2 is None) or e1 is not None and not pr.valid(x.pc, e1 == e2): raise Fail('the decoder goes on in state %d where the stream is in state %d: the next %d bytes decode differently' % (s, t, j + 1), None if sat in (lsat, lsat2) else pr_model(pr, x))
            if not n1: bisim(ex, pr, x, s1, t1, j + 1, mode, L, sat)
def pr_model(pr, st):
    return INC.last.model() if INC.check(st.pc) == z3.sat and INC.last is not None else None
# ---------------------------------------------------------------- output of one block
def flagdiff(st, a, b):
    """a - b as (constant, {flag term id: (term, coefficient)}) if it is a sum of flags"""
    c1, d1 = st.lin(sub(a, b, 64)); r = {}
    for i, (t, q) in d1.items():
        if not isflag(t): return None
        r[i] = (t, sgn(q, 64))
    return sgn(c1, 64), r
def limits(st, off):
    """bounds of a position: itself, or the output position plus the range of the flag sum"""
    w = st.g['w']; fd = flagdiff(st, off, w)
    if fd is None or not fd[1]: return off, off
    q = [x for _, x in fd[1].values()]; M = 2**64 - 1
    return add(w, fd[0] + sum(x for x in q if x < 0) & M, 64), add(w, fd[0] + sum(x for x in q if x > 0) & M, 64)
def block_output(ex, hooks, st, wend):
    """-> [(value lane, dropped)] for the source lanes in order; checks that the stores compose to exactly the kept lanes at the output position"""
    pr = hooks.pr; cur = st.g['w']; items = []
    for off, t, v in st.mem['dest'].log:
        n = ir.sizeof(ex.mod, t); b = split(ex.flat(v, t), 8 * n, 8); b = [x for x in b]
        ids = [x.get_id() if isinstance(x, z3.ExprRef) else None for x in b]
        if ids[0] in hooks.comp:
            k, j0, data, m = hooks.comp[ids[0]]
            if len(data) != n or not all(i in hooks.comp and hooks.comp[i][:2] == (k, j) for j, i in enumerate(ids)): raise Unsupported('partial store of compacted data')
            items.append((off, list(data), list(m)))
        elif any(i in hooks.comp for i in ids): raise Unsupported('mixed store')
        else: items.append((off, b, []))
    lanes = []
    for q, (off, data, m) in enumerate(items):
        fd = flagdiff(st, off, cur)
        if fd is None: raise Unsupported('store at an unrelated position')
        if fd[0] or fd[1]:
            if not pr.valid(st.pc, icmp('eq', off, cur, 64)) and not pr.valid(st.pc, icmp('eq', off, cur, 64), exact=True): raise Fail('a block is stored at the wrong output position', pr.model)
        n = len(data); nxt = items[q+1][0] if q + 1 < len(items) else wend
        d = {}
        for b in m:
            if b is True: raise Unsupported('constant mask')
            if b is not False: t = z3.If(b, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)); d[t.get_id()] = (t, -1 + (d[t.get_id()][1] if t.get_id() in d else 0))
        fd = flagdiff(st, nxt, add(off, n, 64))
        if fd is None: raise Unsupported('output position')
        rest = {}
        for i in set(fd[1]) | set(d):
            x = (fd[1][i][1] if i in fd[1] else 0) - (d[i][1] if i in d else 0)
            if x: rest[i] = ((fd[1].get(i) or d.get(i))[0], x)
        m = m + [False] * (n - len(m))
        if fd[0] == 0 and len(rest) == 1 and list(rest.values())[0][1] == -1 and m[n-1] is False and items[q][2] and len(items[q][2]) == n - 1: m[n-1] = list(rest.values())[0][0].arg(0); cur = nxt
        elif fd[0] == 0 and not rest: cur = nxt
        else:   # not syntactically the number of kept lanes
            kept = add(off, n, 64)
            for b in m:
                if b is not False: kept = sub(kept, z3.If(b, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), 64)
            if not pr.valid(st.pc, icmp('eq', nxt, kept, 64)) and not pr.valid(st.pc, icmp('eq', nxt, kept, 64), exact=True): raise Fail('the output position does not advance by the number of kept bytes', pr.model)
            cur = nxt
        lanes += list(zip(data, m))
    if not items: pr.require(st.pc, icmp('eq', wend, cur, 64), 'the output position moved without output')
    return lanes
def batch(pr, pc, goals, what, n=16):
    """prove all goals: first from what is known about the same few bytes, then from everything known, then one by one; proved goals are available for later ones"""
    pc = list(INC.flat(pc)); vs = [INC.vars(f) for f in pc]
    for k in range(0, len(goals), n):
        g = [(x, w) for x, w in goals[k:k+n] if x is not True]
        if not g: continue
        al = z3.And(*[Z(x) for x, _ in g]); t = time.time(); pr.n += len(g)
        V = set(INC.vars(al)); loc = []; todo = [v for v in V if v in INC.defs]; seen = set()
        for _ in range(3):
            nx = []
            for v in todo:
                if v in seen: continue
                seen.add(v); d = INC.defs[v]; loc.append(d); V |= INC.vars(d); nx += [u for u in INC.vars(d) if u in INC.defs]
            todo = nx
        if True:
            add_ = [q for q in range(len(pc)) if vs[q] <= V]
        so = z3.SolverFor('QF_BV'); so.set('timeout', 3000); so.add(*loc, *[pc[q] for q in add_], z3.Not(al)); r = so.check()
        if r != z3.unsat: r = INC.check(pc + [z3.Not(al)], 60000); pr.w = getattr(pr, 'w', 0) + 1
        pr.t += time.time() - t
        if r == z3.unsat: pc.append(al); vs.append(INC.vars(al)); continue
        m = INC.last.model() if r == z3.sat and INC.last is not None else None
        if r == z3.unknown: raise Unknown('solver timeout')
        bad = [w for x, w in g if m is not None and not z3.is_true(m.eval(Z(x), model_completion=True))]
        raise Fail(bad[0] if bad else what, m)
# ---------------------------------------------------------------- compaction loops of the SSE2 kernel
def compaction_loop(f, blk):
    if not hasattr(f, 'comp_'):
        f.comp_ = {}
        L = ir.loops(f)
        for h, body in L.items():
            ph = [i for i in f.blocks[h] if i.op == 'phi']
            f.comp_[h] = len(body) <= 2 and len(ph) == 2 and sorted(i.ty[0] for i in ph) == ['i', 'v'] and not any(i.op in ('store', 'call') and not (i.op == 'call' and i.extra[0] == 'glb' and i.extra[1].startswith('@llvm.ct')) for b in body for i in f.blocks[b])
    return f.comp_.get(blk, False)
def run_compaction(hooks, ex, st, f, blk):
    """loop contract: removes the lanes in the mask from the vector. Established once per loop by compaction_body, used here."""
    fr = st.frames[-1]; ph = [i for i in f.blocks[blk] if i.op == 'phi']
    mi, vi = [i for i in ph if i.ty[0] == 'i'][0], [i for i in ph if i.ty[0] == 'v'][0]
    body = ir.loops(f)[blk]; key = (f.name, blk)
    if st.g.get('comploop') == key:     # back at the header: a body path ends
        st.g['compend'].append(st); return True
    if not hasattr(hooks, 'proved_'): hooks.proved_ = {}
    if key not in hooks.proved_:
        hooks.proved_[key] = True; compaction_body(hooks, ex, st, f, blk, mi, vi, body)
    m = bits(fr.env[mi.res], mi.ty[1]); v = split(ex.flat(fr.env[vi.res], vi.ty), 128, 8)
    if any(b is not False for b in m[16:]): raise Unsupported('compaction mask of more than 16 lanes')
    nz = Or(*[b for b in m[:16] if b is not False])
    hooks.pr.require(st.pc, nz, 'the compaction loop is entered with an empty mask')
    out = hooks.compacted(v, m[:16], 16); val = ex.unflat(cat(out, 8), 128, vi.ty)
    # leave the loop: registers used after it are the final vector (of the phi or of the body) and the mask 0
    y = st.clone(); fr = y.frames[-1]
    latch = [b for b in body for s2 in ir.succs(f.blocks[b][-1]) if s2 == blk][0]
    ex_b = [(b, s2) for b in body for s2 in ir.succs(f.blocks[b][-1]) if s2 not in body]
    if len(ex_b) != 1: raise Unsupported('compaction loop exits')
    b, to = ex_b[0]; nm = [v2 for v2, l in mi.args if l == latch][0]; nv = [v2 for v2, l in vi.args if l == latch][0]
    if b == latch: fr.env[nv[1]] = val; fr.env[nm[1]] = 0
    else: fr.env[vi.res] = val; fr.env[mi.res] = 0
    fr.blk = b
    return ex.jump(y, to)
def compaction_body(hooks, ex, st, f, blk, mi, vi, body):
    """each iteration removes the lane of the highest bit set: for every mask with highest bit k, mask' = mask without k and vector' = vector without lane k"""
    pr = hooks.pr; latch = [b for b in body for s2 in ir.succs(f.blocks[b][-1]) if s2 == blk][0]
    for k in range(16):
        x = st.clone(); x.pc = []; x.eqs = {}; x.steps = 0; fr = x.frames[-1]; n0 = mi.ty[1]
        mb = [z3.Bool('cm%d' % j) for j in range(k)] + [True] + [False] * (n0 - k - 1); vec = [z3.BitVec('cv%d' % j, 8) for j in range(16)]
        fr.env[mi.res] = mkbits(mb); fr.env[vi.res] = ex.unflat(cat(vec, 8), 128, vi.ty); fr.i = len([i for i in f.blocks[blk] if i.op == 'phi'])
        # straight-line body: run to the latch's branch
        cur = blk
        while True:
            ins = f.blocks[cur]; j = fr.i
            while ins[j].op != 'br':
                i = ins[j]
                if i.op == 'call': v = ex.intrinsic(x, i.extra[1][1:], [ex.const(x, *a) for a in i.args], i)
                else: v = ex.eval(x, i)
                if i.res: fr.env[i.res] = v
                j += 1
            if cur == latch: break
            nx = [s2 for s2 in ir.succs(ins[j]) if s2 in body]
            if len(nx) != 1 or nx[0] == blk: raise Unsupported('compaction loop')
            cur = nx[0]; fr.i = 0
            if f.blocks[cur][0].op == 'phi': raise Unsupported('compaction loop')
        nm = [v2 for v2, l in mi.args if l == latch][0]; nv = [v2 for v2, l in vi.args if l == latch][0]
        m2 = bits(ex.const(x, mi.ty, nm), n0); v2 = split(ex.flat(ex.const(x, vi.ty, nv), vi.ty), 128, 8)
        goals = [(bnot(bxor(m2[j], mb[j] if j < k else False)), 'compaction loop: the mask bit processed is not the only one removed') for j in range(n0)]
        goals += [(icmp('eq', v2[j], vec[j] if j < k else vec[j+1], 8), 'compaction loop: lane %d is not removed' % k) for j in range(15)]
        batch(pr, [], goals, 'compaction loop', 64)
        br = f.blocks[latch][-1]
        if len(br.extra) == 2:
            c = ex.const(x, *br.args[0]); more = c if br.extra[0] == blk else bnot(c)
            pr.require([], Z(more) == Or(*mb[:k]) if k else Not(more), 'compaction loop: it does not stop exactly when the mask is empty')
        else: raise Unsupported('compaction loop')
# ---------------------------------------------------------------- the kernel loop
def live_in(f):
    """registers live at the start of each block (phis of the block excluded)"""
    use, df = {}, {}
    for b, ins in f.blocks.items():
        u, d = set(), set()
        for i in ins:
            if i.op != 'phi':
                for r in regs(i):
                    if r not in d: u.add(r)
            if i.res: d.add(i.res)
        use[b], df[b] = u, d
    L = {b: set() for b in f.blocks}; ch = True
    while ch:
        ch = False
        for b in f.blocks:
            o = set()
            for s2 in ir.succs(f.blocks[b][-1]):
                o |= L[s2] - {i.res for i in f.blocks[s2] if i.op == 'phi'}
                for i in f.blocks[s2]:
                    if i.op != 'phi': break
                    for v, l in i.args:
                        if l == b and v[0] == 'loc': o.add(v[1])
            n = use[b] | (o - df[b])
            if n != L[b]: L[b] = n; ch = True
    return L
def regs(i):
    r = []
    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'loc' and isinstance(x[1], str): r.append(x[1])
            else:
                for y in x: walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    walk(i.args)
    if i.op == 'call': walk(i.extra)
    return r
class Kernel:
    def __init__(s, ex, hooks, mode, L, f, blk):
        s.ex, s.hooks, s.pr, s.mode, s.L, s.f, s.blk = ex, hooks, hooks.pr, mode, L, f, blk; s.raw, s.end = MODES[mode]
        s.phis = [i for i in f.blocks[blk] if i.op == 'phi']; s.live = sorted(live_in(f)[blk]); s.paths = 0; s.bad = set(); s.blocks = {}
        s.tm = ex.tymap(f)
    # every value of a register as bytes / flags / positions
    def run(s, ent):
        last = None
        ents = [s.entry(x) for x in ent]
        cur = [p.res for p in s.phis if p.ty == ir.I64]
        for cp in cur:
            try: s.attempt(ents, cp); return
            except Unsupported as e: last = e if s.started or last is None else last
        raise last or Unsupported('no loop counter')
    def entry(s, x):
        x.g['E'] = None; return x
    def attempt(s, ents, cp):
        s.cp = cp; s.started = False; ex, pr = s.ex, s.pr
        outs = [p.res for p in s.phis if p.ty == ir.PTR and all(isinstance(x.frames[-1].env[p.res], Ptr) and x.frames[-1].env[p.res].obj == 'dest' for x in ents)]
        if len(outs) != 1: raise Unsupported('no output pointer')
        s.op = outs[0]
        for x in ents:
            v = x.frames[-1].env[cp]; c = x.g['c']
            pr.require(x.pc, icmp('eq', x.frames[-1].env[s.op].off, x.g['w'], 64), 'the kernel starts at another output position')
            s.hooks.flush(ex, x, x.g['w'])
            x.g['B'] = c; x.g['E'] = sub(c, v, 64)
        s.nolin = set()
        # positions: linear in B, E, c, L with the same coefficients at every entry
        s.lin = {}; s.bytes = {}; s.const = {}
        names = [p.res for p in s.phis if p.res not in (cp, s.op)] + s.live
        for r in names:
            t = ir.resolve(ex.mod, s.tm[r]) if s.tm[r] else None; vs = [x.frames[-1].env.get(r, UNDEF) for x in ents]; phi = any(p.res == r for p in s.phis)
            if t == ir.PTR or t == ir.I64:
                k = s.linear(ents, vs, t)
                if k is not None and r not in s.nolin: s.lin[r] = k; continue
                if t == ir.PTR:
                    if all(isinstance(v, Ptr) and v.obj == vs[0].obj and type(v.off) is int and v.off == vs[0].off for v in vs): s.const[r] = vs[0]; continue
                    raise Unsupported('pointer register ' + r)
            s.bytes[r] = t
        s.removed = {}; s.started = True
        for it in range(60):
            try: s.choose(ents); s.iterate(ents); return
            except Retry:
                for r in [r for r in s.lin if r in s.nolin]: del s.lin[r]; s.bytes[r] = ir.I64
        raise Unsupported('invariant inference did not converge')
    def linear(s, ents, vs, t):
        obj = None
        if t == ir.PTR:
            if not all(isinstance(v, Ptr) for v in vs) or len({v.obj for v in vs}) != 1 or vs[0].obj not in ('src', 'dest'): return None
            obj = vs[0].obj; vs = [v.off for v in vs]
        if any(v is UNDEF for v in vs): return None
        for kb, ke, kc, kl in [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0, 1), (-1, 1, 0, 0), (-1, 0, 0, 1), (0, -1, 0, 1), (1, -1, 0, 0), (1, 0, 0, -1), (0, 1, 0, -1), (-1, 0, 0, 0), (0, -1, 0, 0), (0, 0, 0, -1)]:
            if obj == 'dest' and (kb, ke, kc, kl) == (0, 0, 0, 0): continue
            ks = set()
            for x, v in zip(ents, vs):
                ks.add(x.diff(v, combo(x.g, s.L, kb, ke, kl)))
            if len(ks) == 1 and None not in ks: return (obj, kb, ke, kl, ks.pop())
        return None
    # ---- candidate meanings of data registers, byte by byte
    def units(s, v, t):
        if v is UNDEF: v = s.hooks.junk(t[1]) if t[1] > 1 else z3.Bool('junkb')
        if t[0] == 'i' and t[1] == 1 or t[0] == 'v' and t[2][1] == 1: return 1, ([v] if t[0] == 'i' else list(v))
        if t[0] == 'v' and any(q is UNDEF for q in v): v = [s.hooks.junk(t[2][1]) if q is UNDEF else q for q in v]
        fl = s.ex.flat(v, t); w = t[1] if t[0] == 'i' else t[1] * t[2][1]
        if w % 8: raise Unsupported('width %d' % w)
        return 8, split(fl, w, 8)
    def cands(s, x, u):
        """[(name, function of the ghost state)] for one unit (u bits); x: a state with ghost"""
        g = x.g; e = g['e']; P = lambda k: x.mem['src'].byte(x, add(g['E'], k & (2**64 - 1), 64)); b = lambda k: x.mem['src'].byte(x, add(g['c'], k, 64))
        H1, H2 = g['H'][0], g['H'][1]; r = [('e', lambda: Z(e)), ('!e', lambda: Not(e))]
        if s.raw:
            r += [('p0', lambda: And(isb(H2, '\r'), isb(H1, '\n'), isb(b(0), '.'))), ('p1', lambda: And(isb(H1, '\r'), isb(b(0), '\n'), isb(b(1), '.')))]
            q1 = lambda: And(isb(P(-2), '\r'), isb(P(-1), '\n'), isb(P(0), '.')); q2 = lambda: And(isb(P(-1), '\r'), isb(P(0), '\n'), isb(P(1), '.'))
            r += [('q1', q1), ('q2', q2), ('q', None)]
        if u == 1: return [(n, f) for n, f in r if f]
        out = []
        def ch(c, a, b): return lambda: z3.If(c(), K(a), K(b))
        for n, f in r:
            if n == 'e': prs = [(1, 0), (150, 214), (192, 0), (64, 0), (255, 0)]
            elif n == '!e': continue
            elif n in ('p0', 'p1'): prs = [(0, 46), (46, 10), (255, 0), (46, 0)]
            elif n == 'q': out.append(('nextMask', lambda: z3.If(q1(), K(1), z3.If(q2(), K(2), K(0))))); continue
            else: prs = [(1, 0), (2, 0)]
            for a, bb in prs: out.append(('%s?%d:%d' % (n, a, bb), ch(f, a, bb)))
        return out
    def choose(s, ents):
        """for every unit the first candidate that holds at every entry and was not refuted by an iteration"""
        s.sel = {}; pr = s.pr
        for r, t in s.bytes.items():
            vals = [s.units(x.frames[-1].env[r], t) for x in ents]; u = vals[0][0]; sel = []
            for k in range(len(vals[0][1])):
                rem = s.removed.setdefault((r, k), set()); got = None; col = [v[1][k] for v in vals]
                def const_of(v):
                    if u == 1: return v if isinstance(v, bool) else bool(v) if type(v) is int else None
                    return v if type(v) is int else None
                c0 = const_of(col[0])
                if c0 is not None and 'const' not in rem:
                    if all(const_of(v) == c0 for v in col): got = ('const', c0)
                    else: rem.add('const')
                if got is None:
                    for n, _ in s.cands(ents[0], u):
                        if n in rem: continue
                        ok = True
                        for x, v in zip(ents, col):
                            fn = dict(s.cands(x, u))[n]
                            if not s.holds(x, v, fn(), u): ok = False; break
                        if ok: got = (n, None); break
                        rem.add(n)
                sel.append(got)     # None: arbitrary
            s.sel[r] = (u, sel)
    def holds(s, x, v, e, u):
        g = (Z(v) == e) if u == 1 else bv(v, 8) == e
        g = z3.simplify(g)
        if z3.is_true(g): return True
        return s.pr.valid(x.pc, g) or s.pr.valid(x.pc, g, exact=True)
    # ---- facts about positions and contents at the cut point
    def facts(s):
        F = []; L = s.L
        def num(n, f): F.append((n, f))
        num('B<=c', lambda g, x: z3.ULE(bv(g['B'], 64), bv(g['c'], 64))); num('c<E', lambda g, x: z3.ULT(bv(g['c'], 64), bv(g['E'], 64)))
        for k in (0, 2, 4): num('E+%d<=L' % k, lambda g, x, k=k: z3.And(z3.UGE(L, k), z3.ULE(bv(g['E'], 64), L - k)))
        num('w<=c', lambda g, x: z3.ULE(bv(g['w'], 64), bv(g['c'], 64)))
        for W in (16, 32, 64):
            num('B=E%%%d' % W, lambda g, x, W=W: ((bv(g['E'], 64) - bv(g['B'], 64)) & (W - 1)) == 0)
            for k in (0, 2, 4): num('L-E<%d' % (W + k), lambda g, x, q=W + k: z3.ULT(L - bv(g['E'], 64), q))
            num('c=E%%%d' % W, lambda g, x, W=W: ((bv(g['E'], 64) - bv(g['c'], 64)) & (W - 1)) == 0)
            num('c+%d<=E' % W, lambda g, x, W=W: z3.ULE(bv(add(g['c'], W, 64), 64), bv(g['E'], 64)))
            num('aligned%d' % W, lambda g, x, W=W: ((z3.BitVec('addr_src', 64) + bv(g['c'], 64)) & (W - 1)) == 0)
        num('e', lambda g, x: einv(g['e'], g['H']))
        if s.end: num('no terminator', lambda g, x: s.noterm(x, -4, 0))
        return F
    def noterm(s, x, a, b):
        """no terminator starts at one of the positions c+a .. c+b-1"""
        g = x.g; byte = lambda k: x.mem['src'].byte(x, add(g['c'], k, 64)) if k >= 0 else g['H'][-k - 1]
        return And(*[Not(pat([byte(k + j) for j in range(len(p))], p)) for k in range(a, b) for p in TERM if k + len(p) > 0])
    def head(s, ent0):
        ex, L = s.ex, s.L
        st = ent0.clone(); st.pc = [z3.ULE(L, z3.BitVecVal(1 << 62, 64))]; st.eqs = {}; st.steps = 0; fr = st.frames[-1]
        I, E, B, w = ex.fresh(64, 'i'), ex.fresh(64, 'E'), ex.fresh(64, 'B'), ex.fresh(64, 'w')
        st.g.update(E=E, B=B, I=I, c=add(E, I, 64), w=w, e=ex.freshb('e'), H=[ex.fresh(8, 'H%d' % k) for k in (1, 2, 3, 4)], s=None, ev=[], final=None)
        env = {r: fr.env[r] for r in fr.env if r in s.const}
        env[s.cp] = I; env[s.op] = Ptr('dest', w)
        for r, (obj, kb, ke, kl, k) in s.lin.items():
            v = add(combo(st.g, L, kb, ke, kl), k & (2**64 - 1), 64); env[r] = Ptr(obj, v) if obj else v
        for r, (u, sel) in s.sel.items():
            t = s.bytes[r]; cd = dict(s.cands(st, u)); vals = []
            for x in sel:
                if x is None: vals.append(ex.freshb() if u == 1 else ex.fresh(8))
                elif x[0] == 'const': vals.append(x[1])
                else: vals.append(cd[x[0]]())
            if u == 1: env[r] = vals[0] if t[0] == 'i' else vals
            else:
                x = cat(vals, 8); env[r] = x if t[0] == 'i' else ex.unflat(x, 8 * len(vals), t)
        fr.env = env; fr.i = len(s.phis)
        for o in ('srcp',): st.mem[o] = Cells({0: (ir.PTR, Ptr('src', B))})
        st.mem['destp'] = Cells({0: (ir.PTR, Ptr('dest', ex.fresh(64, 'oldw')))})
        st.g['oldw'] = st.mem['destp']
        for o in list(st.mem):
            if (o == 'state' or o.startswith('a:')) and isinstance(st.mem[o], Cells) and set(st.mem[o].d) == {0}: st.mem[o] = Cells({0: (ir.I32, ex.fresh(32, 'st'))})
        st.mem['dest'] = type(st.mem['dest'])()
        for n, f in s.fs: st.assume(f(st.g, st))
        s.g0 = dict(st.g); s.H0 = st.clone()
        return st
    def iterate(s, ents):
        ex, pr = s.ex, s.pr
        s.fs = [(n, f) for n, f in s.facts() if n not in s.bad]
        for x in ents:
            for n, f in list(s.fs):
                g = f(x.g, x)
                if not pr.valid(x.pc, g) and not pr.valid(x.pc, g, exact=True):
                    if n in ('B<=c', 'c<E', 'w<=c', 'e') or n == 'no terminator': raise Fail('at the start of the kernel: ' + n, pr.model)
                    s.bad.add(n); s.fs.remove((n, f))
        ex.n = max(ex.n, 10**6); st = s.head(ents[0])
        s.hooks.arr = []; ex.done = []; ex.deadline and None
        s.exits = []
        s.dry = True; ex.explore([st]); arr = s.hooks.arr
        if not arr: raise Unsupported('the loop is not a loop')
        for y in arr: s.arrive(y)       # the invariant is preserved
        s.dry = False; s.hooks.arr = []; ex.done = []; ex.explore([s.head(ents[0])]); arr = s.hooks.arr
        s.paths = len(arr) + len(ex.done)
        for y in arr: s.arrive(y)       # and every block is decoded as specified
    def block(s, y, n, wend):
        """the n bytes from c have been processed by the code: advance the ghost state over them, checking output, escapes and terminators"""
        ex, pr, g = s.ex, s.pr, y.g; byte = lambda k: y.mem['src'].byte(y, add(g['c'], k, 64)); I = g['I']; h0 = len(s.H0.pc)
        # what was known before the outcome of the loop condition (shared by the exits and the next iteration); if that is not enough, all of it
        cut = next((k for k in range(h0, len(y.pc)) if INC.vars(y.pc[k]) == frozenset([I.get_id()])), len(y.pc))
        bs = [byte(k) for k in range(n)]; esc = [Z(g['e'])]
        for k in range(n): esc.append(INC.name(And(isb(bs[k], '='), Not(esc[k]))))
        cid = s.hooks.cid; rest = (n, cid(wend), cid(y.mem['dest']), tuple((k, cid(o), q) for k, o, q in g['ev']), cid({q: v for q, v in g.items() if q in ('c', 'w', 'e', 'H')}))
        for pc in ([y.pc[:cut]] if not s.dry else []) + ([y.pc] if not s.dry and cut < len(y.pc) else []):
            key = (frozenset(f.get_id() for f in INC.flat(pc)), rest)
            if key in s.blocks: break
            z = y.clone(); z.pc = pc; z.g = dict(g)
            try: s.prove_block(z, n, wend, bs, esc); s.blocks[key] = z; break
            except (Fail, Unsupported):
                if pc is y.pc or cut == len(y.pc): raise
        y.mem['dest'] = type(y.mem['dest'])(); g['ev'] = []; w2 = ex.fresh(64, 'w')
        if s.dry: y.pc = y.pc + [z3.ULE(w2, bv(add(g['c'], n, 64), 64))]
        else: lo, hi = limits(y, wend); y.pc = y.pc + [z3.ULE(bv(lo, 64), w2), z3.ULE(w2, bv(hi, 64))]   # a name for the new output position
        g.update(c=add(g['c'], n, 64), w=w2, e=esc[n], H=(bs[::-1] + g['H'])[:4], s=None)
        if s.end and not s.dry: y.pc = y.pc + [s.noterm(y, -4, 0)]     # proved
    def prove_block(s, y, n, wend, bs, esc):
        if s.dry: return
        ex, pr, g = s.ex, s.pr, y.g
        lanes = block_output(ex, s.hooks, y, wend)
        if len(lanes) != n: raise Unsupported('%d bytes of the stream were consumed but %d were output or dropped' % (n, len(lanes)))
        hist = g['H'][::-1] + bs; goals = []
        for k, (v, m) in enumerate(lanes):
            h1, h2 = hist[k+3], hist[k+2]; dr = drops(esc[k], h1, h2, bs[k], s.raw)
            goals.append((Z(m) == dr, 'stream byte %d of a block: dropped or kept against the specification' % k))
            goals.append((z3.Implies(Not(dr), bv(v, 8) == emits(esc[k], bs[k])), 'stream byte %d of a block: decoded to the wrong value' % k))
        batch(pr, y.pc, goals, 'block', 2)
        if s.end: batch(pr, y.pc, [(q, 'the kernel decodes over a terminator') for q in s.noterm(y, 0, n).children()], 'the kernel decodes over a terminator', 6)
        pc = y.pc[:len(s.H0.pc)]     # positions do not depend on what the bytes are
        for off, t, v in y.mem['dest'].log:
            top = bv(add(limits(y, off)[1], ir.sizeof(ex.mod, t), 64), 64)
            pr.require(pc, z3.ULE(top, s.L), 'a store beyond the input length')
            pr.require(pc, z3.ULE(top, bv(add(g['c'], n, 64), 64)), 'in-place decoding: a store runs past the bytes already read')
        lo, hi = limits(y, wend); pr.require(pc, z3.ULE(bv(lo, 64), bv(hi, 64)), 'output position')
        order(pr, y)
    def settle(s, y, so, wend):
        """the state left the loop: if it processed a block on the way, the counter is known; advance the ghost state"""
        g = y.g; pr = s.pr
        if g.get('settled') or 'I' not in g: return
        g['settled'] = True
        if y.diff(so, g['c']) == 0: return
        if INC.check(y.pc) != z3.sat: return
        I = g['I']; v = sgn(INC.last.model().eval(I, model_completion=True).as_long(), 64)
        if not -256 <= v < 0 or not pr.valid(y.pc, I == v): return
        y.eqs.pop(I.get_id(), None)     # the block's bytes are named as in the rest of the iteration
        s.block(y, -v, wend)
        y.eqs[I.get_id()] = (I, v & (2**64 - 1)); src = y.mem['src']; ax = []
        for key in list(src.offs):
            c, d = src.offs[key]
            if I.get_id() in d and c < 1 << 63 and c >= -v - 8 or I.get_id() in d and c >= 1 << 63: 
                b = src.byte(y, unlin(c, d))
                if not b.eq(src.vars[key]): ax.append(b == src.vars[key])
        y.pc = y.pc + ax; y.mem['destp'] = Cells({0: (ir.PTR, Ptr('dest', g['w']))})
    def arrive(s, y):
        ex, pr = s.ex, s.pr; fr = y.frames[-1]
        if fr.f is not s.f or fr.blk != s.blk: raise Unsupported('another loop')
        step = y.diff(fr.env[s.cp], s.g0['I'])
        if step is None or not 0 < step <= 256: raise Unsupported('loop step')
        wv = fr.env[s.op]
        if not isinstance(wv, Ptr) or wv.obj != 'dest': raise Fail('the output pointer is lost')
        s.block(y, step, wv.off)
        for n, f in s.fs:
            g = f(y.g, y)
            if s.dry and n in ('w<=c', 'no terminator'): continue
            if not pr.valid(y.pc, g) and not pr.valid(y.pc, g, exact=True):
                if n in ('B<=c', 'w<=c', 'e', 'no terminator', 'c<E'): raise Fail('after an iteration: ' + n, pr.model)
                s.bad.add(n); raise Retry()
        again = False
        for r, (obj, kb, ke, kl, k) in s.lin.items():
            if not any(p.res == r for p in s.phis): continue
            v = fr.env[r]; off = v.off if isinstance(v, Ptr) else v; want = add(combo(y.g, s.L, kb, ke, kl), k & (2**64 - 1), 64)
            if (isinstance(v, Ptr) and v.obj != obj) or off is UNDEF or y.diff(off, want) != 0 and not pr.valid(y.pc, bv(off, 64) == bv(want, 64), exact=True):
                if obj is not None: raise Unsupported('loop-carried pointer')
                s.nolin.add(r); again = True
        for r, (u, sel) in s.sel.items():
            if not any(p.res == r for p in s.phis): continue
            cd = dict(s.cands(y, u)); vals = s.units(fr.env[r], s.bytes[r])[1]; todo = []
            for k, x in enumerate(sel):
                if x is None: continue
                e = (Z(x[1]) if u == 1 else K(x[1])) if x[0] == 'const' else cd[x[0]]()
                q = z3.simplify(Z(vals[k]) == e if u == 1 else bv(vals[k], 8) == e)
                if not z3.is_true(q): todo.append((k, x, q))
            if todo:
                al = z3.And(*[q for _, _, q in todo]); pr.n += 1
                if INC.check(y.pc + [z3.Not(al)], 60000) != z3.unsat:
                    for k, x, q in todo:
                        if not pr.valid(y.pc, q) and not pr.valid(y.pc, q, exact=True): s.removed[(r, k)].add(x[0]); again = True
        if again: raise Retry()
class Retry(Exception): pass
def combo(g, L, kb, ke, kl):
    r = 0
    for k, v in ((kb, g['B']), (ke, g['E']), (kl, L)):
        if k == 1: r = add(r, v, 64)
        elif k == -1: r = sub(r, v, 64)
    return r
# ---------------------------------------------------------------- whole function
def post(ex, hooks, st, L, mode):
    """DEC(mode) at a return"""
    pr = hooks.pr; g = st.g; raw, end = MODES[mode]
    if g['final'] is not None:
        ret, mark, sp, stop = g['final']
        if st.mem['srcp'].d.get(0, (0, 0))[1] is not mark[0] or st.mem['destp'].d.get(0, (0, 0))[1] is not mark[1]: raise Fail('a position is changed after the scalar decoder reported it')
        if 'sfin' in g and isinstance(sp, Ptr) and sp.obj == 'state' and st.mem['state'] is not g['sfin']: raise Fail('the state is changed after the scalar decoder reported it')
        pr.require(st.pc, icmp('eq', st.ret, ret, 32), 'the end indication of the scalar decoder is not passed on')
        if g.get('null') is False and not (isinstance(sp, Ptr) and sp.obj == 'state'): raise Fail('the final state is not reported to the caller')
        return
    so = st.mem['srcp'].d[0][1]; do = st.mem['destp'].d[0][1]
    if not isinstance(so, Ptr) or so.obj != 'src' or not isinstance(do, Ptr) or do.obj != 'dest': raise Fail('*src or *dest points elsewhere')
    if hooks.kern is not None: hooks.kern.settle(st, so.off, do.off); do = st.mem['destp'].d[0][1]
    if st.mem['dest'].log: raise Unsupported('stores outside the kernel loop')
    order(pr, st)
    pr.require(st.pc, icmp('eq', do.off, g['w'], 64), 'the output position is wrong')
    k = st.diff(so.off, g['c'])
    if k is None: k = distance(pr, st, so.off, g['c'], 'source end position')
    if k < 0 or k > 8: raise Fail('reported read position is %d bytes from the specification' % k)
    if g['s'] is None:
        if k: raise Fail('the reported read position is beyond what was decoded')
        pr.require(st.pc, icmp('eq', so.off, L, 64), 'not all of the input was read')
        pr.require(st.pc, icmp('eq', st.ret, 0, 32), 'the end indication is wrong')
        if not g['null']:
            v = st.mem['state'].d[0][1]; pr.require(st.pc, Or(*[And(c, icmp('eq', v, t, 32) if raw or t != NONE else Or(icmp('eq', v, NONE, 32), icmp('eq', v, CRLF, 32))) for c, t in truestates(st, mode)]), 'the final state is wrong')
        return
    for y, em in ghost_steps(ex, pr, st, k, raw, end):
        if em: raise Fail('%d decoded bytes are lost' % len(em))
        pr.require(y.pc, icmp('eq', st.ret, y.g['ended'], 32), 'the end indication is wrong')
        if not y.g['ended']:
            pr.require(y.pc, icmp('eq', so.off, L, 64), 'not all of the input was read')
            if not g['null']: pr.require(y.pc, icmp('eq', y.mem['state'].d[0][1], y.g['s'], 32), 'the final state is wrong')
def start(mode, null, s0):
    st = State(); L = z3.BitVec('len', 64); st.pc = [z3.ULE(L, z3.BitVecVal(1 << 62, 64))]
    def chk(ex, st, off, n, kind):
        st.g['ev'] = st.g['ev'] + [('L', off, n)]; pr = ex.hooks.pr
        pr.require(st.pc, z3.And(z3.ULE(bv(add(off, n, 64), 64), L), z3.ULT(bv(off, 64), L)), 'read outside the source')
        if ex.align > 2 and n >= 16: pr.require(st.pc, ((z3.BitVec('addr_src', 64) + bv(off, 64)) & (ex.align - 1)) == 0, 'an aligned load from an unaligned address')
    st.mem['src'] = Bytes('src', chk)
    class DLog(Log):
        def store(s, ex, st, off, t, v):
            if ex.align > 2 and ir.sizeof(ex.mod, t) >= 16: raise Fail('an aligned store to the output')
            st.g['ev'] = st.g['ev'] + [('S', off, ir.sizeof(ex.mod, t))]; return DLog(s.log + ((off, t, v),))
    st.mem['dest'] = DLog()
    cell_ptr(st, 'srcp', ir.PTR, Ptr('src', 0)); cell_ptr(st, 'destp', ir.PTR, Ptr('dest', 0))
    if not null: cell_ptr(st, 'state', ir.I32, s0)
    e, H = virtual(s0)
    st.g = dict(c=0, w=0, s=s0, e=e, H=H, ended=0, ev=[], final=None, L=L, null=null)
    return st, L
def targets(mod):
    """mode -> function that the initialisation code of this unit installs"""
    r = {}
    for f in mod.funcs.values():
        ir.materialize(mod, f)
        for b in f.blocks.values():
            for i in b:
                if i.op == 'store':
                    v, p = i.args[0][1], i.args[1][1]
                    if v[0] == 'glb' and p[0] == 'glb':
                        for m, g in PTRS.items():
                            if p[1][1:].strip('"') == g: r[m] = v[1][1:].strip('"')
    return r
def scalars(dec):
    """functions of decoder.cc known to satisfy DEC(mode): the ones units_dec proves and functions that do nothing but call them"""
    r = {ptr_target(dec, PTRS[m]): m for m in PTRS}
    for f in dec.funcs.values():
        if f.name in r: continue
        ir.materialize(dec, f)
        if len(f.blocks) != 1: continue
        ins = [i for i in f.blocks[f.entry] if i.op != 'nop']
        if [i.op for i in ins] == ['call', 'ret'] and ins[0].extra[0] == 'glb' and [a[1] for a in ins[0].args] == [('loc', n) for n, _ in f.params] and ins[1].args and ins[1].args[0][1] == ('loc', ins[0].res):
            m = r.get(ins[0].extra[1][1:].strip('"'))
            if m: r[f.name] = m
    return r
def prove(unit, mode, null, pr, deadline):
    mod = ir.parse(build.llvm_ir(unit)); fn = targets(mod).get(mode)
    if fn is None or fn not in mod.funcs: raise Unsupported('no decoder of mode %s is installed by %s' % (mode, unit))
    dec = ir.parse(build.llvm_ir('decoder.cc')); sc = scalars(dec)
    f = mod.funcs[fn]; lut = Lut(build.lut(unit, UNITS[unit])) if UNITS[unit] else None
    NAME[0] = INC.name
    hooks = SHooks(pr, mode, {k for k, v in sc.items() if v == mode}, {k: v for k, v in sc.items() if v != mode}, lut, None); ex = Exec(mod, hooks); ex.deadline = deadline; info = dict(fn=fn, paths=0, arr=0)
    ent = []
    for s0 in (STATES[mode] if not null else (CRLF,)):
        ex.n = 0; st, L = start(mode, null, s0); hooks.arr = []; ex.done = []
        ex.enter(st, f, [Ptr('srcp', 0), Ptr('destp', 0), L, Ptr(None, 0) if null else Ptr('state', 0)]); ex.explore([st])
        for x in ex.done: post(ex, hooks, x, L, mode); info['paths'] += 1
        ent += hooks.arr
    info['arr'] = len(ent); blks = {(x.frames[-1].f.name, x.frames[-1].blk) for x in ent}
    if not ent: return info
    if len(blks) != 1: raise Unsupported('several kernel loops')
    x = ent[0]; k = Kernel(ex, hooks, mode, L, x.frames[-1].f, x.frames[-1].blk); hooks.kern = k; k.run(ent)
    for x in ex.done: post(ex, hooks, x, L, mode); info['paths'] += 1
    info['arr'] += k.paths; return info
def task(unit, mode, null, limit):
    t = time.time(); pr = Prover(); o = dict(name='DEC(%s)%s: %s' % (mode, ', no state' if null else '', unit), functions=[], backend='irv+z3 (QF_BV)')
    try:
        i = prove(unit, mode, null, pr, time.time() + limit); o['functions'] = ['%s:%s' % (unit, i['fn'])]
        o.update(status='proved', count=pr.n, detail='%d paths' % (i['paths'] + i['arr']))
    except Fail as e: o.update(status='refuted', count=max(1, pr.n), detail='%s; model %s' % (e.what, str(e.model)[:800]))
    except Unknown as e: o.update(status='unknown', count=max(1, pr.n), detail=str(e))
    except Unsupported as e: o.update(status='unsupported', count=max(1, pr.n), detail=str(e))
    o['time'] = time.time() - t; return [o]
COST = ['decoder_sse2.cc', 'decoder_avx2.cc', 'decoder_vbmi2.cc', 'decoder_ssse3.cc', 'decoder_avx.cc']
def tasks(arg, tier):
    lim = 420 if tier == 'quick' else 840; r = []; ms = [m for m in ('end', 'raw', 'plain') if m in arg.split()]
    for m in ms:
        for null in ((False, True) if m != 'end' else (False,)):
            for u in COST: r.append(('simd:%s:%s:%s' % (u, m, null), task, (u, m, null, lim)))
    return r + [('lemma:' + m, lemma_fsm, (m,)) for m in ms]

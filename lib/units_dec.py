"""Contracts and proofs for the decoder (D01..D05, E04).
Contract DEC(mode) of every decode function (src**, dest**, len, state*): the bytes read are folded through the decoder
specification FSM `fsm`; exactly the emitted bytes are appended at *dest; *src, *dest, *state and the return value report
where the fold stopped. Modes: plain (no unstuffing), raw (dot unstuffing), end (raw + end search)."""
import sys, time, z3, traceback
import build
from irv import ir
from irv.ir import Unsupported
from irv.val import *
from irv.sym import *
from irv import quick
from irv.inc import INC
CRLF, EQ, CR, NONE, DT, DTCR, CEQ = range(7)
MODES = {'plain': (False, False), 'raw': (True, False), 'end': (True, True)}
STATES = {'plain': (CRLF, EQ, NONE), 'raw': (CRLF, EQ, CR, NONE), 'end': (CRLF, EQ, CR, NONE, DT, DTCR, CEQ)}
BITS = 64
def eqb(b, v): return b == z3.BitVecVal(ord(v) if isinstance(v, str) else v, 8)
def fsm(s, b, raw, end):
    """specification: alternatives (condition, next state, emitted byte or None, ended)"""
    r = []; rest = []
    def alt(c, s2, emit=None, ended=0): r.append((z3.And(c, *[z3.Not(x) for x in rest]) if rest else c, s2, emit, ended)); rest.append(c)
    def fin(s2, emit=None): r.append((z3.And(*[z3.Not(x) for x in rest]) if rest else z3.BoolVal(True), s2, emit, 0))
    if s == CEQ:
        if end: alt(eqb(b, 'y'), NONE, None, 1)
        s = EQ
    if s == EQ:
        if raw: alt(eqb(b, '\r'), CR, b - 106)
        fin(NONE, b - 106); return r
    if s == CRLF and raw: alt(eqb(b, '.'), DT if end else NONE)
    if s == CRLF and end: alt(eqb(b, '='), CEQ)
    if s == DT: alt(eqb(b, '\r'), DTCR); alt(eqb(b, '='), CEQ)
    if s == DTCR: alt(eqb(b, '\n'), CRLF, None, 2)
    if s == CR and raw: alt(eqb(b, '\n'), CRLF)
    alt(eqb(b, '\r'), CR if raw else NONE); alt(eqb(b, '\n'), NONE); alt(eqb(b, '='), EQ)
    fin(NONE, b - 42); return r
class Fail(Exception):
    def __init__(s, what, model=None): s.what = what; s.model = model
class Unknown(Exception): pass
class Prover:
    """collects obligations; every query goes to a z3 bit-vector solver"""
    def __init__(s): s.n = 0; s.t = 0.0
    def valid(s, pc, goal, timeout=60000, exact=False):
        if goal is True: s.n += 1; return True
        goal = boolz(goal)
        if z3.is_and(goal): return all(s.valid(pc, g, timeout, exact) for g in goal.children())
        t = time.time(); ng = z3.Not(goal)
        if exact is False and INC.words(goal):      # a fact about positions: try what is known about positions only (shared by many paths)
            q = [f for f in INC.flat(pc) if INC.words(f)]; V = INC.vars(ng)
            for q in ([f for f in q if INC.vars(f) <= V], INC.slice(q, ng)):
                if INC.raw(q + [ng], timeout) == z3.unsat: s.t += time.time() - t; s.n += 1; return True
        r = INC.check(list(pc) + [ng], timeout) if exact else INC.raw(INC.slice(pc, ng) + [ng], timeout); s.t += time.time() - t; s.n += 1
        if r == z3.unknown:
            if exact: raise Unknown('solver timeout')
            return False
        s.model = INC.last.model() if r == z3.sat and INC.last is not None else None
        return r == z3.unsat
    def require(s, pc, goal, what):
        if not s.valid(pc, goal) and not s.valid(pc, goal, exact=True): raise Fail(what, s.model)
def cell_ptr(st, obj, t, v): st.mem[obj] = Cells({0: (t, v)})
SPECIALS = (10, 13, 0x2e, 0x3d, 0x79)
class ScalarHooks(Hooks):
    fork_bool = True
    def __init__(s, pr, mode): s.pr = pr; s.mode = mode; s.raw, s.end = MODES[mode]; s.arr = []
    def header(s, ex, st, f, blk):
        if blk in ir_loops(f): s.arr.append(st); return True
        return False
    def alloca(s, ex, st, i): return Cells()
_loops = {}
def ir_loops(f):
    if not hasattr(f, 'cuts_'): f.cuts_ = ir.cutpoints(f)
    return f.cuts_
def ghost_steps(ex, pr, st, k, raw, end):
    """run the specification over k bytes from the ghost cursor: list of (state, emitted bytes); splits on undetermined cases"""
    todo = [(st, [])]
    for j in range(k):
        nxt = []
        for x, em in todo:
            if x.g['ended']: raise Fail('specification ended before the position the code reports')
            b = x.mem['src'].byte(x, x.g['c']); alts = [a for a in fsm(x.g['s'], b, raw, end)]
            alts = [a for a in alts if ex.sat(x, a[0])]
            for q, (c, s2, e, ended) in enumerate(alts):
                y = x if q == len(alts) - 1 else x.clone(); y.assume(c)
                y.g['s'] = s2; y.g['c'] = add(y.g['c'], 1, BITS); y.g['ended'] = ended; nxt.append((y, em + ([e] if e is not None else [])))
        todo = nxt
    return todo
def check_log(pr, st, em, wend):
    """the stores since the last cut write exactly the bytes em at the ghost output position, and the output position advances over them"""
    w = st.g['w']; cells = {}
    for off, t, v in st.mem['dest'].log:
        n = ir.sizeof(None, t); d = distance(pr, st, off, w, 'store at a position unrelated to the output position')
        for k in range(n): cells[d + k] = ext(v, 8 * k, 8, 8 * n) if t[0] == 'i' else v[k]
    m = distance(pr, st, wend, w, 'output position')
    if m != len(em): raise Fail('%d bytes were output where the specification outputs %d' % (m, len(em)))
    for k in sorted(cells):
        if k < 0: raise Fail('a store before the output position')
        if k >= m: raise Fail('a store beyond the output position')
    for k, e in enumerate(em):
        if k not in cells: raise Fail('an output byte was not written')
        pr.require(st.pc, icmp('eq', cells[k], e, 8), 'output byte differs from the specification')
    st.g['w'] = wend; st.mem['dest'] = Log()
def scalar_state(mode, null, s0):
    st = State(); L = z3.BitVec('len', BITS)
    st.pc = [z3.ULE(L, z3.BitVecVal(1 << 62, BITS))]
    def chk(ex, st, off, n, kind):
        st.g['ev'] = st.g['ev'] + [('L', off, n)]
        ex.hooks.pr.require(st.pc, z3.And(z3.ULE(bv(add(off, n, 64), 64), L), z3.ULT(bv(off, 64), L)), 'read outside the source')
    src = Bytes('src', chk); st.mem['src'] = src
    class DLog(Log):
        def store(s, ex, st, off, t, v): st.g['ev'] = st.g['ev'] + [('S', off, ir.sizeof(None, t))]; return DLog(s.log + ((off, t, v),))
    st.mem['dest'] = DLog()
    b0, d0 = z3.BitVec('src0', BITS), z3.BitVec('dest0', BITS)
    # positions are counted from the start of the region this call works on
    cell_ptr(st, 'srcp', ir.PTR, Ptr('src', 0)); cell_ptr(st, 'destp', ir.PTR, Ptr('dest', 0))
    if not null: cell_ptr(st, 'state', ir.I32, s0)
    st.g = dict(c=0, w=0, s=s0, ended=0, ev=[], delta=0, keys={})
    return st, L
def order_ok(pr, st, what):
    """in place (dest == src): no byte is read after it was overwritten"""
    ev = st.g['ev']; 
    for i, (k, o, n) in enumerate(ev):
        if k != 'S': continue
        for k2, o2, n2 in ev[i+1:]:
            if k2 != 'L': continue
            pr.require(st.pc, z3.ULE(bv(add(o, n, 64), 64), bv(o2, 64)), 'in-place decoding: a source byte is read after it was overwritten (%s)' % what)
    st.g['ev'] = []
def distance(pr, st, a, b, what):
    """a - b as a constant: syntactically, or the k in 0..12 the path condition implies"""
    k = st.diff(a, b)
    if k is not None: return k
    d = sub(a, b, 64); r = quick.diff_range(list(INC.flat(st.pc)), a, b)
    if r is not None and r[0] == r[1] and -2 <= r[0] <= 12 and pr.valid(st.pc, bv(d, 64) == (r[0] & (2**64 - 1))): return r[0]
    if INC.check(st.pc) != z3.sat: return 0    # the path is infeasible
    v = INC.last.model().eval(bv(d, 64), model_completion=True).as_long()
    if v >= 1 << 63: v -= 1 << 64
    if -2 <= v <= 12 and pr.valid(st.pc, bv(d, 64) == v): return v
    raise Unsupported(what)
def post_scalar(ex, pr, st, L, mode, null, st0):
    """postcondition of DEC(mode) at a return"""
    raw, end = MODES[mode]
    so = st.mem['srcp'].d[0][1]; do = st.mem['destp'].d[0][1]
    if not isinstance(so, Ptr) or so.obj != 'src' or not isinstance(do, Ptr) or do.obj != 'dest': raise Fail('*src or *dest points elsewhere')
    wend = do.off
    ret = st.ret; endpos = so.off
    k = distance(pr, st, endpos, st.g['c'], 'source end position')
    if k < 0 or k > 12: raise Fail('reported read position is %d bytes from the specification' % k)
    for y, em in ghost_steps(ex, pr, st, k, raw, end):
        if not y.g['ended']: 
            pr.require(y.pc, icmp('eq', endpos, L, 64), 'not all of the input was read')
        pr.require(y.pc, icmp('eq', ret, y.g['ended'], 32), 'the end indication is wrong')
        check_log(pr, y, em, wend)
        pr.require(y.pc, z3.ULE(bv(wend, 64), bv(endpos, 64)), 'more output than input')
        if not null and not y.g['ended']:
            pr.require(y.pc, icmp('eq', y.mem['state'].d[0][1], y.g['s'], 32), 'the final state is wrong')
        order_ok(pr, y, 'end')
def facts(cfg):
    """candidate invariants at the loop head for a ghost configuration (delta, state)"""
    delta, s = cfg; F = []
    def byte(st, k): return st.mem['src'].byte(st, add(st.g['c'], k & ((1 << 64) - 1), 64))
    if delta:
        for v in SPECIALS: F.append(('prev==%d' % v, lambda st, L, v=v: eqb(byte(st, -1), v)))
    for v in SPECIALS:
        F.append(('next!=%d' % v, lambda st, L, v=v: z3.Not(eqb(byte(st, 0), v))))
        for u in SPECIALS: F.append(('next!=%d,%d' % (v, u), lambda st, L, v=v, u=u: z3.Not(z3.And(eqb(byte(st, 0), v), eqb(byte(st, 1), u)))))
    for k in (0, 1, 2, 3): F.append(('pos<=len-%d' % k, lambda st, L, k=k: z3.And(z3.UGE(L, k), z3.ULE(bv(st.g['c'], 64), L - k))))
    for k in (0, 1, 2): F.append(('out<=pos-%d' % k, lambda st, L, k=k: z3.And(z3.UGE(bv(st.g['c'], 64), k), z3.ULE(bv(st.g['w'], 64), bv(st.g['c'], 64) - k))))
    return F
class NeedChoice(Exception):
    def __init__(s, blk, cands): s.blk = blk; s.cands = cands
def prove_scalar(mod, fname, mode, pr, deadline):
    """DEC(mode) holds for the function: every path between cut points is checked against the ghost FSM run"""
    f = mod.funcs[fname]; info = dict(configs=0, facts=0, paths=0, inv={}); errs = []
    hooks = ScalarHooks(pr, mode); ex = Exec(mod, hooks); ex.deadline = deadline
    for null in ((False, True) if mode != 'end' else (False,)):
        ent = []
        for s0 in (STATES[mode] if not null else (CRLF,)):
            st, L = scalar_state(mode, null, s0); hooks.arr = []; ex.done = []
            ex.enter(st, f, [Ptr('srcp', 0), Ptr('destp', 0), L, Ptr(None, 0) if null else Ptr('state', 0)]); ex.explore([st])
            for x in ex.done: post_scalar(ex, pr, x, L, mode, null, s0); info['paths'] += 1
            ent += hooks.arr
        todo = [{}]; errs = []; ok = not ent
        while todo and not ok:
            ch = todo.pop(0)
            try: Loops(ex, hooks, pr, mode, null, L, info, ch).run(ent); ok = True
            except NeedChoice as n:
                if n.cands: todo = [dict(ch, **{n.blk: c}) for c in n.cands] + todo
                else: errs.append(Unsupported('no cursor recognised at ' + n.blk))
            except (Fail, Unsupported) as e: errs.append(e)
        if not ok:
            fl = [e for e in errs if isinstance(e, Fail)]
            raise fl[0] if fl else errs[0]
    return info
class Loops:
    """inductive invariants at all cut points of one activation; choice: cut point -> (phi tracking the source, phi tracking the output)"""
    def __init__(s, ex, hooks, pr, mode, null, L, info, choice):
        s.ex, s.hooks, s.pr, s.mode, s.null, s.L, s.info, s.choice = ex, hooks, pr, mode, null, L, info, choice
        s.raw, s.end = MODES[mode]; s.base = {}; s.inv = {}; s.pending = []
    def cands(s, st):
        fr = st.frames[-1]; phis = [i for i in fr.f.blocks[fr.blk] if i.op == 'phi']; cur = []
        for ph in phis:
            v = fr.env[ph.res]
            if isinstance(v, Ptr) and v.obj == 'src': cur.append((ph.res, 0, True))
            elif ph.ty == ir.I64: cur += [(ph.res, neg(s.L, 64), False), (ph.res, 0, False)]
        outs = [ph.res for ph in phis if isinstance(fr.env[ph.res], Ptr) and fr.env[ph.res].obj == 'dest'] + [ph.res for ph in phis if ph.ty == ir.I64]
        r = []
        for c in cur:
            for o in outs:
                if o == c[0]: continue
                try: s.sync(st.clone(), (c, o)); r.append((c, o))
                except (Fail, Unsupported): pass
        return r
    def sync(s, st, ch=None):
        """ghost catches up with the code at a cut point -> [(configuration, state)]"""
        fr = st.frames[-1]; cur, out = ch or s.choice[fr.blk]; last = None; pr = s.pr
        v = fr.env[cur[0]]
        if cur[2] != (isinstance(v, Ptr) and v.obj == 'src') or v is UNDEF: raise Unsupported('cursor of another kind')
        x = v.off if cur[2] else sub(v, cur[1], 64)
        v = fr.env[out]; o = v.off if isinstance(v, Ptr) else v
        for delta in (0, 1):
            k = distance(pr, st, add(x, delta, 64), st.g['c'], 'cursor step')
            if k < 0 or k > 12: last = Fail('cursor moved by %d' % k); continue
            try:
                r = []
                for y, em in ghost_steps(s.ex, pr, st.clone(), k, s.raw, s.end):
                    if y.g['ended']: raise Fail('the specification ended but the code goes on')
                    check_log(pr, y, em, o); order_ok(pr, y, 'loop'); y.g['delta'] = delta
                    pr.require(y.pc, z3.ULE(bv(y.g['w'], 64), bv(sub(y.g['c'], delta, 64), 64)), 'in-place decoding: output overtakes input')
                    r.append(((fr.blk, delta, y.g['s']), y))
                return r
            except Fail as e: last = last or e
        raise last
    def arrive(s, st):
        fr = st.frames[-1]; blk = fr.blk
        if blk not in s.choice: raise NeedChoice(blk, s.cands(st))
        envs = [dict(f.env) for f in st.frames]; new = blk not in s.base
        if new: s.base[blk] = (st.clone(), envs, [set() for _ in envs])
        else:   # registers that differ between arrivals are not loop invariant
            b, keep, drop = s.base[blk]; ch = False
            for d, e in enumerate(keep):
                for k in list(e):
                    if k not in envs[d]: del e[k]; ch = True
                    elif k not in drop[d] and not same(e[k], envs[d][k]): drop[d].add(k); ch = True
            if ch: s.pending += [c for c in s.inv if c[0] == blk and c not in s.pending]
        for cfg, y in s.sync(st):
            new = cfg not in s.inv
            if new: s.inv[cfg] = dict(facts(cfg[1:]))
            ch = False
            for n, fn in list(s.inv[cfg].items()):
                if not s.pr.valid(y.pc, fn(y, s.L)): del s.inv[cfg][n]; ch = True
            if (new or ch) and cfg not in s.pending: s.pending.append(cfg)
    def head(s, cfg):
        blk, delta, g = cfg; b, keep, drop = s.base[blk]; ex = s.ex; L = s.L
        st = b.clone(); st.pc = [z3.ULE(L, z3.BitVecVal(1 << 62, BITS))]; st.eqs = {}; st.g['keys'] = {}; st.steps = 0
        c = ex.fresh(64, 'c'); w = ex.fresh(64, 'w'); st.g.update(c=c, w=w, s=g, ended=0, ev=[], delta=delta)
        cur, out = s.choice[blk]
        for d, fr in enumerate(st.frames):
            tm = ex.tymap(fr.f); fr.env = dict(keep[d])
            for k in drop[d]:
                t = tm[k]; fr.env[k] = (ex.fresh(t[1]) if t[1] > 1 else ex.freshb()) if t and t[0] == 'i' else UNDEF
        fr = st.frames[-1]; phis = [i for i in fr.f.blocks[blk] if i.op == 'phi']
        for ph in phis:
            if ph.res == cur[0]: x = sub(c, delta, 64); fr.env[ph.res] = Ptr('src', x) if cur[2] else add(x, cur[1], 64)
            elif ph.res == out: fr.env[ph.res] = Ptr('dest', w) if ph.ty == ir.PTR else w
            elif ph.ty[0] == 'i': fr.env[ph.res] = ex.fresh(ph.ty[1]) if ph.ty[1] > 1 else ex.freshb()
            else: raise Unsupported('loop-carried pointer')
        if not s.null: st.mem['state'] = Cells({0: (ir.I32, ex.fresh(32, 'st'))})
        st.mem['dest'] = type(st.mem['dest'])()
        for fn in s.inv[cfg].values(): st.assume(fn(st, L))
        fr.i = len(phis); return st
    def run(s, ent):
        for a in ent: s.arrive(a.clone())
        iters = 0
        while s.pending:
            iters += 1
            if iters > 400: raise Unsupported('invariant inference did not converge')
            cfg = s.pending.pop(0); s.hooks.arr = []; s.ex.done = []
            s.ex.explore([s.head(cfg)])
            for y in s.hooks.arr: s.arrive(y)
        # the invariants are inductive: the paths from them to a return establish the postcondition
        for cfg in s.inv:
            s.hooks.arr = []; s.ex.done = []; s.ex.explore([s.head(cfg)])
            for x in s.ex.done: post_scalar(s.ex, s.pr, x, s.L, s.mode, s.null, None); s.info['paths'] += 1
        s.info['configs'] += len(s.inv); s.info['facts'] += sum(len(v) for v in s.inv.values()); s.info['inv'].update({str(k): sorted(v) for k, v in s.inv.items()})
def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if type(a) is int or type(a) is bool: return a == b
    if isinstance(a, Ptr): return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, z3.ExprRef): return a.eq(b)
    if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Cat): return a.pw == b.pw and len(a.p) == len(b.p) and all(same(x, y) for x, y in zip(a.p, b.p))
    if isinstance(a, PIte): return len(a.alts) == len(b.alts) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    return False
PTRS = {'plain': '_ZN9RapidYenc10_do_decodeE', 'raw': '_ZN9RapidYenc14_do_decode_rawE', 'end': '_ZN9RapidYenc18_do_decode_end_rawE'}
def ptr_target(mod, g):
    import re
    return re.search(r'@([\w.$]+)', mod.globals[g]).group(1)
def task_scalar(mode, limit):
    t = time.time(); pr = Prover(); mod = ir.parse(build.llvm_ir('decoder.cc')); fn = ptr_target(mod, PTRS[mode])
    o = dict(name='DEC(%s): decoder.cc %s' % (mode, fn), functions=[fn], backend='irv+z3 (QF_BV)')
    try:
        i = prove_scalar(mod, fn, mode, pr, time.time() + limit)
        o.update(status='proved', count=pr.n, detail='%d invariant configurations, %d facts, %d paths to a return' % (i['configs'], i['facts'], i['paths']))
    except Fail as e: o.update(status='refuted', count=max(1, pr.n), detail='%s; model %s' % (e.what, str(e.model)[:800]))
    except Unknown as e: o.update(status='unknown', count=max(1, pr.n), detail=str(e))
    except Unsupported as e: o.update(status='unsupported', count=max(1, pr.n), detail=str(e))
    o['time'] = time.time() - t; return [o]
def tasks(arg, tier):
    """arg: e.g. 'plain raw' -> proof tasks for these modes"""
    lim = 150 if tier == 'quick' else 600
    return [('scalar:' + m, task_scalar, (m, lim)) for m in arg.split()]

"""Symbolic executor for LLVM IR functions, cut at loop headers and at calls that have a contract."""
import z3, time
from . import ir
from .ir import Unsupported
from .val import *
from .inc import INC
from . import quick
class Split(Exception):
    """the value of a term has to be known: the state is split over its possible values and the instruction re-executed"""
    def __init__(s, term, w): s.term = term; s.w = w
class OutOfBounds(Unsupported): pass
class State:
    __slots__ = ('frames', 'mem', 'pc', 'g', 'eqs', 'ret', 'steps')
    def __init__(s): s.frames = []; s.mem = {}; s.pc = []; s.g = {}; s.eqs = {}; s.ret = None; s.steps = 0
    def clone(s):
        t = State(); t.frames = [f.clone() for f in s.frames]; t.mem = dict(s.mem); t.pc = list(s.pc); t.g = dict(s.g); t.eqs = dict(s.eqs); t.ret = s.ret; t.steps = s.steps
        return t
    def assume(s, c):
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        s.pc.append(c)
        if z3.is_eq(c) and z3.is_bv(c.arg(0)):
            a, b = c.arg(0), c.arg(1)
            if z3.is_bv_value(b): s.eqs[a.get_id()] = (a, b.as_long())
            elif z3.is_bv_value(a): s.eqs[b.get_id()] = (b, a.as_long())
    def lin(s, x, w=64):
        c, d = lin(x, w)
        if s.eqs and any(i in s.eqs for i in d):
            M = (1 << w) - 1; d = dict(d)
            for i in list(d):
                if i in s.eqs: c = c + d.pop(i)[1] * s.eqs[i][1] & M
        return c, d
    def diff(s, a, b, w=64):
        """a-b if it is a constant (signed), else None"""
        c1, d1 = s.lin(a, w); c2, d2 = s.lin(b, w)
        if d1.keys() != d2.keys() or any(d1[i][1] != d2[i][1] for i in d1): return None
        return sgn((c1 - c2) & ((1 << w) - 1), w)
class Frame:
    __slots__ = ('f', 'blk', 'prev', 'i', 'env', 'call')
    def clone(s):
        t = Frame(); t.f, t.blk, t.prev, t.i, t.call = s.f, s.blk, s.prev, s.i, s.call; t.env = dict(s.env); return t
class Cells:
    """small objects (locals, out parameters): a map from constant offsets to typed values"""
    def __init__(s, d=None): s.d = d or {}
    def load(s, ex, st, off, t):
        if type(off) is not int:
            c, d = st.lin(off)
            if d: raise Unsupported('symbolic offset into a small object')
            off = c
        n = ir.sizeof(ex.mod, t)
        if off in s.d:
            t2, v = s.d[off]
            if t2 == t: return v
            if v is UNDEF: return UNDEF
            if ir.sizeof(ex.mod, t2) == n and t != ir.PTR and t2 != ir.PTR: return ex.bitcast(v, t2, t)
        # compose from pieces
        parts = []; k = 0
        while k < n:
            for o, (t2, v) in s.d.items():
                m = ir.sizeof(ex.mod, t2)
                if o <= off + k < o + m:
                    if t2 == ir.PTR or v is UNDEF: raise Unsupported('mixed access')
                    w = m * 8; b = ex.flat(v, t2); j = off + k - o
                    parts += [ext(b, 8 * q, 8, w) for q in range(j, min(m, j + n - k))]; k += min(m, j + n - k) - j; break
            else: raise Unsupported('load of an uninitialised cell %s+%d %s' % (st, off, t))
        return ex.unflat(cat(parts, 8), n * 8, t)
    def store(s, ex, st, off, t, v):
        if type(off) is not int:
            c, d = st.lin(off)
            if d: raise Unsupported('symbolic offset into a small object')
            off = c
        n = ir.sizeof(ex.mod, t); d = {}
        for o, (t2, v2) in s.d.items():
            m = ir.sizeof(ex.mod, t2)
            if o + m <= off or o >= off + n: d[o] = (t2, v2)
            elif o >= off and o + m <= off + n: pass
            else:
                w = m * 8; b = ex.flat(v2, t2)
                for q in range(m):
                    if not off <= o + q < off + n: d[o + q] = (ir.I8, ext(b, 8 * q, 8, w))
        d[off] = (t, v); return Cells(d)
class Bytes:
    """read-only memory: one 8-bit variable per canonical offset; `bound` checks an access"""
    def __init__(s, name, check=None): s.name = name; s.vars = {}; s.check = check; s.keep = []; s.offs = {}
    def byte(s, st, off):
        c, d = st.lin(off); key = (c, tuple((i, d[i][1]) for i in sorted(d)))
        if key not in s.vars:
            s.vars[key] = z3.BitVec('%s[%s]' % (s.name, off if type(off) is int else len(s.vars)), 8); s.keep.append(d); s.offs[key] = (c, d)
        seen = st.g.get('keys')
        if seen is not None:
            if key in seen: return seen[key]
            v = s.vars[key]; ax = []
            # congruence of memory reads: equal addresses hold equal bytes
            for k2, v2 in seen.items():
                if k2[1] == key[1]: continue
                c2, d2 = s.offs[k2]; e = bv(unlin(c, d), 64) == bv(unlin(c2, d2), 64); dp = list(INC.flat(st.pc))
                if quick.diff_decide(dp + [e]) is False: continue
                if quick.diff_decide(dp + [z3.Not(e)]) is False: v = v2; ax = []; break
                ax.append(z3.Implies(e, v == v2))
            st.pc += ax; seen = dict(seen); seen[key] = v; st.g['keys'] = seen
            return v
        return s.vars[key]
    def load(s, ex, st, off, t):
        n = ir.sizeof(ex.mod, t)
        if s.check: s.check(ex, st, off, n, 'load')
        if t == ir.PTR: raise Unsupported('pointer load from a byte buffer')
        b = [s.byte(st, add(off, k, 64)) for k in range(n)]
        return ex.unflat(cat(b, 8), 8 * n, t)
    def store(s, ex, st, off, t, v): raise Unsupported('store to a read-only buffer ' + s.name)
class Log:
    """write-only memory: the sequence of stores since the last cut"""
    def __init__(s, log=()): s.log = log
    def load(s, ex, st, off, t): raise Unsupported('load from the output buffer')
    def store(s, ex, st, off, t, v): return Log(s.log + ((off, t, v),))
class Const:
    """constant global data"""
    def __init__(s, name, data): s.name = name; s.data = data
    def load(s, ex, st, off, t):
        n = ir.sizeof(ex.mod, t); c, d = st.lin(off) if type(off) is not int else (off, {})
        if not d:
            if c + n > len(s.data): raise OutOfBounds('a read outside the constant %s' % s.name)
            return ex.unflat(cat(list(s.data[c:c+n]), 8), 8 * n, t)
        return ex.hooks.table_load(ex, st, s, off, t)
    def store(s, ex, st, off, t, v): raise Unsupported('store to a constant ' + s.name)
def fpconst(v):
    import struct
    return struct.unpack('>d', int(v, 16).to_bytes(8, 'big'))[0] if v.startswith('0x') else float(v)
class Hooks:
    fork_bool = False
    cuts = ()
    def call(s, ex, st, name, args, inst): return None
    def table_load(s, ex, st, obj, off, t): raise Unsupported('symbolic index into ' + obj.name)
    def global_obj(s, ex, st, name): return None
    def shuffle(s, ex, data, idx, n): return None
    def header(s, ex, st, f, blk): return False
    def feasible(s, ex, st, c): return ex.sat(st, c)
class Exec:
    def __init__(s, mod, hooks): s.mod = mod; s.hooks = hooks; s.n = 0; s.done = []; s.arr = {}; s.stats = dict(sat=0, t=0.0, paths=0, insts=0); s.asm = None; s.limit = 400000; s.unroll = 70; s.deadline = None; s._tymap = {}; s.align = 1; s.cur = None
    def fresh(s, w, name='u'): s.n += 1; return z3.BitVec('%s!%d' % (name, s.n), w)
    def freshb(s, name='b'): s.n += 1; return z3.Bool('%s!%d' % (name, s.n))
    def sat(s, st, c, timeout=20000):
        if isinstance(c, (Lin, Anf)): raise Unsupported('branch on data')
        t = time.time(); r = INC.sat(st.pc, boolz(c), timeout); s.stats['sat'] += 1; s.stats['t'] += time.time() - t
        return r
    # ---- values
    def flat(s, v, t):
        """as one integer of sizeof*8 bits"""
        if t[0] == 'v':
            w = t[2][1]; return cat([x for x in v], w) if w > 1 else cat([x if not type(x) is int else bool(x) for x in v], 1)
        if t[0] == 'i':
            if t[1] == 1: return zext(v, 1, 8)
            return v
        raise Unsupported('flat %s' % (t,))
    def unflat(s, x, w, t):
        if t[0] == 'v':
            e = t[2][1]; return [ext(x, k * e, e, w) if e > 1 else tobool(ext(x, k, 1, w)) for k in range(t[1])]
        if t[0] == 'i':
            if t[1] == 1: return tobool(ext(x, 0, 1, w))
            return ext(x, 0, t[1], w)
        raise Unsupported('unflat %s' % (t,))
    def bitcast(s, v, t, t2):
        if t == t2: return v
        def wd(q): return q[1] if q[0] == 'i' else q[1] * q[2][1]
        if t[0] not in 'iv' or t2[0] not in 'iv': raise Unsupported('bitcast')
        w = wd(t)
        if t[0] == 'v' and hasattr(s.hooks, 'junk') and any(q is UNDEF for q in v): v = [s.hooks.junk(t[2][1]) if q is UNDEF else q for q in v]
        x = cat(v, t[2][1]) if t[0] == 'v' else v
        if t[0] == 'v' and t[2][1] == 1: x = mkbits([bool(q) if type(q) is int else q for q in v])
        if t2[0] == 'i': return x if t2[1] > 1 else tobool(x)
        e = t2[2][1]
        return [ext(x, k * e, e, w) if e > 1 else tobool(ext(x, k, 1, w)) for k in range(t2[1])]
    def const(s, st, t, c):
        k = c[0]
        if k == 'loc':
            return st.frames[-1].env[c[1]]
        if k == 'fp': return fpconst(c[1])
        if k == 'int': return bool(c[1]) if t == ir.I1 else c[1]
        if k == 'null': return Ptr(None, 0)
        if k in ('undef', 'poison'):
            if t[0] == 'v': return [s.const(st, t[2], c) for _ in range(t[1])]
            if t[0] == 's': return [s.const(st, e, c) for e in ir.resolve(s.mod, t)[1]]
            return UNDEF
        if k == 'zero':
            if t[0] == 'v': return [s.const(st, t[2], c) for _ in range(t[1])]
            if t[0] == 'i': return False if t[1] == 1 else 0
            if t[0] == 's': return [s.const(st, e, c) for e in t[1]]
            if t[0] == 'ptr': return Ptr(None, 0)
        if k == 'vec': return [s.const(st, t[2], x) for x in c[1]]
        if k == 'splat': return [s.const(st, t[2], c[1])] * t[1]
        if k == 'glb': return s.glob(st, c[1][1:].strip('"'))
        if k == 'gep':
            base = s.const(st, c[2][0][0], c[2][0][1]); return s.gep(st, c[1], base, [(tt, s.const(st, tt, v)) for tt, v in c[2][1:]])
        if k == 'cast':
            v = s.const(st, c[2], c[3])
            if c[1] == 'ptrtoint': return s.ptrint(v)
        raise Unsupported('constant %s' % (c,))
    def glob(s, st, name):
        if name in s.mod.funcs or name in s.mod.decls: return Ptr('fn:' + name, 0)
        key = 'g:' + name
        if key not in st.mem:
            o = s.hooks.global_obj(s, st, name)
            if o is None: o = s.initial_global(name)
            st.mem[key] = o
        return Ptr(key, 0)
    def initial_global(s, name):
        d = s.mod.globals.get(name)
        if d is None: raise Unsupported('unknown global ' + name)
        p = ir.P(ir.tokenize(d), s.mod); isconst = False
        while p.peek()[0] == 'word' and (p.peek()[1] in ir.ATTRW or p.peek()[1] in ('thread_local',)) :
            w = p.nxt()[1]
            if w == 'constant': isconst = True
            if w in ('constant', 'global'): break
        t = p.type(); v = p.value(t)
        if not isconst: raise Unsupported('mutable global ' + name)
        return Const(name, s.bytes_of(t, v))
    def bytes_of(s, t, v):
        t = ir.resolve(s.mod, t); n = ir.sizeof(s.mod, t)
        if v[0] == 'zero': return [0] * n
        if t[0] == 'i': return [(v[1] >> (8 * k)) & 255 for k in range(n)]
        if t[0] in ('a', 'v'):
            r = []
            for x in (v[1] if v[0] == 'vec' else [v[1]] * t[1]): r += s.bytes_of(t[2], x)
            return r
        if t[0] == 's':
            r = []
            for k, x in enumerate(v[1]):
                o = ir.field_off(s.mod, t, k); r += [0] * (o - len(r)); r += s.bytes_of(t[1][k], x)
            return r + [0] * (n - len(r))
        raise Unsupported('constant data %s' % (v,))
    def ptrint(s, p):
        if isinstance(p, PIte): return s.pite_int(p)
        if p.obj is None: return p.off
        return add(s.addr(p.obj), p.off, 64)
    def pite_int(s, p):
        r = s.ptrint(p.alts[-1][1])
        for c, q in p.alts[:-1]: r = ite(c, s.ptrint(q), r, 64)
        return r
    def addr(s, obj): return z3.BitVec('addr_' + obj, 64)
    def gep(s, st, et, base, idx):
        off = 0; t = et
        for k, (it, v) in enumerate(idx):
            if v is UNDEF: return UNDEF
            w = it[1]
            if w < 64: v = sext(v, w, 64)
            if isinstance(v, Cat) and v.pw == 1 and not any(isinstance(b, (Lin, Anf)) for b in v.p): v = bv(v, 64)
            if k == 0: off = add(off, mul(v, ir.sizeof(s.mod, t), 64), 64)
            else:
                t = ir.resolve(s.mod, t)
                if t[0] == 's': off = add(off, ir.field_off(s.mod, t, v), 64); t = t[1][v]
                else: t = t[2]; off = add(off, mul(v, ir.sizeof(s.mod, t), 64), 64)
        if isinstance(base, PIte): return PIte([(c, Ptr(p.obj, add(p.off, off, 64))) for c, p in base.alts])
        if base is UNDEF: return UNDEF
        return Ptr(base.obj, add(base.off, off, 64))
    def load(s, st, p, t):
        t = ir.resolve(s.mod, t)
        if p is UNDEF: raise Unsupported('load through undef')
        if isinstance(p, PIte):
            r = None
            for c, q in p.alts[::-1]:
                v = s.load(st, q, t); r = v if r is None else iteany(c, v, r, t)
            return r
        if p.obj not in st.mem: raise Unsupported('load from %s' % p.obj)
        return st.mem[p.obj].load(s, st, p.off, t)
    def store(s, st, p, t, v, al=1):
        t = ir.resolve(s.mod, t)
        if p is UNDEF: raise Unsupported('store through undef')
        if isinstance(p, PIte):
            for c, q in p.alts:
                if q.obj is None: raise Unsupported('store to null')
                old = st.mem[q.obj].load(s, st, q.off, t)
                st.mem[q.obj] = st.mem[q.obj].store(s, st, q.off, t, iteany(c, v, old, t))
            return
        if p.obj not in st.mem: raise Unsupported('store to %s' % p.obj)
        st.mem[p.obj] = st.mem[p.obj].store(s, st, p.off, t, v)
    def concretize(s, st, x, w=64):
        """the constant value of x; splits the state where x is not constant"""
        if type(x) is int: return x
        c, d = st.lin(x, w)
        if not d: return c
        if len(d) == 1:
            t, q = list(d.values())[0]; raise Split(t, w)
        t = bv(x, w)
        if t.get_id() in st.eqs: return st.eqs[t.get_id()][1]
        raise Split(t, w)
    def values(s, st, t, w, limit=300):
        """all values t can take under the path condition"""
        pc = INC.slice(st.pc, t == z3.BitVecVal(0, w)); so = z3.SolverFor('QF_BV'); so.set('timeout', 30000); so.add(*pc); out = []
        while True:
            r = so.check(); s.stats['sat'] += 1
            if r == z3.unsat: return sorted(out)
            if r != z3.sat or len(out) >= limit: raise Unsupported('too many values to split over')
            v = so.model().eval(t, model_completion=True).as_long(); out.append(v); so.add(t != z3.BitVecVal(v, w))
    def split(s, st, e):
        vs = s.values(st, e.term, e.w); out = []
        for k, v in enumerate(vs):
            x = st if k == len(vs) - 1 else st.clone(); x.assume(e.term == z3.BitVecVal(v, e.w)); out.append(x)
        return out
    # ---- running
    def enter(s, st, f, args, call=None):
        ir.materialize(s.mod, f); fr = Frame(); fr.f = f; fr.blk = f.entry; fr.prev = None; fr.i = 0; fr.env = {}; fr.call = call
        for (n, t), v in zip(f.params, args): fr.env[n] = v
        st.frames.append(fr)
    def tymap(s, f):
        if f.name not in s._tymap:
            m = dict(f.params)
            for b in f.blocks.values():
                for i in b:
                    if i.res: m[i.res] = i.ty
            s._tymap[f.name] = m
        return s._tymap[f.name]
    def explore(s, states):
        work = list(states)
        while work:
            st = work.pop()
            if s.deadline and time.time() > s.deadline: raise Unsupported('time limit')
            out = s.runblock(st)
            work.extend(out)
    def jump(s, st, to):
        """enter block `to` from the current block; evaluates its phis. -> list of states to go on with"""
        fr = st.frames[-1]; fr.prev = fr.blk; fr.blk = to; fr.i = 0
        ins = fr.f.blocks[to]; new = {}; k = 0
        for i in ins:
            if i.op != 'phi': break
            for v, l in i.args:
                if l == fr.prev: new[i.res] = s.const(st, i.ty, v); break
            else: raise Unsupported('phi')
            k += 1
        fr.env.update(new); fr.i = k
        if len(st.frames) == 1 or True:
            r = s.hooks.header(s, st, fr.f, to)
            if r is True: return []
            if isinstance(r, list): return r
        return [st]
    def runblock(s, st):
        try: return s.runblock1(st)
        except Split as e: return s.split(st, e)
    def runblock1(s, st):
        """run up to the next jump"""
        s.cur = st
        while True:
            fr = st.frames[-1]; ins = fr.f.blocks[fr.blk]
            i = ins[fr.i]; st.steps += 1; s.stats['insts'] += 1
            if st.steps > s.limit: raise Unsupported('step limit')
            op = i.op
            if op == 'br':
                if len(i.extra) == 1: return s.jump(st, i.extra[0])
                c = s.const(st, *i.args[0])
                if c is UNDEF: raise Unsupported('branch on undef')
                if isinstance(c, bool): return s.jump(st, i.extra[0] if c else i.extra[1])
                return s.fork(st, [(c, i.extra[0]), (bnot(c), i.extra[1])])
            if op == 'switch':
                v = s.const(st, *i.args[0]); w = i.args[0][0][1]; d, cases = i.extra
                if type(v) is int:
                    for cv, l in cases:
                        if cv == v: return s.jump(st, l)
                    return s.jump(st, d)
                br = {}; order = []; rest = True
                for cv, l in cases:
                    c = icmp('eq', v, cv, w)
                    if l not in br: br[l] = False; order.append(l)
                    br[l] = bor(br[l], c); rest = band(rest, bnot(c))
                if d in br: br[d] = bor(br[d], rest)
                else: br[d] = rest; order.append(d)
                return s.fork(st, [(br[l], l) for l in order])
            if op == 'ret':
                v = s.const(st, *i.args[0]) if i.args else None
                st.frames.pop()
                if not st.frames: st.ret = v; s.stats['paths'] += 1; s.done.append(st); return []
                if fr.call is not None and fr.call.res: st.frames[-1].env[fr.call.res] = v
                st.frames[-1].i += 1; continue
            if op == 'unreachable': return []
            if op == 'call':
                r = s.call(st, i)
                if r is not None:
                    return r
                continue
            if s.hooks.fork_bool and (op == 'select' or op in ('zext', 'sext') and i.args[0][0] == ir.I1) and i.ty[0] != 'v':
                c = s.const(st, *i.args[0])
                if not isinstance(c, bool) and c is not UNDEF:
                    return s.fork_bool(st, i, c)
            v = s.eval(st, i)
            if i.res: fr.env[i.res] = v
            fr.i += 1
    def fork_bool(s, st, i, c):
        out = []
        for k, (val, cond) in enumerate(((True, c), (False, bnot(c)))):
            if not s.hooks.feasible(s, st, cond): continue
            t = st.clone(); t.assume(cond); f2 = t.frames[-1]
            if i.op == 'select': f2.env[i.res] = s.const(t, *i.args[1 if val else 2])
            else: f2.env[i.res] = (1 if i.op == 'zext' else (1 << i.ty[1]) - 1) if val else 0
            f2.i += 1; out.append(t)
        return out
    def fork(s, st, alts):
        feas = []
        live = [(c, l) for c, l in alts if c is not False]
        for k, (c, l) in enumerate(live):
            if c is True: return s.jump(st, l)
            if len(live) - k == 1 and not feas: feas.append((c, l)); break
            if s.hooks.feasible(s, st, c): feas.append((c, l))
        out = []
        for k, (c, l) in enumerate(feas):
            t = st if k == len(feas) - 1 else st.clone()
            if len(feas) > 1 or True: t.assume(c)
            out += s.jump(t, l)
        return out
    def eval(s, st, i):
        op = i.op; C = s.const; t = i.ty
        if op == 'nop': return None
        if op in ir.BIN:
            a, b = C(st, *i.args[0]), C(st, *i.args[1])
            if t[0] == 'v': return [s.bin(op, x, y, t[2][1], i.extra) for x, y in zip(a, b)]
            return s.bin(op, a, b, t[1], i.extra)
        if op == 'icmp':
            a, b = C(st, *i.args[0]), C(st, *i.args[1]); at = i.args[0][0]
            if at == ir.PTR: return s.pcmp(st, i.extra, a, b)
            if at[0] == 'v': return [UNDEF if x is UNDEF or y is UNDEF else icmp(i.extra, x, y, at[2][1]) for x, y in zip(a, b)]
            if a is UNDEF or b is UNDEF: return UNDEF
            return icmp(i.extra, a, b, at[1])
        if op in ir.CAST:
            a = C(st, *i.args[0]); at = i.args[0][0]
            if op == 'bitcast':
                if at == ir.PTR and t == ir.PTR: return a
                return s.bitcast(a, at, t)
            if op == 'ptrtoint': return UNDEF if a is UNDEF else s.ptrint(a)
            if op == 'inttoptr': return s.intptr(st, a)
            f = dict(zext=zext, sext=sext, trunc=trunc)[op]
            if t[0] == 'v': return [UNDEF if x is UNDEF else f(x, at[2][1], t[2][1]) for x in a]
            return UNDEF if a is UNDEF else f(a, at[1], t[1])
        if op == 'fcmp': return fcmp(i.extra, C(st, *i.args[0]), C(st, *i.args[1]))
        if op in ('sitofp', 'uitofp'):
            if i.args[0][0][0] != 'i' or i.args[0][0][1] < 8: raise Unsupported(i.text)
            a = C(st, *i.args[0]); w = i.args[0][0][1]; return FInt(op == 'sitofp', a if w == 64 else (sext if op == 'sitofp' else zext)(a, w, 64))
        if op in ('fptosi', 'fptoui'):
            a = C(st, *i.args[0])
            if not isinstance(a, FNum): raise Unsupported(i.text)
            return s.hooks.fptoint(s, st, op, a, t[1])
        if op == 'select':
            c, a, b = C(st, *i.args[0]), C(st, *i.args[1]), C(st, *i.args[2])
            if i.args[0][0][0] == 'v': return [iteany(q, x, y, t[2]) for q, x, y in zip(c, a, b)]
            if c is UNDEF: return a
            return iteany(c, a, b, t)
        if op == 'freeze':
            a = C(st, *i.args[0])
            if a is UNDEF: return s.freshb() if t[1] == 1 else s.fresh(t[1])
            if t[0] == 'v': return [(s.freshb() if t[2][1] == 1 else s.fresh(t[2][1])) if x is UNDEF else x for x in a]
            return a
        if op == 'load':
            s.align = i.extra
            try: return s.load(st, C(st, *i.args[0]), t)
            finally: s.align = 1
        if op == 'store': s.store(st, C(st, *i.args[1]), i.args[0][0], C(st, *i.args[0])); return None
        if op == 'getelementptr':
            return s.gep(st, i.extra, C(st, *i.args[0]), [(tt, C(st, tt, v)) for tt, v in i.args[1:]])
        if op == 'alloca':
            s.n += 1; k = 'a:%s:%s:%d' % (st.frames[-1].f.name[:20], i.res, s.n); st.mem[k] = s.hooks.alloca(s, st, i) if hasattr(s.hooks, 'alloca') else Cells(); return Ptr(k, 0)
        if op == 'extractelement':
            a, k = C(st, *i.args[0]), C(st, *i.args[1])
            if type(k) is not int: raise Unsupported('symbolic lane')
            return a[k]
        if op == 'insertelement':
            a, v, k = C(st, *i.args[0]), C(st, *i.args[1]), C(st, *i.args[2])
            if type(k) is not int: raise Unsupported('symbolic lane')
            a = list(a); a[k] = v; return a
        if op == 'shufflevector':
            a, b = C(st, *i.args[0]), C(st, *i.args[1]); m = C(st, ('v', i.args[2][0][1], ir.I32), i.args[2][1]); ab = list(a) + list(b)
            return [UNDEF if q is UNDEF else ab[q] for q in m]
        if op == 'extractvalue':
            a = C(st, *i.args[0])
            for k in i.extra: a = a[k]
            return a
        if op == 'insertvalue':
            a, v = C(st, *i.args[0]), C(st, *i.args[1]); a = list(a)
            if len(i.extra) != 1: raise Unsupported('insertvalue')
            a[i.extra[0]] = v; return a
        raise Unsupported(i.text)
    def intptr(s, st, a):
        c, d = st.lin(a)
        for k, (t, q) in d.items():
            if q == 1 and t.decl().arity() == 0 and t.decl().name().startswith('addr_'):
                return Ptr(t.decl().name()[5:], sub(a, t, 64))
        if hasattr(s.hooks, 'intptr'): return s.hooks.intptr(s, st, a)
        raise Unsupported('inttoptr')
    def pcmp(s, st, pr, a, b):
        if isinstance(a, PIte): 
            r = False
            for c, p in a.alts: r = bor(r, band(c, s.pcmp(st, pr, p, b)))
            return r
        if isinstance(b, PIte):
            r = False
            for c, p in b.alts: r = bor(r, band(c, s.pcmp(st, pr, a, p)))
            return r
        if a.obj == b.obj: 
            return icmp(pr, a.off, b.off, 64) if pr in ('eq', 'ne') else icmp(pr, s.ptrint(a), s.ptrint(b), 64)
        if pr in ('eq', 'ne'):
            if a.obj is None or b.obj is None or True: return pr == 'ne'
        return icmp(pr, s.ptrint(a), s.ptrint(b), 64)
    def bin(s, op, a, b, w, fl=()):
        if a is UNDEF or b is UNDEF: return UNDEF
        if op in ('and', 'or', 'xor'):
            if w == 1: return (band if op == 'and' else bor if op == 'or' else bxor)(tobool(a), tobool(b))
            if op == 'or' and 'disjoint' in fl and w >= 32 and not isinstance(a, Cat) and not isinstance(b, Cat) and not (type(a) is int and type(b) is int): return add(a, b, w)
            return logic(op, a, b, w)
        if w == 1:
            if op in ('add', 'sub'): return bxor(a, b)
            raise Unsupported('i1 ' + op)
        if op == 'add': return add(a, b, w)
        if op == 'sub': return sub(a, b, w)
        if op == 'mul': return mul(a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            if type(b) is not int and hasattr(s.hooks, 'symshift'): return s.hooks.symshift(s, s.cur, op, a, b, w)
            return shift(op, a, b, w)
        if type(a) is int and type(b) is int and op in ('udiv', 'urem') and b: return a // b if op == 'udiv' else a % b
        if type(b) is int and b & (b - 1) == 0 and b:
            k = b.bit_length() - 1
            if op == 'udiv': return shift('lshr', a, k, w)
            if op == 'urem': return logic('and', a, b - 1, w)
        x, y = bv(a, w), bv(b, w)
        return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y)
    def call(s, st, i):
        """None: handled, continue in this block; list: continue with these states"""
        fr = st.frames[-1]; callee = i.extra
        if callee[0] == 'asm': name = 'asm'
        elif callee[0] == 'glb': name = callee[1][1:].strip('"')
        elif callee[0] == 'loc':
            p = fr.env[callee[1]]
            if isinstance(p, Ptr) and str(p.obj).startswith('fn:'): name = p.obj[3:]
            else: name = 'indirect:%s' % (p,)
        else: raise Unsupported(i.text)
        args = [s.const(st, *a) for a in i.args] if not name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias')) else []
        r = s.hooks.call(s, st, name, args, i)
        if r is not None:
            if r == 'void': fr.i += 1; return None
            if isinstance(r, tuple) and r[0] == 'val':
                if i.res: fr.env[i.res] = r[1]
                fr.i += 1; return None
            out = []
            for st2, v in r:   # list of (state, value)
                f2 = st2.frames[-1]
                if i.res: f2.env[i.res] = v
                f2.i += 1; out.append(st2)
            return out
        if name.startswith('llvm.'):
            v = s.intrinsic(st, name, args, i)
            if i.res: fr.env[i.res] = v
            fr.i += 1; return None
        if name == 'asm':
            raise Unsupported('inline asm ' + callee[1][0])
        if name in s.mod.funcs:
            s.enter(st, s.mod.funcs[name], args, i); return None
        raise Unsupported('call to ' + name)
    def intrinsic(s, st, name, a, i):
        from . import intrin
        return intrin.run(s, st, name, a, i)
    # ---- merging
    def merge(s, sts):
        """one state for several states at the same program point (disjoint path conditions)"""
        if len(sts) == 1: return sts[0]
        a = sts[0]; n = 0
        while all(len(x.pc) > n for x in sts) and all(x.pc[n].eq(a.pc[n]) for x in sts): n += 1
        conds = [z3.And(*x.pc[n:]) if len(x.pc) - n > 1 else x.pc[n] if len(x.pc) > n else True for x in sts]
        m = State(); m.pc = a.pc[:n] + [z3.Or(*[boolz(c) for c in conds])]
        m.steps = max(x.steps for x in sts)
        for k, v in a.eqs.items():
            if all(k in x.eqs and x.eqs[k][1] == v[1] for x in sts): m.eqs[k] = v
        def comb(vals, t):
            vals2 = [(c, v) for c, v in zip(conds, vals) if v is not UNDEF]
            if not vals2: return UNDEF
            r = vals2[-1][1]
            for c, v in vals2[-2::-1]: r = iteany(c, v, r, t)
            return r
        m.frames = []
        for d in range(len(a.frames)):
            fr = a.frames[d].clone(); tm = s.tymap(fr.f); fr.env = {}
            for x in sts:
                if x.frames[d].f is not fr.f or (d < len(a.frames) - 1 and (x.frames[d].blk, x.frames[d].i) != (fr.blk, fr.i)): raise Unsupported('merge')
            for k in a.frames[d].env:
                if all(k in x.frames[d].env for x in sts):
                    fr.env[k] = comb([x.frames[d].env[k] for x in sts], ir.resolve(s.mod, tm[k]) if tm[k] else None) if any(x.frames[d].env[k] is not a.frames[d].env[k] for x in sts) else a.frames[d].env[k]
            m.frames.append(fr)
        for k in set().union(*[x.mem.keys() for x in sts]):
            objs = [x.mem.get(k) for x in sts]; pres = [o for o in objs if o is not None]
            if all(o is pres[0] for o in pres): m.mem[k] = pres[0]; continue
            if isinstance(pres[0], Cells):
                d = {}
                for off in set().union(*[o.d.keys() for o in pres]):
                    ts = {o.d[off][0] for o in pres if off in o.d}
                    if len(ts) != 1: raise Unsupported('merge of cells')
                    t = ts.pop(); d[off] = (t, comb([o.d[off][1] if o is not None and off in o.d else UNDEF for o in objs], t))
                m.mem[k] = Cells(d)
            elif isinstance(pres[0], Log):
                if any(o.log for o in pres): raise Unsupported('merge of unsynchronised output')
                m.mem[k] = pres[0]
            else: raise Unsupported('merge of memory ' + k)
        m.g = s.hooks.merge_ghost(s, [x.g for x in sts], conds, comb)
        return m

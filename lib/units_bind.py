"""Contracts of the JavaScript bindings (src/yencode.cc): every exported function, all argument counts, types and values.
The V8 and node functions are external: they are given assumed contracts (see `EXT`). The kernels are called through their
contracts (precondition checked here, postcondition assumed here; the kernels are verified against them by the other units)."""
import time, re, z3
import build
from irv import ir
from irv.ir import Unsupported
from irv.val import *
from irv.sym import *
from irv.inc import INC
from units_dec import Fail, Unknown, Prover
KERN = {'_ZN9RapidYenc10_do_encodeE': 'encode', '_ZN9RapidYenc10_do_decodeE': 'decode', '_ZN9RapidYenc14_do_decode_rawE': 'decode_raw', '_ZN9RapidYenc18_do_decode_end_rawE': 'decode_end',
        '_ZN9RapidYenc12_crc32_shiftE': 'shift', '_ZN9RapidYenc15_crc32_multiplyE': 'multiply', '_ZN9RapidYenc21_do_crc32_incrementalE': 'crc'}
EXT = ['node::Buffer::HasInstance/Length/Data describe the argument', 'Integer::Value and Number::Value return the argument (NaN for undefined)', 'Boolean::Value', 'ThrowException', 'Object/Number/Integer/Buffer::New never return null',
       'malloc and realloc succeed', 'HandleScope has no other effect']
NARG = 6
LEN = [z3.BitVec('length%d' % k, 64) for k in range(NARG)]
BUF = [z3.Bool('isbuffer%d' % k) for k in range(NARG)]
INT = [z3.BitVec('int%d' % k, 64) for k in range(NARG)]
NUM = [FNum(z3.Bool('nan%d' % k), z3.BitVec('floor%d' % k, 80), z3.Bool('frac%d' % k)) for k in range(NARG)]
BOOL = [z3.Bool('bool%d' % k) for k in range(NARG)]
N = z3.BitVec('nargs', 32)
def sx(v, w): return z3.SignExt(80 - w, v)
def has(k): return N > k
def B32(v): return z3.BitVecVal(v & 0xffffffff, 32)
def clampspec(f):
    t = ftrunc(f); mx, mn = z3.BitVecVal(2**31 - 1, 80), z3.BitVecVal(-2**31, 80)
    return z3.If(f.nan, B32(0), z3.If(t > mx, B32(2**31 - 1), z3.If(t < mn, B32(-2**31), z3.Extract(31, 0, t))))
def REQ(ln, line):
    """space an encode kernel may touch (E03)"""
    l2 = ln * 2; return l2 + 2 + 64 + 2 * z3.UDiv(l2, z3.ZeroExt(32, line))
def udivs(fs):
    out = {}; seen = set(); todo = list(fs)
    while todo:
        x = todo.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i); k = x.decl().kind()
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and not (z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() & (x.arg(1).as_long() - 1) == 0): out[i] = x
        todo += x.children()
    return list(out.values())
_q = {}
def noquot(fs):
    """quotients by a variable replaced by fresh variables, with the facts about quotients that are needed (implied by the definition)"""
    ts = udivs(fs)
    if not ts: return None
    for t in ts:
        if udivs(t.children()): return None
        if t.get_id() not in _q: _q[t.get_id()] = (t, z3.BitVec('quotient%d' % len(_q), t.size()))
    ax = []; sb = [(t, _q[t.get_id()][1]) for t in ts]
    for k, (t, q) in enumerate(sb):
        w = t.size(); ax += [z3.Implies(t.arg(1) == z3.BitVecVal(128, w), q == z3.LShR(t.arg(0), 7)), z3.Implies(t.arg(1) != z3.BitVecVal(0, w), z3.ULE(q, t.arg(0)))]
        for t2, q2 in sb[:k]:
            if t2.size() != w: continue
            e = z3.And(t.arg(0) == t2.arg(0), t.arg(1) == t2.arg(1)); ne = z3.Not(e); cl = [f for f in fs if not udivs([f])]
            ax.append(q == q2 if INC.raw(INC.slice(cl, ne) + [ne], 10000) == z3.unsat else z3.Implies(e, q == q2))
    return [z3.substitute(f, *sb) for f in fs] + ax
class QProver(Prover):
    def valid(s, pc, goal, timeout=30000, exact=False):
        if not isinstance(goal, bool) and not z3.is_and(goal):
            fs = noquot(list(pc) + [z3.Not(goal)])
            if fs is not None:
                t = time.time(); r = INC.check(fs, timeout); s.t += time.time() - t
                if r == z3.unsat: s.n += 1; return True
                if not exact: return False
        return Prover.valid(s, pc, goal, timeout, exact)
class Arg(Cells):
    """contents of a buffer that was passed"""
    def __init__(s, k, arr=None): s.k = k
    def load(s, ex, st, off, t):
        if t != ir.I8 and t[0] != 'i': raise Unsupported('access to a buffer argument')
        n = ir.sizeof(ex.mod, t); off = ex.concretize(st, off)
        ex.hooks.pr.require(st.pc, z3.And(BUF[s.k], z3.UGE(LEN[s.k], off + n)), 'a buffer argument is read beyond its length')
        return ex.unflat(cat([z3.BitVec('data%d[%d]' % (s.k, off + j), 8) for j in range(n)], 8), 8 * n, t)
    def store(s, ex, st, off, t, v): st.g['ev'] = st.g['ev'] + [('store', s.k)]; return s
class Scratch(Cells):
    def load(s, ex, st, off, t): raise Unsupported('load from a result buffer')
    def store(s, ex, st, off, t, v): st.g['ev'] = st.g['ev'] + [('heapstore',)]; return s
class Handle(Cells):
    def load(s, ex, st, off, t): raise Unsupported('handle')
class Iso(Cells):
    def load(s, ex, st, off, t): return z3.BitVec('tok_root', 64)
class Tok(Cells):
    def __init__(s, k): s.k = k
    def load(s, ex, st, off, t): return z3.BitVec('tok_%d' % s.k, 64)
class BHooks(Hooks):
    fork_bool = True
    def __init__(s, pr, cats): s.pr = pr; s.cats = cats; s.nb = 0; s.kern = {v: k for k, v in KERN.items()}
    def req(s, cat, pc, goal, what):
        if cat in s.cats: s.pr.require(pc, goal, what)
    def fail(s, cat, what):
        if cat in s.cats: raise Fail(what)
        raise Unsupported(what)
    def alloca(s, ex, st, i): return Cells()
    def header(s, ex, st, f, blk):
        st.g['visits'] = v = dict(st.g['visits']); v[f.name, blk] = v.get((f.name, blk), 0) + 1
        if v[f.name, blk] > 40: raise Unsupported('loop')
        return False
    def feasible(s, ex, st, c):
        fs = noquot(list(INC.flat(st.pc)) + [boolz(c)])
        return ex.sat(st, c) if fs is None else INC.check(fs, 20000) != z3.unsat
    def global_obj(s, ex, st, name):
        if name in KERN: return Cells({0: (ir.PTR, Ptr('fn:K:' + KERN[name], 0))})
        return None
    def intptr(s, ex, st, a): return Ptr('int', a)
    def fptoint(s, ex, st, op, a, w):
        t = ftrunc(a); lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
        s.pr.require(st.pc, z3.And(z3.Not(a.nan), t >= z3.BitVecVal(lo, 80), t <= z3.BitVecVal(hi, 80)), 'a double out of range is converted to an integer (undefined)')
        return z3.Extract(w - 1, 0, t)
    def new(s, ex, st, desc):
        k = len(st.g['objs']); st.g['objs'] = st.g['objs'] + [desc]; st.mem['h:%d' % k] = Tok(k); return Ptr('h:%d' % k, 0)
    def arg(s, ex, st, p):
        """number of the argument a handle stands for; None: undefined; ('obj', k): an object made here"""
        if isinstance(p, PIte): raise Unsupported('choice of handles')
        if p.obj == 'iso': return None
        if str(p.obj).startswith('h:'): return ('obj', int(p.obj[2:]))
        if p.obj != 'vals': raise Unsupported('unknown handle %s' % p)
        k = ex.concretize(st, p.off)
        if k % 8 or k < 0 or k // 8 >= NARG: raise Unsupported('argument %d' % (k // 8))
        s.pr.require(st.pc, has(k // 8), 'an argument that was not passed is read'); return k // 8
    def cstr(s, ex, st, p):
        o = st.mem[p.obj]; d = o.data[p.off:] if isinstance(o, Const) else None
        if d is None or 0 not in d: raise Unsupported('string')
        return bytes(d[:d.index(0)]).decode('latin1')
    def call(s, ex, st, name, a, i):
        g = st.g
        if name.startswith('K:'): return s.kernel(ex, st, name[2:], a)
        if name.startswith('llvm.') or name in ex.mod.funcs: return None
        if name.startswith(('_ZN2v811HandleScopeC', '_ZN2v811HandleScopeD', '_ZN2v821EscapableHandleScope')): return 'void'
        if 'ToLocalEmpty' in name or 'FromJustIsNothing' in name: return 'void'
        if name.startswith('_ZN4node6Buffer11HasInstance'):
            k = s.arg(ex, st, a[0]); return ('val', False if k is None else True if isinstance(k, tuple) else BUF[k])
        if name.startswith(('_ZN4node6Buffer6Length', '_ZN4node6Buffer4Data')):
            ln = '6Length' in name; k = s.arg(ex, st, a[0])
            if k is None: raise Fail('the length or data of undefined is taken as if it were a Buffer')
            if isinstance(k, tuple):
                d = g['objs'][k[1]]
                if d[0] != 'buf': raise Fail('the length or data of something else is taken as if it were a Buffer')
                return ('val', d[2] if ln else Ptr(d[1], 0))
            s.pr.require(st.pc, BUF[k], 'the length or data of argument %d is taken although it may not be a Buffer' % k)
            return ('val', LEN[k] if ln else Ptr('buf:%d' % k, 0))
        if name.startswith('_ZNK2v86Number5Value'):
            k = s.arg(ex, st, a[0])
            if isinstance(k, tuple): raise Unsupported('value of an object')
            if k is None: return ('val', FNum(z3.BoolVal(True), z3.BitVecVal(0, 80), z3.BoolVal(False)))
            return ('val', NUM[k])
        if name.startswith('_ZNK2v87Integer5Value'):
            k = s.arg(ex, st, a[0])
            if k is None or isinstance(k, tuple): raise Unsupported('integer value of undefined')
            return ('val', INT[k])
        if name.startswith('_ZNK2v87Boolean5Value'):
            k = s.arg(ex, st, a[0])
            if k is None or isinstance(k, tuple): raise Unsupported('boolean value of undefined')
            return ('val', BOOL[k])
        if name.startswith('_ZN2v86String14NewFromOneByte'): return ('val', s.new(ex, st, ('str', s.cstr(ex, st, a[1]))))
        if name.startswith('_ZN2v89Exception'): return ('val', s.new(ex, st, ('error',)))
        if name.startswith('_ZN2v87Isolate14ThrowException'): g['ev'] = g['ev'] + [('throw',)]; return ('val', s.new(ex, st, ('x',)))
        if name.startswith('_ZN2v87Isolate17GetCurrentContext'): return ('val', s.new(ex, st, ('ctx',)))
        if name.startswith('_ZN2v87Isolate10GetCurrent'): return ('val', Ptr('iso', 0))
        if name.startswith('_ZN2v87Integer3NewE'): return ('val', s.new(ex, st, ('num', sx(bv(a[1], 32), 32))))
        if name.startswith('_ZN2v87Integer15NewFromUnsigned'): return ('val', s.new(ex, st, ('num', z3.ZeroExt(48, bv(a[1], 32)))))
        if name.startswith('_ZN2v86Number3New'):
            if not isinstance(a[1], FInt): raise Unsupported('a number that is not an integer')
            x = bv(a[1].v, 64); return ('val', s.new(ex, st, ('num', sx(x, 64) if a[1].sg else z3.ZeroExt(16, x))))
        if name.startswith('_ZN2v86Object3New'): return ('val', s.new(ex, st, ('obj',)))
        if name.startswith('_ZN2v86Object3Set'):
            o, k, v = [s.arg(ex, st, x) for x in (a[0], a[2], a[3])]
            if not all(isinstance(x, tuple) for x in (o, k, v)): raise Unsupported('property')
            g['props'] = dict(g['props']); g['props'][o[1], g['objs'][k[1]][1]] = v[1]; return ('val', 0x101)
        if name.startswith('_ZN4node6Buffer3NewEPN2v87IsolateEm'):
            st.mem['bd:%d' % len(g['objs'])] = Cells(); return ('val', s.new(ex, st, ('buf', 'bd:%d' % len(g['objs']), a[1])))
        if name.startswith('_ZN4node6Buffer3NewEPN2v87IsolateEPcm'):
            p, n, cb = a[1], bv(a[2], 64), a[3]; o = p.obj
            if o not in g['heap']: s.fail('result', 'a Buffer over memory that is not allocated, or already owned')
            if not (p.off == 0 if type(p.off) is int else False): s.fail('result', 'a Buffer that does not start at the allocation')
            s.req('result', st.pc, z3.ULE(n, g['heap'][o]), 'a Buffer longer than its allocation'); s.req('result', st.pc, n != 0, 'an empty Buffer over freed memory')
            if cb.obj != 'fn:_ZL11free_bufferPcPv' and not (str(cb.obj).startswith('fn:') and cb.obj[3:] in ex.mod.funcs): s.fail('result', 'release callback')
            g['heap'] = {k: v for k, v in g['heap'].items() if k != o}; return ('val', s.new(ex, st, ('buf', o, a[2])))
        if name == 'malloc' or name == '_Znwm' or name == '_Znam':
            k = 'heap:%d' % len(g['heapn']); g['heapn'] = g['heapn'] + [k]; g['heap'] = dict(g['heap']); g['heap'][k] = bv(a[0], 64); st.mem[k] = Scratch(); return ('val', Ptr(k, 0))
        if name == 'realloc':
            p, n = a[0], bv(a[1], 64)
            if p.obj not in g['heap'] or p.off != 0: s.fail('result', 'realloc of memory that is not allocated')
            s.req('result', st.pc, n != 0, 'realloc to no bytes frees the memory')
            k = 'heap:%d' % len(g['heapn']); g['heapn'] = g['heapn'] + [k]; g['heap'] = {x: y for x, y in g['heap'].items() if x != p.obj}; g['heap'][k] = n; st.mem[k] = Scratch()
            g['from'] = dict(g['from']); g['from'][k] = g['from'].get(p.obj, p.obj); return ('val', Ptr(k, 0))
        if name == 'free':
            if a[0].obj not in g['heap']: s.fail('result', 'free of memory that is not allocated')
            g['heap'] = {x: y for x, y in g['heap'].items() if x != a[0].obj}; return 'void'
        raise Unsupported('call to ' + name)
    def cap(s, st, p):
        """(capacity behind a destination pointer, what it is)"""
        if isinstance(p, PIte): raise Unsupported('choice of destinations')
        if p.obj is None: raise Fail('the destination is null')
        if type(p.off) is not int or p.off != 0: raise Unsupported('destination with an offset')
        if p.obj.startswith('buf:'): return LEN[int(p.obj[4:])], p.obj
        if p.obj in st.g['heap']: return st.g['heap'][p.obj], 'heap'
        raise Fail('the destination is not allocated')
    def kernel(s, ex, st, k, a):
        g = st.g; pc = st.pc
        if any(e[0] == 'kernel' for e in g['ev']) : raise Unsupported('two kernel calls')
        if k == 'encode':
            line, colp, src, dst, ln, de = a; col = ex.load(st, colp, ir.I32); line = bv(line, 32); r = ex.fresh(64, 'encoded')
            c, w = s.cap(st, dst)
            s.req('space', pc, z3.UGE(c, REQ(bv(ln, 64), line)), 'the destination given to the encoder may be too small')
            g['ev'] = g['ev'] + [('kernel', k, dict(line=line, col=bv(col, 32), src=src, dst=w, len=bv(ln, 64), end=bv(de, 32), r=r, base=dst.obj))]
            nc = ex.fresh(32, 'col'); ex.store(st, colp, ir.I32, nc); g['ev'][-1][2]['ncol'] = nc
            st.assume(z3.ULE(r, z3.BitVecVal(1 << 56, 64))); st.assume(z3.UGE(r, z3.BitVecVal(1, 64)))
            st.assume(z3.ULE(r, c)); return ('val', r)
        if k.startswith('decode'):
            sp, dp, ln, stp = a; src = ex.load(st, sp, ir.PTR); dst = ex.load(st, dp, ir.PTR); c, w = s.cap(st, dst); ln = bv(ln, 64)
            s.req('space', pc, z3.UGE(c, ln), 'the destination given to the decoder may be too small')
            rd, wr = ex.fresh(64, 'read'), ex.fresh(64, 'written'); stv = None; ns = None; ended = 0
            if stp.obj is not None: stv = bv(ex.load(st, stp, ir.I32), 32); ns = ex.fresh(32, 'newstate'); ex.store(st, stp, ir.I32, ns)
            if k == 'decode_end':
                if stv is None: raise Fail('no state is given to the decoder that looks for the end')
                ended = ex.fresh(32, 'ended'); st.assume(z3.ULE(rd, ln))
            else: st.assume(rd == ln)
            st.assume(z3.ULE(wr, rd)); st.assume(z3.ULE(ln, z3.BitVecVal(1 << 53, 64)))
            ex.store(st, sp, ir.PTR, Ptr(src.obj, add(src.off, rd, 64))); ex.store(st, dp, ir.PTR, Ptr(dst.obj, add(dst.off, wr, 64)))
            g['ev'] = g['ev'] + [('kernel', k, dict(src=src, dst=w, base=dst.obj, len=ln, state=stv, ns=ns, rd=rd, wr=wr, ended=ended))]
            return ('val', ended)
        r = ex.fresh(32, k)
        if k == 'crc': d = dict(src=a[0], len=bv(a[1], 64), init=bv(a[2], 32), r=r)
        else: d = dict(a=bv(a[0], 32), b=bv(a[1], 32), r=r)
        g['ev'] = g['ev'] + [('kernel', k, d)]; return ('val', r)
# ------------------------------------------------------------ per function postconditions
def be(k): return z3.Concat(*[z3.BitVec('data%d[%d]' % (k, j), 8) for j in range(4)])
class Fn:
    """common part of a postcondition check for one finished path"""
    def __init__(s, hooks, ex, st):
        s.h = hooks; s.ex = ex; s.st = st; s.pc = st.pc; ev = st.g['ev']
        s.thrown = [e for e in ev if e[0] == 'throw']; s.k = [e for e in ev if e[0] == 'kernel']; s.stores = [e for e in ev if e[0] == 'store']
        d = st.mem['impl'].d.get(24); s.ret = None
        if d is not None:
            t = d[1]
            if not (z3.is_const(t) and t.decl().name().startswith('tok_')): raise Unsupported('return value')
            n = t.decl().name()[4:]; s.ret = None if n == 'root' else int(n)
        if len(s.thrown) > 1: hooks.fail('reject', 'two errors are thrown')
        if s.stores: hooks.fail('reject', 'a buffer that was passed is written by the binding itself')
    def req(s, cat, goal, what): s.h.req(cat, s.pc, goal, what)
    def obj(s, k):
        return s.st.g['objs'][k] if k is not None else None
    def number(s, k, val, what):
        """object k is the number val (64 bits, unsigned) """
        d = s.obj(k)
        if d is None or d[0] != 'num': s.h.fail('result', what + ' is not a number'); return
        s.req('result', d[1] == (z3.ZeroExt(16, val) if val.size() == 64 else sx(val, 32)), what + ' is wrong')
    def buffer(s, k, base, n, what):
        d = s.obj(k)
        if d is None or d[0] != 'buf': s.h.fail('result', what + ' is not a Buffer'); return
        if base is not None and s.st.g['from'].get(d[1], d[1]) != base: s.h.fail('result', what + ' is not over the bytes that were written'); return
        s.req('result', bv(d[2], 64) == n, 'the length of %s is wrong' % what)
    def prop(s, name): return s.st.g['props'].get((s.ret, name))
    def outcome(s, invalid, empty, undef=False):
        """thrown only if invalid; work is done only if not invalid; otherwise the input is empty. -> kernel event or None"""
        if s.thrown:
            if s.k: s.h.fail('reject', 'work was done before the error was thrown')
            s.req('reject', invalid, 'an error is thrown for valid arguments'); return None
        if not s.k:
            s.req('reject', empty, 'invalid arguments are accepted, or nothing is done for a non-empty input'); return None
        s.req('reject', z3.Not(invalid), 'invalid arguments are accepted'); return s.k[0]
def enc_common(f, need, lk, dest):
    """need: condition for the required buffers; lk: index of the line length argument (z3 If tree over cases given as list of (cond, index))"""
    def pick(fn, dflt):
        r = dflt
        for c, k in lk[::-1]: r = z3.If(c, fn(k), r)
        return r
    l0 = pick(lambda k: z3.If(has(k), clampspec(NUM[k]), B32(128)), B32(128)); line = z3.If(l0 == 0, B32(128), l0)
    c0 = pick(lambda k: z3.If(has(k + 1), clampspec(NUM[k + 1]), B32(0)), B32(0)); col = z3.If(c0 == line, B32(0), c0)
    bad = z3.Or(line < 0, c0 < 0, c0 > line)
    return line, col, bad
def check_encode(f, variant):
    need = z3.And(has(0), BUF[0]) if variant != 'to' else z3.And(has(1), BUF[0], BUF[1])
    lk = {'': [(z3.BoolVal(True), 1)], 'to': [(z3.BoolVal(True), 2)], 'incr': [(z3.And(has(1), BUF[1]), 2), (z3.BoolVal(True), 1)]}[variant]
    line, col, bad = enc_common(f, need, lk, None)
    dest = {'': z3.BoolVal(False), 'to': z3.BoolVal(True), 'incr': z3.And(has(1), BUF[1])}[variant]
    small = z3.And(dest, z3.ULT(LEN[1], REQ(LEN[0], line)))
    if f.thrown:
        if f.k: f.h.fail('reject', 'work was done before the error was thrown')
        f.req('reject', z3.Or(z3.Not(need), bad, small), 'an error is thrown for valid arguments'); return
    if not f.k:
        f.req('reject', z3.And(need, LEN[0] == 0), 'invalid arguments are accepted, or nothing is done for a non-empty input')
        if variant == '': f.buffer(f.ret, None, z3.BitVecVal(0, 64), 'the result')
        elif variant == 'to': f.number(f.ret, z3.BitVecVal(0, 64), 'the result')
        else: f.number(f.prop('written'), z3.BitVecVal(0, 64), 'written')
        return
    p = f.k[0][2]
    f.req('reject', z3.And(need, z3.Not(bad)), 'invalid arguments are accepted')
    if f.k[0][1] != 'encode': f.h.fail('args', 'another kernel is called'); return
    f.req('args', p['line'] == line, 'the line length given to the encoder is wrong'); f.req('args', p['col'] == col, 'the column given to the encoder is wrong')
    f.req('reject', p['line'] == line, 'the line length given to the encoder is wrong'); f.req('reject', p['col'] == col, 'the column given to the encoder is wrong')
    f.req('args', z3.And(p['line'] >= 1, p['col'] >= 0, p['col'] < p['line']), 'precondition of the encoder')
    if p['src'].obj != 'buf:0' or not (type(p['src'].off) is int and p['src'].off == 0): f.h.fail('args', 'the encoder is not given the first argument')
    f.req('args', p['len'] == LEN[0], 'the encoder is not given the whole input')
    f.req('args', (p['end'] != 0) == z3.BoolVal(variant != 'incr'), 'end-of-output handling')
    isd = f.h.pr.valid(f.pc, dest); isn = f.h.pr.valid(f.pc, z3.Not(dest))
    if not isd and not isn: raise Unsupported('destination')
    if (p['dst'] == 'buf:1') != isd or (p['dst'] == 'heap') != isn: f.h.fail('args', 'the encoder is given the wrong destination')
    if variant == '': f.buffer(f.ret, p['base'], p['r'], 'the result')
    elif variant == 'to': f.number(f.ret, p['r'], 'the result')
    else:
        f.number(f.prop('written'), p['r'], 'written'); f.number(f.prop('col'), p['ncol'], 'col')
        if isn: f.buffer(f.prop('output'), p['base'], p['r'], 'output')
def check_decode(f, variant):
    need = z3.And(has(0), BUF[0]) if variant != 'to' else z3.And(has(1), BUF[0], BUF[1])
    dk = {'': None, 'to': 1, 'incr': 2}[variant]; dest = z3.BoolVal(False) if dk is None else z3.And(has(dk), BUF[dk])
    small = z3.And(dest, z3.ULT(LEN[dk], LEN[0])) if dk else z3.BoolVal(False)
    k = f.outcome(z3.Or(z3.Not(need), small), z3.And(need, LEN[0] == 0))
    if f.thrown: return
    if k is None:
        if variant == '': f.buffer(f.ret, None, z3.BitVecVal(0, 64), 'the result')
        elif variant == 'to': f.number(f.ret, z3.BitVecVal(0, 64), 'the result')
        elif f.ret is not None: f.h.fail('result', 'the result for no input')
        return
    kn, p = k[1], k[2]
    if p['src'].obj != 'buf:0' or not (type(p['src'].off) is int and p['src'].off == 0): f.h.fail('args', 'the decoder is not given the first argument')
    f.req('args', p['len'] == LEN[0], 'the decoder is not given the whole input')
    isd = f.h.pr.valid(f.pc, dest); isn = f.h.pr.valid(f.pc, z3.Not(dest))
    if not isd and not isn: raise Unsupported('destination')
    if (p['dst'] == 'heap') != isn or (p['dst'] == 'buf:%s' % dk) != isd: f.h.fail('args', 'the decoder is given the wrong destination')
    if variant == 'incr':
        if kn != 'decode_end': f.h.fail('args', 'another kernel is called'); return
        f.req('args', p['state'] == z3.If(has(1), z3.Extract(31, 0, INT[1]), B32(0)), 'the state given to the decoder is wrong')
        f.number(f.prop('read'), p['rd'], 'read'); f.number(f.prop('written'), p['wr'], 'written'); f.number(f.prop('ended'), p['ended'], 'ended'); f.number(f.prop('state'), p['ns'], 'state')
        if isn: f.buffer(f.prop('output'), p['base'] if not f.h.pr.valid(f.pc, p['wr'] == 0) else None, p['wr'], 'output')
        return
    bk = {'': 1, 'to': 2}[variant]; raw = z3.And(has(bk), BOOL[bk])
    if kn not in ('decode', 'decode_raw'): f.h.fail('args', 'another kernel is called'); return
    f.req('args', raw == z3.BoolVal(kn == 'decode_raw'), 'the wrong decoder is called')
    if p['state'] is not None: f.req('args', p['state'] == B32(0), 'the initial state is wrong')
    if variant == '': f.buffer(f.ret, p['base'] if not f.h.pr.valid(f.pc, p['wr'] == 0) else None, p['wr'], 'the result')
    else: f.number(f.ret, p['wr'], 'the result')
def four(k): return z3.And(BUF[k], LEN[k] == 4)
def packed(f, val):
    d = f.obj(f.ret)
    if d is None or d[0] != 'buf' or not d[1].startswith('bd:'): f.h.fail('result', 'the result is not a new Buffer'); return
    f.req('result', bv(d[2], 64) == 4, 'the result does not have 4 bytes'); c = f.st.mem[d[1]]
    try: got = [c.load(f.ex, f.st, j, ir.I8) for j in range(4)]
    except Unsupported: f.h.fail('result', 'a byte of the result is not set'); return
    if any(o < 0 or o + ir.sizeof(f.ex.mod, t) > 4 for o, (t, v) in c.d.items()): f.h.fail('result', 'a write outside the result')
    f.req('result', z3.Concat(*[bv(x, 8) for x in got]) == val, 'the result is not the value in network byte order')
M = 0xFFFFFFFF
def fold(n): return z3.ZeroExt(48, z3.Extract(63, 32, n)) + z3.ZeroExt(48, z3.Extract(31, 0, n))       # = n mod M as an 80-bit number below 2^33
def congruent(e, n80, lo, hi):
    """e (32 bits) == n80 modulo 2^32-1, n80 within [lo*M, hi*M]"""
    e = z3.ZeroExt(48, e); return z3.Or(*[n80 == e + z3.BitVecVal(q * M, 80) for q in range(lo - 1, hi + 1)])
def check_crc(f, kind):
    opt = {'crc': 1, 'zeroes': 1, 'shift': 1}.get(kind)
    if kind == 'crc': need = z3.And(has(0), BUF[0], z3.Implies(has(1), four(1)))
    elif kind in ('zeroes', 'shift'): need = z3.And(has(0), z3.Implies(has(1), four(1)))
    elif kind == 'combine': need = z3.And(has(2), four(0), four(1))
    else: need = z3.And(has(1), four(0), four(1))
    k = f.outcome(z3.Not(need), z3.BoolVal(False))
    if k is None: return
    kn, p = k[1], k[2]
    if kn != {'crc': 'crc', 'multiply': 'multiply'}.get(kind, 'shift'): raise Unsupported('another kernel is called')
    init = z3.If(has(1), be(1), B32(0))
    if kind == 'crc':
        if p['src'].obj != 'buf:0' or not (type(p['src'].off) is int and p['src'].off == 0): f.h.fail('args', 'not the data of the first argument')
        f.req('args', p['len'] == LEN[0], 'not all of the data'); f.req('args', p['init'] == init, 'the initial value is wrong'); packed(f, p['r']); return
    if kind == 'multiply':
        f.req('args', z3.Or(z3.And(p['a'] == be(0), p['b'] == be(1)), z3.And(p['a'] == be(1), p['b'] == be(0))), 'the operands are wrong'); packed(f, p['r']); return
    ai = 2 if kind == 'combine' else 0; n = INT[ai]; dom = [n == z3.Extract(63, 0, NUM[ai].fl)]
    if kind == 'combine':
        f.req('args', p['a'] == be(0), 'the value that is shifted is wrong')
        f.h.req('exponent', f.pc + [n >= 0, n <= 2**53], congruent(p['b'], fold(n) * 8, 0, 17), 'the shift count is not 8 times the length (modulo 2^32-1)'); packed(f, p['r'] ^ be(1)); return
    mul = 8 if kind == 'zeroes' else 1
    f.req('args', p['a'] == (~init if kind == 'zeroes' else z3.If(has(1), be(1), B32(0x80000000))), 'the value that is shifted is wrong')
    f.h.req('exponent', f.pc + [n >= 0, n <= 2**53], congruent(p['b'], fold(n) * mul, 0, 17), 'the shift count is not the requested one (modulo 2^32-1)')
    f.h.req('exponent', f.pc + [n < 0, n >= -2**53], congruent_neg(p['b'], fold(-n) * mul), 'the shift count is not the negative of the requested one (modulo 2^32-1)')
    packed(f, ~p['r'] if kind == 'zeroes' else p['r'])
def congruent_neg(e, n80): s = z3.ZeroExt(48, e) + n80; return z3.Or(*[s == z3.BitVecVal(q * M, 80) for q in range(0, 19)])
EXPORTS = {'encode': lambda f: check_encode(f, ''), 'encodeTo': lambda f: check_encode(f, 'to'), 'encodeIncr': lambda f: check_encode(f, 'incr'), 'decode': lambda f: check_decode(f, ''), 'decodeTo': lambda f: check_decode(f, 'to'),
    'decodeIncr': lambda f: check_decode(f, 'incr'), 'crc32': lambda f: check_crc(f, 'crc'), 'crc32_combine': lambda f: check_crc(f, 'combine'), 'crc32_zeroes': lambda f: check_crc(f, 'zeroes'),
    'crc32_multiply': lambda f: check_crc(f, 'multiply'), 'crc32_shift': lambda f: check_crc(f, 'shift')}
def exported(mod):
    """JavaScript name -> function, from the registration code"""
    out = {}
    for n, f in mod.funcs.items():
        if not n.startswith(('node_register_module', '_Z12yencode_init')): continue
        for b in f.blocks.values():
            for l in b:
                m = re.search(r'NODE_SET_METHOD.*\(ptr [^,]*, ptr [^,@]*@([\w.$]+), ptr [^,@]*@([\w.$]+)\)', l)
                if m:
                    d = mod.globals[m.group(1)]; s = re.search(r'c"((?:[^"\\]|\\.)*)\\00"', d).group(1); out[s] = m.group(2)
    return out
def task(js, cats, limit):
    t = time.time(); pr = QProver(); mod = ir.parse(build.llvm_ir('yencode.cc')); o = dict(name='BIND(%s) %s: yencode.cc' % (js, '+'.join(sorted(cats))), functions=[js], backend='irv+z3 (QF_BV)'); paths = 0
    try:
        fn = exported(mod).get(js)
        if fn is None or fn not in mod.funcs: raise Unsupported('the function registered as %s was not found' % js)
        o['functions'] = [fn]; h = BHooks(pr, cats); ex = Exec(mod, h); ex.deadline = t + limit; st = State()
        st.mem.update({'args': Cells({0: (ir.PTR, Ptr('impl', 0)), 8: (ir.PTR, Ptr('vals', 0)), 16: (ir.I32, N)}), 'impl': Cells({8: (ir.PTR, Ptr('iso', 0))}), 'vals': Handle(), 'iso': Iso()})
        for k in range(NARG): st.mem['buf:%d' % k] = Arg(k)
        st.g = dict(ev=[], objs=[], props={}, heap={}, heapn=[], visits={}, line=None, **{'from': {}})
        big = z3.BitVecVal(1 << 53, 80)
        st.pc = [N >= 0, N <= 1 << 20] + [z3.ULE(x, z3.BitVecVal(1 << 53, 64)) for x in LEN]
        for k in range(NARG): st.pc.append(z3.Implies(z3.And(z3.Not(NUM[k].nan), ftrunc(NUM[k]) <= big, ftrunc(NUM[k]) >= -big), sx(INT[k], 64) == ftrunc(NUM[k]))); st.pc += [NUM[k].fl < z3.BitVecVal(1 << 78, 80), NUM[k].fl >= z3.BitVecVal(-(1 << 78), 80)]
        ex.enter(st, mod.funcs[fn], [Ptr('args', 0)]); ex.explore([st])
        for x in ex.done: EXPORTS[js](Fn(h, ex, x)); paths += 1
        o.update(status='proved', count=pr.n, detail='%d paths, all argument counts, types and values' % paths)
    except Fail as e: o.update(status='refuted', count=max(1, pr.n), detail='%s; model %s' % (e.what, str(e.model)[:900]))
    except Unknown as e: o.update(status='unknown', count=max(1, pr.n), detail=str(e))
    except Unsupported as e: o.update(status='unsupported', count=max(1, pr.n), detail=str(e))
    o['time'] = time.time() - t; return [o]
def lemmas():
    """x has order dividing 2^32-1, so that exponents may be reduced; CRC step is linear and step(s,0) = s*x^8"""
    import units_crc as U
    t = time.time(); n = 0; bad = []
    def ck(c, w):
        nonlocal n; n += 1
        if not c: bad.append(w)
    ck(U.xpow(M) == 0x80000000, 'x^(2^32-1) = 1')
    for i in range(32): ck(U.matvec(U.mulmat(U.xpow(8)), [int(j == i) for j in range(32)]) == U.step_byte([int(j == i) for j in range(32)], [0] * 8), 'step(s,0) = s*x^8')
    # the step of (state, byte) is linear by construction: it is evaluated on formal GF(2) sums
    s = [1 << (k + 1) for k in range(32)]; d = [1 << (33 + k) for k in range(8)]; r = U.step_byte(s, d); r1 = U.step_byte(s, [0] * 8); r2 = U.step_byte([0] * 32, d)
    for i in range(32): ck(r[i] == r1[i] ^ r2[i], 'step(s,d) = step(s,0) + step(0,d)')
    return [dict(name='LEMMA(crc algebra)', functions=[], backend='complete evaluation over a basis', status='refuted' if bad else 'proved', count=n, time=time.time() - t, detail='; '.join(sorted(set(bad))) or 'order of x, CRC step is GF(2)-linear and appends a factor x^8')]
def tasks(arg, tier):
    """arg: 'encode,encodeTo:args+result crc32:reject lemmas'"""
    out = []; lim = 150 if tier == 'quick' else 600
    for w in arg.split():
        if w == 'lemmas': out.append(('lemmas', lemmas, ())); continue
        fs, cats = w.split(':')
        for js in fs.split(','): out.append(('bind:%s:%s' % (js, cats), task, (js, frozenset(cats.split('+')), lim)))
    return out

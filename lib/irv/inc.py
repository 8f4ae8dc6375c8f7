"""Satisfiability checks: constraint slicing by shared variables, result cache, one fresh bit-vector solver per query."""
import z3
from . import quick
def _gid(f):
    """the identity of a term, remembered in its handle"""
    try: return f._gid
    except AttributeError: f._gid = r = z3.Z3_get_ast_id(f.ctx_ref(), f.as_ast()); return r
z3.ExprRef.get_id = _gid; z3.AstRef.get_id = _gid
class Inc:
    def __init__(s): s.vs = {}; s.fl = {}; s.cache = {}; s.keep = []; s.n = 0; s.hits = 0; s.q = 0; s.w = {}; s.last = None; s.defs = {}; s.nd = 0
    def vars(s, f):
        k = f.get_id()
        if k not in s.vs:
            r = set(); seen = set(); todo = [f]
            while todo:
                x = todo.pop(); i = x.get_id()
                if i in seen: continue
                seen.add(i)
                if i in s.vs: r |= s.vs[i]; continue
                ch = x.children()
                if not ch:
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(i)
                else: todo += ch
            s.vs[k] = frozenset(r); s.keep.append(f)
        return s.vs[k]
    def flat(s, fs):
        for f in fs:
            k = f.get_id()
            if k not in s.fl: s.fl[k] = (f, 0 if z3.is_true(f) else list(s.flat(f.children())) if z3.is_and(f) else list(s.flat([z3.Not(x) for x in f.arg(0).children()])) if z3.is_not(f) and z3.is_or(f.arg(0)) else 1)
            q = s.fl[k][1]
            if q == 1: yield f
            elif q: yield from q
    def name(s, c):
        """a name for a flag: a fresh variable, defined wherever it is used"""
        if not c.children() or z3.is_not(c) and not c.arg(0).children(): return c
        k = ('n', c.get_id())
        if k not in s.defs:
            s.nd += 1; v = z3.Bool('named%d' % s.nd); s.defs[k] = v; s.keep.append((c, v)); s.defs[v.get_id()] = v == c
        return s.defs[k]
    def withdefs(s, fs):
        """fs and the definitions of all names in it"""
        if not s.defs: return fs
        fs = list(fs); done = set(); todo = set().union(*[s.vars(f) for f in fs])
        while todo:
            v = todo.pop(); done.add(v)
            if v in s.defs: d = s.defs[v]; fs.append(d); todo |= s.vars(d) - done
        return fs
    def slice(s, pc, goal):
        rest = [(f, s.vars(f)) for f in s.flat(pc)]; cur = set(s.vars(goal)); out = []; dn = set()
        ch = True
        while ch and rest:
            ch = False; r2 = []
            if s.defs:
                for v in [v for v in cur if v in s.defs and v not in dn]: dn.add(v); out.append(s.defs[v]); cur |= s.vars(s.defs[v]); ch = True
            for f, v in rest:
                if v & cur or not v: out.append(f); cur |= v; ch = True
                else: r2.append((f, v))
            rest = r2
        return out
    def log(s, fs, r): pass
    def quick(s, fs):
        vs = frozenset().union(*[s.vars(f) for f in fs])
        if len(vs) <= 2:
            for f in fs: s.widths(f)
            if all(s.w.get(v) == 8 for v in vs):
                r = quick.bytes_decide(fs, tuple(sorted(vs)))
                if r is not None: return r
        return quick.diff_decide(fs)
    def words(s, f):
        """all variables of f are 64 bits wide"""
        s.widths(f); return all(s.w[v] == 64 for v in s.vars(f))
    def widths(s, f):
        todo = [f]; seen = set()
        if all(v in s.w for v in s.vars(f)): return
        while todo:
            x = todo.pop(); i = x.get_id()
            if i in seen: continue
            seen.add(i); ch = x.children()
            if not ch:
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: s.w[i] = x.size() if z3.is_bv(x) else 1
            else: todo += ch
    def raw(s, fs, timeout):
        if s.defs: fs = s.withdefs(fs)
        key = frozenset(f.get_id() for f in fs)
        if key in s.cache: s.hits += 1; r, s.last = s.cache[key][:2]; return r
        q = s.quick(fs)
        if q is not None:
            s.q += 1; r = z3.sat if q else z3.unsat; s.last = None; s.cache[key] = (r, None, list(fs)); return r
        so = z3.SolverFor('QF_BV'); so.set('timeout', timeout); so.add(*fs); r = so.check(); s.n += 1; s.log(fs, r)
        s.last = so if r == z3.sat else None
        if r != z3.unknown: s.cache[key] = (r, s.last if len(s.cache) < 500 else None, list(fs))
        if r == z3.sat and s.last is not None: s.cache[key] = (r, None, list(fs))
        return r
    def sat(s, pc, c, timeout=20000):
        """may pc & c hold, pc being satisfiable?"""
        return s.raw(s.slice(pc, c) + [c], timeout) != z3.unsat
    def check(s, fs, timeout=60000):
        fs = list(s.flat(fs))
        if not fs: fs = [z3.BoolVal(True)]
        g = fs[-1]; sl = s.slice(fs[:-1], g) + [g]
        r = s.raw(sl, timeout)
        if r == z3.unsat or s.last is not None and {f.get_id() for f in fs} <= {f.get_id() for f in sl}: return r
        so = z3.SolverFor('QF_BV'); so.set('timeout', timeout); so.add(*s.withdefs(fs)); r = so.check(); s.last = so
        return r
INC = Inc()

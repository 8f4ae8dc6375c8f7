"""Contracts and proofs for the JavaScript layer (index.js): symbolic execution of its syntax tree, path by path.
Numbers are reals with a NaN flag (all values stay below 2^53, so doubles are exact where the code relies on it), strings and buffers are terms
over uninterpreted functions (concatenation, slices, decimal and hexadecimal text, the native functions by their contracts).
Conditions of statements which only append to an array are merged into guards; everything else forks. Loops over unknown data are cut: what the
body assigns is forgotten at the head, and objects must be as they were at the head whenever the loop goes round."""
import os, json, subprocess, time, z3, itertools
import build
from irv.ir import Unsupported
from units_dec import Fail, Unknown
ACORN = '/opt/veriftools/node/node_modules/acorn'
class Un:
    def __repr__(s): return 'undefined'
class Nu:
    def __repr__(s): return 'null'
UNDEF, NULL, POISON = Un(), Nu(), object()
class Num:
    """a number: real term and NaN condition"""
    def __init__(s, v, nan=False): s.v = v; s.nan = nan
class Str:
    def __init__(s, *t): s.t = t
class Buf:
    def __init__(s, *t): s.t = t
class Opt:
    """a value which may be undefined"""
    def __init__(s, p, v): s.p = p; s.v = v
class Obj:
    def __init__(s, props=None, proto=None): s.p = dict(props or {}); s.proto = proto; s.born = None
class Arr:
    def __init__(s, items=(), opaque=None): s.items = list(items); s.opaque = opaque     # items: (guard, value); opaque: z3 Bool "some unknown element is there"
class Regex:
    def __init__(s, pat, flags): s.pat = pat; s.flags = flags
class Fn:
    def __init__(s, params, body, env, name=''): s.params, s.body, s.env, s.name, s.p = params, body, env, name, {}
class Nat:
    def __init__(s, f, name=''): s.f = f; s.name = name; s.p = {}
class Throw(Exception):
    def __init__(s, v): s.v = v
class Ret(Exception):
    def __init__(s, v): s.v = v
class Brk(Exception): pass
class Cont(Exception): pass
class Again(Exception): """the loop goes round: the path ends at the head"""
SS = z3.DeclareSort('Text'); SB = z3.DeclareSort('Bytes'); R = z3.RealSort()
F = lambda n, *a: z3.Function(n, *a)
isnum, ishex, isnan, tonum, lower, strlen = F('isnum', SS, z3.BoolSort()), F('ishex8', SS, z3.BoolSort()), F('isnan', SS, z3.BoolSort()), F('tonum', SS, R), F('lower', SS, SS), F('strlen', SS, z3.IntSort())
blen = F('bytes', SB, z3.IntSort())
def T(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def And(*a): return z3.And(*[T(x) for x in a]) if a else z3.BoolVal(True)
def Or(*a): return z3.Or(*[T(x) for x in a]) if a else z3.BoolVal(False)
def Not(a): return (not a) if isinstance(a, bool) else z3.Not(a)
def ite(c, a, b): return a if c is True else b if c is False else z3.If(c, a, b)
_ast = {}
def program():
    f = build.REPO + '/index.js'
    if f not in _ast:
        r = subprocess.run(['node', '-e', 'const a=require(%s);process.stdout.write(JSON.stringify(a.parse(require("fs").readFileSync(%s,"utf8"),{ecmaVersion:2022,sourceType:"script",allowReturnOutsideFunction:true}),(k,v)=>k=="start"||k=="end"?undefined:v instanceof RegExp?null:v))' % (json.dumps(ACORN), json.dumps(f))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if r.returncode: raise Unsupported('index.js could not be parsed: ' + r.stderr.decode()[-300:])
        _ast[f] = json.loads(r.stdout)
    return _ast[f]
class Env:
    def __init__(s, up=None): s.v = {}; s.up = up; s.depth = None
    def find(s, n):
        e = s
        while e and n not in e.v: e = e.up
        return e
def toint(e):
    """real term over integer terms -> integer term, or None"""
    k = e.decl().kind(); c = [toint(x) for x in e.children()] if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL) else []
    if k == z3.Z3_OP_TO_REAL: return e.arg(0)
    if z3.is_rational_value(e): return z3.IntVal(e.as_long()) if e.denominator_as_long() == 1 else None
    if not c or any(x is None for x in c): return None
    if k == z3.Z3_OP_UMINUS: return -c[0]
    r = c[0]
    for x in c[1:]: r = r + x if k == z3.Z3_OP_ADD else r - x if k == z3.Z3_OP_SUB else r * x
    return r
_integral = {}
def integral(e):
    h = e.hash()
    for a, b in _integral.get(h, ()):
        if a.eq(e): return b
    b = integral_(e); _integral.setdefault(h, []).append((e, b)); return b
def integral_(e):
    """the same condition with comparisons of integers as such"""
    if z3.is_app(e) and e.num_args() == 2 and e.arg(0).sort() == R and e.sort() == z3.BoolSort():
        a, b = toint(e.arg(0)), toint(e.arg(1)); k = e.decl().kind()
        if a is not None and b is not None:
            for q, f in ((z3.Z3_OP_LE, lambda: a <= b), (z3.Z3_OP_LT, lambda: a < b), (z3.Z3_OP_GE, lambda: a >= b), (z3.Z3_OP_GT, lambda: a > b), (z3.Z3_OP_EQ, lambda: a == b), (z3.Z3_OP_DISTINCT, lambda: a != b)):
                if k == q: return f()
        return e
    if z3.is_app(e) and e.sort() == z3.BoolSort() and e.num_args() and all(x.sort() == z3.BoolSort() for x in e.children()):
        c = [integral(x) for x in e.children()]; return e.decl()(*c) if len(c) < 3 or not (z3.is_and(e) or z3.is_or(e)) else z3.And(*c) if z3.is_and(e) else z3.Or(*c)
    return e
class Interp:
    """one run along one path; symbolic decisions come from `dec`"""
    def __init__(s, dec, pr): s.dec = dec; s.k = 0; s.pc = []; s.pr = pr; s.merge = 0; s.guard = []; s.n = 0; s.calls = []; s.steps = 0; s.lits = {}; s.terms = {}; s.ax = []; s.assigned = None
    # ---- logic
    def solver(s, extra):
        so = z3.SimpleSolver(); so.set('timeout', 20000); so.add(*s.ax); so.add(*[integral(T(x)) for x in s.pc + s.guard]); so.add(*[integral(T(x)) for x in extra]); s.pr.n += 1; return so
    def sat(s, c):
        r = s.solver([c]).check()
        return r != z3.unsat
    def valid(s, c, what=None):
        if c is True: s.pr.n += 1; return True
        so = s.solver([Not(T(c))]); r = so.check()
        if r == z3.unknown: raise Unknown('solver limit: %s' % what)
        s.model = so.model() if r == z3.sat else None
        return r == z3.unsat
    def require(s, c, what):
        if not s.valid(c, what): raise Fail(what, s.model)
    def decide(s, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if s.merge: 
            if s.valid(c): return True
            if s.valid(z3.Not(c)): return False
            raise Unsupported('a decision inside a merged statement')
        if s.k < len(s.dec): d = s.dec[s.k]
        else:
            d = s.sat(c); s.dec.append(d); s.dec_both = None
            if d and s.sat(z3.Not(c)): s.todo.append(s.dec[:-1] + [False])
        s.k += 1; c = c if d else z3.Not(c); s.pc.append(z3.Implies(And(*s.guard), c) if s.guard else c); return d
    # ---- terms
    def fresh(s, n): s.n += 1; return '%s!%d' % (n, s.n)
    def zs(s, v):
        """z3 term of a string"""
        if isinstance(v, str):
            if v not in s.lits:
                c = z3.Const('lit:' + repr(v), SS)
                s.ax += [c != o for o in s.lits.values()] + [strlen(c) == len(v), lower(c) == s.litlow(v, c), isnum(c) == z3.BoolVal(v.isdigit() and v.isascii()), ishex(c) == z3.BoolVal(len(v) == 8 and all(x in '0123456789abcdefABCDEF' for x in v))]
                if v == '' or v.isdigit(): s.ax += [tonum(c) == int(v or 0), z3.Not(isnan(c))]
                s.lits[v] = c
            return s.lits[v]
        if isinstance(v, Str):
            k = s.key(v)
            if k not in s.terms:
                c = z3.Const('text:%d' % len(s.terms), SS); s.terms[k] = (c, v); e = s.zs('')
                s.ax += [strlen(c) >= 0, (strlen(c) == 0) == (c == e), z3.Implies(isnum(c), z3.And(z3.Not(isnan(c)), tonum(c) >= 0, z3.IsInt(tonum(c)), c != e)), z3.Implies(ishex(c), c != e)]
                if v.t[0] == 'lower': x = s.zs(v.t[1]); z = s.zs('00000000'); s.ax += [c == lower(x), (c == z) == (x == z)]      # nothing but digits becomes digits
                if v.t[0] == 'hex': s.ax.append(lower(c) == c)
            return s.terms[k][0]
        raise Unsupported('string value')
    def litlow(s, v, c): return c if v.lower() == v else s.zs(v.lower())
    def key(s, v):
        """structural identity of a term; numbers by their simplified z3 form"""
        if isinstance(v, Str): return ('S',) + tuple(s.key(x) for x in v.t)
        if isinstance(v, Buf): return ('B',) + tuple(s.key(x) for x in v.t)
        if isinstance(v, Num): return ('N', z3.simplify(v.v).sexpr() if z3.is_expr(v.v) else v.v)
        if isinstance(v, tuple): return tuple(s.key(x) for x in v)
        if isinstance(v, Opt): return ('O', str(v.p), s.key(v.v))
        if isinstance(v, bool) : return ('b', v)
        if isinstance(v, (int, float)): return ('N', z3.simplify(z3.RealVal(v)).sexpr())
        if z3.is_expr(v): return ('Z', v.sexpr())
        if isinstance(v, (str, Un, Nu)): return repr(v)
        return ('id', id(v))
    def same(s, a, b):
        """valid(a == b) for terms, numbers by proof"""
        if isinstance(a, Opt) or isinstance(b, Opt):
            if isinstance(a, Opt) and isinstance(b, Opt): return s.key(a) == s.key(b)
            o, x = (a, b) if isinstance(a, Opt) else (b, a)
            if s.valid(o.p): return s.same(o.v, x)
            return x is UNDEF and s.valid(Not(o.p))
        if s.isnum_(a) and s.isnum_(b):
            a, b = s.num(a), s.num(b); return s.valid(z3.Or(z3.And(T(a.nan), T(b.nan)), z3.And(Not(T(a.nan)), Not(T(b.nan)), a.v == b.v)))
        if isinstance(a, (Str, str)) and isinstance(b, (Str, str)):
            p, q = s.pieces(a), s.pieces(b); return len(p) == len(q) and all((x == y if isinstance(x, str) and isinstance(y, str) else not isinstance(x, str) and not isinstance(y, str) and s.sameterm(x, y)) for x, y in zip(p, q))
        if isinstance(a, Buf) and isinstance(b, Buf):
            p, q = s.bpieces(a), s.bpieces(b); return len(p) == len(q) and all((x == y if isinstance(x, str) and isinstance(y, str) else not isinstance(x, str) and not isinstance(y, str) and s.sameterm(x, y)) for x, y in zip(p, q))
        if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(s.same(x, y) for x, y in zip(a, b))
        if z3.is_expr(a) and z3.is_expr(b) and z3.is_bool(a) and z3.is_bool(b): return s.valid(a == b)
        if z3.is_expr(a) and isinstance(b, bool): return s.valid(a == z3.BoolVal(b))
        if z3.is_expr(b) and isinstance(a, bool): return s.valid(b == z3.BoolVal(a))
        return a is b or type(a) is type(b) and isinstance(a, (str, bool)) and a == b
    def sameterm(s, x, y): return type(x) is type(y) and len(x.t) == len(y.t) and all(s.same(p, q) for p, q in zip(x.t, y.t))
    def isnum_(s, v): return isinstance(v, (Num, int, float)) and not isinstance(v, bool)
    def num(s, v):
        """ToNumber"""
        if isinstance(v, Num): return v
        if isinstance(v, bool): return Num(z3.RealVal(int(v)))
        if isinstance(v, (int, float)): return Num(z3.RealVal(repr(v) if isinstance(v, float) else v))
        if v is UNDEF: return Num(z3.RealVal(0), True)
        if v is NULL: return Num(z3.RealVal(0))
        if isinstance(v, Opt): w = s.num(v.v); return Num(ite(v.p, w.v, z3.RealVal(0)), Or(Not(v.p), w.nan))
        if isinstance(v, (Str, str)):
            if isinstance(v, Str) and v.t[0] == 'dec': return v.t[1]
            c = s.zs(v); return Num(tonum(c), isnan(c))
        raise Unsupported('number conversion')
    def truthy(s, v):
        if isinstance(v, bool): return v
        if v is UNDEF or v is NULL: return False
        if z3.is_expr(v) and z3.is_bool(v): return v
        if isinstance(v, str): return v != ''
        if isinstance(v, Str): return False if s.pieces(v) == [] else True if any(isinstance(x, str) or x.t[0] in ('dec', 'hex') for x in s.pieces(v)) else s.zs(v) != s.zs('')
        if s.isnum_(v): n = s.num(v); return And(Not(n.nan), n.v != 0)
        if isinstance(v, Opt): return And(v.p, s.truthy(v.v))
        if isinstance(v, (Obj, Arr, Buf, Fn, Nat, Regex)): return True
        raise Unsupported('truth value')
    def pieces(s, v):
        if isinstance(v, str): return [v] if v else []
        if v.t[0] == 'cat':
            r = []
            for x in v.t[1]:
                for q in s.pieces(x):
                    if r and isinstance(q, str) and isinstance(r[-1], str): r[-1] += q
                    else: r.append(q)
            return r
        return [v]
    def bpieces(s, b):
        """pieces of the bytes: ASCII literals and terms"""
        t = b.t
        if t[0] == 'concat':
            r = []
            for x in t[1]:
                for q in s.bpieces(x):
                    if r and isinstance(q, str) and isinstance(r[-1], str): r[-1] += q
                    else: r.append(q)
            return r
        if t[0] == 'lit': return [t[1]] if t[1] else []
        if t[0] == 'from':
            ps = s.pieces(t[1])
            if all(isinstance(x, str) and x.isascii() or isinstance(x, Str) and x.t[0] in ('dec', 'hex') for x in ps): return [x if isinstance(x, str) else Buf('text', x) for x in ps]
        return [b]
    def length(s, b):
        if isinstance(b, str): return len(b)
        if isinstance(b, Arr): raise Unsupported('length of an unknown array') if b.opaque is not None or any(g is not True for g, v in b.items) else None
        ps = s.bpieces(b); k = sum(len(p) for p in ps if isinstance(p, str)); ps = [p for p in ps if not isinstance(p, str)]
        if not ps: return k
        r = z3.IntVal(k)
        for p in ps:
            key = s.key(p)
            if ('L', key) not in s.terms:
                c = z3.Int('length:%d' % len(s.terms)); s.terms['L', key] = c; s.ax.append(c >= 0); s.ax.append(c <= 2 ** 52)
            r = r + s.terms['L', key]
        return Num(z3.ToReal(r))
    def eq(s, a, b, strict):
        """condition a == b"""
        if isinstance(a, Opt) or isinstance(b, Opt):
            if not isinstance(a, Opt): a, b = b, a
            return Or(And(a.p, s.eq(a.v, b, strict)), And(Not(a.p), s.eq(UNDEF, b, strict)))
        if a in (UNDEF, NULL) if isinstance(a, (Un, Nu)) else False or b is UNDEF or b is NULL:
            if isinstance(a, (Un, Nu)) and isinstance(b, (Un, Nu)): return a is b or not strict
            return False
        if isinstance(a, (Un, Nu)) or isinstance(b, (Un, Nu)): return False
        sa, sb = isinstance(a, (Str, str)), isinstance(b, (Str, str))
        if sa and sb:
            if isinstance(a, str) and isinstance(b, str): return a == b
            pa, pb = s.pieces(a), s.pieces(b)
            if s.key(a) == s.key(b): return True
            return s.zs(a) == s.zs(b)
        if sa != sb and strict: return False
        if (s.isnum_(a) or sa or isinstance(a, bool)) and (s.isnum_(b) or sb or isinstance(b, bool)):
            x, y = s.num(a), s.num(b); return And(Not(x.nan), Not(y.nan), x.v == y.v)
        if isinstance(a, (Obj, Arr, Buf, Fn, Nat)) and isinstance(b, (Obj, Arr, Buf, Fn, Nat)): return a is b
        raise Unsupported('comparison')
    # ---- expressions
    def cond(s, e, env):
        """truth of an expression as a condition, without forking"""
        t = e['type']
        if t == 'LogicalExpression' and e['operator'] in ('&&', '||'):
            a = s.cond(e['left'], env); neg = e['operator'] == '||'
            if isinstance(a, bool): return (s.cond(e['right'], env) if a != neg else a)
            s.guard.append(Not(a) if neg else a)
            try: b = s.cond(e['right'], env) if s.sat(True) else True
            except Throw: raise Unsupported('an exception inside a condition')
            finally: s.guard.pop()
            return Or(a, b) if neg else And(a, b)
        if t == 'UnaryExpression' and e['operator'] == '!': return Not(s.cond(e['argument'], env))
        return s.truthy(s.ev(e, env))
    def ev(s, e, env):
        s.steps += 1
        if s.steps > 200000: raise Unsupported('too many steps')
        m = getattr(s, 'e_' + e['type'], None)
        if m is None: raise Unsupported('expression ' + e['type'])
        return m(e, env)
    def e_Literal(s, e, env):
        if e.get('regex'): return Regex(e['regex']['pattern'], e['regex']['flags'])
        v = e['value']; return NULL if v is None else v
    def e_Identifier(s, e, env):
        n = e['name']
        if n == 'undefined': return UNDEF
        f = env.find(n)
        if f is None: raise Unsupported('name ' + n)
        if f.v[n] is POISON: raise Unsupported('value of %s after a merged statement' % n)
        return f.v[n]
    def e_ThisExpression(s, e, env): return s.e_Identifier(dict(name='this'), env)
    def e_FunctionExpression(s, e, env): return Fn([p['name'] for p in e['params']], e['body'], env, (e.get('id') or {}).get('name', ''))
    def e_ArrowFunctionExpression(s, e, env): return Fn([p['name'] for p in e['params']], e['body'] if e['body']['type'] == 'BlockStatement' else dict(type='BlockStatement', body=[dict(type='ReturnStatement', argument=e['body'])]), env, 'arrow')
    def e_ArrayExpression(s, e, env): return Arr([(True, s.ev(x, env)) for x in e['elements']])
    def e_ObjectExpression(s, e, env):
        o = Obj()
        for p in e['properties']: o.p[p['key'].get('name', p['key'].get('value'))] = s.ev(p['value'], env)
        return o
    def e_ConditionalExpression(s, e, env): return s.ev(e['consequent'] if s.decide(s.cond(e['test'], env)) else e['alternate'], env)
    def e_LogicalExpression(s, e, env):
        a = s.ev(e['left'], env); op = e['operator']
        if op == '??': return s.ev(e['right'], env) if a is UNDEF or a is NULL else a
        c = s.truthy(a)
        if isinstance(a, Opt) and s.decide(c): a = a.v; c = True
        return (s.ev(e['right'], env) if s.decide(c) else a) if op == '&&' else (a if s.decide(c) else s.ev(e['right'], env))
    def e_SequenceExpression(s, e, env):
        for x in e['expressions']: r = s.ev(x, env)
        return r
    def e_UnaryExpression(s, e, env):
        op = e['operator']
        if op == '!': return Not(s.cond(e['argument'], env))
        if op == 'typeof':
            v = s.ev(e['argument'], env)
            if isinstance(v, Opt): v = v.v if s.decide(v.p) else UNDEF
            return 'undefined' if v is UNDEF else 'number' if s.isnum_(v) else 'string' if isinstance(v, (str, Str)) else 'boolean' if isinstance(v, bool) or z3.is_expr(v) else 'function' if isinstance(v, (Fn, Nat)) else 'object'
        v = s.ev(e['argument'], env)
        if op == '+': return s.num(v)
        if op == '-': n = s.num(v); return -v if isinstance(v, int) and not isinstance(v, bool) else Num(-n.v, n.nan)
        raise Unsupported('operator ' + op)
    def e_BinaryExpression(s, e, env):
        op = e['operator']; a = s.ev(e['left'], env); b = s.ev(e['right'], env); return s.binop(op, a, b)
    def binop(s, op, a, b):
        if op in ('==', '==='): return s.eq(a, b, op == '===')
        if op in ('!=', '!=='): return Not(s.eq(a, b, op == '!=='))
        if op == 'in': return s.has(b, a)
        if op == '+' and (isinstance(a, (str, Str)) or isinstance(b, (str, Str))): return s.cat(s.text(a), s.text(b))
        if op in ('<', '>', '<=', '>=') and isinstance(s.strip(a), (str, Str)) and isinstance(s.strip(b), (str, Str)):
            return z3.Bool(s.fresh('textorder'))     # order of strings: unknown
        if type(a) is int and type(b) is int and op in ('+', '-', '*', '<', '>', '<=', '>=', '%') and op != '%': return {'+': a + b, '-': a - b, '*': a * b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        x, y = s.num(a), s.num(b); nan = Or(x.nan, y.nan); nan = False if x.nan is False and y.nan is False else nan
        if op in ('<', '>', '<=', '>='):
            c = {'<': x.v < y.v, '>': x.v > y.v, '<=': x.v <= y.v, '>=': x.v >= y.v}[op]; return And(Not(nan), c) if nan is not False else c
        if op in ('+', '-', '*'): return Num(z3.simplify({'+': x.v + y.v, '-': x.v - y.v, '*': x.v * y.v}[op]), nan)
        if op == '/':
            if s.sat(y.v == 0): raise Unsupported('division that may be by zero')
            return Num(x.v / y.v, nan)
        raise Unsupported('operator ' + op)
    def strip(s, v): return v.v if isinstance(v, Opt) else v
    def text(s, v):
        if isinstance(v, (str, Str)): return v
        if type(v) is int: return str(v)
        if isinstance(v, Num): return Str('dec', v)
        if isinstance(v, Opt): return Str('optext', v)
        if v is UNDEF: return 'undefined'
        raise Unsupported('text conversion')
    def cat(s, a, b):
        p = s.pieces(Str('cat', (a, b))); return '' if not p else p[0] if len(p) == 1 else Str('cat', tuple(p))
    def has(s, o, k):
        if isinstance(o, Opt): s.require(o.p, 'property test on undefined'); o = o.v
        if not isinstance(o, Obj) or not isinstance(k, str): raise Unsupported('in')
        v = o.p.get(k, UNDEF); return False if k not in o.p else v.p if isinstance(v, Opt) else True
    def e_UpdateExpression(s, e, env):
        old = s.ev(e['argument'], env); n = s.binop('+' if e['operator'] == '++' else '-', s.num(old) if not isinstance(old, int) else old, 1); s.assign(e['argument'], n, env); return n if e['prefix'] else old
    def e_AssignmentExpression(s, e, env):
        op = e['operator']
        if op == '=': v = s.ev(e['right'], env)
        else: v = s.binop(op[:-1], s.ev(e['left'], env), s.ev(e['right'], env))
        s.assign(e['left'], v, env); return v
    def assign(s, t, v, env):
        if t['type'] == 'Identifier':
            f = env.find(t['name']) or env; f.v[t['name']] = v
            if s.guard and not s.merge and not s.local(f): raise Unsupported('assignment inside a condition')
            if s.assigned is not None: s.assigned.append((f, t['name']))
        elif t['type'] == 'MemberExpression':
            o = s.ev(t['object'], env); k = s.propname(t, env)
            if s.guard and not (isinstance(o, Obj) and o.born is not None and len(s.guard) <= len(o.born) and all(x is y for x, y in zip(s.guard, o.born))): raise Unsupported('property assignment under a condition')
            if isinstance(o, Opt): s.require(o.p, 'assignment to a property of undefined'); o = o.v
            if not isinstance(o, (Obj, Fn, Nat)): raise Unsupported('property assignment')
            if not isinstance(k, str): raise Unsupported('computed property assignment')
            o.p[k] = v
        else: raise Unsupported('assignment')
    def local(s, f): return f.depth is not None and f.depth >= len(s.guard)      # a frame that exists only under the present conditions
    def propname(s, e, env): return s.ev(e['property'], env) if e['computed'] else e['property']['name']
    def e_MemberExpression(s, e, env):
        o = s.ev(e['object'], env); return s.member(o, s.propname(e, env))
    def member(s, o, k):
        if isinstance(o, Opt):
            if not s.valid(o.p): 
                if s.merge or s.guard: raise Unknown('a property of undefined may be read: %s' % k)
                if not s.decide(o.p): raise Throw(('TypeError', k))
            o = o.v
        if o is UNDEF or o is NULL: raise Throw(('TypeError', k))
        if isinstance(o, (Obj, Fn, Nat)):
            q = o
            if not isinstance(k, str): raise Unsupported('computed property')
            while q is not None:
                if k in q.p: return q.p[k]
                q = getattr(q, 'proto', None)
            if isinstance(o, (Fn, Nat)) and k in ('call', 'apply'): return Nat(lambda it, th, a, o=o: it.callv(o, a[0], a[1:]), 'call')
            return UNDEF
        if isinstance(o, Arr):
            if k == 'length': return s.arrlen(o)
            if isinstance(k, int) and o.opaque is None and all(g is True for g, v in o.items): return o.items[k][1] if 0 <= k < len(o.items) else UNDEF
            if isinstance(k, (Num, Opt)) and o.opaque is None:     # an unknown index: decided
                n = s.num(k)
                for i, (g, v) in enumerate(o.items):
                    if s.decide(And(Not(n.nan), n.v == i)): return v
                return UNDEF
            if k in ARR: return Nat(ARR[k], k)
        if isinstance(o, (str, Str)):
            if k == 'length': return len(o) if isinstance(o, str) else Num(z3.ToReal(strlen(s.zs(o))))
            if k in STR: return Nat(STR[k], k)
        if isinstance(o, Buf):
            if k == 'length': return s.length(o)
            if k in BUF: return Nat(BUF[k], k)
            if s.isnum_(k): return Opt(z3.Bool(s.fresh('inrange')), Num(z3.ToReal(z3.Int(s.fresh('byte')))))
        if isinstance(o, Regex) and k == 'test': return Nat(lambda it, th, a: it.retest(th, a[0]), 'test')
        raise Unsupported('property %s' % (k,))
    def arrlen(s, o):
        if o.opaque is None and all(g is True for g, v in o.items): return len(o.items)
        ne = Or(*([o.opaque] if o.opaque is not None else []) + [g for g, v in o.items]); n = z3.Real(s.fresh('count')); s.pc.append(z3.And(n >= 0, (n != 0) == T(ne))); return Num(n)
    def retest(s, re, v):
        if isinstance(v, Opt): s.require(v.p, 'a pattern is tested on undefined'); v = v.v
        if isinstance(v, str): v = v
        if re.flags: raise Unsupported('pattern flags')
        if re.pat in ('^\\d+$', '^[0-9]+$'): return isnum(s.zs(v))
        if re.pat in ('^[a-fA-F0-9]{8}$', '^[0-9a-fA-F]{8}$', '^[A-Fa-f0-9]{8}$', '^[0-9A-Fa-f]{8}$', '^[\\da-fA-F]{8}$'): return ishex(s.zs(v))
        raise Unsupported('pattern ' + re.pat)
    def e_CallExpression(s, e, env):
        c = e['callee']; th = UNDEF
        if c['type'] == 'MemberExpression':
            o = s.ev(c['object'], env); k = s.propname(c, env); f = s.member(o, k); th = o.v if isinstance(o, Opt) else o
        else: f = s.ev(c, env)
        return s.callv(f, th, [s.ev(a, env) for a in e['arguments']])
    def callv(s, f, th, args):
        if isinstance(f, Nat): return f.f(s, th, args)
        if not isinstance(f, Fn): raise Throw(('TypeError', 'call')) if f is UNDEF else Unsupported('call')
        if f in s.contracts: return s.contracts[f](s, th, args)
        env = Env(f.env); env.depth = len(s.guard); env.v.update({p: args[i] if i < len(args) else UNDEF for i, p in enumerate(f.params)}); env.v['this'] = th; s.hoist(f.body['body'], env)
        try: s.block(f.body['body'], env, 'ReturnStatement')
        except Ret as r: return r.v
        return UNDEF
    contracts = {}
    def e_NewExpression(s, e, env):
        f = s.ev(e['callee'], env); args = [s.ev(a, env) for a in e['arguments']]
        if isinstance(f, Nat): return f.f(s, UNDEF, args)
        o = Obj(proto=f.p.get('prototype')); o.born = list(s.guard)
        r = s.callv(f, o, args); return r if isinstance(r, Obj) else o
    # ---- statements
    def hoist(s, body, env):
        def walk(x):
            if isinstance(x, list):
                for y in x: walk(y)
            elif isinstance(x, dict):
                t = x.get('type')
                if t == 'FunctionDeclaration': env.v[x['id']['name']] = Fn([p['name'] for p in x['params']], x['body'], env, x['id']['name']); env.v[x['id']['name']].p['prototype'] = Obj(); return
                if t in ('FunctionExpression', 'ArrowFunctionExpression'): return
                if t == 'VariableDeclarator': env.v.setdefault(x['id']['name'], UNDEF)
                for y in x.values(): walk(y)
        walk(body)
    def mergeable(s, x):
        t = x['type']
        if t == 'BlockStatement': return all(s.mergeable(y) for y in x['body'])
        if t == 'IfStatement': return s.mergeable(x['consequent']) and (not x.get('alternate') or s.mergeable(x['alternate']))
        if t == 'ExpressionStatement': e = x['expression']; return e['type'] == 'CallExpression' and e['callee']['type'] == 'MemberExpression' and not e['callee']['computed'] and e['callee']['property']['name'] == 'push'
        return t in ('EmptyStatement', 'VariableDeclaration')
    def under(s, c, run):
        """execute with every effect guarded by c"""
        if c is False: return
        s.guard.append(c); s.merge += 1; old = s.assigned; s.assigned = []
        try:
            if s.sat(True): run()
        except Throw: raise Unsupported('an exception inside a merged statement')
        finally:
            s.guard.pop(); s.merge -= 1; mine = s.assigned; s.assigned = old
        for f, n in mine:
            f.v[n] = POISON
            if s.assigned is not None: s.assigned.append((f, n))
    def block(s, body, env, skip=None):
        for i, x in enumerate(body):
            if x['type'] == 'IfStatement' and not x.get('alternate') and skip:
                q = x['consequent']; q = q['body'][0] if q['type'] == 'BlockStatement' and len(q['body']) == 1 else q
                if q['type'] == skip and not q.get('argument') and not q.get('label') and all(s.mergeable(y) for y in body[i + 1:]):
                    c = s.cond(x['test'], env)
                    if not isinstance(c, bool):
                        s.under(Not(c), lambda: s.block(body[i + 1:], env)); return
                    if c: return
                    continue
            s.st(x, env)
    def st(s, x, env):
        t = x['type']; m = getattr(s, 's_' + t, None)
        if m is None: raise Unsupported('statement ' + t)
        return m(x, env)
    def s_ExpressionStatement(s, x, env): s.ev(x['expression'], env)
    def s_EmptyStatement(s, x, env): pass
    def s_FunctionDeclaration(s, x, env): pass
    def s_VariableDeclaration(s, x, env):
        for d in x['declarations']:
            if d.get('init'):
                v = s.ev(d['init'], env); 
                if isinstance(v, Fn) and not v.p: v.p['prototype'] = Obj()
                s.assign(d['id'], v, env)
    def s_BlockStatement(s, x, env): s.block(x['body'], env)
    def s_IfStatement(s, x, env):
        c = s.cond(x['test'], env)
        if isinstance(c, bool):
            if c: s.st(x['consequent'], env)
            elif x.get('alternate'): s.st(x['alternate'], env)
        elif s.mergeable(x):
            s.under(c, lambda: s.st(x['consequent'], env))
            if x.get('alternate'): s.under(Not(c), lambda: s.st(x['alternate'], env))
        elif s.decide(c): s.st(x['consequent'], env)
        elif x.get('alternate'): s.st(x['alternate'], env)
    def s_ReturnStatement(s, x, env): raise Ret(s.ev(x['argument'], env) if x.get('argument') else UNDEF)
    def s_ThrowStatement(s, x, env): raise Throw(s.ev(x['argument'], env))
    def s_BreakStatement(s, x, env): raise Brk()
    def s_ContinueStatement(s, x, env): raise Cont()
    def s_ForInStatement(s, x, env):
        o = s.ev(x['right'], env)
        if not isinstance(o, Obj) or any(isinstance(v, Opt) for v in o.p.values()): raise Unsupported('for in')
        d = x['left']['declarations'][0]['id'] if x['left']['type'] == 'VariableDeclaration' else x['left']
        for k in list(o.p):
            s.assign(d, k, env)
            try: s.block(x['body']['body'] if x['body']['type'] == 'BlockStatement' else [x['body']], env, 'ContinueStatement')
            except Cont: pass
            except Brk: break
    def s_ForStatement(s, x, env):
        if x.get('init'): s.st(x['init'], env) if x['init']['type'] == 'VariableDeclaration' else s.ev(x['init'], env)
        for _ in range(64):
            if x.get('test') and not s.decide(s.cond(x['test'], env)): return
            try: s.st(x['body'], env)
            except Cont: pass
            except Brk: return
            if x.get('update'): s.ev(x['update'], env)
        raise Unsupported('loop without a fixed number of rounds')
    def s_WhileStatement(s, x, env):
        """cut at the head: what the body assigns is unknown there; objects have to be unchanged when the loop goes round"""
        names = set(); arrs = set()
        def walk(y):
            if isinstance(y, list):
                for z in y: walk(z)
            elif isinstance(y, dict):
                if y.get('type') == 'AssignmentExpression' and y['left']['type'] == 'Identifier': names.add(y['left']['name'])
                if y.get('type') == 'UpdateExpression' and y['argument']['type'] == 'Identifier': names.add(y['argument']['name'])
                if y.get('type') == 'VariableDeclarator': names.add(y['id']['name'])
                if y.get('type') == 'CallExpression' and y['callee']['type'] == 'MemberExpression' and not y['callee']['computed'] and y['callee']['property']['name'] in ('push', 'unshift') and y['callee']['object']['type'] == 'Identifier': arrs.add(y['callee']['object']['name'])
                for z in y.values(): walk(z)
        walk(x)
        for n in sorted(names):
            f = env.find(n); v = f.v[n]
            f.v[n] = Num(z3.ToReal(z3.Int(s.fresh(n)))) if s.isnum_(v) else POISON
        for n in sorted(arrs):
            a = env.find(n).v[n]
            if not isinstance(a, Arr): raise Unsupported('push')
            a.opaque = z3.Bool(s.fresh('some')); a.items = []
        snap = s.snapshot(env)
        if not s.decide(s.cond(x['test'], env)): return
        try: s.st(x['body'], env)
        except Cont: pass
        except Brk: return
        if s.snapshot(env) != snap: raise Unsupported('a loop that changes objects')
        raise Again()
    def snapshot(s, env):
        r = []; e = env
        while e is not None:
            for n, v in sorted(e.v.items()):
                if isinstance(v, Obj) and n != 'this': r.append((n, id(v), tuple(sorted((k, id(w)) for k, w in v.p.items()))))
            e = e.up
        return r
# ---------------------------------------------------------------- built-in functions by their contracts
def n_push(it, th, a):
    th.items.append((And(*it.guard) if it.guard else True, a[0])); return UNDEF
def n_concat(it, th, a):
    o = a[0]; q = [x.opaque for x in (th, o) if x.opaque is not None]; return Arr(th.items + o.items, Or(*q) if q else None)
def n_foreach(it, th, a):
    if th.opaque is not None: raise Unsupported('forEach over unknown elements')
    for g, v in th.items:
        if g is not True: raise Unsupported('forEach over guarded elements')
        it.callv(a[0], UNDEF, [v])
    return UNDEF
def n_indexof(it, th, a):
    for i, (g, v) in enumerate(th.items):
        if it.decide(it.eq(v, a[0], True)): return i
    return -1
ARR = dict(push=n_push, concat=n_concat, forEach=n_foreach, indexOf=n_indexof)
def conc(v): return type(v) is int or v is UNDEF
def n_substr(it, th, a):
    if isinstance(th, str) and all(conc(x) for x in a): return th[max(a[0], 0):(len(th) if len(a) < 2 or a[1] is UNDEF else max(a[1], 0))]
    return Str('substring', th, *a)
def n_slice(it, th, a):
    if isinstance(th, str) and all(conc(x) for x in a): return th[a[0]:(len(th) if len(a) < 2 or a[1] is UNDEF else a[1])]
    raise Unsupported('slice of an unknown string')
def charset(p):
    """the set of characters of a one-character pattern, or None"""
    import re
    if re.fullmatch(r'\[(?!\^)([^\]\\-]|\\[rnt0\\])+\]', p): return frozenset(eval('"%s"' % p[1:-1].replace('"', '\\"').replace('\\0', '\\x00')))
    return None
def n_replace(it, th, a):
    if isinstance(th, Opt): raise Unsupported('replace')
    if isinstance(a[0], Regex) and a[0].flags == 'g' and a[1] == '' and charset(a[0].pat): 
        if isinstance(th, str): return ''.join(c for c in th if c not in charset(a[0].pat))
        return Str('without', ''.join(sorted(charset(a[0].pat))), th)
    raise Unsupported('replace')
STR = dict(substring=n_substr, slice=n_slice, replace=n_replace, toLowerCase=lambda it, th, a: th.lower() if isinstance(th, str) else Str('lower', th), trim=lambda it, th, a: th.strip() if isinstance(th, str) else Str('trim', th), toString=lambda it, th, a: th)
def encname(e): return 'utf8' if e is UNDEF else {'latin1': 'binary', 'utf-8': 'utf8'}.get(e.lower(), e.lower()) if isinstance(e, str) else e
def b_tostring(it, th, a):
    enc = encname(a[0] if a else 'utf8')
    if enc == 'hex' and th.t[0] == 'lit': return ''.join('%02x' % ord(c) for c in th.t[1])
    return Str('hex', th) if enc == 'hex' else Str('string', th, enc)
BUF = dict(toString=b_tostring)
def b_from(it, th, a):
    v = a[0]; enc = encname(a[1] if len(a) > 1 else 'utf8')
    if isinstance(v, Opt): raise Unsupported('Buffer.from')
    if isinstance(v, Arr):
        if v.opaque is not None or not all(g is True and type(x) is int for g, x in v.items): raise Unsupported('Buffer.from')
        return Buf('lit', ''.join(chr(x & 255) for g, x in v.items))
    if isinstance(v, str) and v.isascii(): return Buf('lit', v)
    if isinstance(v, (str, Str)):
        t = Buf('from', v, enc)
        # text() of plain decimal and hexadecimal digits is the same in every encoding
        return t if enc not in ('utf8',) and t.t else Buf('from', v, enc)
    raise Unsupported('Buffer.from')
def b_concat(it, th, a): return Buf('concat', tuple(v for g, v in a[0].items))
def b_slice(it, th, a): return Buf('slice', th, *[x for x in a])
def native(name):
    def f(it, th, a): it.calls.append((name, a)); return Buf(name, *a)
    return Nat(f, name)
def math(fn):
    def f(it, th, a):
        if type(a[0]) is int: return a[0]
        n = it.num(a[0]); k = z3.ToInt(n.v)
        return Num(z3.ToReal(k if fn == 'floor' else -z3.ToInt(-n.v)), n.nan)
    return Nat(f, fn)
def error(it, th, a): return Obj({'message': a[0] if a else ''})
def load(it):
    """executes the top level of index.js -> its environment"""
    prog = program(); env = Env(); G = env.v
    bufp = Obj({'subarray': Nat(b_slice), 'slice': Nat(b_slice), 'readBigInt64BE': Nat(None), 'indexOf': Nat(None), 'lastIndexOf': Nat(None)})
    B = Nat(None, 'Buffer'); B.p.update({'from': Nat(b_from), 'alloc': Nat(None), 'concat': Nat(b_concat), 'prototype': bufp, 'isBuffer': Nat(lambda i, th, a: z3.And(T(a[0].p), T(isinstance(a[0].v, Buf))) if isinstance(a[0], Opt) else isinstance(a[0], Buf))})
    G['Buffer'] = B; G['Error'] = Nat(error); G['TypeError'] = Nat(error); G['Math'] = Obj({'floor': math('floor'), 'ceil': math('ceil')})
    O = Nat(None, 'Object'); O.p['create'] = Nat(lambda i, th, a: Obj()); G['Object'] = O
    y = Obj({n: native(n) for n in 'encode encodeTo decode decodeTo crc32 crc32_combine crc32_zeroes crc32_multiply crc32_shift'.split()}); y.p['decodeIncr'] = Nat(n_decodeincr)
    def req(i, th, a):
        if isinstance(a[0], str) and a[0].endswith('yencode.node'): return y
        raise Unsupported('require')
    G['require'] = Nat(req); G['module'] = Obj({'exports': Obj()}); G['this'] = UNDEF; it.hoist(prog['body'], env); it.contracts = {}
    it.block([x for x in prog['body'] if x['type'] != 'FunctionDeclaration'], env); it.y = y; it.env = env
    for n, f in env.v.items():
        if isinstance(f, Fn) and n in CONTRACTS: it.contracts[f] = CONTRACTS[n]
    it.exports = G['module'].p['exports']; it.exports.p['encoding'] = Str('sym', 'encoding'); return env
def n_decodeincr(it, th, a):
    """contract of decodeIncr (proved by units_bind, units_dec, units_simd)"""
    r = Obj(); st, en = z3.Int(it.fresh('state')), z3.Int(it.fresh('ended')); it.pc.append(z3.And(st >= 0, st <= 6, en >= 0, en <= 2))
    r.p.update(read=Num(z3.ToReal(z3.Int(it.fresh('read')))), written=Num(z3.ToReal(z3.Int(it.fresh('written')))), ended=Num(z3.ToReal(en)), state=Num(z3.ToReal(st)))
    r.p['output'] = UNDEF if len(a) > 2 and isinstance(a[2], Buf) else Buf('output', len(it.calls))
    it.calls.append(('decodeIncr', a, r)); return r
def c_find(it, th, a):
    """bufferFind, bufferFindRev: some position, or -1"""
    r = z3.Int(it.fresh('found')); it.pc.append(r >= -1); 
    if len(a) > 2: it.pc.append(z3.Or(r == -1, z3.ToReal(r) >= it.num(a[2]).v))
    return Num(z3.ToReal(r))
FIELDS = dict(begin=('line', 'size', 'name', 'part', 'total'), part=('begin', 'end'), end=('size', 'part', 'pcrc32', 'crc32'))
def c_parse(it, th, a):
    """decoderParseLines(lines, ydata): bounded only; here: some properties per line, `begin` from the first line, `end` from a line that starts with '=yend '"""
    lines, yd = a
    def rec(tag): it.n += 1; return Obj({k: Opt(z3.Bool('%s.%s!%d' % (tag, k, it.n)), Str('sym', '%s.%s!%d' % (tag, k, it.n))) for k in FIELDS[tag]})
    hasend = any(it.valid(it.eq(n_substr(it, v, [0, 6]), '=yend ', False)) for g, v in lines.items if g is True and isinstance(v, Str) and lines.opaque is not None)
    if lines.opaque is not None: yd.p['begin'] = rec('begin'); yd.p['part'] = Opt(z3.Bool(it.fresh('partline')), rec('part'))
    if hasend or lines.opaque is None: yd.p['end'] = rec('end')
    it.pc.append(z3.BoolVal(True)); return Arr([], z3.Bool(it.fresh('parsewarnings')))
CONTRACTS = dict(bufferFind=c_find, bufferFindRev=c_find, decoderParseLines=c_parse)
# ---------------------------------------------------------------- paths
class Pr:
    def __init__(s): s.n = 0; s.model = None
def paths(pr, body, limit=6000, deadline=300):
    """runs body(it) -> check(it, outcome) on every path"""
    todo = [[]]; n = 0; t0 = time.time()
    while todo:
        n += 1
        if n > limit or time.time() - t0 > deadline: raise Unknown('too many paths')
        it = Interp(todo.pop(), pr); it.todo = todo
        try: body(it)
        except Again: pass
    return n
def outcome(it, run):
    try: return ('return', run())
    except Throw as e: return ('throw', e.v)
def differ(it, a, b):
    """is there a definite difference (a number or some literal text)? terms of other structure may still be equal"""
    if it.isnum_(a) and it.isnum_(b) or isinstance(a, (str, bool)) and isinstance(b, (str, bool)): return not it.same(a, b)
    if isinstance(a, (Str, str)) and isinstance(b, (Str, str)) or isinstance(a, Buf) and isinstance(b, Buf):
        f = it.pieces if isinstance(a, (Str, str)) else it.bpieces
        for x, y in zip(f(a), f(b)):
            if isinstance(x, str) and isinstance(y, str):
                if x == y: continue
                return not (x.startswith(y) or y.startswith(x))
            if isinstance(x, str) or isinstance(y, str): return False
            if it.sameterm(x, y): continue
            return x.t[0] == y.t[0] and x.t[0] in ('dec', 'text') and differ(it, x.t[1], y.t[1])
    return False
def expect(it, a, b, what):
    if it.same(a, b): return
    m = '%s: got %s, expected %s' % (what, show(it, a), show(it, b))
    if differ(it, a, b): raise Fail(m)
    raise Unknown(m)
def show(it, v): return str(it.key(v))[:300]
def dec(x): return Str('dec', x)
def joined(*p): return Buf('concat', tuple(Buf('lit', x) if isinstance(x, str) else x if isinstance(x, Buf) else Buf('from', x, 'utf8') for x in p))
def int_(it, name, lo=0):
    v = z3.Int(name); it.pc.append(v >= lo); it.pc.append(v <= 2 ** 50); return Num(z3.ToReal(v))
def filename(it):
    name = Str('sym', 'filename'); BAD = '\0\n\r'; enc = it.exports.p['encoding']
    b = Buf('from', n_substr(it, Str('without', BAD, name), [0, 256]), enc)
    return name, Buf('from', Str('without', BAD, Str('string', b, 'binary')), 'binary')
def given_line(it):
    """line_size as given: a positive number, or undefined (128)"""
    p = z3.Bool('line given'); n = int_(it, 'line', 1); return (n, n) if it.decide(p) else (UNDEF, 128)
def content(it):
    """data of a part as given (a buffer or a text), and its bytes"""
    if it.decide(z3.Bool('data is a text')): t = Str('sym', 'data'); return t, Buf('from', t, 'utf8')
    b = Buf('sym', 'data'); return b, b
def lemma_post(it):
    load(it); name, fb = filename(it); arg, data = content(it); ls, N = given_line(it)
    L = it.length(data); crc = Buf('crc32', data)
    want = joined('=ybegin line=', it.text(N), ' size=', dec(L), ' name=', fb, '\r\n', Buf('encode', data, N), '\r\n=yend size=', dec(L), ' crc32=', Str('hex', crc))
    k, r = outcome(it, lambda: it.callv(it.exports.p['post'], it.exports, [name, arg, ls]))
    if k != 'return': raise Fail('post throws')
    expect(it, r, want, 'bytes of the post')
    # a one-part encoder writes the same, and only once
    k, e = outcome(it, lambda: it.callv(it.exports.p['multi_post'], it.exports, [name, L, 1, ls]))
    if k != 'return': raise Fail('multi_post throws')
    k, r = outcome(it, lambda: it.callv(it.member(e, 'encode'), e, [arg]))
    if k != 'return': raise Fail('encode of a one-part encoder throws')
    expect(it, r, want, 'bytes of the one-part post')
    k, r = outcome(it, lambda: it.callv(it.member(e, 'encode'), e, [Buf('sym', 'more')]))
    if k != 'throw': raise Fail('a second part is accepted by a one-part encoder')
STATE = ('size', 'parts', 'line_size', 'part', 'pos', 'crc', 'yInfo')
def lemma_new(it):
    """constructor: the invariant of P02 holds at first"""
    load(it); name, fb = filename(it); ls, N = given_line(it); size = int_(it, 'size'); parts = int_(it, 'parts', 2)
    k, e = outcome(it, lambda: it.callv(it.exports.p['multi_post'], it.exports, [name, size, parts, ls]))
    if k != 'return': raise Fail('multi_post throws')
    for f, w in dict(size=size, parts=parts, line_size=N, part=0, pos=0, crc=Buf('lit', '\0\0\0\0'), yInfo=joined(' total=', dec(parts), ' line=', it.text(N), ' size=', dec(size), ' name=', fb, '\r\n')).items(): expect(it, it.member(e, f), w, 'initial ' + f)
    if it.member(e, 'encode') is not it.env.v['YEncoder'].p['prototype'].p['encode']: raise Fail('encode method')
def lemma_part(it):
    """one call of encode in any state of the encoder: part parts finished, pos bytes written, crc of them; yInfo is the rest of the header"""
    load(it); size = int_(it, 'size'); parts = int_(it, 'parts', 2); part = int_(it, 'part'); pos = int_(it, 'pos'); N = int_(it, 'line', 1); it.pc += [part.v <= parts.v, pos.v <= size.v, z3.Implies(part.v == parts.v, pos.v == size.v)]
    crc = Buf('sym', 'crc'); info = Buf('sym', 'yInfo'); done = it.decide(part.v == parts.v); arg, data = content(it); L = it.length(data)
    e = Obj(dict(size=size, parts=parts, line_size=N, part=part, pos=pos, crc=crc, yInfo=NULL if done else info), it.env.v['YEncoder'].p['prototype']); old = dict(e.p)
    bad = z3.Or(part.v + 1 > parts.v, pos.v + L.v > size.v, z3.And(part.v + 1 == parts.v, pos.v + L.v != size.v))
    k, r = outcome(it, lambda: it.callv(it.member(e, 'encode'), e, [arg]))
    if k == 'throw':
        it.require(bad, 'a correct part is rejected')
        for f in STATE: expect(it, e.p.get(f, UNDEF), old[f], 'state after a rejected call: ' + f)
        if set(e.p) != set(old): raise Fail('a rejected call adds state')
        return
    it.require(z3.Not(bad), 'a part outside the file or beyond the number of parts is accepted')
    last = it.decide(part.v + 1 == parts.v); c = Buf('crc32', data); comb = Buf('crc32_combine', crc, c, L); P = Num(part.v + 1); E = Num(pos.v + L.v)
    want = joined('=ybegin part=', dec(P), info, '=ypart begin=', dec(Num(pos.v + 1)), ' end=', dec(E), '\r\n', Buf('encode', data, N), '\r\n=yend size=', dec(L), ' part=', dec(P), ' pcrc32=', Str('hex', c), *([' crc32=', Str('hex', comb)] if last else []))
    expect(it, r, want, 'bytes of the part')
    for f, w in dict(size=size, parts=parts, line_size=N, part=P, pos=E, crc=comb).items(): expect(it, e.p[f], w, 'state after a part: ' + f)
    if not last: expect(it, e.p['yInfo'], info, 'state after a part: yInfo')
    if e.p.get('encode', None) is not None: raise Fail('encode method replaced')
def lemma_chunk(it):
    """decodeChunk: the state text of the previous result selects the state of the decoder, and back"""
    env = load(it); T7 = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n=']; data = Buf('sym', 'data')
    k = z3.Int('prev'); it.pc.append(z3.And(k >= 0, k <= 7)); st = 0; prev = NULL
    for i in range(8):
        if it.decide(k == i): st = i % 7 if i < 7 else 0; prev = T7[i] if i < 7 else UNDEF; break
    out = Buf('sym', 'dest') if it.decide(z3.Bool('dest given')) else UNDEF
    args = [data, prev, out]
    if it.decide(z3.Bool('arguments swapped')): args = [data, out, prev]
    n0 = len(it.calls)
    o, r = outcome(it, lambda: it.callv(it.exports.p['decodeChunk'], it.exports, args))
    if o != 'return': raise Fail('decodeChunk throws')
    L = it.length(data)
    if len(it.calls) == n0:
        it.require(L.v == 0, 'nothing is decoded')
        for f, w in dict(read=0, written=0, ended=False, state=T7[st]).items(): expect(it, it.member(r, f), w, 'result for no data: ' + f)
        expect(it, it.member(r, 'output'), out if out is not UNDEF else Buf('lit', ''), 'output'); return
    if len(it.calls) != n0 + 1: raise Fail('decoded more than once')
    _, a, ret = it.calls[-1]
    expect(it, a[0], data, 'data'); expect(it, a[1], st, 'decoder state'); expect(it, a[2] if len(a) > 2 else UNDEF, out, 'destination')
    for f in ('read', 'written'): expect(it, it.member(r, f), ret.p[f], f)
    expect(it, it.member(r, 'output'), out if out is not UNDEF else ret.p['output'], 'output')
    en, s2 = ret.p['ended'], ret.p['state']; it.require(it.truthy(it.member(r, 'ended')) == (en.v != 0) if z3.is_expr(it.truthy(it.member(r, 'ended'))) else T(it.truthy(it.member(r, 'ended'))) == (en.v != 0), 'ended')
    t = it.member(r, 'state')
    if not isinstance(t, str): raise Fail('state is not a text')
    it.require(z3.Or(*[z3.And(en.v == 0, s2.v == i) for i in range(7) if T7[i] == t] + ([en.v == 1] if t == '\r\n=y' else []) + ([en.v == 2] if t == '\r\n.\r\n' else [])), 'state text')
def lemma_sizes(it):
    """maxSize (ratio 1) is at least the space that is required; minSize is at most what the encoder writes (nl line ends; nl*N + N >= L)"""
    load(it); L = int_(it, 'L', 1); ls, N = given_line(it); n = it.num(N).v
    ratio = UNDEF if it.decide(z3.Bool('no ratio')) else 1
    k, m = outcome(it, lambda: it.callv(it.exports.p['maxSize'], it.exports, [L, ls, ratio]))
    if k != 'return': raise Fail('maxSize throws')
    # floor(2L/N) by its definition
    q = z3.Int('q'); l = z3.ToInt(L.v); it.pc += [z3.ToReal(q) * n <= 2 * L.v, 2 * L.v < (z3.ToReal(q) + 1) * n, q == z3.ToInt(2 * L.v / n)]
    mm = it.num(m); it.require(z3.And(Not(T(mm.nan)), mm.v >= 2 * L.v + 66 + 2 * z3.ToReal(q)), 'maxSize is below the space required')
    k, m = outcome(it, lambda: it.callv(it.exports.p['minSize'], it.exports, [L, ls]))
    if k != 'return': raise Fail('minSize throws')
    nl = z3.Int('nl'); f = z3.Int('f'); mm = it.num(m); N_ = z3.ToInt(n)
    # the fewest line ends that hold L characters: nl >= floor((L-1)/N); from nl*N + N >= L
    it.pc += [nl >= 0, z3.ToReal(nl) >= z3.ToReal(z3.ToInt((L.v - 1) / n))]
    it.require(z3.And(Not(T(mm.nan)), mm.v <= L.v + 2 * z3.ToReal(nl)), 'minSize is above what the encoder may write')
def lemma_sizes0(it):
    load(it)
    for f in ('minSize', 'maxSize'):
        k, m = outcome(it, lambda: it.callv(it.exports.p[f], it.exports, [0]))
        if k != 'return': raise Fail(f + ' throws')
        expect(it, m, 0, f + '(0)')
# ---- from_post
def truthyopt(it, o): return And(o.p, it.truthy(o.v))
def post_spec(it, yd, datalen, hexcrc):
    """(what is wrong, condition, codes of the warnings that say so)"""
    B, E, Pp = yd.p['begin'].p, yd.p['end'].p, yd.p['part']; P = Pp.v.p; pp = Pp.p
    t = lambda o: truthyopt(it, o); num = lambda o: it.num(o)
    def differs(a, b): a, b = num(a), num(b); return And(Not(Or(a.nan, b.nan)), a.v != b.v)
    def less(a, b): a, b = num(a), num(b); return And(Not(Or(a.nan, b.nan)), a.v < b.v)
    zs = lambda o: it.zs(o.v); R = []
    n = num(E['size']); R.append(('data size', Or(n.nan, n.v != datalen), ('data_size_mismatch',)))
    R.append(('part CRC', And(t(E['pcrc32']), it.zs(Str('lower', E['pcrc32'].v)) != hexcrc), ('pcrc32_mismatch',)))
    R.append(('file CRC', And(Not(pp), t(E['crc32']), it.zs(Str('lower', E['crc32'].v)) != hexcrc), ('crc32_mismatch',)))
    R.append(('part numbers', And(t(B['part']), t(E['part']), zs(B['part']) != zs(E['part'])), ('part_number_mismatch',)))
    R.append(('part beyond total', And(t(B['total']), Or(And(t(B['part']), less(B['total'], B['part'])), And(t(E['part']), less(B['total'], E['part'])))), ('part_number_exceeds_total',)))
    rng = And(pp, t(P['begin']), t(P['end'])); pb, pe, es = num(P['begin']), num(P['end']), num(E['size'])
    ok3 = And(Not(pb.nan), Not(pe.nan))
    R.append(('range order', And(rng, less(P['end'], P['begin'])), ('invalid_part_range',)))
    R.append(('range size', And(rng, Not(less(P['end'], P['begin'])), Or(pb.nan, pe.nan, es.nan, es.v != pe.v - pb.v + 1)), ('size_mismatch_part_range',)))
    R.append(('range beyond file', And(rng, less(B['size'], P['end'])), ('part_range_exceeds_size',)))
    one = lambda o: And(Not(num(o).nan), num(o).v > 1)
    R.append(('range missing', And(Not(rng), Or(one(B['total']), one(B['part']), one(E['part']))), ('missing_part_range',)))
    R.append(('sizes differ', Or(And(Not(t(B['part'])), zs(B['size']) != zs(E['size'])), less(B['size'], E['size'])), ('size_mismatch',)))
    for rec, tag, pres in ((B, 'begin', True), (P, 'part', pp), (E, 'end', True)):
        for k in {'begin': ('line', 'total', 'part', 'size'), 'part': ('begin', 'end'), 'end': ('size', 'part')}[tag]:
            R.append(('%s.%s is not a number' % (tag, k), And(pres, t(rec[k]), Not(isnum(zs(rec[k])))), ('invalid_prop_' + k,)))
            if k != 'size': R.append(('%s.%s is 0' % (tag, k), And(pres, t(rec[k]), zs(rec[k]) == it.zs('0')), ('zero_prop_' + k,)))
    for k in ('pcrc32', 'crc32'): R.append(('%s malformed' % k, And(t(E[k]), Not(ishex(zs(E[k])))), ('invalid_prop_' + k,)))
    return R
ERRORS = ('no_start_found', 'no_end_found', 'missing_required_properties')
def run_post(it):
    load(it); data = Buf('sym', 'data'); raw = z3.Bool('isRaw'); made = []
    orig = it.contracts[it.env.v['decoderParseLines']]
    def parse(i, th, a): made.append(a[1]); return orig(i, th, a)
    it.contracts[it.env.v['decoderParseLines']] = parse
    k, r = outcome(it, lambda: it.callv(it.exports.p['from_post'], it.exports, [data, raw]))
    if k == 'throw': raise Fail('from_post throws: %s' % (r if isinstance(r, tuple) else 'error',))
    return data, raw, r, made
def lemma_from(it):
    """P04: warnings of a result"""
    data, raw, r, made = run_post(it)
    if not isinstance(r, Obj) or 'code' in r.p: return
    yd = made[0]; d = r.p.get('data', UNDEF)
    if isinstance(d, Buf): datalen = it.num(it.length(d)).v; hexcrc = it.zs(Str('hex', Buf('crc32', d)))
    else: datalen = z3.RealVal(0); hexcrc = it.zs('00000000')
    spec = post_spec(it, yd, datalen, hexcrc); w = r.p.get('warnings')
    if w is None:
        for what, c, codes in spec: it.require(Not(c) if isinstance(c, bool) else z3.Not(T(c)), 'no warning although: ' + what)
        return
    just = {}
    for what, c, codes in spec:
        for q in codes: just.setdefault(q, []).append(c)
    for g, v in w.items:
        code = v.p.get('code') if isinstance(v, Obj) else None
        if isinstance(code, str) and code in just: it.require(z3.Implies(T(g), Or(*just[code])), 'warning %s although nothing is wrong' % code)
def lemma_offsets(it):
    """P03: offsets, data and errors of a result (the parsing of the property lines is bounded)"""
    data, raw, r, made = run_post(it)
    if isinstance(r, Obj) and 'code' in r.p:
        if r.p['code'] not in ERRORS: raise Fail('unknown error')
        return
    if not isinstance(r, Obj): raise Fail('no result')
    if r.p.get('props') is not made[0]: raise Fail('properties of the result')
    yd = made[0].p
    for rec, k in (('begin', 'line'), ('begin', 'size'), ('end', 'size')): it.require(truthyopt(it, yd[rec].p[k]), 'required property is missing without an error')
    it.require(yd['begin'].p['name'].p, 'the name is missing without an error')
    if 'dataStart' in r.p:
        d = r.p.get('data')
        if not isinstance(d, Buf): raise Fail('no data in the result')
        a, b = it.num(r.p['dataStart']), it.num(r.p['dataEnd'])
        if d.t[0] != 'decode' or len(d.t) != 3: raise Fail('data')
        sl = d.t[1]
        if sl.t[0] != 'slice' or len(sl.t) != 4: raise Fail('data is not decoded from a slice of the post')
        expect(it, sl.t[1], data, 'source'); expect(it, sl.t[2], Num(a.v), 'data start'); expect(it, sl.t[3], Num(b.v), 'data end')
        expect(it, r.p['crc32'], Buf('crc32', d), 'crc32')
        it.require(T(it.truthy(d.t[2])) == raw if z3.is_expr(it.truthy(d.t[2])) else T(it.truthy(d.t[2])) == raw, 'dot unstuffing')
        it.require(z3.And(b.v >= a.v, it.num(r.p['yencEnd']).v >= b.v + 2 if True else True) if False else b.v >= a.v, 'data end before its start')
    elif 'data' in r.p: raise Fail('data without an offset')
JOBS = {
 'P01': [('post and the one-part encoder write the specified bytes', lemma_post, ('post', 'multi_post', 'YEncoder', 'YEncoder._encodeSingle', 'encodeFilename'))],
 'P02': [('constructor establishes the encoder invariant', lemma_new, ('multi_post', 'YEncoder', 'encodeFilename')), ('encode: bytes, next state, rejected calls change nothing', lemma_part, ('YEncoder.encode',))],
 'P03': [('from_post: offsets, data, errors, never an exception', lemma_offsets, ('from_post',))],
 'P04': [('from_post: a warning if and only if something is wrong', lemma_from, ('from_post',))],
 'D03': [('decodeChunk: state texts and arguments', lemma_chunk, ('decodeChunk',))],
 'E03': [('maxSize and minSize', lemma_sizes, ('maxSize', 'minSize')), ('maxSize(0) and minSize(0)', lemma_sizes0, ('maxSize', 'minSize'))]}
def task(name, fn, funcs, limit):
    pr = Pr(); t = time.time(); o = dict(name='JS: ' + name, functions=['index.js ' + f for f in funcs], backend='irv/js + z3')
    try: n = paths(pr, fn, deadline=limit); o.update(status='proved', detail='%d paths' % n)
    except Fail as e: o.update(status='refuted', detail='%s; model %s' % (e.what, str(e.model)[:600]))
    except Unknown as e: o.update(status='unknown', detail=str(e))
    except (Unsupported, Throw, Brk, Cont, Ret, KeyError, AttributeError, TypeError, AssertionError, IndexError, ValueError, z3.Z3Exception) as e: o.update(status='unsupported', detail='%s %s' % (type(e).__name__, e))
    o['count'] = max(1, pr.n); o['time'] = time.time() - t; return [o]
def tasks(arg, tier): return [('js:' + n, task, (n, f, fs, 300)) for n, f, fs in JOBS[arg]]

"""Parser for the textual LLVM IR (clang 18) that the extraction step produces from /repo's sources."""
import re
class Unsupported(Exception): pass
TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<glb>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<meta>!(?:[-a-zA-Z$._0-9\\]+)?)
|(?P<attr>\#\d+)
|(?P<num>0x[0-9A-Fa-f]+|-?\d+(?:\.\d+e[+-]?\d+)?)
|(?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
|(?P<op>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)
def tokenize(s):
    out = []; p = 0; n = len(s)
    while p < n:
        m = TOK.match(s, p)
        if not m:
            if s[p:].strip() == '': break
            raise Unsupported('token: ' + s[p:p+40])
        p = m.end()
        if m.lastgroup == 'word' and m.group('word') in ():
            pass
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out
I1 = ('i', 1); I8 = ('i', 8); I16 = ('i', 16); I32 = ('i', 32); I64 = ('i', 64); PTR = ('ptr',); VOID = ('void',)
class Inst:
    __slots__ = ('res', 'op', 'ty', 'args', 'extra', 'text')
    def __init__(s, res, op, ty, args, extra=None, text=''):
        s.res, s.op, s.ty, s.args, s.extra, s.text = res, op, ty, args, extra, text
    def __repr__(s): return s.text
class Func:
    def __init__(s, name, ret, params): s.name, s.ret, s.params = name, ret, params; s.blocks = {}; s.entry = None; s.order = []
class Module:
    def __init__(s): s.funcs = {}; s.globals = {}; s.types = {}; s.decls = set()
ATTRW = set('noundef nonnull nocapture readonly writeonly readnone noalias signext zeroext immarg inreg returned nofree nosync nest swiftself local_unnamed_addr unnamed_addr dso_local internal weak_odr linkonce_odr hidden private external weak linkonce protected available_externally tail musttail notail fastcc ccc coldcc noinline nounwind volatile inbounds nuw nsw exact disjoint nneg constant global thread_local cold willreturn memory mustprogress common appending allocptr allocalign noreturn allocsize alwaysinline'.split())
class P:
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.mod = mod
    def peek(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else (None, None)
    def nxt(s): x = s.t[s.i]; s.i += 1; return x
    def acc(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v: s.i += 1; return True
        return False
    def exp(s, v):
        if not s.acc(v): raise Unsupported('expected %s at %s' % (v, s.t[s.i:s.i+6]))
    def skipattrs(s):
        while True:
            k, v = s.peek()
            if k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range', 'captures', 'addrspace', 'memory', 'allocsize', 'elementtype'):
                if v == 'byval' or v == 'sret': raise Unsupported(v)
                s.nxt()
                if s.acc('('):
                    d = 1
                    while d:
                        x = s.nxt()[1]
                        if x == '(': d += 1
                        elif x == ')': d -= 1
                elif s.peek()[0] == 'num': s.nxt()
            elif k == 'word' and v in ATTRW: s.nxt()
            elif k == 'str' : s.nxt(); s.acc('=') and s.nxt()
            elif k == 'attr': s.nxt()
            else: return
    def type(s):
        k, v = s.nxt()
        if k == 'word':
            if re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
            elif v == 'ptr': t = PTR
            elif v == 'void': t = VOID
            elif v in ('float', 'double', 'label', 'metadata', 'x86_fp80', 'token', 'half'): t = (v,)
            else: raise Unsupported('type ' + v)
        elif v == '<':
            if s.peek()[1] == '{':
                s.nxt(); es = s.tlist('}'); s.exp('>'); t = ('s', tuple(es), True)
            else:
                n = int(s.nxt()[1]); s.exp('x'); e = s.type(); s.exp('>'); t = ('v', n, {'float': ('i', 32), 'double': ('i', 64)}.get(e[0], e))    # floating-point vectors are only moved around; arithmetic on them is not supported
        elif v == '[':
            n = int(s.nxt()[1]); s.exp('x'); e = s.type(); s.exp(']'); t = ('a', n, e)
        elif v == '{': t = ('s', tuple(s.tlist('}')), False)
        elif k == 'loc':
            t = ('n', v)
        else: raise Unsupported('type %s' % v)
        while s.peek()[1] == '(' and t != ('label',) and k != 'x':
            # function type only where the caller expects it
            break
        return t
    def tlist(s, end):
        r = []
        if s.acc(end): return r
        while True:
            if s.acc('...'): pass
            else: r.append(s.type())
            if s.acc(end): return r
            s.exp(',')
    def value(s, ty):
        """operand of type ty -> ('loc',name)|('int',v)|('glb',name)|('vec',[...])|('zero',)|('undef',)|('null',)|('cexpr',...)"""
        k, v = s.nxt()
        if k == 'loc': return ('loc', v)
        if k == 'glb': return ('glb', v)
        if k == 'num':
            if ty[0] == 'i': return ('int', int(v) & ((1 << ty[1]) - 1))
            return ('fp', v)
        if v == 'true': return ('int', 1)
        if v == 'false': return ('int', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return (v,)
        if v == 'zeroinitializer': return ('zero',)
        if k == 'str' and v.startswith('c'):
            b = v[2:-1]; out = []; i = 0
            while i < len(b):
                if b[i] == '\\':
                    if b[i+1] == '\\': out.append(92); i += 2
                    else: out.append(int(b[i+1:i+3], 16)); i += 3
                else: out.append(ord(b[i])); i += 1
            return ('vec', [('int', x) for x in out])
        if v in ('<', '[', '{'):
            end = {'<': '>', '[': ']', '{': '}'}[v]; packed = False
            if v == '<' and s.peek()[1] == '{': s.nxt(); end = '}'; packed = True
            r = []
            if not s.acc(end):
                while True:
                    t = s.type(); r.append(s.value(t))
                    if s.acc(end): break
                    s.exp(',')
            if packed: s.exp('>')
            return ('vec', r)
        if v == 'splat':
            s.exp('('); t = s.type(); x = s.value(t); s.exp(')'); return ('splat', x)
        if v == 'getelementptr':
            s.skipattrs()
            if s.acc('inrange'):
                while s.nxt()[1] != ')': pass
            s.exp('('); et = s.type(); s.exp(','); a = []
            while True:
                s.skipattrs(); 
                s.acc('inrange'); t = s.type(); a.append((t, s.value(t)))
                if s.acc(')'): break
                s.exp(',')
            return ('gep', et, a)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            s.exp('('); t = s.type(); x = s.value(t); s.exp('to'); t2 = s.type(); s.exp(')'); return ('cast', v, t, x, t2)
        if v in ('sub', 'add', 'mul', 'xor', 'and', 'shl', 'lshr'):
            s.skipattrs(); s.exp('('); t = s.type(); x = s.value(t); s.exp(','); t2 = s.type(); y = s.value(t2); s.exp(')'); return ('cbin', v, t, x, y)
        if v == 'blockaddress' or v == 'icmp' or v == 'select': raise Unsupported('constant ' + v)
        raise Unsupported('value %s' % v)
    def tv(s):
        s.skipattrs(); t = s.type(); s.skipattrs(); return (t, s.value(t))
BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
CAST = set('zext sext trunc bitcast ptrtoint inttoptr'.split())
def parse_inst(line, mod):
    toks = tokenize(line); p = P(toks, mod); res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=': res = p.nxt()[1]; p.nxt()
    while p.peek()[1] in ('tail', 'musttail', 'notail'): p.nxt()
    op = p.nxt()[1]
    def mk(ty, args, extra=None): return Inst(res, op, ty, args, extra, line.strip())
    if op in BIN:
        fl = []
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'): fl.append(p.nxt()[1])
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t); return mk(t, [(t, a), (t, b)], fl)
    if op == 'icmp':
        pr = p.nxt()[1]
        if pr == 'samesign': pr = p.nxt()[1]
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return mk(I1 if t[0] != 'v' else ('v', t[1], I1), [(t, a), (t, b)], pr)
    if op == 'fcmp':
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.nxt()
        pr = p.nxt()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t); return mk(I1, [(t, a), (t, b)], pr)
    if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp'):
        p.acc('nneg'); t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type(); return mk(t2, [(t, a)])
    if op in CAST:
        fl = []
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'): fl.append(p.nxt()[1])
        t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type(); return mk(t2, [(t, a)])
    if op == 'freeze': a = p.tv(); return mk(a[0], [a])
    if op == 'select':
        a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv(); return mk(b[0], [a, b, c])
    if op == 'phi':
        t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); l = p.nxt()[1]; p.exp(']'); inc.append((v, l[1:]))
            if not p.acc(','): break
        return mk(t, inc)
    if op == 'br':
        if p.acc('label'): return mk(VOID, [], [p.nxt()[1][1:]])
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); a = p.nxt()[1][1:]; p.exp(','); p.exp('label'); b = p.nxt()[1][1:]
        return mk(VOID, [(t, v)], [a, b])
    if op == 'ret':
        t = p.type(); return mk(t, [] if t == VOID else [(t, p.value(t))])
    if op == 'unreachable': return mk(VOID, [])
    if op == 'load':
        p.acc('atomic'); vol = p.acc('volatile'); t = p.type(); p.exp(','); a = p.tv()
        al = re.search(r', align (\d+)', line); return mk(t, [a], int(al.group(1)) if al else 1)
    if op == 'store':
        p.acc('atomic'); p.acc('volatile'); v = p.tv(); p.exp(','); a = p.tv()
        al = re.search(r', align (\d+)', line); return mk(VOID, [v, a], int(al.group(1)) if al else 1)
    if op == 'alloca':
        p.acc('inalloca'); t = p.type(); return mk(PTR, [], t)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nusw', 'nuw'): p.nxt()
        et = p.type(); a = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            a.append(p.tv())
        rt = PTR
        for t, _ in a:
            if t[0] == 'v': raise Unsupported('vector gep')
        return mk(rt, a, et)
    if op == 'call':
        p.skipattrs(); t = p.type()
        if p.peek()[1] == '(':  # full function type
            p.nxt(); p.tlist(')')
        callee = p.nxt(); args = []
        if callee[1] == 'asm': 
            fl = []
            while p.peek()[0] == 'word': fl.append(p.nxt()[1])
            tmpl = p.nxt()[1]; p.exp(','); cons = p.nxt()[1]; callee = ('asm', (tmpl, cons))
        p.exp('(')
        if not p.acc(')'):
            while True:
                if p.peek()[1] == 'metadata': # debug intrinsic etc
                    return Inst(res, 'nop', VOID, [], None, line.strip())
                args.append(p.tv())
                if p.acc(')'): break
                p.exp(',')
        return mk(t, args, callee)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = p.nxt()[1][1:]; p.exp('['); cases = []
        while not p.acc(']'):
            ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label'); cases.append((cv[1], p.nxt()[1][1:]))
        return mk(VOID, [(t, v)], (d, cases))
    if op == 'extractelement': a = p.tv(); p.exp(','); b = p.tv(); return mk(a[0][2], [a, b])
    if op == 'insertelement': a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv(); return mk(a[0], [a, b, c])
    if op == 'shufflevector': a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv(); return mk(('v', c[0][1], a[0][2]), [a, b, c])
    if op == 'extractvalue':
        a = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.nxt()[1]))
        return mk(None, [a], idx)
    if op == 'insertvalue':
        a = p.tv(); p.exp(','); b = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.nxt()[1]))
        return mk(a[0], [a, b], idx)
    if op == 'fence': return Inst(res, 'nop', VOID, [], None, line.strip())
    raise Unsupported('instruction: ' + line.strip())
def parse(text):
    mod = Module(); cur = None; blk = None; lines = text.split('\n'); i = 0
    while i < len(lines):
        l = lines[i]; i += 1
        if cur is None:
            if l.startswith('define '):
                p = P(tokenize(l[7:]), mod); p.skipattrs(); rt = p.type(); p.skipattrs(); nm = p.nxt()[1][1:].strip('"'); p.exp('('); params = []
                if not p.acc(')'):
                    while True:
                        if p.acc('...'): p.exp(')'); break
                        p.skipattrs(); t = p.type(); p.skipattrs(); params.append((p.nxt()[1], t))
                        if p.acc(')'): break
                        p.exp(',')
                cur = Func(nm, rt, params); mod.funcs[nm] = cur; blk = None
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = ', l); mod.globals[m.group(1).strip('"')] = l[m.end():]
            elif l.startswith('%') and ' = type ' in l:
                n, b = l.split(' = type ', 1)
                mod.types[n.strip()] = b
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l); mod.decls.add(m.group(1).strip('"'))
            continue
        if l == '}': cur = None; continue
        if not l.strip() or l.lstrip().startswith(';'): continue
        m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
        if m and not l.startswith(' '):
            blk = m.group(1); cur.blocks[blk] = []; cur.order.append(blk)
            if cur.entry is None: cur.entry = blk
            continue
        if blk is None:
            # implicit entry label: number after the params
            n = len([1 for x, _ in cur.params if re.fullmatch(r'%\d+', x)])
            blk = str(n); cur.blocks[blk] = []; cur.order.append(blk); cur.entry = blk
        # multi-line switch
        if l.lstrip().startswith('switch ') and l.rstrip().endswith('['):
            while not lines[i].strip().startswith(']'): l += ' ' + lines[i]; i += 1
            l += ' ]'; i += 1
        l2 = re.sub(r', ![-a-zA-Z$._0-9]+ ![-a-zA-Z$._0-9]+', '', l)
        l2 = re.sub(r',? !srcloc !\d+', '', l2)
        cur.blocks[blk].append(l2)
    return mod
def materialize(mod, f):
    """parse the instructions of one function on demand"""
    if getattr(f, 'done', False): return f
    for b in f.blocks: f.blocks[b] = [parse_inst(l, mod) for l in f.blocks[b]]
    f.done = True; f.preds = {b: [] for b in f.blocks}
    for b, ins in f.blocks.items():
        t = ins[-1]
        for s in succs(t): f.preds[s].append(b)
    return f
def succs(t):
    if t.op == 'br': return list(t.extra)
    if t.op == 'switch': return [t.extra[0]] + [l for _, l in t.extra[1]]
    return []
def resolve(mod, t):
    if t[0] == 'n':
        b = mod.types[t[1]]; p = P(tokenize(b), mod); return resolve(mod, p.type())
    return t
def sizeof(mod, t):
    t = resolve(mod, t)
    if t[0] == 'i': return max(1, (t[1] + 7) // 8)
    if t[0] == 'ptr': return 8
    if t[0] == 'v': return (t[1] * (t[2][1] if t[2][0] == 'i' else 64) + 7) // 8
    if t[0] == 'a': return t[1] * sizeof(mod, t[2])
    if t[0] == 's':
        o = 0; al = 1
        for e in t[1]:
            a = 1 if t[2] else alignof(mod, e); al = max(al, a); o = (o + a - 1) // a * a + sizeof(mod, e)
        return (o + al - 1) // al * al
    if t == ('double',): return 8
    if t == ('float',): return 4
    raise Unsupported('sizeof %s' % (t,))
def alignof(mod, t):
    t = resolve(mod, t)
    if t[0] == 'a': return alignof(mod, t[2])
    if t[0] == 's': return 1 if t[2] else max([alignof(mod, e) for e in t[1]] + [1])
    return min(sizeof(mod, t), 64)
def field_off(mod, t, k):
    o = 0
    for j, e in enumerate(t[1]):
        a = 1 if t[2] else alignof(mod, e); o = (o + a - 1) // a * a
        if j == k: return o
        o += sizeof(mod, e)
def loops(f):
    """natural loop headers -> set of blocks"""
    dom = dominators(f); L = {}
    for b in f.blocks:
        for s in succs(f.blocks[b][-1]):
            if s in dom.get(b, ()):
                body = {s, b}; st = [b]
                while st:
                    x = st.pop()
                    if x == s: continue
                    for p in f.preds[x]:
                        if p not in body and p in dom: body.add(p); st.append(p)
                L.setdefault(s, set()).update(body)
    return L
def cutpoints(f):
    """targets of retreating edges: every cycle (also of an irreducible region) goes through one of them"""
    order = rpo(f); idx = {b: i for i, b in enumerate(order)}
    return {s for b in order for s in succs(f.blocks[b][-1]) if idx[s] <= idx[b]}
def rpo(f):
    seen = set(); out = []
    st = [(f.entry, iter(succs(f.blocks[f.entry][-1])))]; seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen: seen.add(s); st.append((s, iter(succs(f.blocks[s][-1])))); break
        else: out.append(b); st.pop()
    return out[::-1]
def dominators(f):
    order = rpo(f); idx = {b: i for i, b in enumerate(order)}; idom = {f.entry: f.entry}; ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in f.preds[b] if p in idom]; n = ps[0]
            for p in ps[1:]:
                x, y = p, n
                while x != y:
                    while idx[x] > idx[y]: x = idom[x]
                    while idx[y] > idx[x]: y = idom[y]
                n = x
            if idom.get(b) != n: idom[b] = n; ch = True
    dom = {}
    for b in order:
        s = {b}; x = b
        while x != f.entry: x = idom[x]; s.add(x)
        dom[b] = s
    return dom

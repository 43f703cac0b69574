"""Parser for LLVM 18 textual IR (the subset clang emits for the harness units)."""
import re, sys

class Unsupported(Exception):
    pass

# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', 'c')
    def __init__(s, k, a=None, b=None, c=None):
        s.k, s.a, s.b, s.c = k, a, b, c
    def __repr__(s):
        return 'Ty(%s,%r,%r)' % (s.k, s.a, s.b)
    def key(s):
        if s.k == 'int': return 'i%d' % s.a
        if s.k == 'ptr': return 'ptr'
        if s.k in ('float', 'double', 'void'): return s.k
        if s.k == 'arr': return 'A%d_%s' % (s.a, s.b.key())
        if s.k == 'struct': return 'S%s_%s_E' % ('p' if s.b else '', '_'.join(t.key() for t in s.a))
        if s.k == 'named': return 'N' + s.a
        raise Unsupported(s.k)

TOK = re.compile(r'''\s*(?:
   (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<qstr>"[^"]*")
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?|0x[0-9A-Fa-f]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)

def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        if s[i].isspace():
            i += 1; continue
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise Unsupported('tok: ' + s[i:i+40])
        kind = m.lastgroup
        out.append((kind, m.group(kind)))
        i = m.end()
    return out

class P:
    def __init__(s, toks, mod):
        s.t, s.i, s.m = toks, 0, mod
    def peek(s, o=0):
        return s.t[s.i+o][1] if s.i+o < len(s.t) else None
    def kind(s, o=0):
        return s.t[s.i+o][0] if s.i+o < len(s.t) else None
    def next(s):
        r = s.t[s.i]; s.i += 1; return r[1]
    def eat(s, v):
        if s.peek() == v:
            s.i += 1; return True
        return False
    def exp(s, v):
        if not s.eat(v):
            raise Unsupported('expected %s got %s in %s' % (v, s.peek(), ' '.join(x[1] for x in s.t)[:200]))
    def type(s):
        v = s.next()
        if re.fullmatch(r'i[0-9]+', v): return Ty('int', int(v[1:]))
        if v == 'ptr':
            return Ty('ptr')
        if v in ('float', 'double', 'void'): return Ty(v)
        if v == 'x86_fp80': return Ty('x86_fp80')
        if v == '[':
            n = int(s.next()); s.exp('x'); t = s.type(); s.exp(']')
            return Ty('arr', n, t)
        if v == '{':
            l = []
            if not s.eat('}'):
                l.append(s.type())
                while s.eat(','): l.append(s.type())
                s.exp('}')
            return Ty('struct', l, False)
        if v == '<':
            if s.eat('{'):
                l = []
                if not s.eat('}'):
                    l.append(s.type())
                    while s.eat(','): l.append(s.type())
                    s.exp('}')
                s.exp('>')
                return Ty('struct', l, True)
            n = int(s.next()); s.exp('x'); t = s.type(); s.exp('>')
            raise Unsupported('vector type')
        if v.startswith('%'):
            return Ty('named', v)
        if v in ('label', 'metadata', 'token', 'opaque'): return Ty(v)
        raise Unsupported('type ' + v)

PATTR = {'noundef','nonnull','signext','zeroext','nocapture','readonly','writeonly','noalias','immarg','readnone','returned','inreg','nofree','noext','swiftself','allocptr','allocalign','dead_on_unwind','writable','dead_on_return','swifterror','swiftasync','nest'}
def skip_pattrs(p):
    while True:
        v = p.peek()
        if v in PATTR: p.next(); continue
        if v in ('align',):
            p.next()
            if p.eat('('): p.next(); p.exp(')')
            else: p.next()
            continue
        if v in ('dereferenceable', 'dereferenceable_or_null'):
            p.next(); p.exp('('); p.next(); p.exp(')'); continue
        if v in ('sret', 'byval', 'byref', 'inalloca', 'elementtype', 'preallocated', 'nofpclass', 'range', 'captures'):
            w = p.next()
            if p.eat('('):
                d = 1
                while d:
                    x = p.next()
                    if x == '(': d += 1
                    elif x == ')': d -= 1
            continue
        return

# ----------------------------------------------------------------- module
class Module:
    def __init__(s, text):
        s.named = {}
        s.globals = {}
        s.funcs = {}
        s.decls = {}
        s.parse(text)

    def parse(s, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            L = lines[i]
            if L.startswith('%') and ' = type ' in L:
                name, rest = L.split(' = type ', 1)
                if rest.strip() == 'opaque':
                    s.named[name] = None
                else:
                    s.named[name] = P(tokenize(rest), s).type()
            elif L.startswith('@'):
                s.global_line(L)
            elif L.startswith('define '):
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                s.func(L, body)
            elif L.startswith('declare '):
                s.func(L, None)
            i += 1

    def global_line(s, L):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', L)
        name, rest = m.group(1), m.group(2)
        rest = re.sub(r', (align \d+|comdat.*|section "[^"]*"|![^ ]+ ![0-9]+)(?=,|$)', '', rest)
        rest = re.sub(r', comdat(\(\$[^)]*\))?', '', rest)
        p = P(tokenize(rest), s)
        ext = False
        while p.peek() not in ('global', 'constant'):
            if p.peek() in ('external', 'extern_weak'): ext = True
            if p.peek() == 'alias':
                s.globals[name] = ('alias', rest); return
            w = p.next()
            if p.peek() == '(':
                while p.next() != ')': pass
        p.next()
        ty = p.type()
        init = None
        if not ext:
            init = s.const(p, ty)
        s.globals[name] = (ty, init)

    # constants: returned as python structures
    def const(s, p, ty):
        k = p.kind()
        v = p.peek()
        if v in ('zeroinitializer',): p.next(); return ('zero',)
        if v in ('undef', 'poison'): p.next(); return ('undef',)
        if v == 'null': p.next(); return ('null',)
        if v in ('true', 'false'): p.next(); return ('int', 1 if v == 'true' else 0)
        if k == 'num':
            p.next()
            if ty.k in ('float', 'double', 'x86_fp80'): return ('fp', v)
            return ('int', int(v))
        if k == 'str':
            p.next()
            raw = v[2:-1]
            out, i = [], 0
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i+1] == '\\': out.append(92); i += 2
                    else: out.append(int(raw[i+1:i+3], 16)); i += 3
                else: out.append(ord(raw[i])); i += 1
            return ('bytes', out)
        if k == 'glob': p.next(); return ('glob', v)
        if k == 'local': p.next(); return ('local', v)
        if v == '[' or v == '{' or (v == '<' and p.peek(1) == '{'):
            p.next()
            if v == '<': p.next()
            close = ']' if v == '[' else '}'
            l = []
            if not p.eat(close):
                while True:
                    t = p.type(); l.append((t, s.const(p, t)))
                    if not p.eat(','): break
                p.exp(close)
            if v == '<': p.exp('>')
            return ('agg', l)
        if v == 'getelementptr':
            p.next()
            while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'): p.next()
            if p.peek() == '(':
                p.next()
            bt = p.type(); p.exp(',')
            pt = p.type(); base = s.const(p, pt)
            idx = []
            while p.eat(','):
                while p.peek() == 'inrange': p.next()
                t = p.type(); idx.append((t, s.const(p, t)))
            p.exp(')')
            return ('gep', bt, base, idx)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            p.next(); p.exp('(')
            t = p.type(); c = s.const(p, t); p.exp('to'); t2 = p.type(); p.exp(')')
            return ('cast', v, t, c, t2)
        raise Unsupported('const %s %s' % (k, v))

    def func(s, L, body):
        decl = body is None
        p = P(tokenize(L.rstrip(' {')), s)
        p.next()
        # skip linkage etc. until type
        SKIP = {'dso_local','internal','linkonce_odr','weak_odr','weak','linkonce','private','external','available_externally','hidden','protected','local_unnamed_addr','unnamed_addr','fastcc','ccc','comdat','preserve_nonecc','extern_weak','dllexport'}
        while p.peek() in SKIP: p.next()
        skip_pattrs(p)
        while p.peek() in SKIP: p.next()
        rt = p.type()
        name = p.next()
        p.exp('(')
        params, va = [], False
        n = 0
        if not p.eat(')'):
            while True:
                if p.peek() == '...': p.next(); va = True
                else:
                    t = p.type(); attrs_start = p.i
                    skip_pattrs(p)
                    at = [x[1] for x in p.t[attrs_start:p.i]]
                    if p.kind() == 'local': nm = p.next()
                    else: nm = '%%%d' % n
                    n += 1
                    params.append((t, nm, at))
                if not p.eat(','): break
            p.exp(')')
        f = Func(s, name, rt, params, va)
        f.attrline = L
        if decl:
            s.decls[name] = f
        else:
            f.parse_body(body)
            s.funcs[name] = f

    # ---- layout
    def res(s, t):
        while t.k == 'named':
            r = s.named.get(t.a)
            if r is None: raise Unsupported('opaque ' + t.a)
            t = r
        return t
    def align(s, t):
        t = s.res(t)
        if t.k == 'int':
            n = 1
            while n * 8 < t.a: n *= 2
            return min(n, 16)
        if t.k == 'ptr' or t.k == 'double': return 8
        if t.k == 'float': return 4
        if t.k == 'x86_fp80': return 16
        if t.k == 'arr': return s.align(t.b)
        if t.k == 'struct':
            if t.b: return 1
            return max([s.align(x) for x in t.a] or [1])
        raise Unsupported('align ' + t.k)
    def size(s, t):
        t = s.res(t)
        if t.k == 'int':
            n = 1
            while n * 8 < t.a: n *= 2
            return n
        if t.k == 'ptr' or t.k == 'double': return 8
        if t.k == 'float': return 4
        if t.k == 'x86_fp80': return 16
        if t.k == 'arr': return t.a * s.size(t.b)
        if t.k == 'struct':
            o = 0
            for x in t.a:
                a = 1 if t.b else s.align(x)
                o = (o + a - 1) // a * a + s.size(x)
            a = s.align(t)
            return (o + a - 1) // a * a
        raise Unsupported('size ' + t.k)
    def offset(s, t, i):
        t = s.res(t)
        o = 0
        for j, x in enumerate(t.a):
            a = 1 if t.b else s.align(x)
            o = (o + a - 1) // a * a
            if j == i: return o
            o += s.size(x)
        raise Unsupported('offset')

class Func:
    def __init__(s, mod, name, rt, params, va):
        s.m, s.name, s.rt, s.params, s.va = mod, name, rt, params, va
        s.blocks = []      # [(label, [tokens-lines])]
    def parse_body(s, body):
        cur = None
        # join switch multi-line
        j, i = [], 0
        while i < len(body):
            L = body[i]
            if re.match(r'\s+switch ', L) and not L.rstrip().endswith(']'):
                while not body[i].strip().startswith(']'):
                    i += 1; L += ' ' + body[i].strip()
            elif re.search(r'= landingpad ', L):
                while i + 1 < len(body) and re.match(r'\s+(cleanup|catch|filter)\b', body[i+1]):
                    i += 1; L += ' ' + body[i].strip()
            elif re.search(r'\binvoke ', L):
                i += 1; L += ' ' + body[i].strip()
            j.append(L); i += 1
        first = True
        for L in j:
            if not L.strip(): continue
            if not L[0].isspace():
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', L)
                if not m: raise Unsupported('label ' + L)
                cur = ('%' + m.group(1), [])
                s.blocks.append(cur)
                first = False
                continue
            if first:
                cur = (None, []); s.blocks.append(cur); first = False
            cur[1].append(L.strip())
        if s.blocks and s.blocks[0][0] is None:
            s.blocks[0] = ('%' + str(len(s.params)), s.blocks[0][1])

def cname(n):
    n = n.strip('"')
    return re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x' % ord(m.group(0)), n)


# ------------------------------------------------------------ pre-decoding
BIN = ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem')
CAST = ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc')
DSTRE = re.compile(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ')
METARE = re.compile(r', !(?:[a-zA-Z._]+) !\{?[0-9]*\}?')

def decode(f):
    """Func -> f.code: {label: [tuple]} ; operands are ('local',name) or (type,const)"""
    m = f.m
    f.code = {}
    f.order0 = []
    for lab, ins in f.blocks:
        out = []
        for L in ins:
            out.append(decode_inst(m, f, L))
        f.code[lab] = out
        f.order0.append(lab)

def decode_inst(m, f, L):
    L = METARE.sub('', L)
    L = re.sub(r', !srcloc.*$', '', L)
    mm = DSTRE.match(L)
    dst = None; rest = L
    if mm:
        dst = mm.group(1); rest = L[mm.end():]
    p = P(tokenize(rest), m)
    op = p.next()
    def val(t): return (t, m.const(p, t))
    def tval():
        t = p.type(); skip_pattrs(p)
        return (t, m.const(p, t))
    if op == 'phi':
        t = p.type(); inc = {}
        while True:
            p.exp('['); v = val(t); p.exp(','); b = p.next(); p.exp(']')
            inc[b] = v
            if not p.eat(','): break
        return ('phi', dst, t, inc)
    if op == 'alloca':
        t = p.type(); n = None
        if p.eat(',') and p.peek() != 'align': n = tval()
        return ('alloca', dst, t, n)
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); p.exp(','); return ('load', dst, t, tval())
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'): p.next()
        v = tval(); p.exp(','); return ('store', None, v, tval())
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.exp(','); base = tval()
        t = bt; off = 0; terms = []; j = 0
        while p.eat(','):
            it = p.type(); c = m.const(p, it)
            if j == 0: es = m.size(t)
            else:
                rt = m.res(t)
                if rt.k == 'struct':
                    if c[0] != 'int': raise Unsupported('gep struct idx')
                    off += m.offset(rt, c[1]); t = rt.a[c[1]]; j += 1; continue
                t = rt.b; es = m.size(t)
            if c[0] == 'int': off += c[1] * es
            else: terms.append(((it, c), es))
            j += 1
        return ('gep', dst, base, off, terms)
    if op in BIN:
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'): p.next()
        t = p.type(); a = val(t); p.exp(','); b = val(t)
        return (op, dst, t, a, b)
    if op in ('icmp', 'fcmp'):
        while p.peek() in ('samesign', 'fast', 'nnan', 'ninf'): p.next()
        pr = p.next(); t = p.type(); a = val(t); p.exp(','); b = val(t)
        return (op, dst, pr, t, a, b)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'arcp', 'afn'): p.next()
        t = p.type(); a = val(t); p.exp(','); b = val(t)
        return (op, dst, t, a, b)
    if op == 'fneg':
        t = p.type(); return (op, dst, t, val(t))
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        t = p.type(); a = val(t); p.exp('to'); t2 = p.type()
        return (op, dst, t, a, t2)
    if op == 'freeze':
        t = p.type(); return ('freeze', dst, t, val(t))
    if op == 'select':
        c = tval(); p.exp(','); a = tval(); p.exp(','); b = tval()
        return ('select', dst, c, a, b)
    if op == 'extractvalue':
        a = tval(); path = []
        while p.eat(','): path.append(int(p.next()))
        return ('extractvalue', dst, a, path)
    if op == 'insertvalue':
        a = tval(); p.exp(','); v = tval(); path = []
        while p.eat(','): path.append(int(p.next()))
        return ('insertvalue', dst, a, v, path)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return ('br', None, p.next())
        c = tval(); p.exp(','); p.exp('label'); a = p.next(); p.exp(','); p.exp('label'); b = p.next()
        return ('condbr', None, c, a, b)
    if op == 'switch':
        v = tval(); p.exp(','); p.exp('label'); d = p.next(); p.exp('[')
        cases = []
        while not p.eat(']'):
            t = p.type(); c = m.const(p, t); p.exp(','); p.exp('label'); cases.append((c[1], p.next()))
        return ('switch', None, v, d, cases)
    if op == 'ret':
        if p.peek() == 'void': return ('ret', None, None)
        return ('ret', None, tval())
    if op == 'unreachable': return ('unreachable', None)
    if op in ('call', 'invoke', 'tail', 'notail', 'musttail'):
        if op in ('tail', 'notail', 'musttail'): p.next()
        while p.peek() in ('fastcc', 'ccc', 'nnan', 'ninf', 'nsz', 'fast'): p.next()
        skip_pattrs(p)
        rt = p.type()
        if p.peek() == '(':
            d = 0
            while True:
                x = p.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        if p.kind() == 'word' and p.peek() == 'asm':
            return ('asm', dst, L)
        fn = p.next()
        p.exp('(')
        args = []
        if not p.eat(')'):
            while True:
                t = p.type()
                if t.k == 'metadata':
                    while p.peek() not in (',', ')'): p.next()
                else:
                    a0 = p.i
                    skip_pattrs(p)
                    at = [x[1] for x in p.t[a0:p.i]]
                    args.append((t, m.const(p, t), 'byval' in at))
                if not p.eat(','): break
            p.exp(')')
        nd = ud = None
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.exp('label'); nd = p.next(); p.exp('unwind'); p.exp('label'); ud = p.next()
        return ('call', dst, rt, fn, args, nd, ud)
    if op == 'landingpad':
        return ('landingpad', dst, p.type())
    if op == 'resume':
        return ('resume', None, tval())
    return ('unsupported', dst, L)

def succs(ins):
    t = ins[-1]
    if t[0] == 'br': return [t[2]]
    if t[0] == 'condbr': return [t[3], t[4]]
    if t[0] == 'switch': return [c[1] for c in t[4]] + [t[3]]
    if t[0] == 'call' and t[5]: return [t[5], t[6]]
    return []

def analyse(f):
    """RPO, dominators, natural loops."""
    entry = f.order0[0]
    succ = {b: succs(f.code[b]) for b in f.order0}
    seen, post = {entry}, []
    st = [(entry, iter(succ[entry]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succ[s]))); break
        else:
            post.append(b); st.pop()
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]: preds[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            n = None
            for p in preds[b]:
                if p in idom:
                    if n is None: n = p
                    else:
                        x, y = p, n
                        while x != y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        n = x
            if idom.get(b) != n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if idx[s] <= idx[b]:
                if not dom(s, b): raise Unsupported('irreducible')
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x in body: continue
                    body.add(x); w.extend(preds[x])
    # innermost loop header per block
    inner = {}
    for b in rpo:
        best = None
        for h, body in loops.items():
            if b in body and (best is None or len(body) < len(loops[best])): best = h
        inner[b] = best
    parent = {}
    for h in loops:
        best = None
        for h2, body in loops.items():
            if h2 != h and h in body and (best is None or len(body) < len(loops[best])): best = h2
        parent[h] = best
    f.rpo, f.loops, f.inner, f.lparent, f.succ, f.entry = rpo, loops, inner, parent, succ, entry
    # region block lists: blocks directly in region + child loop headers
    f.region = {}
    for r in [None] + list(loops):
        l = []
        for b in rpo:
            if inner[b] == r and not (b in loops and b != r and inner[b] == b): l.append(b)
            elif b in loops and parent[b] == r: l.append(b)
        f.region[r] = l
    # RPO with loop contiguity: exits of an inner loop can precede inner blocks in rpo, harmless because
    # inner loops are run as a unit at the header; ensure targets outside come after header in rpo.

"""Hash-consed bit-vector terms with local simplification, interval and
small-value-set analysis.  All simplifications are equivalences."""
from itertools import count

CSMAX = 72

class T:
    __slots__ = ('op', 'w', 'a', 'id', 'lo', 'hi', 'cs', 'bits')
    def __repr__(s):
        return show(s)

_tab = {}
FIXED = []     # terms replaced by a constant (kept alive: their ids stay unique)
_nodes = []
FULL = {}

def mask(w):
    m = FULL.get(w)
    if m is None:
        m = FULL[w] = (1 << w) - 1
    return m

def _mk(op, w, a, key, lo, hi):
    t = T()
    t.op = op; t.w = w; t.a = a; t.lo = lo; t.hi = hi; t.cs = 0; t.bits = None
    t.id = len(_nodes)
    _nodes.append(t)
    _tab[key] = t
    return t

def reset():
    _tab.clear(); _nodes.clear(); _eqc.clear(); _mapc.clear(); _simp.clear()
    global TRUE, FALSE
    FALSE = const(0, 1); TRUE = const(1, 1)

_eqc = {}
_mapc = {}
_simp = {}

def const(v, w):
    v &= mask(w)
    k = ('c', w, v)
    t = _tab.get(k)
    if t is None:
        t = _mk('c', w, (v,), k, v, v)
        t.cs = frozenset((v,))
    return t

def var(name, w):
    k = ('v', w, name)
    t = _tab.get(k)
    if t is None:
        t = _mk('v', w, (name,), k, 0, mask(w))
        t.cs = None
    return t

def isc(t): return t.op == 'c'

FALSE = const(0, 1); TRUE = const(1, 1)

def node(op, w, args, lo=None, hi=None):
    k = (op, w) + tuple(x.id if isinstance(x, T) else ('#', x) for x in args)
    t = _tab.get(k)
    if t is None:
        t = _mk(op, w, tuple(args), k, 0 if lo is None else lo, mask(w) if hi is None else hi)
    return t

def cset(t):
    """small set of possible values, or None"""
    c = t.cs
    if c != 0: return c
    # iterative to avoid recursion limits
    st = [t]
    while st:
        x = st[-1]
        if x.cs != 0:
            st.pop(); continue
        op = x.op
        if op == 'ite':
            a, b = x.a[1], x.a[2]
            if a.cs == 0: st.append(a); continue
            if a.cs is None: x.cs = None; st.pop(); continue
            if b.cs == 0: st.append(b); continue
            if b.cs is None: x.cs = None
            else:
                u = a.cs | b.cs
                x.cs = u if len(u) <= CSMAX else None
        elif op in ('add', 'mul', 'and', 'or', 'xor', 'sub') and isc(x.a[1]):
            a = x.a[0]
            if a.cs == 0: st.append(a); continue
            if a.cs is None: x.cs = None
            else:
                k = x.a[1].a[0]; m = mask(x.w)
                f = _F[op]
                x.cs = frozenset(f(v, k) & m for v in a.cs)
        elif op == 'add':
            a, b = x.a
            if a.cs == 0: st.append(a); continue
            if b.cs == 0: st.append(b); continue
            x.cs = None
            if a.cs is not None and b.cs is not None and len(a.cs) * len(b.cs) <= 512:
                m = mask(x.w)
                u = frozenset((p + q) & m for p in a.cs for q in b.cs)
                if len(u) <= CSMAX: x.cs = u
        elif op == 'zext':
            a = x.a[0]
            if a.cs == 0: st.append(a); continue
            x.cs = a.cs
        elif op == 'sext':
            a = x.a[0]
            if a.cs == 0: st.append(a); continue
            if a.cs is None: x.cs = None
            else:
                x.cs = frozenset((v | (mask(x.w) ^ mask(a.w))) if v >> (a.w - 1) else v for v in a.cs)
        elif op == 'ext':
            a = x.a[0]
            if a.cs == 0: st.append(a); continue
            if a.cs is None: x.cs = None
            else:
                lo = x.a[1]; m = mask(x.w)
                x.cs = frozenset((v >> lo) & m for v in a.cs)
        elif op == 'cat':
            a, b = x.a
            if a.cs == 0: st.append(a); continue
            if b.cs == 0: st.append(b); continue
            x.cs = None
            if a.cs is not None and b.cs is not None and len(a.cs) * len(b.cs) <= CSMAX:
                x.cs = frozenset((p << b.w) | q for p in a.cs for q in b.cs)
        else:
            x.cs = None
        if x.cs is None and x.hi - x.lo < 20 and op not in ('c',):
            x.cs = frozenset(range(x.lo, x.hi + 1))
        st.pop()
    return t.cs

_F = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
      'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}

def ctree(t):
    """is t a (hash-consed) ite tree whose leaves are all constants?"""
    if t.op == 'c': return True
    if t.op != 'ite': return False
    k = ('ct', t.id)
    r = _mapc.get(k)
    if r is not None: return r
    r = (t.a[1].op in ('c', 'ite')) and (t.a[2].op in ('c', 'ite')) and ctree(t.a[1]) and ctree(t.a[2]) and cset(t) is not None
    _mapc[k] = r
    return r

def maptree(t, key, f, w):
    """apply f: int->T on the constant leaves"""
    if t.op == 'c': return f(t.a[0])
    k = (key, t.id)
    r = _mapc.get(k)
    if r is None:
        r = ite(t.a[0], maptree(t.a[1], key, f, w), maptree(t.a[2], key, f, w))
        _mapc[k] = r
    return r

# ------------------------------------------------------------ boolean / bitwise
def bnot(a):
    if a.op == 'c': return const(~a.a[0], a.w)
    if a.op == 'not': return a.a[0]
    m = mask(a.w)
    return node('not', a.w, (a,), m - a.hi, m - a.lo)

def band(a, b):
    if a is b: return a
    if a.op == 'c': a, b = b, a
    w = a.w
    if b.op == 'c':
        v = b.a[0]
        if a.op == 'c': return const(a.a[0] & v, w)
        if v == 0: return b
        if v == mask(w): return a
        # low mask
        if v & (v + 1) == 0:
            n = v.bit_length()
            return zext(extract(a, n - 1, 0), w)
        if ctree(a): return maptree(a, ('and', v), lambda x: const(x & v, w), w)
        # single contiguous run
        tz = (v & -v).bit_length() - 1
        if (v >> tz) & ((v >> tz) + 1) == 0:
            n = v.bit_length()
            mid = extract(a, n - 1, tz)
            return zext(concat(mid, const(0, tz)), w)
        return node('and', w, (a, b), 0, min(a.hi, v))
    if a.op == 'not' and a.a[0] is b or b.op == 'not' and b.a[0] is a: return const(0, w)
    if w == 1:
        # absorption against immediate operands
        for x, y in ((a, b), (b, a)):
            if x.op == 'and':
                if x.a[0] is y or x.a[1] is y: return x
                p, q = x.a
                if (y.op == 'not' and (y.a[0] is p or y.a[0] is q)) or (p.op == 'not' and p.a[0] is y) or (q.op == 'not' and q.a[0] is y): return FALSE
            elif x.op == 'or':
                if x.a[0] is y or x.a[1] is y: return y
                p, q = x.a
                ny = bnot(y)
                if p is ny: return band(q, y)
                if q is ny: return band(p, y)
            elif x.op == 'ite' and y.op != 'ite':
                if x.a[0] is y: return band(y, x.a[1])
                if y.op == 'not' and x.a[0] is y.a[0]: return band(y, x.a[2])
    if a.id > b.id: a, b = b, a
    return node('and', w, (a, b), 0, min(a.hi, b.hi))

def bor(a, b):
    if a is b: return a
    if a.op == 'c': a, b = b, a
    w = a.w
    if b.op == 'c':
        v = b.a[0]
        if a.op == 'c': return const(a.a[0] | v, w)
        if v == 0: return a
        if v == mask(w): return b
        if ctree(a): return maptree(a, ('or', v), lambda x: const(x | v, w), w)
        return node('or', w, (a, b), max(a.lo, v), None)
    if a.op == 'not' and a.a[0] is b or b.op == 'not' and b.a[0] is a: return const(-1, w)
    if w == 1:
        for x, y in ((a, b), (b, a)):
            if x.op == 'or':
                if x.a[0] is y or x.a[1] is y: return x
            elif x.op == 'and':
                p, q = x.a
                if p is y or q is y: return y
                ny = bnot(y)
                if p is ny: return bor(q, y)
                if q is ny: return bor(p, y)
        if a.op == 'and' and b.op == 'and':
            p, q = a.a; r, s = b.a
            # (p&q) | (p&!q) = p ; factor common
            for (p1, q1) in ((p, q), (q, p)):
                for (r1, s1) in ((r, s), (s, r)):
                    if p1 is r1: return band(p1, bor(q1, s1))
        # de Morgan for deep factoring: not(and(x,y)) | and(x,z) etc. left to the bit level
    else:
        # disjoint parts -> concat
        m = _disjoint(a, b)
        if m is not None: return m
    if a.id > b.id: a, b = b, a
    h = max(a.hi, b.hi)
    return node('or', w, (a, b), max(a.lo, b.lo), mask(h.bit_length()) if h else 0)

def _tz(t):
    if t.op == 'cat' and t.a[1].op == 'c' and t.a[1].a[0] == 0: return t.a[1].w
    if t.op == 'zext': return _tz(t.a[0])
    return 0

def _disjoint(a, b):
    for x, y in ((a, b), (b, a)):
        z = _tz(x)
        if z and y.hi <= mask(z):
            return concat(extract(x, x.w - 1, z), extract(y, z - 1, 0))
    return None

def bxor(a, b):
    if a is b: return const(0, a.w)
    if a.op == 'c': a, b = b, a
    w = a.w
    if b.op == 'c':
        v = b.a[0]
        if a.op == 'c': return const(a.a[0] ^ v, w)
        if v == 0: return a
        if v == mask(w): return bnot(a)
        if ctree(a): return maptree(a, ('xor', v), lambda x: const(x ^ v, w), w)
        return node('xor', w, (a, b))
    if a.op == 'not' and b.op == 'not': return bxor(a.a[0], b.a[0])
    if a.op == 'not': return bnot(bxor(a.a[0], b))
    if b.op == 'not': return bnot(bxor(a, b.a[0]))
    if a.id > b.id: a, b = b, a
    h = mask(max(a.hi, b.hi).bit_length())
    return node('xor', w, (a, b), 0, h)

def ite(c, a, b):
    if c.op == 'c': return a if c.a[0] else b
    if a is b: return a
    if c.op == 'not': return ite(c.a[0], b, a)
    w = a.w
    if w == 1:
        if a.op == 'c':
            return bor(c, b) if a.a[0] else band(bnot(c), b)
        if b.op == 'c':
            return bor(bnot(c), a) if b.a[0] else band(c, a)
        if a is c: return bor(c, b)
        if b is c: return band(c, a)
        if b.op == 'not' and b.a[0] is a: return bnot(bxor(c, a))
        if a.op == 'not' and a.a[0] is b: return bxor(c, b)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    if b.op == 'ite' and b.a[1] is a: return ite(bor(c, b.a[0]), a, b.a[2])
    if b.op == 'ite' and b.a[2] is a: return ite(band(bnot(c), b.a[0]), b.a[1], a)
    if a.op == 'ite' and a.a[1] is b: return ite(band(c, bnot(a.a[0])), a.a[2], b)
    if a.op == 'ite' and a.a[2] is b: return ite(band(c, a.a[0]), a.a[1], b)
    return node('ite', w, (c, a, b), min(a.lo, b.lo), max(a.hi, b.hi))

# ------------------------------------------------------------ arithmetic
def add(a, b):
    w = a.w; m = mask(w)
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        v = b.a[0]
        if a.op == 'c': return const(a.a[0] + v, w)
        if v == 0: return a
        if a.op == 'add' and a.a[1].op == 'c': return add(a.a[0], const(a.a[1].a[0] + v, w))
        if ctree(a): return maptree(a, ('add', v), lambda x: const(x + v, w), w)
        if a.lo + v > m:   # wraps always
            return node('add', w, (a, b), a.lo + v - m - 1, a.hi + v - m - 1)
        if a.hi + v <= m:
            return node('add', w, (a, b), a.lo + v, a.hi + v)
        return node('add', w, (a, b))
    if a.op == 'add' and a.a[1].op == 'c':
        return add(add(a.a[0], b), a.a[1])
    if b.op == 'add' and b.a[1].op == 'c':
        return add(add(a, b.a[0]), b.a[1])
    if b.op == 'neg' and b.a[0] is a or a.op == 'neg' and a.a[0] is b: return const(0, w)
    # x + (-y) cancel inside
    if a.op == 'neg' and b.op != 'neg': a, b = b, a
    if b.op == 'neg' and a.op == 'add':
        if a.a[0] is b.a[0]: return a.a[1]
        if a.a[1] is b.a[0]: return a.a[0]
    if a.id > b.id: a, b = b, a
    if a.hi + b.hi <= m: return node('add', w, (a, b), a.lo + b.lo, a.hi + b.hi)
    return node('add', w, (a, b))

def neg(a):
    if a.op == 'c': return const(-a.a[0], a.w)
    if a.op == 'neg': return a.a[0]
    if ctree(a): return maptree(a, 'neg', lambda x: const(-x, a.w), a.w)
    if a.op == 'add' and a.a[1].op == 'c': return add(neg(a.a[0]), const(-a.a[1].a[0], a.w))
    return node('neg', a.w, (a,))

def cancel(a, b, d=4):
    """a - b when b is a summand of a"""
    if a is b: return const(0, a.w)
    if a.op != 'add' or d == 0: return None
    for i in (0, 1):
        r = cancel(a.a[i], b, d - 1)
        if r is not None: return add(r, a.a[1 - i])
    return None

def sub(a, b):
    if a is b: return const(0, a.w)
    if b.op == 'c': return add(a, const(-b.a[0], b.w))
    r = cancel(a, b)
    if r is not None: return r
    r = add(a, neg(b))
    if r.op == 'add' and a.lo >= b.hi and r.lo == 0 and r.hi == mask(r.w):
        pass
    return r

def mul(a, b):
    w = a.w; m = mask(w)
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        v = b.a[0]
        if a.op == 'c': return const(a.a[0] * v, w)
        if v == 0: return b
        if v == 1: return a
        if v & (v - 1) == 0: return shlc(a, v.bit_length() - 1)
        if ctree(a): return maptree(a, ('mul', v), lambda x: const(x * v, w), w)
        if a.hi * v <= m: return node('mul', w, (a, b), a.lo * v, a.hi * v)
        return node('mul', w, (a, b))
    if ctree(b) and not ctree(a): a, b = b, a
    if ctree(a) and len(cset(a)) <= 8:
        return maptree(a, ('mulx', b.id), lambda x: mul(b, const(x, w)), w)
    if a.id > b.id: a, b = b, a
    if a.hi * b.hi <= m: return node('mul', w, (a, b), a.lo * b.lo, a.hi * b.hi)
    return node('mul', w, (a, b))

def udiv(a, b):
    w = a.w
    if b.op == 'c' and b.a[0] != 0:
        v = b.a[0]
        if a.op == 'c': return const(a.a[0] // v, w)
        if v == 1: return a
        if v & (v - 1) == 0: return lshrc(a, v.bit_length() - 1)
        if ctree(a): return maptree(a, ('udiv', v), lambda x: const(x // v, w), w)
        return node('udiv', w, (a, b), a.lo // v, a.hi // v)
    return node('udiv', w, (a, b), 0, mask(w) if b.lo == 0 else a.hi // b.lo)

def urem(a, b):
    w = a.w
    if b.op == 'c' and b.a[0] != 0:
        v = b.a[0]
        if a.op == 'c': return const(a.a[0] % v, w)
        if a.hi < v: return a
        if v & (v - 1) == 0: return band(a, const(v - 1, w))
        return node('urem', w, (a, b), 0, v - 1)
    return node('urem', w, (a, b), 0, a.hi)

def sdiv(a, b):
    w = a.w
    if b.op == 'c' and b.lo < 1 << (w - 1) and a.hi < 1 << (w - 1): return udiv(a, b)
    h = 1 << (w - 1)
    if a.hi < h and b.hi < h: return udiv(a, b)
    sa, sb = extract(a, w - 1, w - 1), extract(b, w - 1, w - 1)
    q = udiv(ite(sa, neg(a), a), ite(sb, neg(b), b))
    return ite(bxor(sa, sb), neg(q), q)

def srem(a, b):
    w = a.w
    h = 1 << (w - 1)
    if a.hi < h and b.hi < h: return urem(a, b)
    sa, sb = extract(a, w - 1, w - 1), extract(b, w - 1, w - 1)
    r = urem(ite(sa, neg(a), a), ite(sb, neg(b), b))
    return ite(sa, neg(r), r)

# ------------------------------------------------------------ shifts
def shlc(a, n):
    if n == 0: return a
    if n >= a.w: return const(0, a.w)
    return concat(extract(a, a.w - 1 - n, 0), const(0, n))
def lshrc(a, n):
    if n == 0: return a
    if n >= a.w: return const(0, a.w)
    return zext(extract(a, a.w - 1, n), a.w)
def ashrc(a, n):
    if n == 0: return a
    if n >= a.w: n = a.w - 1
    return sext(extract(a, a.w - 1, n), a.w)

def shl(a, b):
    if b.op == 'c': return shlc(a, b.a[0])
    if ctree(b) and len(cset(b)) <= 40: return maptree(b, ('shl', a.id), lambda x: shlc(a, x), a.w)
    return node('shl', a.w, (a, b))
def lshr(a, b):
    if b.op == 'c': return lshrc(a, b.a[0])
    if ctree(b) and len(cset(b)) <= 40: return maptree(b, ('lshr', a.id), lambda x: lshrc(a, x), a.w)
    return node('lshr', a.w, (a, b), 0, a.hi)
def ashr(a, b):
    if b.op == 'c': return ashrc(a, b.a[0])
    if a.hi < 1 << (a.w - 1): return lshr(a, b)
    if ctree(b) and len(cset(b)) <= 40: return maptree(b, ('ashr', a.id), lambda x: ashrc(a, x), a.w)
    return node('ashr', a.w, (a, b))

# ------------------------------------------------------------ structure
def zext(a, w):
    if a.w == w: return a
    if a.op == 'c': return const(a.a[0], w)
    if a.op == 'zext': return zext(a.a[0], w)
    if a.op == 'ite' and ctree(a): return maptree(a, ('zext', w), lambda x: const(x, w), w)
    return node('zext', w, (a,), a.lo, a.hi)

def sext(a, w):
    if a.w == w: return a
    if a.op == 'c':
        v = a.a[0]
        if v >> (a.w - 1): v -= 1 << a.w
        return const(v, w)
    if a.op == 'sext': return sext(a.a[0], w)
    if a.hi < 1 << (a.w - 1): return zext(a, w)
    if a.op == 'zext': return zext(a.a[0], w)
    if a.op == 'ite' and ctree(a):
        aw = a.w
        return maptree(a, ('sext', w), lambda x: sext(const(x, aw), w), w)
    return node('sext', w, (a,))

def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w: return a
    op = a.op
    if op == 'c': return const(a.a[0] >> lo, w)
    if op == 'ext': return extract(a.a[0], hi + a.a[1], lo + a.a[1])
    if op == 'zext':
        x = a.a[0]
        if lo >= x.w: return const(0, w)
        if hi < x.w: return extract(x, hi, lo)
        return zext(extract(x, x.w - 1, lo), w)
    if op == 'sext':
        x = a.a[0]
        if hi < x.w: return extract(x, hi, lo)
        if lo < x.w: return sext(extract(x, x.w - 1, lo), w)
        s = extract(x, x.w - 1, x.w - 1)
        return sext(s, w)
    if op == 'cat':
        h, l = a.a
        if hi < l.w: return extract(l, hi, lo)
        if lo >= l.w: return extract(h, hi - l.w, lo - l.w)
        return concat(extract(h, hi - l.w, 0), extract(l, l.w - 1, lo))
    if op == 'ite':
        if ctree(a): return maptree(a, ('ext', hi, lo), lambda x: const(x >> lo, w), w)
        x, y = a.a[1], a.a[2]
        if x.op in ('cat', 'zext', 'c', 'ext') or y.op in ('cat', 'zext', 'c', 'ext'):
            k = ('exti', hi, lo, a.id)
            r = _mapc.get(k)
            if r is None:
                r = ite(a.a[0], extract(x, hi, lo), extract(y, hi, lo))
                _mapc[k] = r
            return r
    if op in ('and', 'or', 'xor', 'not') and a.w > 1:
        k = ('extb', hi, lo, a.id)
        r = _mapc.get(k)
        if r is None:
            xs = [extract(x, hi, lo) for x in a.a]
            r = {'and': band, 'or': bor, 'xor': bxor, 'not': bnot}[op](*xs)
            _mapc[k] = r
        return r
    if op in ('add', 'mul') and lo == 0 and a.a[1].op == 'c':
        k = ('exta', hi, lo, a.id)
        r = _mapc.get(k)
        if r is None:
            r = (add if op == 'add' else mul)(extract(a.a[0], hi, 0), extract(a.a[1], hi, 0))
            _mapc[k] = r
        return r
    if lo and (a.hi >> lo) == 0: return const(0, w)
    l2 = h2 = None
    if (a.hi >> lo) <= mask(w):
        l2, h2 = a.lo >> lo, a.hi >> lo
    return node('ext', w, (a, lo), l2, h2)

def concat(h, l):
    w = h.w + l.w
    if h.op == 'c':
        if l.op == 'c': return const((h.a[0] << l.w) | l.a[0], w)
        if h.a[0] == 0: return zext(l, w)
    if h.op == 'zext':
        return zext(concat(h.a[0], l), w)
    # re-associate: cat(cat(x,y),l) with mergeable y,l
    if h.op == 'ext' and l.op == 'ext' and h.a[0] is l.a[0] and h.a[1] == l.a[1] + l.w:
        return extract(h.a[0], h.a[1] + h.w - 1, l.a[1])
    if h.op == 'ext' and h.a[0] is l and h.a[1] == l.w:
        return extract(l, h.a[1] + h.w - 1, 0)
    if l.op == 'cat':
        hh = concat2(h, l.a[0])
        if hh is not None: return concat(hh, l.a[1])
    if h.op == 'cat':
        ll = concat2(h.a[1], l)
        if ll is not None: return concat(h.a[0], ll)
    if h.op == 'sext' and h.a[0].w == 1 and l.op == 'sext' and l.a[0] is h.a[0]:
        return sext(h.a[0], w)
    return node('cat', w, (h, l), (h.lo << l.w) + l.lo, (h.hi << l.w) + l.hi)

def concat2(h, l):
    """concat only if it simplifies to a non-cat"""
    if h.op == 'c' and l.op == 'c': return const((h.a[0] << l.w) | l.a[0], h.w + l.w)
    if h.op == 'ext' and l.op == 'ext' and h.a[0] is l.a[0] and h.a[1] == l.a[1] + l.w:
        return extract(h.a[0], h.a[1] + h.w - 1, l.a[1])
    return None

# ------------------------------------------------------------ comparisons
def eq(a, b):
    if a is b: return TRUE
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        if a.op == 'c': return TRUE if a.a[0] == b.a[0] else FALSE
        return _eqk(a, b.a[0])
    if a.w == 1: return bnot(bxor(a, b))
    if a.hi < b.lo or b.hi < a.lo: return FALSE
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return eq(a.a[0], b.a[0])
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w: return eq(a.a[0], b.a[0])
    if a.op == 'cat' and b.op == 'cat' and a.a[1].w == b.a[1].w:
        return band(eq(a.a[0], b.a[0]), eq(a.a[1], b.a[1]))
    if a.op == 'add' and b.op == 'add' and a.a[1].op == 'c' and b.a[1].op == 'c':
        return eq(a.a[0], add(b.a[0], const(b.a[1].a[0] - a.a[1].a[0], a.w)))
    if a.op == 'add' and (a.a[0] is b or a.a[1] is b):
        return eq(a.a[1] if a.a[0] is b else a.a[0], const(0, a.w))
    if b.op == 'add' and (b.a[0] is a or b.a[1] is a):
        return eq(b.a[1] if b.a[0] is a else b.a[0], const(0, a.w))
    ca, cb = cset(a), cset(b)
    if ca is not None and cb is not None and not (ca & cb): return FALSE
    if ctree(b) and len(cb) <= 16:
        return maptree(b, ('eqx', a.id), lambda x: _eqk(a, x), 1)
    if ctree(a) and len(ca) <= 16:
        return maptree(a, ('eqx', b.id), lambda x: _eqk(b, x), 1)
    if a.id > b.id: a, b = b, a
    return node('eq', 1, (a, b))

def _eqk(a, k):
    if a.op == 'c': return TRUE if a.a[0] == k else FALSE
    if k < a.lo or k > a.hi: return FALSE
    if a.w == 1: return a if k else bnot(a)
    key = (a.id, k)
    r = _eqc.get(key)
    if r is not None: return r
    op = a.op
    r = None
    c = cset(a)
    if c is not None and k not in c: r = FALSE
    elif op == 'ite':
        x, y = a.a[1], a.a[2]
        r = ite(a.a[0], _eqk(x, k), _eqk(y, k)) if (x.op == 'c' or y.op == 'c' or ctree(a)) else None
    elif op == 'zext':
        r = _eqk(a.a[0], k)
    elif op == 'sext':
        x = a.a[0]
        lowk = k & mask(x.w)
        sx = (lowk | (mask(a.w) ^ mask(x.w))) if lowk >> (x.w - 1) else lowk
        r = _eqk(x, lowk) if sx == k else FALSE
    elif op == 'add' and a.a[1].op == 'c':
        r = _eqk(a.a[0], (k - a.a[1].a[0]) & mask(a.w))
    elif op == 'cat':
        h, l = a.a
        r = band(_eqk(h, k >> l.w), _eqk(l, k & mask(l.w)))
    elif op == 'xor' and a.a[1].op == 'c':
        r = _eqk(a.a[0], k ^ a.a[1].a[0])
    elif op == 'not':
        r = _eqk(a.a[0], k ^ mask(a.w))
    elif op == 'neg':
        r = _eqk(a.a[0], (-k) & mask(a.w))
    if r is None:
        r = node('eq', 1, (a, const(k, a.w)))
    _eqc[key] = r
    return r

def ne(a, b): return bnot(eq(a, b))

def ult(a, b):
    if a is b: return FALSE
    if a.hi < b.lo: return TRUE
    if a.lo >= b.hi: return FALSE
    if a.op == 'zext' and b.op == 'zext':
        x, y = a.a[0], b.a[0]
        if x.w == y.w: return ult(x, y)
        w = max(x.w, y.w)
        return ult(zext(x, w), zext(y, w))
    if b.op == 'c':
        v = b.a[0]
        if v == 0: return FALSE
        if v == 1: return _eqk(a, 0)
        if a.op == 'zext':
            x = a.a[0]
            return TRUE if v > mask(x.w) else ult(x, const(v, x.w))
        k = ('ultk', a.id, v)
        r = _mapc.get(k)
        if r is not None: return r
        if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c' or ctree(a)):
            r = ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
        else:
            r = node('ult', 1, (a, b))
        _mapc[k] = r
        return r
    if a.op == 'c':
        v = a.a[0]
        if v == mask(a.w): return FALSE
        if v == 0: return bnot(_eqk(b, 0))
        if b.op == 'zext':
            x = b.a[0]
            return FALSE if v >= mask(x.w) else ult(const(v, x.w), x)
        k = ('kult', b.id, v)
        r = _mapc.get(k)
        if r is not None: return r
        if b.op == 'ite' and (b.a[1].op == 'c' or b.a[2].op == 'c' or ctree(b)):
            r = ite(b.a[0], ult(a, b.a[1]), ult(a, b.a[2]))
        else:
            r = node('ult', 1, (a, b))
        _mapc[k] = r
        return r
    ca = ctree(a); cb = ctree(b)
    if ca and len(cset(a)) <= 16 or (ca and cb):
        return maptree(a, ('ultx', b.id), lambda x: ult(const(x, a.w), b), 1)
    if cb and len(cset(b)) <= 16:
        return maptree(b, ('xult', a.id), lambda x: ult(a, const(x, a.w)), 1)
    return node('ult', 1, (a, b))

def ule(a, b): return bnot(ult(b, a))

def slt(a, b):
    if a is b: return FALSE
    w = a.w
    h = 1 << (w - 1)
    an, bn = a.hi < h, b.hi < h
    if an and bn: return ult(a, b)
    if a.lo >= h and b.lo >= h: return ult(a, b)
    if a.lo >= h and bn: return TRUE
    if an and b.lo >= h: return FALSE
    # narrow sign extensions
    if a.op == 'sext' and (b.op == 'c' or b.op in ('sext', 'zext')):
        x = a.a[0]
        if b.op == 'c':
            v = b.a[0]; sv = v - (1 << w) if v >> (w - 1) else v
            if sv >= 1 << (x.w - 1): return TRUE
            if sv < -(1 << (x.w - 1)): return FALSE
            return slt(x, const(sv, x.w))
        if b.op == 'sext' and b.a[0].w == x.w: return slt(x, b.a[0])
    if b.op == 'sext' and a.op == 'c':
        x = b.a[0]
        v = a.a[0]; sv = v - (1 << w) if v >> (w - 1) else v
        if sv >= (1 << (x.w - 1)): return FALSE
        if sv < -(1 << (x.w - 1)): return TRUE
        return slt(const(sv, x.w), x)
    if b.op == 'c' and b.a[0] == 0: return extract(a, w - 1, w - 1)
    if ctree(a) and b.op == 'c': return maptree(a, ('sltk', b.id), lambda x: slt(const(x, w), b), 1)
    if ctree(b) and a.op == 'c': return maptree(b, ('kslt', a.id), lambda x: slt(a, const(x, w)), 1)
    return ult(bxor(a, const(h, w)), bxor(b, const(h, w))) if (a.op == 'c' or b.op == 'c') and False else node('slt', 1, (a, b))

def sle(a, b): return bnot(slt(b, a))

def implies(a, b): return bor(bnot(a), b)

def show(t, d=0):
    if t.op == 'c': return str(t.a[0])
    if t.op == 'v': return t.a[0]
    if d > 6: return '..'
    return '(%s %s)' % (t.op, ' '.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.a))

def evaluate(roots, env):
    """concrete evaluation (env: name->int)"""
    val = {}
    st = list(roots)
    while st:
        t = st[-1]
        if t.id in val: st.pop(); continue
        todo = [x for x in t.a if isinstance(x, T) and x.id not in val]
        if todo: st.extend(todo); continue
        val[t.id] = eval1(t, [val[x.id] if isinstance(x, T) else x for x in t.a], env)
        st.pop()
    return [val[r.id] for r in roots]

def _s(v, w): return v - (1 << w) if v >> (w - 1) else v

def eval1(t, v, env):
    op, w = t.op, t.w
    m = mask(w)
    if op == 'c': return t.a[0]
    if op == 'v': return env.get(t.a[0], 0) & m
    if op == 'and': return v[0] & v[1]
    if op == 'or': return v[0] | v[1]
    if op == 'xor': return v[0] ^ v[1]
    if op == 'not': return v[0] ^ m
    if op == 'ite': return v[1] if v[0] else v[2]
    if op == 'add': return (v[0] + v[1]) & m
    if op == 'neg': return (-v[0]) & m
    if op == 'mul': return (v[0] * v[1]) & m
    if op == 'udiv': return v[0] // v[1] if v[1] else m
    if op == 'urem': return v[0] % v[1] if v[1] else v[0]
    if op == 'shl': return (v[0] << v[1]) & m if v[1] < w else 0
    if op == 'lshr': return v[0] >> v[1] if v[1] < w else 0
    if op == 'ashr': return (_s(v[0], w) >> min(v[1], w - 1)) & m
    if op == 'zext': return v[0]
    if op == 'sext': return _s(v[0], t.a[0].w) & m
    if op == 'ext': return (v[0] >> t.a[1]) & m
    if op == 'cat': return (v[0] << t.a[1].w) | v[1]
    if op == 'eq': return int(v[0] == v[1])
    if op == 'ult': return int(v[0] < v[1])
    if op == 'slt': return int(_s(v[0], t.a[0].w) < _s(v[1], t.a[0].w))
    raise Exception(op)

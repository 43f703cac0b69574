"""Bit-blasting of terms to CNF (structural hashing) and SAT back ends."""
import os, subprocess, tempfile
import term as T

class Blaster:
    def __init__(s, absmul=False):
        s.absmul = absmul     # products of two unknowns: any value within the bounds (sound: more behaviours)
        s.nv = 1              # var 1 = true
        s.ch = [(), ()]       # var -> inputs of its gate
        s.tx = ['', '']       # var -> its clauses
        s.nc = [0, 0]
        s.side = {}           # var -> clauses restricting it
        s.cbc = {}
        s.ands = {}
        s.xors = {}
        s.ites = {}
        s.tb = {}             # term id -> list of literals (lsb first)
        s.vars = {}           # name -> list of lits
    def new(s):
        s.nv += 1
        s.ch.append(()); s.tx.append(''); s.nc.append(0)
        return s.nv
    def AND(s, a, b):
        if a == 1: return b
        if b == 1: return a
        if a == -1 or b == -1 or a == -b: return -1
        if a == b: return a
        if a > b: a, b = b, a
        k = (a, b)
        r = s.ands.get(k)
        if r is None:
            s.nv += 1
            r = s.nv
            s.ands[k] = r
            s.ch.append(k); s.nc.append(3)
            s.tx.append('-%d %d 0\n-%d %d 0\n%d %d %d 0\n' % (r, a, r, b, r, -a, -b))
        return r
    def OR(s, a, b): return -s.AND(-a, -b)
    def XOR(s, a, b):
        if a == 1: return -b
        if a == -1: return b
        if b == 1: return -a
        if b == -1: return a
        if a == b: return -1
        if a == -b: return 1
        neg = False
        if a < 0: a = -a; neg = not neg
        if b < 0: b = -b; neg = not neg
        if a > b: a, b = b, a
        k = (a, b)
        r = s.xors.get(k)
        if r is None:
            s.nv += 1
            r = s.nv
            s.xors[k] = r
            s.ch.append(k); s.nc.append(4)
            s.tx.append('-%d %d %d 0\n-%d -%d -%d 0\n%d -%d %d 0\n%d %d -%d 0\n' % (r, a, b, r, a, b, r, a, b, r, a, b))
        return -r if neg else r
    def MUX(s, c, a, b):
        if c == 1: return a
        if c == -1: return b
        if a == b: return a
        if c < 0: c, a, b = -c, b, a
        if a == 1 or a == c: return s.OR(c, b)
        if a == -1 or a == -c: return s.AND(-c, b)
        if b == 1 or b == -c: return s.OR(-c, a)
        if b == -1 or b == c: return s.AND(c, a)
        if a == -b: return s.XOR(c, b)
        neg = False
        if a < 0: a, b, neg = -a, -b, True
        k = (c, a, b)
        r = s.ites.get(k)
        if r is None:
            s.nv += 1
            r = s.nv
            s.ites[k] = r
            s.ch.append(k); s.nc.append(6); d = (r, c, a, b)
            s.tx.append('-%d -%d %d 0\n%d -%d %d 0\n-%d %d %d 0\n%d %d %d 0\n-%d %d %d 0\n%d %d %d 0\n' % (r, c, a, r, c, -a, r, c, b, r, c, -b, r, a, b, r, -a, -b))
        return -r if neg else r
    def MAJ(s, a, b, c):
        return s.OR(s.AND(a, b), s.AND(c, s.OR(a, b)))

    def blast(s, root):
        tb = s.tb
        st = [root]
        while st:
            t = st[-1]
            if t.id in tb: st.pop(); continue
            todo = [x for x in t.a if x.__class__ is T.T and x.id not in tb]
            if todo: st.extend(todo); continue
            tb[t.id] = s.one(t)
            st.pop()
        return tb[root.id]

    def cbits(s, v, w): return [1 if (v >> i) & 1 else -1 for i in range(w)]

    def addv(s, x, y, c=-1):
        out = []
        for a, b in zip(x, y):
            t = s.XOR(a, b)
            out.append(s.XOR(t, c))
            c = s.OR(s.AND(a, b), s.AND(t, c))
        return out, c

    def ultv(s, x, y):
        r = -1
        for a, b in zip(x, y):
            # r = (a==b) ? r : b
            r = s.MUX(s.XOR(a, b), b, r)
        return r

    def eqv(s, x, y):
        r = 1
        for a, b in zip(x, y):
            r = s.AND(r, -s.XOR(a, b))
            if r == -1: return -1
        return r

    def mulv(s, x, y):
        w = len(x)
        # fewer non-constant bits as multiplier
        cx = sum(1 for b in x if abs(b) != 1); cy = sum(1 for b in y if abs(b) != 1)
        if cx < cy: x, y = y, x
        acc = [-1] * w
        for i in range(w):
            if y[i] == -1: continue
            pp = [-1] * i + [s.AND(x[j], y[i]) for j in range(w - i)]
            lo = acc[:i]
            hi, _ = s.addv(acc[i:], pp[i:])
            acc = lo + hi
        return acc

    def divv(s, x, y):
        """restoring division; y==0 -> q=all ones, r=x"""
        w = len(x)
        r = [-1] * w
        q = [-1] * w
        # width of remainder kept at w+1 during compare
        for i in range(w - 1, -1, -1):
            r1 = [x[i]] + r
            y1 = y + [-1]
            ny = [-b for b in y1]
            d, c = s.addv(r1, ny, 1)
            q[i] = c
            r = [s.MUX(c, d[j], r1[j]) for j in range(w)]
        return q, r

    def shv(s, x, y, kind):
        w = len(x)
        fill = x[-1] if kind == 'ashr' else -1
        k = 0
        cur = list(x)
        while (1 << k) < w:
            n = 1 << k
            c = y[k] if k < len(y) else -1
            if kind == 'shl': sh = [-1] * n + cur[:w - n]
            else: sh = cur[n:] + [fill] * n
            cur = [s.MUX(c, a, b) for a, b in zip(sh, cur)]
            k += 1
        big = -1
        for j in range(k, len(y)): big = s.OR(big, y[j])
        if w & (w - 1):    # non power of two: amounts in [w, 2^k)
            kk = [y[j] for j in range(k)]
            big = s.OR(big, -s.ultv(kk, s.cbits(w, k)))
        return [s.MUX(big, fill, b) for b in cur]

    def one(s, t):
        op, w = t.op, t.w
        tb = s.tb
        A = [tb[x.id] if x.__class__ is T.T else x for x in t.a] if op not in ('c', 'v') else None
        if op == 'c': return s.cbits(t.a[0], w)
        if op == 'v':
            r = [s.new() for _ in range(w)]
            s.vars[t.a[0]] = r
            return r
        if op == 'and': return [s.AND(a, b) for a, b in zip(*A)]
        if op == 'or': return [s.OR(a, b) for a, b in zip(*A)]
        if op == 'xor': return [s.XOR(a, b) for a, b in zip(*A)]
        if op == 'not': return [-a for a in A[0]]
        if op == 'ite':
            c = A[0][0]
            return [s.MUX(c, a, b) for a, b in zip(A[1], A[2])]
        if op == 'add': return s.addv(A[0], A[1])[0]
        if op == 'neg': return s.addv([-a for a in A[0]], s.cbits(0, w), 1)[0]
        if op == 'mul':
            if s.absmul and not T.isc(t.a[1]):
                r = [s.new() for _ in range(t.hi.bit_length())] + [-1] * (w - t.hi.bit_length())
                if t.hi != T.mask(t.hi.bit_length()):
                    cl = -s.ultv(s.cbits(t.hi, w), r)
                    for x in r:
                        if x > 1: s.side.setdefault(x, []).append(cl)
                return r
            return s.mulv(A[0], A[1])
        if op == 'udiv' or op == 'urem':
            k = ('d', t.a[0].id, t.a[1].id)
            qr = s.tb.get(k)
            if qr is None:
                qr = s.tb[k] = s.divv(A[0], A[1])
            return qr[0] if op == 'udiv' else qr[1]
        if op in ('shl', 'lshr', 'ashr'): return s.shv(A[0], A[1], op)
        if op == 'zext': return A[0] + [-1] * (w - len(A[0]))
        if op == 'sext': return A[0] + [A[0][-1]] * (w - len(A[0]))
        if op == 'ext': return A[0][t.a[1]:t.a[1] + w]
        if op == 'cat': return A[1] + A[0]
        if op == 'eq': return [s.eqv(A[0], A[1])]
        if op == 'ult': return [s.ultv(A[0], A[1])]
        if op == 'slt':
            x = A[0][:-1] + [-A[0][-1]]; y = A[1][:-1] + [-A[1][-1]]
            return [s.ultv(x, y)]
        raise Exception(op)

KISSAT = '/usr/local/bin/kissat'
CADICAL = '/app/toolchains/lean-4.33.0-linux/bin/cadical'

def dimacs(bl, lits):
    """CNF asserting the literals: the gates they depend on"""
    ch, side = bl.ch, bl.side
    seen = set(); st = [abs(l) for l in lits]; extra = set()
    while st:
        v = st.pop()
        if v in seen: continue
        seen.add(v)
        for x in ch[v]:
            if x < 0: x = -x
            if x not in seen: st.append(x)
        if v in side:
            for l in side[v]: extra.add(l); st.append(abs(l))
    seen.discard(1); cone = sorted(seen); tx, nc = bl.tx, bl.nc
    units = [1] + list(lits) + sorted(extra)
    return 'p cnf %d %d\n' % (bl.nv, sum(nc[v] for v in cone) + len(units)) + ''.join([tx[v] for v in cone]) + ''.join('%d 0\n' % l for l in units)

def run_sat(text, timeout, solver='kissat', seed=0):
    """-> ('sat', set of true vars) | ('unsat', None) | ('unknown', None)"""
    fd, fn = tempfile.mkstemp(suffix='.cnf')
    with os.fdopen(fd, 'w') as f: f.write(text)
    try:
        if solver == 'kissat' and os.path.exists(KISSAT): cmd = [KISSAT, '-q', '--time=%d' % max(1, int(timeout)), fn]
        elif solver == 'cadical' and os.path.exists(CADICAL): cmd = [CADICAL, '-q', '-t', str(max(1, int(timeout))), fn]
        elif solver == 'minisat':
            cmd = ['minisat', '-verb=0', '-cpu-lim=%d' % max(1, int(timeout)), fn, fn + '.out']
        else: cmd = ['z3', '-dimacs', '-T:%d' % max(1, int(timeout)), fn]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout + 30)
        except subprocess.TimeoutExpired:
            return 'unknown', None
        out = p.stdout.decode()
        if solver == 'minisat':
            try: out = open(fn + '.out').read().replace('UNSAT', 's UNSATISFIABLE').replace('SAT\n', 's SATISFIABLE\nv ')
            except OSError: out = ''
            finally:
                try: os.unlink(fn + '.out')
                except OSError: pass
        if 's UNSATISFIABLE' in out or out.startswith('unsat'): return 'unsat', None
        if 's SATISFIABLE' in out or out.startswith('sat'):
            tv = set()
            for L in out.split('\n'):
                if L.startswith('v'):
                    for x in L[1:].split():
                        x = int(x)
                        if x > 0: tv.add(x)
            return 'sat', tv
        return 'unknown', None
    finally:
        os.unlink(fn)


"""Path-merging symbolic execution of LLVM IR -> verification conditions.

Every function body is executed over terms (term.py); at joins states are
merged with ite, so one run covers every path.  Loops are run iteration by
iteration until the back edge is infeasible (syntactically, or by a SAT query);
loops with a registered invariant are cut (establish / preserve / use).
Every check becomes an Obligation: pc & !cond must be unsatisfiable."""
import os, re, heapq
import term as T
import ir
from ir import Unsupported

OBJSH = 40
BASEOFF = 1 << 32

class Obj:
    __slots__ = ('size', 'cells', 'name', 'ro', 'arr', 'id')
    def __init__(s, size, cells, name, id, ro=False, arr=None):
        s.size, s.cells, s.name, s.id, s.ro, s.arr = size, cells, name, id, ro, arr

class State:
    __slots__ = ('pc', 'mem', 'own', 'exc', 'ghost')
    def __init__(s, pc, mem, exc=None, ghost=None):
        s.pc, s.mem, s.own, s.exc, s.ghost = pc, mem, set(), exc, ghost or {}
    def fork(s, cond):
        n = State(T.band(s.pc, cond), dict(s.mem), s.exc, s.ghost)
        s.own = set()
        return n
    def wobj(s, oid):
        o = s.mem[oid]
        if oid not in s.own:
            o = Obj(o.size, list(o.cells) if o.cells is not None else None, o.name, oid, o.ro, o.arr)
            s.mem[oid] = o
            s.own.add(oid)
        return o

class Obligation:
    __slots__ = ('kind', 'label', 'where', 'viol', 'n')
    def __init__(s, kind, label, where, viol):
        s.kind, s.label, s.where, s.viol = kind, label, where, viol

class Frame:
    __slots__ = ('f', 'env', 'pending', 'rets', 'excs', 'allocas', 'iters')

class Stop(Exception):
    pass

class Engine:
    def __init__(s, mod, replace=None, feasible=None, cfg=None):
        s.m = mod
        s.replace = replace or {}
        s.feasible = feasible            # callback: pc -> bool
        s.obls = []
        s.covers = []
        s.inputs = []                    # recorded nd_* variables in call order
        s.trivial = 0                    # obligations discharged by simplification
        s.kinds = {}
        s.nobj = 1
        s.srm = {}; s.ghostf = {}; s.hasghost = '@vf_g' in mod.globals if hasattr(mod, 'globals') else False
        s.nundef = 0; s.costlyf = {}; s.livepc = {}
        s.globs = {}
        s.gmem = {}
        s.addrname = {}
        s.steps = 0
        s.cfg = cfg or {}
        s.soft = s.cfg.get('soft', 40)
        s.hard = s.cfg.get('hard', 600)
        s.calls = {}
        s.stack = []
        s.ccache = {}
        s.externs = set()
        s.unwound = []
        s.replaced = {}
        s.elsewhere = 0
        s.where = '?'
        s.invs = s.cfg.get('invs', {})
        s.loopstats = {}
        for f in mod.funcs.values(): f.code = None

    # ------------------------------------------------------------ util
    def fresh(s, pfx, w):
        s.nundef += 1
        return T.var('%s!%d' % (pfx, s.nundef), w)

    def oblige(s, st, cond, kind, label):
        """cond must hold under st.pc"""
        if kind == 'post' and s.cfg.get('posts') and not re.search(s.cfg['posts'], label):   # decided by another property
            s.elsewhere += 1; return
        s.kinds[kind] = s.kinds.get(kind, 0) + 1
        viol = T.band(st.pc, T.bnot(cond))
        if T.isc(viol) and viol.a[0] == 0:
            s.trivial += 1
            return
        s.obls.append(Obligation(kind, label, s.where, viol))

    def newobj(s, size, name, cells=None, ro=False, arr=None):
        oid = s.nobj; s.nobj += 1
        if cells is None and arr is None: cells = [None] * size
        return Obj(size, cells, name, oid, ro, arr)

    @staticmethod
    def base(oid): return (oid << OBJSH) + BASEOFF

    def gaddr(s, name):
        if name in s.globs: return s.globs[name]
        if name in s.m.funcs or name in s.m.decls:
            o = s.newobj(1, name, ro=True)
            s.globs[name] = T.const(s.base(o.id), 64)
            s.addrname[o.id] = name
            s.gmem[o.id] = o
            return s.globs[name]
        g = s.m.globals.get(name)
        if g is None: raise Unsupported('global ' + name)
        if g[0] == 'alias': raise Unsupported('alias')
        ty, init = g
        try:
            size = s.m.size(ty)
        except Unsupported:
            size = 8
        o = s.newobj(max(size, 1), name, ro=True)
        s.globs[name] = T.const(s.base(o.id), 64)
        s.addrname[o.id] = name
        s.gmem[o.id] = o
        if init is not None: s.ginit(o, 0, ty, init)
        return s.globs[name]

    def ginit(s, o, off, ty, c):
        rt = s.m.res(ty)
        if c[0] in ('zero',):
            for i in range(s.m.size(rt)): o.cells[off + i] = (T.const(0, 8), 0, 1)
            return
        if c[0] == 'undef': return
        if c[0] == 'bytes':
            for i, b in enumerate(c[1]): o.cells[off + i] = (T.const(b, 8), 0, 1)
            return
        if c[0] == 'agg':
            if rt.k == 'struct':
                for i, (tt, cc) in enumerate(c[1]): s.ginit(o, off + s.m.offset(rt, i), tt, cc)
            else:
                es = s.m.size(rt.b)
                for i, (tt, cc) in enumerate(c[1]): s.ginit(o, off + i * es, tt, cc)
            return
        try:
            v = s.const(ty, c)
        except Unsupported:
            return     # e.g. vtable / typeinfo entries that are never used
        if isinstance(v, T.T):
            n = s.m.size(rt)
            if v.w < 8 * n: v = T.zext(v, 8 * n)
            for i in range(n): o.cells[off + i] = (v, i, n)

    def const(s, ty, c):
        k = c[0]
        rt = s.m.res(ty)
        if k == 'int':
            if rt.k != 'int': raise Unsupported('int const of ' + rt.k)
            return T.const(c[1], rt.a)
        if k == 'null': return T.const(0, 64)
        if k == 'zero':
            if rt.k == 'int': return T.const(0, rt.a)
            if rt.k == 'ptr': return T.const(0, 64)
            if rt.k == 'struct': return [s.const(x, c) for x in rt.a]
            if rt.k == 'arr': return [s.const(rt.b, c) for _ in range(rt.a)]
            return ('fp', '0')
        if k == 'undef':
            if rt.k == 'int': return s.fresh('undef', rt.a)
            if rt.k == 'ptr': return s.fresh('undefp', 64)
            if rt.k == 'struct': return [s.const(x, c) for x in rt.a]
            if rt.k == 'arr': return [s.const(rt.b, c) for _ in range(rt.a)]
            return ('fp', '0')
        if k == 'glob': return s.gaddr(c[1])
        if k == 'gep':
            _, bt, base, idx = c
            b = s.const(ir.Ty('ptr'), base)
            off = 0; t = bt
            for j, (it, ic) in enumerate(idx):
                v = ic[1] if ic[0] == 'int' else 0
                if j == 0: off += v * s.m.size(t)
                else:
                    rt = s.m.res(t)
                    if rt.k == 'struct': off += s.m.offset(rt, v); t = rt.a[v]
                    else: t = rt.b; off += v * s.m.size(t)
            return T.add(b, T.const(off, 64))
        if k == 'cast':
            _, op, t1, cc, t2 = c
            return s.cast(op, s.const(t1, cc), t1, t2)
        if k == 'agg': return [s.const(tt, cc) for tt, cc in c[1]]
        if k == 'bytes': return [T.const(b, 8) for b in c[1]]
        if k == 'fp': return ('fp', c[1])
        raise Unsupported('const ' + k)

    def val(s, fr, o):
        ty, c = o
        if c[0] == 'local': return fr.env[c[1]]
        if c[0] == 'undef': return s.const(ty, c)
        k = id(o)
        r = s.ccache.get(k)
        if r is None:
            r = s.const(ty, c)
            s.ccache[k] = r
            s.ccache[('keep', k)] = o
        return r

    # ------------------------------------------------------------ memory
    def resolve(s, addr):
        """[(guard, objid or None, off)]"""
        out = []
        st = [(T.TRUE, addr, 0)]
        while st:
            g, a, d = st.pop()
            if a.op == 'c':
                oid = a.a[0] >> OBJSH
                out.append((g, oid, T.const(a.a[0] - s.base(oid), 64))); continue
            l, h = a.lo >> OBJSH, a.hi >> OBJSH
            if l == h and l != 0:
                out.append((g, l, T.add(a, T.const(-s.base(l), 64)))); continue
            if a.op == 'ite' and d < 64:
                st.append((T.band(g, T.bnot(a.a[0])), a.a[2], d + 1))
                st.append((T.band(g, a.a[0]), a.a[1], d + 1))
                continue
            if a.op == 'add':
                parts = []; wk = [a]
                while wk:
                    t = wk.pop()
                    if t.op == 'add': wk.extend(t.a)
                    else: parts.append(t)
                done = False
                for i, p in enumerate(parts):
                    lp, hp = p.lo >> OBJSH, p.hi >> OBJSH
                    if lp == hp and lp in s.allobj:
                        off = T.add(p, T.const(-s.base(lp), 64))
                        for j, q in enumerate(parts):
                            if j != i: off = T.add(off, q)
                        out.append((g, lp, off)); done = True; break
                if done: continue
                for i, p in enumerate(parts):
                    if p.op == 'ite' and d < 64 and s._ptrlike(p):
                        q = T.const(0, 64)
                        for j, r in enumerate(parts):
                            if j != i: q = T.add(q, r)
                        st.append((T.band(g, T.bnot(p.a[0])), T.add(p.a[2], q), d + 1))
                        st.append((T.band(g, p.a[0]), T.add(p.a[1], q), d + 1))
                        done = True; break
                if done: continue
            out.append((g, None, a))
        return out

    def _ptrlike(s, p):
        """an ite tree some leaf of which lies inside an object"""
        st = [p]; n = 0
        while st and n < 256:
            p = st.pop(); n += 1
            l, h = p.lo >> OBJSH, p.hi >> OBJSH
            if l == h and l in s.allobj: return True
            if p.op == 'ite': st += [p.a[1], p.a[2]]
            elif p.op == 'add': st += list(p.a)
        return False

    @property
    def allobj(s):
        return range(1, s.nobj)

    def _cands(s, o, off, n):
        if T.isc(off):
            v = off.a[0]
            return [v] if v + n <= o.size else []
        cs = T.cset(off)
        if cs is not None: return sorted(v for v in cs if v + n <= o.size)
        tz = T._tz(off)
        stp = 1 << tz if tz else 1
        lo = off.lo; hi = min(off.hi, o.size - n)
        if lo % stp: lo += stp - lo % stp
        r = range(lo, hi + 1, stp)
        if len(r) > 2048: raise Unsupported('symbolic access to large object %s' % o.name)
        return list(r)

    def cellload(s, o, v, n):
        c = o.cells
        c0 = c[v]
        if c0 is not None and c0[1] == 0 and c0[2] == n:
            ok = True
            x = c0[0]
            for i in range(1, n):
                ci = c[v + i]
                if ci is None or ci[0] is not x or ci[1] != i: ok = False; break
            if ok: return x
        r = None
        for i in range(n - 1, -1, -1):
            ci = c[v + i]
            if ci is None: b = T.var('uninit!%s!%d!%d' % (o.name, o.id, v + i), 8)
            else: b = T.extract(ci[0], 8 * ci[1] + 7, 8 * ci[1])
            r = b if r is None else T.concat(r, b)
        return r

    def objload(s, st, o, off, n):
        if o.arr is not None:
            return s.arrload(o, off, n)
        cand = s._cands(o, off, n)
        r = None
        for v in cand:
            x = s.cellload(o, v, n)
            r = x if r is None else T.ite(T._eqk(off, v), x, r)
        return r

    def arrload(s, o, off, n):
        r = None
        for i in range(n):
            b = s.select(o, T.add(off, T.const(i, 64)))
            r = b if r is None else T.concat(b, r)
        return r

    def select(s, o, off):
        """unbounded read-only byte object: a fresh variable per distinct offset term, with congruence axioms"""
        k = off.id
        tab = o.arr
        if k in tab: return tab[k][1]
        v = T.var('%s[%s]' % (o.name, T.show(off) if T.isc(off) else '#%d' % off.id), 8)
        for k2, (off2, v2) in list(tab.items()):
            e = T.eq(off, off2)
            if T.isc(e):
                continue
            s.axioms.append(T.bor(T.bnot(e), T.eq(v, v2)))
        tab[k] = (off, v)
        return v

    axioms = None

    def load(s, st, addr, n):
        r = None
        rs = s.resolve(addr)
        for g, oid, off in rs:
            o = st.mem.get(oid) or s.gmem.get(oid)
            gg = T.band(st.pc, g)
            if T.isc(gg) and gg.a[0] == 0 and len(rs) > 1: continue
            if o is None:
                s.oblige(st, T.bnot(g), 'mem', 'load: invalid or dead object')
                continue
            s.bounds(st, g, o, off, n, 'load')
            x = s.objload(st, o, off, n)
            if x is None: continue
            r = x if r is None else T.ite(g, x, r)
        if r is None:
            st.pc = T.FALSE
            return T.const(0, 8 * n)
        return r

    def bounds(s, st, g, o, off, n, what):
        if isinstance(o.size, T.T):
            ok = T.band(T.ule(T.const(n, 64), o.size), T.ule(off, T.sub(o.size, T.const(n, 64))))
        elif n > o.size: ok = T.FALSE
        else: ok = T.bnot(T.ult(T.const(o.size - n, 64), off))
        s.oblige(st, T.bor(T.bnot(g), ok), 'mem', '%s of %d bytes out of bounds of %s[%s]' % (what, n, o.name, o.size if not isinstance(o.size, T.T) else 'n'))

    def store(s, st, addr, n, v):
        rs = s.resolve(addr)
        hit = False
        for g, oid, off in rs:
            gg = T.band(st.pc, g)
            if T.isc(gg) and gg.a[0] == 0 and len(rs) > 1: continue
            o = st.mem.get(oid)
            if o is None:
                s.oblige(st, T.bnot(g), 'mem', 'store: invalid, dead or read-only object')
                continue
            if o.ro or o.arr is not None:
                s.oblige(st, T.bnot(g), 'mem', 'store to read-only object'); continue
            s.bounds(st, g, o, off, n, 'store')
            o = st.wobj(oid)
            hit = True
            if T.isc(off) and T.isc(g):
                p = off.a[0]
                if p + n <= o.size:
                    for i in range(n): o.cells[p + i] = (v, i, n)
                continue
            for p in s._cands(o, off, n):
                c = T.band(g, T._eqk(off, p))
                if T.isc(c) and c.a[0] == 0: continue
                old = s.cellload(o, p, n)
                nv = T.ite(c, v, old)
                if nv is old and o.cells[p] is not None: continue
                for i in range(n): o.cells[p + i] = (nv, i, n)
        if not hit: st.pc = T.FALSE

    def copy(s, st, dst, src, n):
        """memcpy of constant n"""
        if n == 0: return
        rs, rd = s.resolve(src), s.resolve(dst)
        if len(rs) == 1 and len(rd) == 1 and T.isc(rs[0][2]) and T.isc(rd[0][2]):
            so = st.mem.get(rs[0][1]) or s.gmem.get(rs[0][1]); do = st.mem.get(rd[0][1])
            if so is not None and do is not None and so.cells is not None and do.cells is not None:
                s.bounds(st, T.TRUE, so, rs[0][2], n, 'memcpy read')
                s.bounds(st, T.TRUE, do, rd[0][2], n, 'memcpy write')
                a, b = rs[0][2].a[0], rd[0][2].a[0]
                if a + n <= so.size and b + n <= do.size:
                    cells = so.cells[a:a + n]
                    # partial words at the edges are fine: cells carry (value, index, width)
                    for i in range(n):
                        if cells[i] is None: cells[i] = (T.var('uninit!%s!%d!%d' % (so.name, so.id, a + i), 8), 0, 1)
                    do = st.wobj(rd[0][1])
                    do.cells[b:b + n] = cells
                    return
        vals = []
        off = 0
        while off < n:
            k = 8 if n - off >= 8 else 4 if n - off >= 4 else 2 if n - off >= 2 else 1
            if len(rs) != 1 or not T.isc(rs[0][2]) or len(rd) != 1 or not T.isc(rd[0][2]): k = 1
            vals.append((off, k, s.load(st, T.add(src, T.const(off, 64)), k)))
            off += k
        for off, k, v in vals:
            s.store(st, T.add(dst, T.const(off, 64)), k, v)

    # ------------------------------------------------------------ merging
    def merge(s, edges):
        """edges: [(state, [phi values])] -> (state, [vals])"""
        st, vals = edges[0]
        if len(edges) == 1: return st, list(vals)
        vals = list(vals)
        for st2, v2 in edges[1:]:
            if T.isc(st2.pc) and st2.pc.a[0] == 0: continue
            if T.isc(st.pc) and st.pc.a[0] == 0:
                st, vals = st2, list(v2); continue
            c, pc = s.mergecond(st.pc, st2.pc)
            vals = [s.mergeval(c, a, b) for a, b in zip(vals, v2)]
            mem = dict(st.mem)
            for oid, o2 in st2.mem.items():
                o1 = st.mem.get(oid)
                if o1 is None: mem[oid] = o2
                elif o1 is not o2 and o1.cells is not None:
                    mem[oid] = s.mergeobj(c, o1, o2)
            ex = st.exc if st2.exc is None else st2.exc if st.exc is None else s.mergeval(c, st.exc, st2.exc)
            gh = dict(st.ghost)
            for k, v in st2.ghost.items():
                gh[k] = s.mergeval(c, gh[k], v) if k in gh else v
            st = State(pc, mem, ex, gh)
        return st, vals

    def mergecond(s, p, q):
        """(c, pc): c is true on p and false on q (p, q disjoint), pc = p | q.  Conjuncts p and q share are factored out."""
        hp, hq = [(-p.id, p)], [(-q.id, q)]
        lp, lq, com = [], [], []
        n = 0
        while hp and hq:
            n += 1
            if n > 4000: break
            x, y = hp[0], hq[0]
            if x[1] is y[1]:
                com.append(x[1])
                while hp and hp[0][1] is y[1]: heapq.heappop(hp)
                while hq and hq[0][1] is y[1]: heapq.heappop(hq)
                continue
            h, l = (hp, lp) if x[0] < y[0] else (hq, lq)
            t = heapq.heappop(h)[1]
            while h and h[0][1] is t: heapq.heappop(h)
            if t.op == 'and':
                for u in t.a: heapq.heappush(h, (-u.id, u))
            else: l.append(t)
        lp += [x for _, x in hp]; lq += [x for _, x in hq]
        lp = sorted({x.id: x for x in lp}.values(), key=lambda x: x.id)
        lq = sorted({x.id: x for x in lq}.values(), key=lambda x: x.id)
        def conj(l):
            r = T.TRUE
            for x in l: r = T.band(r, x)
            return r
        cp, cq = conj(lp), conj(lq)
        pc = T.band(conj(sorted(com, key=lambda x: x.id)), T.bor(cp, cq))
        sq = {x.id for x in lq}
        for x in lp:
            if T.bnot(x).id in sq: return x, pc
        if cp is T.bnot(cq): return cp, pc
        return (cp if len(lp) <= len(lq) else T.bnot(cq)), pc

    def mergeval(s, c, a, b):
        if a is b: return a
        if isinstance(a, list): return [s.mergeval(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, tuple):
            if a == b: return a
            raise Unsupported('merge of floating point values')
        return T.ite(c, a, b)

    def mergeobj(s, c, o1, o2):
        c1, c2 = o1.cells, o2.cells
        if c1 is c2: return o1
        out = list(c1)
        i, n = 0, len(c1)
        while i < n:
            x, y = c1[i], c2[i]
            if x is y or x == y: i += 1; continue
            if x is not None and y is not None and x[1] == 0 and y[1] == 0 and x[2] == y[2]:
                k = x[2]
                ok = i + k <= n
                if ok:
                    for j in range(1, k):
                        p, q = c1[i + j], c2[i + j]
                        if p is None or q is None or p[0] is not x[0] or p[1] != j or q[0] is not y[0] or q[1] != j: ok = False; break
                if ok:
                    v = T.ite(c, x[0], y[0])
                    for j in range(k): out[i + j] = (v, j, k)
                    i += k; continue
            bx = T.extract(x[0], 8 * x[1] + 7, 8 * x[1]) if x is not None else T.var('uninit!%s!%d!%d' % (o1.name, o1.id, i), 8)
            by = T.extract(y[0], 8 * y[1] + 7, 8 * y[1]) if y is not None else T.var('uninit!%s!%d!%d' % (o1.name, o1.id, i), 8)
            out[i] = (T.ite(c, bx, by), 0, 1)
            i += 1
        return Obj(o1.size, out, o1.name, o1.id, o1.ro, o1.arr)

    # ------------------------------------------------------------ functions
    def prep(s, f):
        if f.code is None:
            ir.decode(f)
            ir.analyse(f)

    def costly(s, f):
        if f.name not in s.costlyf:
            s.costlyf[f.name] = bool(f.loops) and any(i[0] == 'bin' and i[2] in ('udiv', 'urem') or i[0] in ('udiv', 'urem') for c in f.code.values() for i in c)
        return s.costlyf[f.name]

    def callfn(s, f, args, st):
        """-> (state|None, value, excstate|None)"""
        s.prep(f)
        if s.feasible is not None and s.costly(f):        # digit loops: often only on error paths, so ask first whether the path exists
            if st.pc not in s.livepc: s.livepc[st.pc] = s.feasible(st.pc)
            if not s.livepc[st.pc]: return None, None, None
        s.calls[f.name] = s.calls.get(f.name, 0) + 1
        if len(s.stack) > 200: raise Unsupported('recursion')
        s.stack.append(f.name)
        ow = s.where
        fr = Frame()
        fr.f = f; fr.env = {}; fr.pending = {}; fr.rets = []; fr.excs = []; fr.allocas = []; fr.iters = {}
        for (t, n, at), v in zip(f.params, args): fr.env[n] = v
        fr.pending[f.entry] = [(st, [])]
        s.region(fr, None)
        s.stack.pop()
        s.where = ow
        ret = val = None
        if fr.rets:
            ret, vals = s.merge(fr.rets)
            val = vals[0] if vals else None
            for oid in fr.allocas: ret.mem.pop(oid, None)
        exc = None
        if fr.excs:
            exc, _ = s.merge(fr.excs)
            for oid in fr.allocas: exc.mem.pop(oid, None)
        return ret, val, exc

    def region(s, fr, r):
        f = fr.f
        for b in f.region[r]:
            if b in f.loops and b != r:
                s.loop(fr, b)
            else:
                p = fr.pending.pop(b, None)
                if p: s.block(fr, b, p)

    # --- loops over a ghost text (harness/ghost.hpp): the next symbol is chosen at the loop head, states are kept apart
    # --- by the concrete key the ghost text maintains; a state met before adds no behaviour
    def ghosty(s, name):
        r = s.ghostf.get(name)
        if r is None:
            s.ghostf[name] = False
            f = s.m.funcs.get(name)
            r = 'vfghost' in name
            if f is not None and not r:
                s.prep(f)
                r = any(i[0] == 'call' and s.ghosty('@' + s.replace[i[3][1:].strip('"')] if i[3][1:].strip('"') in s.replace else i[3]) for c in f.code.values() for i in c if i[0] == 'call')
            s.ghostf[name] = r
        return r

    def leaves(s, v):
        out, todo, seen = set(), [v], set()
        while todo:
            x = todo.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if T.isc(x): out.add(x.a[0])
            elif x.op == 'ite': todo += [x.a[1], x.a[2]]
            else: raise Unsupported('ghost text state is not concrete')
        return sorted(out)

    def gsplit(s, st, vals):
        """states with a concrete ghost state: case split on the merged values"""
        states = [st]
        for k in range(0, 12, 4):
            nxt = []
            for x in states:
                a = T.add(s.gaddr('@vf_g'), T.const(k, 64))
                v = s.load(x, a, 4)
                if T.isc(v): nxt.append(x); continue
                for c in s.leaves(v):
                    q = T.eq(v, T.const(c, v.w))
                    if not s.feasible(T.band(x.pc, q)): continue
                    y = x.fork(q); s.store(y, a, 4, T.const(c, 32)); nxt.append(y)
            states = nxt
        return [(x, vals) for x in states]

    def gcells(s, st):
        o = st.mem.get(s.gaddr('@vf_g').a[0] >> OBJSH) or s.gmem.get(s.gaddr('@vf_g').a[0] >> OBJSH)
        out = []
        for k in range(0, 12, 4):
            v = s.load(st, T.add(s.gaddr('@vf_g'), T.const(k, 64)), 4)
            if not T.isc(v): raise Unsupported('ghost text state is not concrete')
            out.append(v.a[0])
        return out

    def loop_inv(s, fr, h):
        """ghost text loop with a summary value: the loop invariant (per ghost key) says which 64-bit slots of the loop state equal the
        two halves of the ghost value and which other slots keep the value they had when the key was first reached; every other slot is
        arbitrary.  It is weakened until it is inductive: every slot kept in it is checked by the solver at every arrival."""
        g = s.gaddr('@vf_g'); gv = s.gaddr(s.cfg['inv']).a[0] >> OBJSH
        ent = fr.pending.pop(h)
        st, vals = s.merge(ent)
        if T.isc(st.pc) and st.pc.a[0] == 0: return
        pc0 = st.pc; vals0, mem0 = list(vals), dict(st.mem); sel = s.fresh('sel', 16); run = [0]
        inv = {}                                   # key -> [reference state, reference phi values, {slot: kind}]
        valid = lambda pc, x, y: x is y or not s.feasible(T.band(pc, T.ne(x, y)))
        def half(st, k): return s.cellload(st.mem[gv], 8 * k, 8)
        def go(key):
            ref, rv, kinds = inv[key]
            st = State(T.band(pc0, T.eq(sel, T.const(run[0], 16))), dict(ref.mem), ref.exc, dict(ref.ghost))
            if run[0] > 60: raise Unsupported('loop invariant of the ghost text loop does not converge')
            H = [s.fresh('inv', 64), s.fresh('inv', 64)]; vals = list(rv)
            for slot, kd in kinds.items():
                if slot[0] == 'phi':
                    w = rv[slot[1]].w; vals[slot[1]] = kd if isinstance(kd, T.T) else H[kd] if kd in (0, 1) else s.fresh('any', w)
                else:
                    o = st.wobj(slot[1]); v = kd if isinstance(kd, T.T) else H[kd] if kd in (0, 1) else s.fresh('any', 8 * slot[3])
                    o.cells[slot[2]:slot[2] + slot[3]] = [(v, i, slot[3]) for i in range(slot[3])]
            go0(st, vals)
        def go0(st, vals):
            if not run[0]: st = st.fork(T.eq(sel, T.const(0, 16)))
            run[0] += 1
            ch, nc, _ = s.gcells(st)
            pick = None if ch else s.fresh('choice', 8)
            for j in ([ch] if ch else range(1, nc + 1)):
                st2 = st.fork(T.TRUE if ch else T.eq(pick, T.const(j, 8)))
                if not ch: s.store(st2, g, 4, T.const(j, 32))
                fr.pending[h] = [(st2, list(vals))]
                s.region(fr, h)
                take()
        todo = []
        def take():
            for st, vals in fr.pending.pop(h, []):
                if T.isc(st.pc) and st.pc.a[0] == 0 or not s.feasible(st.pc): continue
                for x in s.gsplit(st, vals): todo.append(x)
        def slots(st, vals, ref, rv):
            for i, (x, y) in enumerate(zip(vals, rv)):
                if isinstance(x, T.T) and isinstance(y, T.T): yield ('phi', i), x, y
                elif x is not y: raise Unsupported('aggregate loop value in a ghost text loop')
            for oid, r in ref.mem.items():
                o = st.mem.get(oid)
                if o is None or o.cells is None or r.ro or oid == gv: continue
                off = 0
                while off < o.size:
                    n = next(n for n in (8, 4, 2, 1) if off % n == 0 and off + n <= o.size)
                    yield ('m', oid, off, n), (o, off, n), (r, off, n)
                    off += n
        def value(z):
            if isinstance(z, T.T): return z
            o, off, n = z
            if any(x is None for x in o.cells[off:off + n]): return None
            return s.cellload(o, off, n)
        def same(pc, x, y):
            if not isinstance(x, T.T) and x[0] is y[0]: return True
            x, y = value(x), value(y)
            return x is y if x is None or y is None else x.w == y.w and valid(pc, x, y)
        tried = {}
        def arrive(st, vals):
            """checks an arrival against the invariant of its key; True when the invariant had to be changed"""
            _, _, key = s.gcells(st)
            if not s.implies(st.pc, pc0): raise Unsupported('path condition of a ghost text loop')
            if key not in inv:
                kinds = {('m', gv, 0, 8): 0, ('m', gv, 8, 8): 1}
                for k, x, y in slots(st, vals, st, vals):
                    v = value(x)
                    if v is None or T.isc(v): continue
                    c = next((c for c in (0, 1) if v.w == 64 and valid(st.pc, v, half(st, c))), None)
                    e = vals0[k[1]] if k[0] == 'phi' else value((mem0[k[1]], k[2], k[3])) if k[1] in mem0 else None
                    if c is not None: kinds[k] = c; tried[key, k] = {'keep', c}
                    elif isinstance(e, T.T) and e.w == v.w and valid(st.pc, v, e): kinds[k] = e         # the value at the entry of the loop
                inv[key] = [st, list(vals), kinds]
                return True
            ref, rv, kinds = inv[key]; ch = False
            for k, x, y in slots(st, vals, ref, rv):
                kd = kinds.get(k, 'keep')
                if kd == 'any': continue
                if kd == 'keep':
                    if same(st.pc, x, y): continue
                elif value(x) is not None and valid(st.pc, value(x), kd if isinstance(kd, T.T) else half(st, kd)): continue
                ch = True; kinds[k] = 'any'; tr = tried.setdefault((key, k), {'keep'}); v = value(y)
                for c in (0, 1):
                    if c not in tr and v is not None and v.w == 64 and valid(ref.pc, v, half(ref, c)): kinds[k] = c; tr.add(c); break
            return ch
        first = s.gsplit(st, list(vals)); _, _, key0 = s.gcells(first[0][0])
        if len(first) != 1: raise Unsupported('ghost text state is not concrete')
        go0(*first[0]); base = list(todo)
        while True:
            todo[:] = base
            for k in list(inv): go(k)
            if not any([arrive(*x) for x in todo]): break
        s.loopstats[(fr.f.name, h)] = max(run[0], s.loopstats.get((fr.f.name, h), 0))
        s.invdump = {k: {repr(x): y for x, y in v[2].items()} for k, v in inv.items()}
        if os.environ.get('VF_INV'): print(fr.f.name, run[0], [(k, {str(x) + (' ' + v[0].mem[x[1]].name if x[0] == 'm' else ''): y for x, y in v[2].items()}) for k, v in inv.items()])

    def loop_driven(s, fr, h):
        if s.cfg.get('inv'): return s.loop_inv(fr, h)
        g = s.gaddr('@vf_g')
        work = {}; seen = {}
        n = 0
        def take():
            for st, vals in fr.pending.pop(h, []):
                if T.isc(st.pc) and st.pc.a[0] == 0 or not s.feasible(st.pc): continue
                for st, vals in s.gsplit(st, vals):
                    ch, nc, key = s.gcells(st)
                    work.setdefault((key, ch, nc), []).append((st, vals))
        take()
        while work:
            k = min(work)
            edges = work.pop(k)
            st, vals = s.merge(edges)
            if T.isc(st.pc) and st.pc.a[0] == 0: continue
            snap = (tuple(v.id if isinstance(v, T.T) else repr(v) for v in vals), {oid: o.cells for oid, o in st.mem.items()}, st.pc)
            old = [x for x in seen.get(k, []) if x[0] == snap[0] and s.samemem(x[1], snap[1])]
            if any(s.implies(st.pc, x[2]) for x in old): continue       # same state under a special case of the earlier path condition
            seen.setdefault(k, []).append(snap)
            n += 1
            if n > s.cfg.get('ghostmax', 4000) or len(seen[k]) > 40: raise Unsupported('ghost text loop does not converge (%s, key %s)' % (fr.f.name, k))
            key, ch, nc = k
            pick = None if ch else s.fresh('choice', 8)
            for j in ([ch] if ch else range(1, nc + 1)):
                st2 = st.fork(T.TRUE if ch else T.eq(pick, T.const(j, 8)))      # the alternatives are disjoint: merges tell them apart
                if not ch: s.store(st2, g, 4, T.const(j, 32))
                fr.pending[h] = [(st2, list(vals))]
                s.region(fr, h)
                take()
        if n > s.loopstats.get((fr.f.name, h), 0): s.loopstats[(fr.f.name, h)] = n

    def implies(s, p, q):
        if p is q: return True
        def conj(t):
            out, todo = set(), [t]
            while todo:
                x = todo.pop()
                if x.op == 'and': todo += x.a
                else: out.add(x.id)
            return out
        if conj(q) <= conj(p): return True
        v = T.band(p, T.bnot(q))
        if T.isc(v): return v.a[0] == 0
        return s.feasible is not None and not s.feasible(v)

    def samemem(s, a, b):
        for oid, c in b.items():
            d = a.get(oid)
            if d is c: continue
            if d is None or c is None or len(d) != len(c): return False
            if d != c:
                for x, y in zip(c, d):
                    if x is y: continue
                    if x is None or y is None or x[0] is not y[0] or x[1] != y[1]: return False
        return True

    def loop(s, fr, h):
        f = fr.f
        if s.hasghost and any(i[0] == 'call' and s.ghosty(i[3]) for b in f.loops[h] for i in f.code[b]):
            return s.loop_driven(fr, h)
        n = 0
        key = (f.name, h)
        while True:
            p = fr.pending.get(h)
            if not p: break
            if n >= s.soft and (n - s.soft) % 8 == 0 and s.feasible is not None:
                pc = T.FALSE
                for st, _ in p: pc = T.bor(pc, st.pc)
                if T.isc(pc) and pc.a[0] == 0 or not s.feasible(pc):
                    fr.pending.pop(h); break
            if n >= s.hard:
                pc = T.FALSE
                for st, _ in p: pc = T.bor(pc, st.pc)
                s.where = f.name
                s.kinds['unwind'] = s.kinds.get('unwind', 0) + 1
                s.obls.append(Obligation('unwind', 'loop %s in %s not exhausted after %d iterations' % (h, f.name, n), f.name, pc))
                fr.pending.pop(h); break
            n += 1
            s.region(fr, h)
        if n > s.loopstats.get(key, 0): s.loopstats[key] = n

    def edge(s, fr, src, dst, st):
        if T.isc(st.pc) and st.pc.a[0] == 0: return
        vals = []
        for i in fr.f.code[dst]:
            if i[0] != 'phi': break
            vals.append(s.val(fr, i[3][src]))
        fr.pending.setdefault(dst, []).append((st, vals))

    def block(s, fr, b, edges):
        st, vals = s.merge(edges)
        if T.isc(st.pc) and st.pc.a[0] == 0: return
        f = fr.f
        env = fr.env
        code = f.code[b]
        k = 0
        for v in vals:
            env[code[k][1]] = v
            k += 1
        fname = f.name
        for ii in range(k, len(code)):
            i = code[ii]
            s.steps += 1
            op = i[0]
            h = _H.get(op)
            if h is not None:
                h(s, fr, st, i)
                continue
            if op == 'load':
                s.where = fname
                env[i[1]] = s.loadty(st, s.val(fr, i[3]), i[2])
                if T.isc(st.pc) and st.pc.a[0] == 0: return
                continue
            if op == 'store':
                s.where = fname
                s.storety(st, s.val(fr, i[3]), i[2][0], s.val(fr, i[2]))
                if T.isc(st.pc) and st.pc.a[0] == 0: return
                continue
            if op == 'call':
                s.where = fname
                st2 = s.call(fr, b, st, i)
                if st2 is None: return
                st = st2
                if T.isc(st.pc) and st.pc.a[0] == 0: return
                if i[5]:
                    s.edge(fr, b, i[5], st); return
                continue
            if op == 'br':
                s.edge(fr, b, i[2], st); return
            if op == 'condbr':
                c = s.val(fr, i[2])
                if T.isc(c):
                    s.edge(fr, b, i[3] if c.a[0] else i[4], st); return
                if i[3] == i[4]: s.edge(fr, b, i[3], st); return
                if s.cfg.get('prune'):
                    for k in (0, 1):
                        if not s.feasible(T.band(st.pc, T.bnot(c) if k else c)): break
                    else: k = None
                    if k is not None: s.edge(fr, b, i[3] if k else i[4], st); return
                t = st.fork(c); e = st.fork(T.bnot(c))
                s.edge(fr, b, i[3], t); s.edge(fr, b, i[4], e); return
            if op == 'switch':
                v = s.val(fr, i[2])
                by = {}
                rest = T.TRUE
                for cv, lab in i[4]:
                    c = T.eq(v, T.const(cv, v.w))
                    by[lab] = T.bor(by.get(lab, T.FALSE), c)
                    rest = T.band(rest, T.bnot(c))
                by[i[3]] = T.bor(by.get(i[3], T.FALSE), rest)
                for lab, c in by.items():
                    if T.isc(c) and c.a[0] == 0: continue
                    s.edge(fr, b, lab, st.fork(c))
                return
            if op == 'ret':
                fr.rets.append((st, [s.val(fr, i[2])] if i[2] is not None else []))
                return
            if op == 'unreachable':
                s.where = fname
                s.oblige(st, T.FALSE, 'ub', 'unreachable reached')
                return
            if op == 'landingpad':
                env[i[1]] = [st.exc if st.exc is not None else T.const(0, 64), s.fresh('sel', 32)]
                continue
            if op == 'resume':
                fr.excs.append((st, [])); return
            raise Unsupported('inst %s' % (i,))

    # typed memory access
    def loadty(s, st, addr, t):
        rt = s.m.res(t)
        if rt.k == 'int':
            n = s.m.size(rt)
            v = s.load(st, addr, n)
            return T.extract(v, rt.a - 1, 0) if rt.a < 8 * n else v
        if rt.k == 'ptr': return s.load(st, addr, 8)
        if rt.k == 'struct': return [s.loadty(st, T.add(addr, T.const(s.m.offset(rt, i), 64)), x) for i, x in enumerate(rt.a)]
        if rt.k == 'arr':
            es = s.m.size(rt.b)
            return [s.loadty(st, T.add(addr, T.const(i * es, 64)), rt.b) for i in range(rt.a)]
        raise Unsupported('load ' + rt.k)
    def storety(s, st, addr, t, v):
        rt = s.m.res(t)
        if rt.k == 'int':
            n = s.m.size(rt)
            s.store(st, addr, n, T.zext(v, 8 * n) if rt.a < 8 * n else v); return
        if rt.k == 'ptr': s.store(st, addr, 8, v); return
        if rt.k == 'struct':
            for i, x in enumerate(rt.a): s.storety(st, T.add(addr, T.const(s.m.offset(rt, i), 64)), x, v[i])
            return
        if rt.k == 'arr':
            es = s.m.size(rt.b)
            for i in range(rt.a): s.storety(st, T.add(addr, T.const(i * es, 64)), rt.b, v[i])
            return
        raise Unsupported('store ' + rt.k)

    def cast(s, op, v, t1, t2):
        t1, t2 = s.m.res(t1), s.m.res(t2)
        if op == 'trunc': return T.extract(v, t2.a - 1, 0)
        if op == 'zext': return T.zext(v, t2.a)
        if op == 'sext': return T.sext(v, t2.a)
        if op == 'ptrtoint': return v if t2.a == 64 else T.zext(v, t2.a) if t2.a > 64 else T.extract(v, t2.a - 1, 0)
        if op == 'inttoptr': return T.zext(v, 64) if v.w < 64 else v
        if op == 'bitcast' and t1.k == t2.k: return v
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ calls
    def throw(s, fr, b, st, i):
        """st has thrown; route to the unwind edge or out of the function"""
        if T.isc(st.pc) and st.pc.a[0] == 0: return
        if i[6]: s.edge(fr, b, i[6], st)
        else: fr.excs.append((st, []))

    def call(s, fr, b, st, i):
        _, dst, rt, fn, args, nd, ud = i
        if fn[0] != '@':
            fv = fr.env[fn]
            if T.isc(fv) and (fv.a[0] >> OBJSH) in s.addrname: fn = s.addrname[fv.a[0] >> OBJSH]
            else: raise Unsupported('indirect call')
        n = fn[1:].strip('"')
        a = [s.val(fr, (t, c)) if c[0] == 'local' or c[0] == 'undef' else s.const(t, c) for t, c, _ in args]
        r = s.intrinsic(fr, b, st, i, n, a)
        if r is not NotImplemented:
            if r is None: return None
            if dst: fr.env[dst] = r[0]
            return r[1]
        rep = s.replace.get(n)
        if rep is not None:
            s.replaced[n] = s.replaced.get(n, 0) + 1
            fn = '@' + rep
        f = s.m.funcs.get(fn)
        if f is None:
            return s.external(fr, b, st, i, n, a)
        # byval copies
        for k, (t, c, bv) in enumerate(args):
            if bv:
                o = s.newobj(s._byvalsize(f, k), 'byval')
                st.mem[o.id] = o; st.own.add(o.id)
                fr.allocas.append(o.id)
                na = T.const(s.base(o.id), 64)
                s.copy(st, na, a[k], o.size)
                a[k] = na
        ret, val, exc = s.callfn(f, a, st)
        if exc is not None: s.throw(fr, b, exc, i)
        if ret is None: return None
        if dst: fr.env[dst] = val
        return ret

    def _byvalsize(s, f, k):
        m = re.findall(r'byval\(((?:%"[^"]*"|[^()])*)\)', f.attrline)
        # parameters in order: count byval params before k
        j = sum(1 for t, n, at in f.params[:k] if 'byval' in at)
        t = ir.P(ir.tokenize(m[j]), s.m).type()
        return s.m.size(t)

    def cstr(s, addr):
        for g, oid, off in s.resolve(addr):
            o = s.gmem.get(oid)
            r = []
            p = off.a[0]
            while True:
                v = s.cellload(o, p, 1).a[0]
                if v == 0: break
                r.append(chr(v)); p += 1
            return ''.join(r)

    def intrinsic(s, fr, b, st, i, n, a):
        """returns NotImplemented, None (path ends) or (value, state)"""
        w = None
        if n.startswith('llvm.'):
            if n.startswith(('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.invariant', 'llvm.donothing', 'llvm.assume')): return (None, st)
            if n.startswith(('llvm.ubsantrap', 'llvm.trap')):
                k = a[0].a[0] if a else -1
                s.oblige(st, T.FALSE, 'ub', UBK.get(k, 'ubsan %d' % k)); return None
            if n.startswith(('llvm.memcpy', 'llvm.memmove')):
                if not T.isc(a[2]):
                    s.symcopy(st, a[0], a[1], a[2])
                else: s.copy(st, a[0], a[1], a[2].a[0])
                return (None, st)
            if n.startswith('llvm.memset'):
                s.memset(st, a[0], a[1], a[2]); return (None, st)
            m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', n)
            if m:
                w = int(m.group(3)); sg = m.group(1) == 's'
                f = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[m.group(2)]
                res = f(a[0], a[1])
                W = 2 * w if m.group(2) == 'mul' else w + 2
                x = T.sext if sg else T.zext
                ov = s.ovf(m.group(2), sg, a[0], a[1], w, W, f, x, res)
                return ([res, ov], st)
            m = re.match(r'llvm\.(umin|umax|smin|smax)\.', n)
            if m:
                lt = (T.slt if m.group(1)[0] == 's' else T.ult)(a[0], a[1])
                return ((T.ite(lt, a[0], a[1]) if m.group(1)[1:] == 'min' else T.ite(lt, a[1], a[0])), st)
            if n.startswith('llvm.bswap.'):
                v = a[0]; r = None
                for k in range(v.w // 8):
                    x = T.extract(v, 8 * k + 7, 8 * k)
                    r = x if r is None else T.concat(r, x)
                return (r, st)
            m = re.match(r'llvm\.(ctlz|cttz|ctpop)\.', n)
            if m:
                v = a[0]; w = v.w
                if m.group(1) == 'ctpop':
                    r = T.const(0, w)
                    for k in range(w): r = T.add(r, T.zext(T.extract(v, k, k), w))
                    return (r, st)
                r = T.const(w, w)
                rng = range(w) if m.group(1) == 'ctlz' else range(w - 1, -1, -1)
                for k in rng:
                    r = T.ite(T.extract(v, k, k), T.const(w - 1 - k if m.group(1) == 'ctlz' else k, w), r)
                return (r, st)
            m = re.match(r'llvm\.(fshl|fshr)\.', n)
            if m:
                w = a[0].w
                if not T.isc(a[2]): raise Unsupported('fsh')
                k = a[2].a[0] % w
                if m.group(1) == 'fshr': k = (w - k) % w if k else 0; 
                if m.group(1) == 'fshr' and k == 0: return (a[1], st)
                cc = T.concat(a[0], a[1])
                return (T.extract(cc, 2 * w - 1 - k, w - k), st)
            if n.startswith('llvm.abs.'):
                return (T.ite(T.slt(a[0], T.const(0, a[0].w)), T.neg(a[0]), a[0]), st)
            if n.startswith('llvm.is.constant'): return (T.FALSE, st)
            if n.startswith('llvm.expect'): return (a[0], st)
            if n.startswith('llvm.objectsize'): return (T.const(-1, 64), st)
            if n.startswith('llvm.eh.typeid.for'): return (s.fresh('tid', 32), st)
            raise Unsupported('intrinsic ' + n)
        h = RT.get(n)
        if h is not None: return h(s, fr, b, st, i, a)
        if n.startswith(('_ZSt20__throw_', '_ZSt19__throw_', '_ZSt24__throw_', '_ZSt17__throw_', '_ZSt21__throw', '_ZSt25__throw', '_ZSt28__throw')) or n == '_ZSt21__glibcxx_assert_failPKciS0_S0_':
            s.oblige(st, T.FALSE, 'ub', 'std throw/assert ' + n); return None
        if s.RAISE.match(n) and not s.cfg.get('real_raise'):
            # contract of raise_error: never returns, throws an error whose code() is the argument
            st.ghost = dict(st.ghost); st.ghost['exc_code'] = a[0]
            st.exc = T.const(0, 64)
            s.raises = getattr(s, 'raises', 0) + 1
            s.throw(fr, b, st, i)
            return None
        return NotImplemented

    def exctypes(s): return [(n, s.gaddr(n)) for n in s.m.globals if n.startswith('@_ZTIN9ipaddress')]
    RAISE = re.compile(r'_ZN9ipaddress11raise_error')

    def ovf(s, k, sg, x, y, w, W, f, ext, res):
        h = 1 << (w - 1)
        if not sg:
            if k == 'add': return T.ult(res, x)
            if k == 'sub': return T.ult(x, y)
            if x.hi * y.hi <= T.mask(w): return T.FALSE
            return T.ne(T.extract(T.mul(T.zext(x, W), T.zext(y, W)), W - 1, w), T.const(0, w))
        # interval shortcuts
        sx, sy = s.srange(x), s.srange(y)
        if k == 'add': lo, hi = sx[0] + sy[0], sx[1] + sy[1]
        elif k == 'sub': lo, hi = sx[0] - sy[1], sx[1] - sy[0]
        else:
            ps = [p * q for p in sx for q in sy]; lo, hi = min(ps), max(ps)
        if lo >= -h and hi < h: return T.FALSE
        r = f(T.sext(x, W), T.sext(y, W))
        return T.ne(T.sext(res, W), r)

    def srange(s, t):
        if t.op != 'ite': return s.srange0(t)
        r = s.srm.get(t.id)
        if r is None: r = s.srm[t.id] = s.srange0(t)
        return r

    def srange0(s, t):
        h = 1 << (t.w - 1)
        if t.hi < h: return (t.lo, t.hi)
        if t.lo >= h: return (t.lo - 2 * h, t.hi - 2 * h)
        if t.op == 'sext': return s.srange(t.a[0])
        cs = T.cset(t)
        if cs is not None:
            v = [x - 2 * h if x >= h else x for x in cs]
            return (min(v), max(v))
        if t.op == 'add' and t.a[1].op == 'c':
            r = s.srange(t.a[0]); k = t.a[1].a[0]; k = k - 2 * h if k >= h else k
            if r[0] + k >= -h and r[1] + k < h: return (r[0] + k, r[1] + k)
        if t.op == 'ite':
            p, q = s.srange(t.a[1]), s.srange(t.a[2])
            return (min(p[0], q[0]), max(p[1], q[1]))
        return (-h, h - 1)

    def memset(s, st, d, v, n):
        if T.isc(n):
            for k in range(n.a[0]): s.store(st, T.add(d, T.const(k, 64)), 1, v)
            return
        N = n.hi
        if N > 4096: raise Unsupported('memset symbolic size')
        for k in range(N):
            c = T.ult(T.const(k, 64), n)
            t = st.fork(c)
            ad = T.add(d, T.const(k, 64))
            s.store(t, ad, 1, v)
            e = st.fork(T.bnot(c))
            m, _ = s.merge([(t, []), (e, [])])
            st.mem, st.own, st.pc = m.mem, set(), m.pc

    def symcopy(s, st, d, src, n):
        cs = T.cset(n)
        N = max(cs) if cs else n.hi
        if N > 4096: raise Unsupported('memcpy symbolic size')
        vals = []
        for k in range(N):
            c = T.ult(T.const(k, 64), n)
            t = st.fork(c)
            if T.isc(t.pc) and t.pc.a[0] == 0: vals.append(None); continue
            vals.append(s.load(t, T.add(src, T.const(k, 64)), 1))
        for k in range(N):
            if vals[k] is None: continue
            c = T.ult(T.const(k, 64), n)
            t = st.fork(c)
            s.store(t, T.add(d, T.const(k, 64)), 1, vals[k])
            e = st.fork(T.bnot(c))
            m, _ = s.merge([(t, []), (e, [])])
            st.mem, st.own, st.pc = m.mem, set(), m.pc

    def external(s, fr, b, st, i, n, a):
        s.externs.add(n)
        hook = s.cfg.get('external')
        if hook:
            r = hook(s, fr, b, st, i, n, a)
            if r is not NotImplemented:
                if r is None: return None
                if i[1]: fr.env[i[1]] = r[0]
                return r[1]
        raise Unsupported('external function ' + n)

    # ------------------------------------------------------------ entry
    def start(s, root):
        s.axioms = []
        st = State(T.TRUE, {})
        for g in s.m.globals:       # ghost state of the harness (vf_g, static g_*) is the only writable global memory
            if re.match(r'@(vf_g|_ZL\d+g_\w+)$', g):
                oid = s.gaddr(g).a[0] >> OBJSH
                o = s.gmem.pop(oid); o.ro = False; st.mem[oid] = o
        f = s.m.funcs['@' + root]
        ret, val, exc = s.callfn(f, [], st)
        if exc is not None:
            s.where = root
            s.oblige(exc, T.FALSE, 'ub', 'uncaught exception leaves the harness')
        s.final = ret
        return ret

UBK = {0: 'signed add overflow', 1: '__builtin_unreachable', 2: 'cfi', 3: 'integer divide by zero', 10: 'load of invalid bool/enum value', 12: 'signed multiplication overflow', 13: 'negate overflow', 18: 'array index out of bounds', 20: 'shift out of bounds', 21: 'signed subtraction overflow', 22: 'null/misaligned', 8: 'missing return', 5: 'missing return', 11: 'load invalid value'}

# ---------------------------------------------------------------- simple instructions
_H = {}
def H(*ops):
    def d(f):
        for o in ops: _H[o] = f
        return f
    return d

_BINF = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'and': T.band, 'or': T.bor, 'xor': T.bxor, 'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr, 'udiv': T.udiv, 'sdiv': T.sdiv, 'urem': T.urem, 'srem': T.srem}

@H(*ir.BIN)
def h_bin(s, fr, st, i):
    fr.env[i[1]] = _BINF[i[0]](s.val(fr, i[3]), s.val(fr, i[4]))

_CMP = {'eq': T.eq, 'ne': T.ne, 'ult': T.ult, 'ule': T.ule, 'ugt': lambda a, b: T.ult(b, a), 'uge': lambda a, b: T.ule(b, a),
        'slt': T.slt, 'sle': T.sle, 'sgt': lambda a, b: T.slt(b, a), 'sge': lambda a, b: T.sle(b, a)}

@H('icmp')
def h_icmp(s, fr, st, i):
    fr.env[i[1]] = _CMP[i[2]](s.val(fr, i[4]), s.val(fr, i[5]))

@H(*ir.CAST)
def h_cast(s, fr, st, i):
    fr.env[i[1]] = s.cast(i[0], s.val(fr, i[3]), i[2], i[4])

@H('freeze')
def h_freeze(s, fr, st, i): fr.env[i[1]] = s.val(fr, i[3])

@H('select')
def h_select(s, fr, st, i):
    fr.env[i[1]] = s.mergeval_sel(s.val(fr, i[2]), s.val(fr, i[3]), s.val(fr, i[4]))
def _ms(s, c, a, b):
    if T.isc(c): return a if c.a[0] else b
    return s.mergeval(c, a, b)
Engine.mergeval_sel = _ms

@H('gep')
def h_gep(s, fr, st, i):
    r = s.val(fr, i[2])
    if i[3]: r = T.add(r, T.const(i[3], 64))
    for o, es in i[4]:
        x = s.val(fr, o)
        if x.w < 64: x = T.sext(x, 64)
        if es != 1: x = T.mul(x, T.const(es, 64))
        r = T.add(r, x)
    fr.env[i[1]] = r

@H('extractvalue')
def h_ev(s, fr, st, i):
    v = s.val(fr, i[2])
    for k in i[3]: v = v[k]
    fr.env[i[1]] = v

@H('insertvalue')
def h_iv(s, fr, st, i):
    v = s.val(fr, i[2]); x = s.val(fr, i[3])
    def ins(a, path):
        a = list(a)
        a[path[0]] = x if len(path) == 1 else ins(a[path[0]], path[1:])
        return a
    fr.env[i[1]] = ins(v, i[4])

@H('alloca')
def h_alloca(s, fr, st, i):
    n = s.m.size(i[2])
    if i[3] is not None:
        c = s.val(fr, i[3])
        n *= c.a[0]
    o = s.newobj(n, fr.f.name[1:][:40] + ':' + i[1][1:])
    st.mem[o.id] = o; st.own.add(o.id)
    fr.allocas.append(o.id)
    fr.env[i[1]] = T.const(s.base(o.id), 64)

# ---------------------------------------------------------------- runtime functions of the harness
RT = {}
def R(*names):
    def d(f):
        for n in names: RT[n] = f
        return f
    return d

def _nd(w):
    def f(s, fr, b, st, i, a):
        v = T.var('in%d' % len(s.inputs), w)
        s.inputs.append(v)
        return (v, st)
    return f
for _w in (8, 16, 32, 64): RT['nd_u%d' % _w] = _nd(_w)
def _hv(w):
    def f(s, fr, b, st, i, a): return (s.fresh('hv', w), st)
    return f
for _w in (8, 16, 32, 64): RT['hv_u%d' % _w] = _hv(_w)

@R('vf_assume')
def r_assume(s, fr, b, st, i, a):
    st.pc = T.band(st.pc, a[0])
    if T.isc(st.pc) and st.pc.a[0] == 0: return None
    return (None, st)

@R('vf_fix64')
def r_fix(s, fr, b, st, i, a):
    # vf_assume(x == k), and x is replaced by k wherever the same value is computed again.  Called unconditionally by a root:
    # every obligation generated afterwards has x == k among its hypotheses
    x, k = a
    st.pc = T.band(st.pc, T.eq(x, k))
    if T.isc(st.pc) and st.pc.a[0] == 0: return None
    if not T.isc(x):
        T.FIXED.append(x)
        for key in [key for key, v in T._tab.items() if v is x]: T._tab[key] = k
    return (None, st)
@R('vf_assert')
def r_assert(s, fr, b, st, i, a):
    s.oblige(st, a[0], 'post', s.cstr(a[1])); return (None, st)

@R('vf_require')
def r_require(s, fr, b, st, i, a):
    s.oblige(st, a[0], 'pre', s.cstr(a[1])); return (None, st)

@R('vf_cover')
def r_cover(s, fr, b, st, i, a):
    s.covers.append((s.cstr(a[1]), T.band(st.pc, a[0]))); return (None, st)

@R('vf_exc_obj')
def r_excobj(s, fr, b, st, i, a): return (st.ghost['exc_obj'], st)
@R('vf_exc_kind')
def r_exckind(s, fr, b, st, i, a): return (st.ghost.get('exc_kind', T.const(0, 32)), st)
@R('vf_exc_code')
def r_exc(s, fr, b, st, i, a): return (st.ghost.get('exc_code', T.const(-1, 32)), st)

@R('__cxa_begin_catch')
def r_bc(s, fr, b, st, i, a): return (a[0], st)
@R('__cxa_end_catch', '__cxa_free_exception')
def r_ec(s, fr, b, st, i, a): return (None, st)
@R('__cxa_allocate_exception')
def r_ae(s, fr, b, st, i, a):
    o = s.newobj(a[0].a[0], 'exception'); st.mem[o.id] = o; st.own.add(o.id)
    return (T.const(s.base(o.id), 64), st)
@R('__cxa_throw')
def r_throw(s, fr, b, st, i, a):
    st.exc = a[0]
    st.ghost = dict(st.ghost); st.ghost['exc_obj'] = a[0]
    k = [n for n, v in s.exctypes() if v is a[1]]
    st.ghost['exc_kind'] = T.const({'@_ZTIN9ipaddress11parse_errorE': 1, '@_ZTIN9ipaddress11logic_errorE': 2, '@_ZTIN9ipaddress5errorE': 3}.get(k[0] if k else '', 0), 32)
    s.throw(fr, b, st, i)
    return None
@R('__cxa_rethrow')
def r_rethrow(s, fr, b, st, i, a):
    s.throw(fr, b, st, i)
    return None
@R('_ZSt9terminatev', 'abort')
def r_term(s, fr, b, st, i, a):
    s.oblige(st, T.FALSE, 'ub', 'std::terminate / abort reached'); return None
@R('_ZNSt12out_of_rangeC1EPKc', '_ZNSt11logic_errorC1EPKc', '_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorC2EPKc', '_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE')
def r_stdexc(s, fr, b, st, i, a):
    # a standard exception of the library's own: not an ipaddress error, so it has no code
    st.ghost = dict(st.ghost); st.ghost['exc_code'] = T.const(0xFFFFFFFE, 32); return (None, st)
@R('_ZNSt12out_of_rangeD1Ev', '_ZNSt11logic_errorD1Ev', '_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorD2Ev')
def r_stdexcd(s, fr, b, st, i, a): return (None, st)
@R('__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_')
def r_af(s, fr, b, st, i, a):
    s.oblige(st, T.FALSE, 'ub', 'assert() failed'); return None
@R('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE15_M_replace_coldEPcmPKcmm')
def r_cold(s, fr, b, st, i, a):
    s.oblige(st, T.FALSE, 'ub', 'std::string replaces with overlapping source: not modelled, must be unreachable'); return None
@R('_Znwm', '_Znam', 'malloc')
def r_new(s, fr, b, st, i, a):
    n = a[0]
    if not T.isc(n):
        N = n.hi
        cs = T.cset(n)
        if cs is not None: N = max(cs)
        if N > 4096:
            for N in (64, 160, 512, 4096):
                if s.feasible is not None and not s.feasible(T.band(st.pc, T.ult(T.const(N, n.w), n))): break
            else: raise Unsupported('operator new of symbolic size')
    else: N = n.a[0]
    o = s.newobj(N, 'heap'); st.mem[o.id] = o; st.own.add(o.id)
    return (T.const(s.base(o.id), 64), st)
@R('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free')
def r_del(s, fr, b, st, i, a): return (None, st)
@R('strlen')
def r_strlen(s, fr, b, st, i, a):
    p = a[0]; r = T.const(0, 64); alive = T.TRUE; k = 0
    rs = s.resolve(p)
    st0 = st
    while True:
        t = st.fork(alive)
        if T.isc(t.pc) and t.pc.a[0] == 0: break
        v = s.load(t, T.add(p, T.const(k, 64)), 1)
        z = T.eq(v, T.const(0, 8))
        r = T.ite(T.band(alive, T.bnot(z)), T.const(k + 1, 64), r)
        alive = T.band(alive, T.bnot(z)); k += 1
        if T.isc(alive) and alive.a[0] == 0: break
        if k > 4096: raise Unsupported('strlen')
    return (r, st)
@R('memcpy', 'memmove')
def r_memcpy(s, fr, b, st, i, a):
    if T.isc(a[2]): s.copy(st, a[0], a[1], a[2].a[0])
    else: s.symcopy(st, a[0], a[1], a[2])
    return (a[0], st)
@R('wmemcpy', 'wmemmove')
def r_wmemcpy(s, fr, b, st, i, a):
    if T.isc(a[2]): s.copy(st, a[0], a[1], 4 * a[2].a[0])
    else: s.symcopy(st, a[0], a[1], T.shl(a[2], T.const(2, 64)))
    return (a[0], st)
@R('memset')
def r_memset(s, fr, b, st, i, a):
    s.memset(st, a[0], T.extract(a[1], 7, 0), a[2]); return (a[0], st)

@R('vf_hint8', 'vf_hint64')
def r_hint(s, fr, b, st, i, a):
    # proof hint: returns the first argument, represented by the second one when the solver proves them equal
    if a[0] is a[1] or s.feasible is None: return (a[0], st)
    if not s.feasible(T.band(st.pc, T.ne(a[0], a[1]))): return (a[1], st)
    return (a[0], st)

@R('vf_param')
def r_param(s, fr, b, st, i, a): return (T.const(s.cfg['params'][a[0].a[0]], 64), st)

def _uninit(t): return t.op == 'v' and t.a[0].startswith('uninit!')
def _eqrel(ref, x):
    """equality of a byte with a reference byte that may be (conditionally) uninitialised: an uninitialised reference byte stands for any value"""
    t = ref
    while t.op in ('extract', 'zext') and not T.isc(t): t = t.a[0]
    if _uninit(t): return T.TRUE
    if ref.op == 'ite': return T.ite(ref.a[0], _eqrel(ref.a[1], x), _eqrel(ref.a[2], x))
    return T.eq(ref, x)
@R('vf_same_state')
def r_same(s, fr, b, st, i, a):
    # the object at a[0] is in the (reference) state of the object at a[1]
    n = a[2].a[0]; r = T.TRUE
    for k in range(n):
        x = s.load(st, T.add(a[0], T.const(k, 64)), 1); y = s.load(st, T.add(a[1], T.const(k, 64)), 1)
        r = T.band(r, _eqrel(y, x))
        if os.environ.get('VF_SAME') and T.isc(r) and not r.a[0]: print('differs at', k, T.show(x), T.show(y)); break
    return (r, st)

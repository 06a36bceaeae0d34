"""Loop summaries: one generic iteration stands for all of them.

`summarize` runs the body once for an arbitrary index j, finds the locations it changes, and infers
closed forms of their values at the start of iteration j:
  affine     v0 + j*d
  sum        v0 + sum_{i<j} d(i)
  push       v0 ++ [e(i) | i<j, P(i)]
  map write  the map with the entries the earlier iterations wrote
The closed forms are checked by running the body again with them (they must reproduce themselves for
j+1): that check is the inductive step, the initial value is the base. Anything else: None."""
import z3
import engine as E
from engine import *


loops_debug = 0
class Gen:
    """what runs inside stands for every value of the index j"""
    def __init__(self, ex, j): self.ex, self.j = ex, j
    def __enter__(self): self.ex.gen.append(self.j)
    def __exit__(self, *a): self.ex.gen.pop()


def isint_term(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ExprRef) and x.sort() == z3.IntSort())


def path_cond(pc0, pc):
    fs = []
    while pc is not pc0: fs.append(pc.f); pc = pc.up
    return And(*fs[::-1])


def mentions(t, ids):
    seen = set(); stack = [t]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in ids: return True
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(x): stack.append(x.body())
        else: stack += x.children()
    return False


def delta(y, x):
    """y - x, taken inside the choices of y"""
    y, x = zi(y), zi(x)
    if y.eq(x): return z3.IntVal(0)
    if z3.is_app_of(y, z3.Z3_OP_ITE): return Ite(y.arg(0), delta(y.arg(1), x), delta(y.arg(2), x))
    return z3.simplify(y - x)


def drop_mentions(t, ids):
    """a guess: conditions of choices without the conjuncts about ids (verified afterwards)"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c = And(*[x for x in conjuncts(t.arg(0)) if not mentions(x, ids)])
        return Ite(c, drop_mentions(t.arg(1), ids), drop_mentions(t.arg(2), ids))
    return t


def conjuncts(c):
    if isinstance(c, bool): return [] if c else [z3.BoolVal(False)]
    if z3.is_and(c): return [y for x in c.children() for y in conjuncts(x)]
    return [c]


def diff(ex, st, x, y, p=()):
    """[(path, x', y')] of the places where values differ; None: not comparable"""
    if x is y: return []
    if isinstance(x, Sym) and isinstance(y, Adt) and isinstance(x.ty, E.Ty) and not x.ty.is_enum:
        x = Adt(x.ty, 0, [ex.proj(st, x, ('f', i, None, x.ty)) for i in range(len(y.f))])
    if isinstance(x, Adt) and isinstance(y, Adt) and x.v == y.v and len(x.f) == len(y.f) and (x.ty is y.ty or str(x.ty) == str(y.ty)):
        r = []
        for i, (a, b) in enumerate(zip(x.f, y.f)):
            d = diff(ex, st, a, b, p + (('f', i, x.v if isinstance(x.ty, E.Ty) and x.ty.is_enum else None, x.ty),))
            if d is None: return None
            r += d
        return r
    if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y): return []
    if isinstance(x, Sym) and isinstance(y, Sym) and x.t.eq(y.t): return []
    if isint(x) and isint(y) and x == y: return []
    if isinstance(x, Ref) and isinstance(y, Ref) and x.c == y.c and len(x.p) == len(y.p): return [] if x.p == y.p else None
    return [(p, x, y)]


class Loc:
    """a changing location: key = ('m', cell, path) | ('s', namespace)"""
    def __init__(self, key, x): self.key = key; self.x = x; self.kind = None; self.d = None; self.arr = None; self.indep = None


def summarize(ex, st, n, j, body, exits=None, skip=()):
    """body(state) -> [(state, result)] or None. Returns (outs, conds) with outs the outcomes of the
    generic iteration from the closed forms; st is advanced to the state after n iterations.
    exits(result): this outcome leaves the loop (its changes do not carry over)"""
    from models import VSUM, filter_idx
    n = zi(n)
    locs = {}
    exits = exits or (lambda r: False)

    def enter(s, probe):
        for L in locs.values():
            v = value(L, s, j, probe)
            if L.key[0] == 'm': ex.store(s, L.key[1], L.key[2], v)
            else: s.store[L.key[1]] = v

    def value(L, s, i, probe):
        """value at the start of iteration i"""
        if probe and L.kind == 'probe': return L.X
        if L.kind == 'aff': return L.x + i * L.d if not (isint(L.x) and L.d == 0) else L.x
        if L.kind == 'sum':
            x = L.x
            if L.opt: x = ex.unsome(x)
            t = zi(x) + VSUM(L.arr, zi(i))
            return ex.some(t) if L.opt else t
        if L.kind in ('push', 'havoc'): return L.X
        if L.kind == 'map': return L.map.F(zi(i))
        if probe and L.kind == 'lastprobe': return L.X
        if L.kind == 'last':
            L.last.facts(s, zi(i))
            return L.last.at(zi(i))
        raise Unsupported('loop location')

    for attempt in range(7):
        s = st.fork(); s.add(z3.And(j >= 0, j < n))
        enter(s, True)
        pc0, mem0, store0, tags0 = s.pc, dict(s.mem), dict(s.store), s.tags
        with Gen(ex, j): cur = body(s)
        if cur is None: return None
        cont = [(s1, r) for s1, r in cur if not exits(r)]
        if not cont and not cur: cont = []
        changed = {}
        for s1, r in cont:
            if s1.tags != tags0: return None
            for q in s1.store:
                if q not in store0: st.store.setdefault(q, s1.store[q] if not z3.is_ast(s1.store[q]) else base_of(s1.store[q]))
                if q in GHOSTS: continue
                x, y = store0.get(q, st.store.get(q)), s1.store[q]
                if y is x or (z3.is_ast(x) and z3.is_ast(y) and y.eq(x)): continue
                changed.setdefault(('s', q), []).append((s1, r, x, y))
            for c, x in mem0.items():
                if c in skip: continue
                y = s1.mem.get(c, x)
                if y is x: continue
                d = diff(ex, s1, x, y)
                if d is None: return None
                for p, a, b in d: changed.setdefault(('m', c, p), []).append((s1, r, a, b))
        # prefix paths: the shorter one decides
        new = [k for k in changed if k not in locs]
        for k in new:
            if k[0] == 'm' and any(l[0] == 'm' and l[1] == k[1] and l != k and (l[2][:len(k[2])] == k[2] or k[2][:len(l[2])] == l[2]) for l in list(locs) + list(changed)): return None
            L = Loc(k, changed[k][0][2]); L.opt = False
            if k[0] == 's':
                if not z3.is_ast(L.x): return None
                x0 = st.store.get(k[1]); L.x = x0 if x0 is not None else L.x
                so = L.x.sort()
                if k[1] in ex.havoc: L.kind = 'havoc'; L.X = z3.FreshConst(so, 'havoc')     # nothing is claimed about it
                elif z3.is_array(L.x): L.kind = 'mapprobe'
                elif so == ex.opt(z3.IntSort()) and not some_none(ex, st, L.x):
                    L.kind = 'probe'; L.opt = True; L.X0 = z3.FreshConst(z3.IntSort(), 'loopx'); L.X = ex.some(L.X0)
                else: L.kind = 'lastprobe'; L.X0 = L.X = z3.FreshConst(so, 'loopy'); L.ty = None
            elif isint_term(L.x):
                ds = [zi(delta(b, a)) for _, _, a, b in changed[k]]
                if len(changed[k]) == len(cont) and all(z3.is_int_value(d) and d.eq(ds[0]) for d in ds): L.kind = 'aff'; L.d = ds[0].as_long()
                else: L.kind = 'probe'; L.X0 = L.X = z3.FreshConst(z3.IntSort(), 'loopx')
            elif isinstance(L.x, VecV) or (isinstance(L.x, Sym) and ex.cls(L.x.ty) == 'vec'):
                x = L.x if isinstance(L.x, VecV) else None
                if x is None:
                    if isint(ex.vlen(L.x.t)) and ex.vlen(L.x.t) == 0: x = VecV((), ex.elty(L.x.ty))
                    else: x = VecV((__import__('models').vec_as_seg(ex, L.x),), ex.elty(L.x.ty))
                ety = next((b.ety for _, _, a, b in changed[k] if isinstance(b, VecV) and isinstance(b.ety, E.Ty)), x.ety)
                L.kind = 'push'; L.x = x; L.base = x; L.closed = False
                if not isinstance(ety, E.Ty): return None
                ln = ex.fresh('looplen', z3.IntSort()); jj = ex.freshc('j', z3.IntSort()); arr = ex.fresh('looparr', z3.ArraySort(z3.IntSort(), ex.sort(ety)))
                L.ln = ln; L.arr = arr; L.ety = ety
                L.X = VecV(x.e + (Seg(ln, jj, ex.wrap(ety, z3.Select(arr, jj))),), ety, x.cap)
            else:
                L.ty = getattr(L.x, 'ty', None) if isinstance(L.x, (Adt, Sym)) else None
                t = term_of(ex, st, L.x, L.ty)
                if t is None: return None
                L.kind = 'lastprobe'; L.X0 = z3.FreshConst(t.sort(), 'loopy'); L.X = ex.wrap(L.ty, L.X0) if L.ty is not None else L.X0
            locs[k] = L
        if loops_debug: print("ROUND", attempt, new, [(k, L.kind, L.d) for k, L in locs.items()], [[(str(a), str(b)) for _, _, a, b in v] for v in changed.values()])
        again = bool(new)
        for k, L in locs.items():
            if k in new and L.kind != 'mapprobe': continue
            ch = {id(s1): (a, b) for s1, _, a, b in changed.get(k, [])}
            if L.kind == 'mapprobe':
                L.map = MapLoc(ex, L); L.kind = 'map'; again = True; continue
            if L.kind == 'push' and not L.closed:
                # what happens depends on what was pushed so far, and every iteration pushes one element: j elements by now
                ids = {L.ln.get_id(), L.arr.get_id()}
                if not cont or not any(mentions(zb(path_cond(pc0, s1.pc)), ids) for s1, r in cur): continue
                es = []
                for s1, r in cont:
                    b = ch.get(id(s1), (None, None))[1]; k0 = len(L.X.e)
                    if not (isinstance(b, VecV) and len(b.e) == k0 + 1 and all(u is w for u, w in zip(b.e, L.X.e)) and not isinstance(b.e[-1], Seg)): es = None; break
                    es.append(term_of(ex, s1, __import__('models').freeze(ex, s1, b.e[-1]), L.ety))
                if es is None or any(e is None or not e.eq(es[0]) or mentions(e, ids) for e in es): continue
                j2 = ex.freshc('j', z3.IntSort()); L.closed = True; again = True
                L.X = VecV(L.base.e + (Seg(j, j2, ex.wrap(L.ety, z3.substitute(es[0], (j, j2)))),), L.ety, L.base.cap)
                continue
            if L.kind == 'lastprobe':
                bad = {M.X0.get_id() for M in locs.values() if M.kind in ('probe', 'lastprobe')}
                ws = []
                for s1, r in cont:
                    a, b = ch.get(id(s1), (None, None))
                    if a is None: continue
                    t = term_of(ex, s1, b, L.ty)
                    if t is None: return None
                    if t.eq(L.X0): continue
                    ws.append((And(*[x for x in conjuncts(path_cond(pc0, s1.pc))]), t))
                if not ws: return None
                L.indep = None
                if z3.is_bool(L.X0) and any(mentions(x, {L.X0.get_id()}) for w in ws for x in w if z3.is_ast(x)):
                    # overwritten by way of a test of itself: by the same value in either case?
                    t = L.X0
                    for c, v in ws: t = z3.If(zb(c), v, t)
                    a, b = (z3.simplify(z3.substitute(t, (L.X0, z3.BoolVal(z)))) for z in (True, False))
                    if not a.eq(b):
                        q = st.fork(); q.add(z3.And(j >= 0, j < n)); q.add(a != b)
                        q.add(z3.substitute(zb(Or(*[path_cond(pc0, s1.pc) for s1, r in cont])), (L.X0, z3.BoolVal(False))))
                        if ex.feasible(q): return None
                    ws = [(True, a)]; L.indep = a
                if any(mentions(x, bad) for w in ws for x in w if z3.is_ast(x)): return None
                if L.indep is not None:
                    L.last = LastLoc(ex, L, term_of(ex, st, L.x, L.ty), j, ws, True); L.kind = 'last'; again = True; continue
                L.last = LastLoc(ex, L, term_of(ex, st, L.x, L.ty), j, ws, len(ws) == len(cont)); L.kind = 'last'; again = True; continue
            if L.kind == 'probe':
                ids = {L.X0.get_id()}
                bs = [ch[id(s1)][1] for s1, r in cont if id(s1) in ch]
                if not L.opt and L.key[0] == 'm' and bs and not any(mentions(zi(b), ids) for b in bs):
                    L.kind = 'lastprobe'; L.ty = None; again = True; continue
                cs = []
                for s1, r in cont:
                    a, b = ch.get(id(s1), (None, None))
                    if a is None: d = z3.IntVal(0)
                    else:
                        if L.opt:
                            if ex.is_some(b) is not True: return None
                            d = zi(delta(ex.unsome(b), L.X0))
                        else: d = zi(delta(b, L.X0))
                    d = zi(drop_mentions(d, ids))
                    if mentions(d, ids):
                        if loops_debug: print("DD", z3.simplify(d))
                        return None
                    c = [x for x in conjuncts(path_cond(pc0, s1.pc)) if not mentions(x, ids)]
                    cs.append((And(*c), d))
                t = None
                for i, (c, d) in enumerate(cs):
                    for c2, d2 in cs[:i]:
                        if d.eq(d2): continue
                        q = st.fork(); q.add(z3.And(j >= 0, j < n)); q.add(And(c, c2, d != d2))
                        if ex.feasible(q): return None
                for c, d in reversed(cs): t = d if t is None else Ite(c, d, t)
                if t is None: t = z3.IntVal(0)
                bad = set()
                for M in locs.values():
                    if M.kind == 'probe' and M is not L: bad.add(M.X0.get_id())
                if bad and mentions(t, bad): return None
                if z3.is_app_of(t, z3.Z3_OP_SELECT) and t.arg(1).eq(j) and not mentions(t.arg(0), {j.get_id()}): L.arr = t.arg(0)
                else: L.arr = z3.Lambda([j], t)
                L.dt = t; L.kind = 'sum'; again = True
        if again: continue
        # inductive step: the closed forms reproduce themselves
        for k, L in locs.items():
            ch = {id(s1): (a, b) for s1, _, a, b in changed.get(k, [])}
            if L.kind == 'map' and not L.map.shape(j, cont, ch, pc0): return None
            if L.kind == 'last' and L.indep is not None:
                for s1, r in cont:
                    a, b = ch.get(id(s1), (None, None))
                    b = term_of(ex, s1, b, L.ty) if a is not None else term_of(ex, s1, L.last.at(j), L.ty)
                    if ex.feasible(s1, b != L.indep): return None
                continue
            if L.kind == 'last':
                ws = []
                for s1, r in cont:
                    a, b = ch.get(id(s1), (None, None))
                    if a is None: continue
                    t = term_of(ex, s1, b, L.ty)
                    if t is None: return None
                    if t.eq(term_of(ex, s1, a, L.ty)): continue
                    ws.append((path_cond(pc0, s1.pc), t))
                L.last.ws = ws; L.last.total = len(ws) == len(cont)
                if not ws: return None
                me = {L.last.w.get_id()}
                continue
            for s1, r in cont:
                a, b = ch.get(id(s1), (None, None))
                if L.kind == 'aff':
                    if a is None:
                        if L.d != 0 and ex.feasible(s1): return None
                        continue
                    if ex.simp(zi(b) == zi(L.x + (j + 1) * L.d)) is not True: return None
                elif L.kind == 'sum':
                    if a is None: d = z3.IntVal(0)
                    elif L.opt: d = zi(delta(ex.unsome(b), ex.unsome(a)))
                    else: d = zi(delta(b, a))
                    g = z3.simplify(d == L.dt)
                    if not z3.is_true(g) and ex.feasible(s1, z3.Not(g)):
                        if loops_debug: print("D", g, path_cond(pc0, s1.pc))
                        return None
        break
    else: return None
    st0 = st.fork()
    # the state after the loop
    conds = lambda s1: path_cond(pc0, s1.pc)
    def push_at(L, s, i): return L.tmpl(s, i)
    for k, L in locs.items():
        if L.kind == 'push':
            ch = {id(s1): (a, b) for s1, _, a, b in changed.get(k, [])}
            P = False; vals = []
            ids = {x.get_id() for x in (L.ln,)}
            for s1, r in cont:
                a, b = ch.get(id(s1), (None, None))
                if a is None: continue
                k0 = len(L.X.e)
                if not (isinstance(b, VecV) and len(b.e) == k0 + 1 and all(u is w for u, w in zip(b.e, L.X.e))): return None
                e = b.e[-1]
                if isinstance(e, Seg):      # a row of elements each time
                    if len(cont) != 1 or e.cond is not True or isinstance(e.n, z3.ExprRef) and mentions(e.n, {L.ln.get_id()}): return None
                else: e = __import__('models').freeze(ex, s1, e)
                P = Or(P, conds(s1)); vals.append((conds(s1), e))
            if not vals: return None
            if len(vals) == 1: val = vals[0][1]
            else:
                val = ex.mval([c for c, _ in vals], [v for _, v in vals])
            if isinstance(P, z3.ExprRef) and mentions(P, ids): return None
            always = not (cont and len(vals) < len(cont))
            if L.closed and not (always and all(term_of(ex, st, v, L.ety).eq(term_of(ex, st, vals[0][1], L.ety)) for _, v in vals)): return None
            def tmpl(s, i, L=L, always=always, P=P, val=val):
                if isinstance(val, Seg):
                    return VecV(L.base.e + __import__('models').flat_grid(ex, s, zi(i), j, val).a[0].e, L.ety, L.base.cap)
                if always: m, idx = zi(i), None
                else: m, idx = filter_idx(ex, s, i, j, P)
                j2 = ex.freshc('j', z3.IntSort())
                return VecV(L.base.e + (Seg(m, j2, ex.subst(val, j, j2 if idx is None else idx(j2))),), L.ety, L.base.cap)
            L.tmpl = tmpl
            ex.store(st, k[1], k[2], tmpl(st, n))
        elif L.kind == 'map':
            st.store[k[1]] = L.map.final(st, n)
        elif L.kind == 'havoc': st.store[k[1]] = z3.FreshConst(L.X.sort(), 'havoc')
        else:
            v = value(L, st, n, False)
            if k[0] == 'm': ex.store(st, k[1], k[2], v)
            else: st.store[k[1]] = v
    def exit_at(s1, i):
        """the state in which iteration i left the loop by way of outcome s1"""
        s = st0.fork(); s.add(z3.And(i >= 0, i < n)); s.add(z3.substitute(zb(conds(s1)), (j, i)))
        for k, L in locs.items():
            if L.kind == 'push':
                v = value(L, s, i, False)
                y = ex.load(s1, k[1], k[2])
                p = push_at(L, s, i)
                if y is not L.X:        # elements pushed before leaving come last
                    k0 = len(L.X.e)
                    if not (isinstance(y, VecV) and all(u is w for u, w in zip(y.e, L.X.e)) and len(y.e) > k0): raise Unsupported('push on leaving a loop')
                    p = VecV(p.e + tuple(__import__('mloops').substv(ex, u, j, i) for u in y.e[k0:]), L.ety, L.base.cap)
                ex.store(s, k[1], k[2], p); continue
            y = ex.load(s1, k[1], k[2]) if k[0] == 'm' else s1.store[k[1]]
            if L.kind == 'map': L.map.facts(s, i)
            y = ex.subst(y, j, i) if not isinstance(y, (bool, int)) else y
            if k[0] == 'm': ex.store(s, k[1], k[2], y)
            else: s.store[k[1]] = y
        for q, y in s1.store.items():
            if ('s', q) not in locs and q not in s.store: s.store[q] = y
        return s
    return cur, conds, cont, exit_at


def base_of(t):
    """the map below the updates"""
    while z3.is_app_of(t, z3.Z3_OP_STORE) or z3.is_app_of(t, z3.Z3_OP_ITE):
        t = t.arg(0) if z3.is_app_of(t, z3.Z3_OP_STORE) else t.arg(2)
    return t


def some_none(ex, st, x):
    if ex.is_none(x) is False: return False
    t = st.fork(); t.add(ex.is_none(x)); return ex.feasible(t)


def term_of(ex, st, x, ty):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, z3.ExprRef): return x
    if isinstance(x, Sym): return x.t
    if isinstance(x, Adt) and isinstance(x.ty, E.Ty):
        try: return ex.term(x, x.ty, st)
        except Unsupported: return None
    return None


class LastLoc:
    """summary of a location that iterations overwrite with something that does not depend on it"""
    def __init__(self, ex, L, x0, j, ws, total):
        self.ex, self.L, self.x0, self.j, self.ws, self.total = ex, L, x0, j, ws, total
        self.w = ex.fresh('lastw', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    def inst(self, t, i): return z3.substitute(zb(t) if isinstance(t, bool) else t, (self.j, i))
    def wrote(self, i): return z3.BoolVal(True) if self.total else self.inst(zb(Or(*[c for c, _ in self.ws])), i)
    def at(self, i):
        w = z3.Select(self.w, i); t = None
        for c, v in reversed(self.ws): t = v if t is None else Ite(c, v, t)
        r = z3.If(w >= 0, self.inst(t, w), self.x0)
        return self.ex.wrap(self.L.ty, r) if self.L.ty is not None else r
    def facts(self, s, i):
        w = z3.Select(self.w, i); q = z3.FreshConst(z3.IntSort(), 'lq')
        s.add(z3.And(w >= -1, w < i, z3.Implies(w >= 0, self.wrote(w))))
        if self.total: s.add(z3.Implies(i > 0, w == i - 1)); return
        s.addlazy(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i, self.wrote(q)), w >= q)))


class MapLoc:
    """summary of (at most) one keyed write per iteration"""
    def __init__(self, ex, L):
        self.m0 = L.x; self.ex = ex
        I = z3.IntSort(); self.ks = L.x.sort().domain()
        self.F = ex.freshfn('loopmap', I, L.x.sort()); ex.loopmaps[self.F(z3.IntVal(0)).decl().name()] = self; self.wf = ex.freshfn('lastw', I, self.ks, I)

    def shape(self, j, cont, ch, pc0):
        ws = []
        for s1, r in cont:
            a, b = ch.get(id(s1), (None, None))
            if a is None: continue
            if not (z3.is_app_of(b, z3.Z3_OP_STORE) and b.arg(0).eq(a)): return False
            ws.append((path_cond(pc0, s1.pc), b.arg(1), b.arg(2)))
        if not ws or any(not w[1].eq(ws[0][1]) for w in ws): return False
        self.ws = ws; self.keyt = ws[0][1]; self.total = len(ws) == len(cont); self.j = j
        if mentions(self.keyt, {self.F(j).get_id()}): return False
        return True

    def at(self, t, i): return z3.substitute(zb(t), (self.j, i))
    def val(self, i):
        t = None
        for c, k, v in reversed(self.ws): t = v if t is None else Ite(c, v, t)
        return self.at(t, i)
    def wrote(self, i):
        return z3.BoolVal(True) if self.total else self.at(Or(*[c for c, _, _ in self.ws]), i)
    def entry(self, i, k):
        """the entry under k at the start of iteration i: the initial one, or what the last of the earlier iterations wrote"""
        w = self.wf(i, k); M = self.F(i)
        return z3.Or(z3.And(w == -1, z3.Select(M, k) == z3.Select(self.m0, k)),
                     z3.And(w >= 0, w < i, self.at(self.keyt, w) == k, self.wrote(w), z3.Select(M, k) == self.val(w)))
    def facts(self, s, i):
        I = z3.IntSort(); k = z3.FreshConst(self.ks, 'lk'); q = z3.FreshConst(I, 'lq')
        s.addlazy(z3.ForAll([k], self.entry(i, k), patterns=[z3.Select(self.F(i), k)]))
        s.addlazy(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i, self.wrote(q)), self.wf(i, self.at(self.keyt, q)) >= q)))
    def final(self, s, n):
        self.facts(s, n); j = z3.FreshConst(z3.IntSort(), 'lj')
        s.addlazy(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), self.entry(j, self.at(self.keyt, j)))))
        return self.F(n)

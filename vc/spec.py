"""Specification layer: contracts (pre/postconditions, invariants) over entry
points of the real contracts, and the obligations they generate."""
import z3, sys, os, time, json, re, signal, pickle, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as E
from engine import *

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Lost(Exception):
    """a contract's anchor (function, type, storage key) is not in the source any more"""


def B(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def I(x): return z3.IntVal(x) if isinstance(x, int) else x


class V:
    """typed term"""
    __slots__ = ('ex', 'ty', 't')
    def __init__(self, ex, ty, t):
        object.__setattr__(self, 'ex', ex); object.__setattr__(self, 'ty', ty); object.__setattr__(self, 't', t)
    def __repr__(self): return f'V<{self.ty.s}>({self.t})'
    def __hash__(self): return self.t.get_id()
    def __eq__(self, o): return self.t == raw(o)
    def __ne__(self, o): return self.t != raw(o)

    # structs -------------------------------------------------------------
    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        return self.fld(n)
    def __getitem__(self, i): return self.fld(str(i))
    def fld(self, n):
        ex, ty = self.ex, self.ty
        while ty.k in ('ref', 'ptr') or (ty.k == 'adt' and ex.cls(ty) == 'ref'):
            ty = ty.args[0] if ty.k == 'adt' else ty.e
        fs = ty.fields()
        for i, (fnm, ft) in enumerate(fs):
            if fnm == n:
                c = ex.cls(ty)
                if c == 'flat':
                    if ex.flat(ty)[0] == i: return mk(ex, ft, self.t)
                    raise Lost(f'unit field {n} of {ty}')
                return mk(ex, ft, ex.acc(self.t, 0, i))
        raise Lost(f'{ty} has no field {n}')

    # enums ---------------------------------------------------------------
    def vi(self, name):
        ty = ex_strip(self.ex, self.ty)
        for i, v in enumerate(ty.variants):
            if v['n'] == name: return ty, i
        raise Lost(f'{ty} has no variant {name}')
    def is_(self, *names):
        return B(Or(*[self.ex.isvar(self.t, self.vi(n)[1]) for n in names]))
    def as_(self, name):
        ty, i = self.vi(name)
        return Fields(self.ex, ty, i, self.t)

    # options ---------------------------------------------------------------
    @property
    def isnone(self): return B(self.ex.is_none(self.t))
    @property
    def issome(self): return B(self.ex.is_some(self.t))
    @property
    def some(self): return mk(self.ex, self.ty.args[0], self.ex.unsome(self.t))
    def somep(self, f):
        """Some(x) and f(x)"""
        return z3.And(self.issome, f(self.some))
    def nonep(self, f):
        """None or f(x)"""
        return z3.Or(self.isnone, f(self.some))

    # vectors ---------------------------------------------------------------
    @property
    def n(self):
        return I(self.ex.vlen(self.t))
    @property
    def ety(self):
        ty = ex_strip(self.ex, self.ty)
        return ty.args[0] if ty.k == 'adt' else ty.e
    def at(self, i):
        return mk(self.ex, self.ety, self.ex.vat(self.t, i))
    def get(self, k):
        """entry of a HashMap / BTreeMap"""
        ty = ex_strip(self.ex, self.ty)
        return OptV(self.ex, ty.args[1], z3.Select(self.t, raw(k)))
    def all(self, f, name='qi'):
        j = z3.FreshConst(z3.IntSort(), name)
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), f(self.at(j), j)))
    def any(self, f, name='qe'):
        j = z3.FreshConst(z3.IntSort(), name)
        return z3.Exists([j], z3.And(j >= 0, j < self.n, f(self.at(j), j)))


class Fields:
    def __init__(self, ex, ty, v, t): self._ = (ex, ty, v, t)
    def __getattr__(self, n):
        ex, ty, v, t = self._
        for i, (fnm, ft) in enumerate(ty.fields(v)):
            if fnm == n: return mk(ex, ft, ex.acc(t, v, i))
        raise Lost(f'{ty}::{ty.variants[v]["n"]} has no field {n}')
    def __getitem__(self, i): return self.__getattr__(str(i))


def ex_strip(ex, ty):
    while True:
        if ty.k in ('ref', 'ptr'): ty = ty.e
        elif ty.k == 'adt' and ex.cls(ty) == 'ref': ty = ty.args[0]
        elif ty.k == 'adt' and ex.cls(ty) == 'flat': ty = ex.flat(ty)[1]
        else: return ty


def mk(ex, ty, t):
    """proxy; scalars (int, bool, string) become plain z3 terms"""
    c = ex.cls(ty)
    sty = ex_strip(ex, ty)
    c = ex.cls(sty)
    if c in ('int', 'bint', 'bool', 'str'):
        if not has_var(t): ex.wrap(sty, t)
        return t
    if c == 'vec' and not has_var(t): ex.wrap(sty, t)
    return V(ex, sty if c != 'adt' or sty.name == 'core::option::Option' else sty, t)


def has_var(t):
    return False


def raw(x):
    if isinstance(x, V): return x.t
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x


class Out:
    """one path through an entry point: final state and returned value"""
    def __init__(self, run, st, val, i):
        self.run = run; self.c = run.c; self.st = st; self.val = val; self.i = i
        self.ok = not (isinstance(val, Adt) and isinstance(val.ty, E.Ty) and val.ty.name == 'core::result::Result' and val.v == 1)
        self.isres = isinstance(val, Adt) and isinstance(val.ty, E.Ty) and val.ty.name == 'core::result::Result'
        self.name = f'{run.name}#{i}'
        self._m = None

    def pcs(self):
        r = []; p = self.st.pc
        while p: r.append((p.f, p.lazy)); p = p.up
        r.reverse(); return r

    # storage ---------------------------------------------------------------
    def post_t(self, ns):
        t = self.st.store.get(ns)
        return t if t is not None else self.c.pre_t(ns)
    def post(self, ns, k=None):
        K, T = self.c.nsty(ns)
        t = self.post_t(ns)
        if k is not None: t = self.c.ex.models.sel(self.c.ex, t, raw(k))
        return OptV(self.c.ex, T, t)
    def pre(self, ns, k=None): return self.c.pre(ns, k)
    def unchanged(self, ns):
        t = self.st.store.get(ns)
        if t is None: return TRUE
        p = self.c.pre_t(ns)
        return B(t.eq(p)) if t.eq(p) else t == p
    def written(self):
        return [n for n, t in self.st.store.items() if not isinstance(n, tuple) and not t.eq(self.c.pre_t(n))]

    # result ----------------------------------------------------------------
    @property
    def value(self):
        return self.val.f[0]
    def v(self, ty=None):
        """Ok value as a proxy"""
        ty = ty or self.val.ty.args[0]
        return mk(self.c.ex, ty, self.c.ex.term(self.val.f[0], ty, self.st))
    def json(self, ty):
        """the answer of a query, as a value of ty"""
        r = self.val.ty.args[0]
        return self.c.decode(self.c.ex.term(self.val.f[0], r, self.st), ty)
    def delta(self, ns, f):
        """sum over all keys of f(post value) - f(pre value); f maps an OptV to an Int term.
        Exact: the final map is the initial one with finitely many updates"""
        ex = self.c.ex; K, T = self.c.nsty(ns); p = self.c.pre_t(ns); cache = {}
        def go(t):
            if t.eq(p): return z3.IntVal(0)
            r = cache.get(t.get_id())
            if r is not None: return r
            k = t.decl().kind()
            if k == z3.Z3_OP_STORE:
                a, i, v = t.children()
                r = go(a) + f(OptV(ex, T, v)) - f(OptV(ex, T, ex.models.sel(ex, a, i)))
            elif k == z3.Z3_OP_ITE:
                c, a, b = t.children(); r = z3.If(c, go(a), go(b))
            elif t.decl().name() in ex.loopmaps:
                from models import VSUM
                ml = ex.loopmaps[t.decl().name()]; i = t.arg(t.num_args() - 1); j = z3.FreshConst(z3.IntSort(), 'dj')
                m, key = ml.F(j), ml.at(ml.keyt, j)
                d = z3.If(ml.wrote(j), f(OptV(ex, T, ml.val(j))) - f(OptV(ex, T, z3.Select(m, key))), 0)
                s = VSUM(z3.Lambda([j], d), i)
                inr = z3.And(j >= 0, j < i)
                for k in (-1, 0, 1): self.st.addlazy(z3.Implies(z3.ForAll([j], z3.Implies(inr, d == k)), s == k * i))
                r = go(ml.m0) + s
            else: raise Lost(f'{ns}: not a finite update')
            cache[t.get_id()] = r
            return r
        return go(self.post_t(ns))
    def lastwriters(self, ns):
        """facts: the last iteration (of the loops that updated ns) to write an entry is no earlier than any that did"""
        r = []; I = z3.IntSort(); st = [self.post_t(ns)]; seen = set()
        while st:
            t = st.pop()
            if t.get_id() in seen or not z3.is_app(t): continue
            seen.add(t.get_id()); st += t.children()
            ml = self.c.ex.loopmaps.get(t.decl().name())
            if ml is None: continue
            st.append(ml.m0)
            i, q = z3.FreshConst(I, 'wi'), z3.FreshConst(I, 'wq'); n = t.arg(t.num_args() - 1)
            kq = ml.at(ml.keyt, q)
            r.append(z3.ForAll([i, q], z3.Implies(z3.And(q >= 0, q < i, i < n, ml.wrote(q)), ml.wf(i, kq) >= q)))
        return r
    def cases(self, *nss):
        """this path, split on the conditions under which merged updates of these keys differ"""
        work = [(self.st, [], [])]; done = []
        while work:
            st, n, sub = work.pop()
            cond = None
            for ns in nss:
                t = st.store.get(ns)
                if t is not None and t.decl().kind() == z3.Z3_OP_ITE: cond = t.arg(0); break
            if cond is None or len(n) > 6: done.append((st, n, sub)); continue
            for b in (True, False):
                s2 = st.fork(); s2.add(cond if b else z3.Not(cond))
                for k, t in list(s2.store.items()):
                    while z3.is_ast(t) and t.decl().kind() == z3.Z3_OP_ITE and t.arg(0).eq(cond): t = t.arg(1 if b else 2)
                    s2.store[k] = t
                work.append((s2, n + [b], sub + [(cond, z3.BoolVal(b))]))
        if len(done) == 1: return [self]
        r = []
        for st, n, sub in reversed(done):
            o = Out(self.run, st, self.val, self.i); o._sub = sub; o.name = self.name + '/' + ''.join('TF'[not b] for b in n); r.append(o)
        return r
    def touched(self, ns):
        """keys the call may have written"""
        ks = {}; seen = set(); st = [self.post_t(ns)]
        while st:
            t = st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if t.decl().kind() == z3.Z3_OP_STORE:
                ks[t.arg(1).get_id()] = t.arg(1); st.append(t.arg(0))
            elif t.decl().kind() == z3.Z3_OP_ITE: st += [t.arg(1), t.arg(2)]
        return list(ks.values())
    def hist(self, ns):
        """snapshot writes (key, height, value) of this call"""
        return self.st.store.get(('hist', ns), ())
    def recorded(self, ns):
        """every change of ns was written into its history at this block, as is"""
        h = self.hist(ns)
        cs = [zi(x[1]) == self.c.height for x in h]
        ks = self.touched(ns) if self.c.nsty(ns)[0] is not None else []
        for k in ks: cs.append(z3.Or(raw(self.post(ns, k)) == raw(self.c.pre(ns, k)), *[x[0] == k for x in h]))
        if self.c.nsty(ns)[0] is None and not h: cs.append(self.unchanged(ns))
        return z3.And(*cs) if cs else TRUE
    def filtered(self, post, pre, keep):
        """vector post lists exactly the elements of vector pre that satisfy keep, in order"""
        alts = []
        j = z3.FreshConst(z3.IntSort(), 'fj')
        for n, at, m, idx in self.st.store.get(('filters',), ()):
            alts.append(z3.And(pre.n == n, post.n == m, post.all(lambda x, i: raw(x) == raw(pre.at(idx(i)))),
                               z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), B(at(j)) == B(keep(pre.at(j)))))))
        alts.append(z3.And(post.n == pre.n, post.all(lambda x, i: raw(x) == raw(pre.at(i))), pre.all(lambda x, i: keep(x))))
        alts.append(z3.And(post.n == 0, pre.all(lambda x, i: z3.Not(keep(x)))))
        return z3.Or(*alts)
    def kept(self, m, pre, keep, f):
        """the (symbolic list of) messages m stand, in order, for the elements of vector pre that satisfy keep: f(element)"""
        j = z3.FreshConst(z3.IntSort(), 'fj'); alts = []
        g = lambda i: z3.Implies(z3.And(m.j >= 0, m.j < m.n), B(f(pre.at(i))))
        fs = self.st.store.get(('filters',), ()); one = [x for x in fs if x[2].eq(m.n)]
        for n, at, k, idx in one or fs:
            alts.append(z3.And(pre.n == n, m.n == k, g(idx(m.j)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), B(at(j)) == B(keep(pre.at(j)))))))
        if len(one) == 1: return alts[0]
        alts.append(z3.And(m.n == pre.n, g(m.j), pre.all(lambda x, i: keep(x))))
        return z3.Or(*alts)
    def distinct(self, count, vec):
        """count is the number of different elements of vec"""
        I = z3.IntSort(); i, j = z3.FreshConst(I, 'di'), z3.FreshConst(I, 'dj'); alts = []
        for m, el in self.st.store.get(('sets',), ()):
            alts.append(z3.And(raw(count) == m, z3.Implies(z3.And(0 <= i, i < j, j < m), el(i) != el(j)),
                               z3.Implies(z3.And(i >= 0, i < m), vec.any(lambda x, k: raw(x) == el(i))),
                               vec.all(lambda x, k: z3.Exists([j], z3.And(j >= 0, j < m, el(j) == raw(x))))))
        return z3.Or(*alts) if alts else FALSE
    def each(self, vec, f):
        """f holds of every element of vec (of the list of its different elements, where the code made one). Goal over free constants"""
        I = z3.IntSort(); i, j = z3.FreshConst(I, 'ei'), z3.FreshConst(I, 'ej')
        alts = [z3.And(z3.Implies(z3.And(i >= 0, i < m), B(f(el(i)))), z3.Implies(z3.And(j >= 0, j < vec.n), z3.Exists([i], z3.And(i >= 0, i < m, el(i) == raw(vec.at(j))))))
                for m, el in self.st.store.get(('sets',), ())]
        return alts[0] if len(alts) == 1 else z3.Or(*alts, z3.Implies(z3.And(i >= 0, i < vec.n), B(f(vec.at(i)))))
    def grid(self, m, rows, cols, f):
        """the messages m are one for each pair (row, column), in order: f(row, column). Goal over free constants"""
        alts = []; r, q = z3.FreshConst(z3.IntSort(), 'gr'), z3.FreshConst(z3.IntSort(), 'gc')
        for N, row, col, at in self.st.store.get(('grids',), ()):
            alts.append(z3.And(m.n == N, z3.Implies(z3.And(m.j >= 0, m.j < N), z3.And(row(m.j) >= 0, row(m.j) < rows, col(m.j) >= 0, col(m.j) < cols, B(f(row(m.j), col(m.j))))),
                               z3.Implies(z3.And(r >= 0, r < rows, q >= 0, q < cols), z3.And(at(r, q) >= 0, at(r, q) < N, row(at(r, q)) == r, col(at(r, q)) == q))))
        return z3.Or(*alts) if alts else FALSE
    def sum_is(self, term, vec, f):
        """term is the sum of f over the elements of vec"""
        from models import VSUM
        # a goal: "for every j" is left to the free constants j
        alts = []; seen = set(); st = [raw(term)]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().eq(VSUM):
                j = z3.FreshConst(z3.IntSort(), 'sj')
                alts.append(z3.And(raw(term) == x, x.arg(1) == vec.n, z3.Implies(z3.And(j >= 0, j < vec.n), z3.simplify(z3.Select(x.arg(0), j)) == f(vec.at(j)))))
            if z3.is_app(x): st += x.children()
        alts.append(z3.And(raw(term) == 0, vec.all(lambda x, i: f(x) == 0)))
        return z3.Or(*alts)
    def sum_positive(self, vec, f):
        """the sum of f (>= 0) over the elements of vec is not 0: a sum the code took which is one over exactly these, or an element that shows it"""
        from models import VSUM
        alts = []; seen = set(); st = []; p = self.st.pc
        while p is not None:
            st.append(p.f); p = p.up
        while st:
            x = st.pop()
            if isinstance(x, bool) or x is None or x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().eq(VSUM):
                j = z3.FreshConst(z3.IntSort(), 'sj')
                alts.append(z3.And(x != 0, x.arg(1) == vec.n, z3.Implies(z3.And(j >= 0, j < vec.n), z3.simplify(z3.Select(x.arg(0), j)) == f(vec.at(j)))))
            if z3.is_app(x): st += x.children()
        alts.append(vec.any(lambda x, i: f(x) > 0))
        return z3.Or(*alts)
    def skolem(self, ns, name='k'):
        return z3.FreshConst(self.post_t(ns).sort().domain(), name)
    def err_is(self, name):
        e = self.val.f[0]
        t = self.c.ex.term(e, self.val.ty.args[1], self.st)
        return V(self.c.ex, self.val.ty.args[1], t).is_(name)

    def msgs(self):
        """messages of the response: list of Msg"""
        if self._m is not None: return self._m
        ex = self.c.ex
        resp = self.value
        if isinstance(resp, Sym): raise Lost('opaque response')
        for (n, ft), x in zip(resp.ty.fields(), resp.f):
            if n == 'messages': ms = x; mty = ft
            if n == 'data': self.data = mk(ex, ft, ex.term(x, ft, self.st))
        ms = ex.deref(self.st, ms)
        r = []
        smty = mty.args[0]
        sub = getattr(self, '_sub', None)
        case = (lambda t: z3.simplify(z3.substitute(t, *sub)) if isinstance(t, z3.ExprRef) else t) if sub else lambda t: t
        if isinstance(ms, Sym):
            j = z3.FreshConst(z3.IntSort(), 'mj')
            r.append(Msg(self, smty, z3.Select(ex.acc(ms.t, 0, 1), j), j, I(ex.vlen(ms.t))))
        else:
            for x in ms.e:
                if isinstance(x, Seg):
                    if x.cond is not True: raise Lost('conditional segment of messages')
                    j = z3.FreshConst(z3.IntSort(), 'mj')
                    t = z3.substitute(ex.term(x.val, ms.ety, self.st), (x.j, j))
                    r.append(Msg(self, smty, case(t), j, I(case(x.n))))
                else: r.append(Msg(self, smty, case(ex.term(x, ms.ety, self.st)), None, None))
        self._m = r
        return r

    def calls(self):
        """the recorded calls: (term, index, how many) of each symbolic list, (term, None, None) of a single one"""
        ex = self.c.ex; v = ex.load(self.st, ex.callcell.c, ex.callcell.p); r = []
        for x in v.e:
            if isinstance(x, Seg):
                if x.cond is not True: raise Lost('conditional segment of calls')
                j = z3.FreshConst(z3.IntSort(), 'cj')
                r.append((z3.substitute(ex.term(x.val, v.ety, self.st), (x.j, j)), j, I(ex.vlen(v.t) if False else x.n)))
            else: r.append((ex.term(x, v.ety, self.st), None, None))
        return r
    def all_msgs(self, f):
        """every message satisfies f (as a goal)"""
        cs = []
        for m in self.msgs():
            g = f(m)
            cs.append(z3.Implies(z3.And(m.j >= 0, m.j < m.n), g) if m.j is not None else g)
        return z3.And(*cs) if cs else TRUE
    def nmsgs(self):
        n = z3.IntVal(0)
        for m in self.msgs(): n = n + (m.n if m.j is not None else 1)
        return z3.simplify(n)
    def count(self, f):
        """number of messages satisfying f (messages of symbolic lists must all or none satisfy it)"""
        n = z3.IntVal(0)
        for m in self.msgs():
            if m.j is not None: n = n + z3.If(f(m), m.n, 0)
            else: n = n + z3.If(f(m), 1, 0)
        return n
    def total(self, f):
        """sum of f over the (concrete list of) messages"""
        n = z3.IntVal(0)
        for m in self.msgs():
            if m.j is not None: raise Lost('sum over a symbolic message list')
            n = n + f(m)
        return n


class OptV(V):
    """Option<T> where only T's type is known (storage reads)"""
    __slots__ = ('T',)
    def __init__(self, ex, T, t):
        object.__setattr__(self, 'ex', ex); object.__setattr__(self, 'T', T); object.__setattr__(self, 't', t); object.__setattr__(self, 'ty', None)
    @property
    def some(self): return mk(self.ex, self.T, self.ex.unsome(self.t))
    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        raise Lost('field of option: ' + n)
    def val(self, default=0):
        return z3.If(self.isnone, raw(default), raw(self.some))


def unenc(ex, s, so, enc, dec, deep=6):
    """the value encoded in s"""
    if s.num_args() == 1 and s.decl().name() == '%s<%s>' % (enc, so.name()): return ex.some(s.arg(0))
    if deep and s.decl().kind() == z3.Z3_OP_ITE: return z3.If(s.arg(0), unenc(ex, s.arg(1), so, enc, dec, deep - 1), unenc(ex, s.arg(2), so, enc, dec, deep - 1))
    return ex.fn('%s<%s>' % (dec, so.name()), StrS, ex.opt(so))(s)


class Msg:
    def __init__(self, out, ty, t, j, n):
        self.out = out; self.sub = V(out.c.ex, ty, t); self.j = j; self.n = n
        self.ex = out.c.ex
    @property
    def t(self): return self.sub.t
    @property
    def id(self): return self.sub.id
    @property
    def reply_on(self): return self.sub.reply_on
    @property
    def msg(self): return self.sub.msg
    # decoded shapes
    def is_exec(self): return z3.And(self.msg.is_('Wasm'), self.msg.as_('Wasm')[0].is_('Execute'))
    def is_inst(self): return z3.And(self.msg.is_('Wasm'), self.msg.as_('Wasm')[0].is_('Instantiate', 'Instantiate2'))
    @property
    def exec(self): return self.msg.as_('Wasm')[0].as_('Execute')
    def is_exec_to(self, addr, ty, f=lambda m: TRUE):
        """wasm execute of `addr` with a JSON payload of type ty satisfying f"""
        e = self.exec
        d = self.out.c.decode(e.msg, ty)
        return z3.And(self.is_exec(), e.contract_addr == raw(addr), d.issome, f(d.some))
    def inst_of(self, code, ty, f=lambda m: TRUE, admin=None):
        """instantiates code with a payload of type ty satisfying f, without funds"""
        w = self.msg.as_('Wasm')[0].as_('Instantiate'); d = self.out.c.decode(w.msg, ty)
        return z3.And(self.msg.is_('Wasm'), self.msg.as_('Wasm')[0].is_('Instantiate'), w.code_id == raw(code), w.funds.n == 0, d.issome, f(d.some), *([w.admin.issome, w.admin.some == raw(admin)] if admin is not None else []))
    def is_exec_msg(self, ty, f=lambda to, m: TRUE):
        e = self.exec
        d = self.out.c.decode(e.msg, ty)
        return z3.And(self.is_exec(), d.issome, f(e.contract_addr, d.some))
    def is_send(self): return z3.And(self.msg.is_('Bank'), self.msg.as_('Bank')[0].is_('Send'))
    @property
    def send(self): return self.msg.as_('Bank')[0].as_('Send')
    def is_send1(self, to, denom, amount):
        s = self.send
        c = s.amount.at(0)
        return z3.And(self.is_send(), s.to_address == raw(to), s.amount.n == 1, c.denom == raw(denom), c.amount == raw(amount))
    @property
    def proto_url(self): return self.msg.as_('Stargate').type_url
    def is_proto(self, url, ty, f=lambda m: TRUE):
        """a protobuf message for the chain: of this type, satisfying f"""
        ex = self.out.c.ex; s = raw(self.msg.as_('Stargate').value); so = ex.sort(ty)
        d = OptV(ex, ty, unenc(ex, s, so, 'proto', 'unproto'))
        return z3.And(self.msg.is_('Stargate'), self.proto_url == ex.lit(url), d.issome, f(d.some))
    # asset movements out of the contract (native and cw20) as observed by a recipient
    def native_out(self, denom):
        s = self.send; c = s.amount.at(0)
        return z3.If(z3.And(self.is_send(), s.amount.n == 1, c.denom == raw(denom)), c.amount, 0)
    def cw20(self, f, ty=None):
        ty = ty or self.out.c.adt('cw20', 'msg::Cw20ExecuteMsg')
        return self.is_exec_msg(ty, f)
    def is_cw20_transfer(self, token, to, amount):
        ty = self.out.c.adt('cw20', 'msg::Cw20ExecuteMsg')
        return self.is_exec_to(token, ty, lambda m: z3.And(m.is_('Transfer'), m.as_('Transfer').recipient == raw(to), m.as_('Transfer').amount == raw(amount)))


class Run:
    def __init__(self, c, name, msg): self.c = c; self.name = name; self.msg = msg; self.outs = []
    @property
    def oks(self): return [o for o in self.outs if o.ok]
    @property
    def errs(self): return [o for o in self.outs if not o.ok]


class C:
    """a contract under contract: one engine, shared symbolic environment"""
    def __init__(self, prop, crate, mir=None, contracts=None):
        self.prop = prop; self.crate = crate
        self.ex = Engine(mir or prop.mir)
        self.ex.slow = None
        self.runs = []
        self._env = None
        self.invs = []
        self.adts = {}
        self.calls = None
        if contracts:
            for k, f in contracts.items(): self.ex.contracts[k] = f
        prop.cs.append(self)

    # types ---------------------------------------------------------------
    def adt(self, crate, name):
        k = (crate, name)
        if k not in self.adts:
            full = crate + '::' + name
            seen = {}
            for t in list(self.ex.mir.tys.values()):     # the one the code under contract uses
                if t.k == 'adt' and t.name == full and not t.d['args']: seen[t.id] = t
            if len(seen) == 1: self.adts[k] = list(seen.values())[0]
            else:
                try: self.adts[k] = self.ex.mir.adt(crate, name)
                except KeyError as e: raise Lost(str(e))
        return self.adts[k]
    def find(self, name, crate=None):
        try: return self.ex.mir.find(crate or self.crate, name)
        except KeyError as e: raise Lost(str(e))

    def arg(self, ty, name):
        ex = self.ex
        n = ex.strip_refs(ty).name
        if n == 'cosmwasm_std::types::Env':
            v = ex.sym(ty, 'env')
            self._env = mk(ex, ex.strip_refs(ty), v.t)
            ex.cur_height = ex.wrap(E_height_ty(self._env), self._env.block.height)
            return v
        if n == 'cosmwasm_std::types::MessageInfo':
            v = ex.sym(ty, 'info')
            self._info = mk(ex, ex.strip_refs(ty), v.t)
            return v
        return ex.sym(ty, name)

    @property
    def env(self):
        if self._env is None:
            t = self.adt('cosmwasm_std', 'types::Env') if False else None
            raise Lost('no environment yet')
        return self._env
    @property
    def info(self): return self._info
    @property
    def sender(self): return self._info.sender
    @property
    def now(self): return self._env.block.time.nanos() if False else self._env.block.time
    @property
    def height(self): return self._env.block.height
    @property
    def self_addr(self): return raw(self._env.contract)

    # runs ------------------------------------------------------------------
    def variants(self, entry):
        i = self.find(entry)
        ty = self.ex.mir.ty(i.body['locals'][i.body['nargs']])
        return [v['n'] for v in ty.variants]

    def run(self, entry, variant=None, fix=None, name=None, args=None, sub=None, pre=None):
        """execute a function symbolically; `variant`: variant of its last argument;
        `fix(field, ty)` may supply a field's value; `args`: {index: value}; sub: variant of the
        first payload of the variant (nested enums)"""
        ex = self.ex
        inst = self.find(entry)
        ex.new_run()
        st = State()
        self.prop.under.add(inst.name)
        vals = []
        nargs = inst.body['nargs']
        msgv = None
        label = name or (entry.split('::')[-1] + (('.' + variant) if variant else '') + (('.' + sub) if sub else ''))
        for k in range(nargs):
            ty = ex.mir.ty(inst.body['locals'][1 + k])
            if args and k in args: vals.append(args[k](st) if callable(args[k]) else args[k]); continue
            if variant is not None and k == nargs - 1:
                v = self.mkvariant(ty, variant, label, fix, sub)
            else:
                v = self.arg(ty, f'{label}.a{k}')
            if k == nargs - 1:
                r0 = ex.strip_refs(ty)
                try: msgv = mk(ex, r0, ex.term(v, ty, st))
                except Exception: msgv = None
            vals.append(v)
        r = Run(self, label, msgv)
        for f in (pre(r) if pre else []): st.add(f)
        u0 = len(ex.unsup)
        if self.calls is not None:      # ghost: the calls of functions replaced by their contract, in order
            ex.callcell = ex.ref_to(st, VecV((), next(t for t in ex.mir.tys.values() if t.s == 'alloc::string::String')))
        outs = ex.call(st, inst, vals)
        r.outs = [Out(r, s, v, i) for i, (s, v) in enumerate(outs)]
        r.unsup = ex.unsup[u0:]
        if r.unsup and not getattr(self, 'allow_unsup', False):
            for m, w, _ in r.unsup: self.prop.undecided.append(f'{self.crate}::{label}: {m} [{w}]')
        self.runs.append(r)
        self.prop.nruns += 1
        return r

    def mkvariant(self, ty, variant, label, fix=None, sub=None):
        ex = self.ex
        for vi, v in enumerate(ty.variants):
            if v['n'] == variant:
                fs = []
                for n, ft in ty.fields(vi):
                    x = fix(n, ft) if fix else None
                    if x is None and sub is not None: x = self.mkvariant(ft, sub, label); sub = None
                    fs.append(x if x is not None else ex.sym(ft, f'{label}.{n}'))
                return Adt(ty, vi, fs)
        raise Lost(f'{ty} has no variant {variant}')

    def run_all(self, entry, skip=(), only=None):
        for v in self.variants(entry):
            if v in skip or (only and v not in only): continue
            self.run(entry, v)

    # storage ---------------------------------------------------------------
    def nsty(self, ns):
        if ns not in self.ex.nsty: raise Lost(f'storage key {ns} of {self.crate} is not used')
        return self.ex.nsty[ns]
    def pre_t(self, ns):
        t = self.ex.item0.get(ns)
        if t is None: raise Lost(f'storage key {ns} of {self.crate} is not used')
        return t
    def pre(self, ns, k=None):
        K, T = self.nsty(ns)
        t = self.pre_t(ns)
        if k is not None: t = z3.Select(t, raw(k))
        return OptV(self.ex, T, t)
    def key(self, ns, *parts):
        """composite (tuple) key term"""
        K, T = self.nsty(ns)
        s = self.ex.sort(K)
        return s.constructor(0)(*[raw(p) for p in parts])

    def decode(self, s, ty):
        ex = self.ex
        so = ex.sort(ty)
        return OptV(ex, ty, unenc(ex, raw(s), so, 'json', 'unjson'))

    def fn(self, name, *sorts): return self.ex.fn(name, *sorts)
    def lit(self, s): return self.ex.lit(s)

    def vidx(self, ty, variant):
        vi = next((i for i, v in enumerate(ty.variants) if v['n'] == variant), None)
        if vi is None: raise Lost(f'{ty} has no variant {variant}')
        return vi
    def typed(self, ty, t): return mk(self.ex, ty, t)
    def make(self, ty, variant=None, **fs):
        """a value of ty, as a term"""
        ex = self.ex; vi = 0
        if variant is not None:
            vi = next((i for i, v in enumerate(ty.variants) if v['n'] == variant), None)
            if vi is None: raise Lost(f'{ty} has no variant {variant}')
        ts = []
        fl = ty.fields(vi)
        if set(fs) != {n for n, _ in fl}: raise Lost(f'{ty}::{variant} has fields {[n for n, _ in fl]}')
        for n, ft in fl:
            t = raw(fs[n])
            if t is None: t = ex.none(ex.sort(ft.args[0]))
            ts.append(t)
        c = ex.cls(ty)
        if c == 'flat': return ts[ex.flat(ty)[0]]
        return ex.sort(ty).constructor(vi)(*ts)
    def some(self, x): return self.ex.some(raw(x))
    def none(self, ty): return self.ex.none(self.ex.sort(ty))
    def smart(self, qty, rty, addr, msg):
        """what the contract at addr answers to the smart query msg (within this call)"""
        ex = self.ex; addr = raw(addr); msg = raw(msg)
        f = ex.fn(f'query!{qty.s} -> {rty.s}', addr.sort(), msg.sort(), ex.opt(ex.sort(rty)))
        return OptV(ex, rty, f(addr, msg))
    # queries made by the code: tag regex -> list of (terms, result)
    def queries(self, pat):
        seen = set(); r = []
        for tag, ts, t in self.ex.queries:
            if re.search(pat, tag) and t.get_id() not in seen:
                seen.add(t.get_id()); r.append((tag, ts, t))
        return r


def E_height_ty(env):
    ty = env.ty
    for n, t in ty.fields():
        if n == 'block':
            for m, t2 in t.fields():
                if m == 'height': return t2


class Ob:
    __slots__ = ('name', 'hyps', 'goal', 'c', 'fn', 'res', 'time', 'how', 'model', 'out', 'kind')
    def __init__(self, c, name, hyps, goal, fn, out=None, kind='valid'):
        self.c = c; self.name = name; self.hyps = hyps; self.goal = goal; self.fn = fn; self.res = None; self.time = 0; self.how = ''
        self.model = None; self.out = out; self.kind = kind


class Prop:
    def __init__(self, pid, mir=None):
        self.id = pid; self.mir = mir or Mir(); self.obs = []; self.cs = []; self.under = set(); self.undecided = []; self.nruns = 0
        self.notes = []; self.vac = []

    def contract(self, crate, **k): return C(self, crate, self.mir, **k)

    def ob(self, out, name, goal, hyps=()):
        """the clause `goal` holds at the end of this path"""
        self.obs.append(Ob(out.c, f'{out.c.crate}::{out.name}::{name}', [(B(h), False) for h in hyps] + out.pcs(), B(goal), out.c.crate + '::' + out.run.name, out))

    def obcases(self, out, name, term, goal, hyps=(), limit=40):
        """goal(t) for the value t of `term`, split on the conditions selecting it"""
        ls = []
        def go(t, cs):
            if t.decl().kind() == z3.Z3_OP_ITE and len(ls) < limit:
                go(t.arg(1), cs + [t.arg(0)]); go(t.arg(2), cs + [z3.Not(t.arg(0))])
            else: ls.append((t, cs))
        go(raw(term), [])
        for i, (t, cs) in enumerate(ls):
            self.ob(out, name + (f' (case {i})' if len(ls) > 1 else ''), goal(t), list(hyps) + cs)

    def lemma(self, c, name, goal, hyps=()):
        self.obs.append(Ob(c, f'{c.crate}::{name}', [(B(h), False) for h in hyps], B(goal), c.crate + '::' + name))

    def sat(self, c, name, hyps):
        """vacuity guard: the hypotheses can be met"""
        self.vac.append((name, c, [B(h) for h in hyps]))

    def reach(self, out_list, name, hyps=()):
        """vacuity guard: at least one of the paths can be taken under the hypotheses"""
        self.vac.append((name, out_list, [B(h) for h in hyps]))


# ------------------------------------------------------------------ deciding
def consts_of(t, cache):
    """0-ary uninterpreted constants of a term (ids); cached per ast id"""
    k = t.get_id()
    r = cache.get(k)
    if r is not None: return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.get_id() in cache: stack.pop(); continue
        if z3.is_quantifier(x): kids = [x.body()]
        elif z3.is_app(x): kids = x.children()
        else: kids = []
        todo = [y for y in kids if y.get_id() not in cache]
        if todo: stack += todo; continue
        if not kids:
            cache[x.get_id()] = frozenset([x.get_id()]) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            cache[x.get_id()] = frozenset().union(*[cache[y.get_id()] for y in kids])
        stack.pop()
    return cache[k]


def relevant(ex, fs):
    cache = ex.__dict__.setdefault('_cc', {})
    have = set()
    for f in fs: have |= consts_of(f, cache)
    # literals: distinctness
    r = []
    pend = [(f, consts_of(f, cache)) for f in ex.facts]
    changed = True
    while changed:
        changed = False; rest = []
        for f, cs in pend:
            if cs <= have: r.append(f)
            elif len(cs & have) and len(cs - have) <= 0: r.append(f)
            else: rest.append((f, cs))
        pend = rest
        break
    return r


def has_nl(fs):
    seen = set(); stack = list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().eq(MULF) or x.decl().eq(DIVF): return True
            stack += x.children()
    return False


def has_q(fs):
    seen = set(); stack = list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda(): return True
            stack.append(x.body()); continue
        if z3.is_app(x): stack += x.children()
    return False


def recorder(name, *idx):
    """contract of a function looked at elsewhere: the call is recorded (arguments idx), it may fail"""
    def f(ex, st, inst, a):
        ts = []
        for i in idx:
            ty = ex.strip_refs(ex.mir.ty(inst.body['locals'][1 + i]))
            ts.append(zi(ex.term(a[i], ex.mir.ty(inst.body['locals'][1 + i]), st)) if not isinstance(a[i], z3.ExprRef) else a[i])
        call = ex.fn('call!' + name, *[t.sort() for t in ts], E.StrS)(*ts)
        r = ex.mir.ty(inst.body['locals'][0])
        s2 = st.fork()
        v = ex.load(st, ex.callcell.c, ex.callcell.p)
        ex.setref(st, ex.callcell, VecV(v.e + (call,), v.ety))
        e = ex.sym(r.args[1], 'failed_' + name)
        return [(st, Adt(r, 0, [UNIT])), (s2, Adt(r, 1, [e]))]
    return f


def solve(fs, timeout, **opts):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for k, v in opts.items(): s.set(k, v)
    s.add(*fs)
    r = s.check()
    return (str(r), s)


LOOPSYM = re.compile(r'(loopmap|lastw|rkey|rinv|rlen|fidx|flen|finv|mj|j|loop\w*)!\d+$')
def loopsyms(t, cache={}):
    r = cache.get(t.get_id())
    if r is None:
        r = set(); st = [t]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): st.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and LOOPSYM.match(x.decl().name()): r.add(x.decl().name())
                st += x.children()
        cache[t.get_id()] = (t, r)
        return r
    return r[1]


def cone(neg, hyps):
    """the quantified facts about the loops the goal is about"""
    lz = [B(f) for f, l in hyps if l]; rel = set(loopsyms(neg)); out = [False] * len(lz); ch = True
    while ch:
        ch = False
        for i, f in enumerate(lz):
            if out[i]: continue
            sy = loopsyms(f)
            if not sy or sy & rel: out[i] = True; rel |= sy; ch = True
    return [f for f, o in zip(lz, out) if o]


def split(g):
    if z3.is_and(g): return [y for x in g.children() for y in split(x)]
    if z3.is_implies(g) and z3.is_and(g.arg(1)): return [z3.Implies(g.arg(0), y) for y in split(g.arg(1))]
    return [g]


def decide(ob, budget=20):
    ex = ob.c.ex
    t0 = time.time()
    goal = ob.goal
    if z3.is_true(goal): ob.res = 'proved'; ob.how = 'syntactic'; return ob
    hy = [B(f) for f, _ in ob.hyps]
    # path conditions first without the lazy (quantified) facts
    neg = z3.Not(goal)
    base = [B(f) for f, lz in ob.hyps if not lz] + [neg]
    facts = relevant(ex, hy + [neg])
    lazy = [B(f) for f, lz in ob.hyps if lz]
    tries = []
    nl = has_nl(base + facts)
    q = has_q(base + facts)
    def rec(r, how):
        ob.time = time.time() - t0; ob.how = how
        ob.res = r
        return ob
    if len(facts) > 20:
        r, s = solve(base, 3 if lazy else 6)
        if r == 'unsat': return rec('proved', 'z3 (path only)')
    r, s = solve(base + facts, 3 if lazy else 6)
    if r == 'unsat': return rec('proved', 'z3 (uninterpreted products)' if nl else 'z3')
    if r == 'sat' and not nl and not lazy and not q:
        ob.model = s.model(); return rec('refuted', 'z3')
    fs = base + facts
    if nl and not lazy:
        for opts in ({'smt.arith.solver': 2}, {'auto_config': False, 'smt.case_split': 3}):
            r, s = solve(fs, 4, **opts)
            if r == 'unsat': return rec('proved', 'z3 (uninterpreted products)')
    if lazy:
        if nl:      # many quantified facts and products: these settings are the steadier ones
            for opts in ({'auto_config': False}, {'smt.arith.solver': 2}):
                r, s = solve(fs + lazy, 5, **opts)
                if r == 'unsat': return rec('proved', 'z3 (quantified facts)')
            r, s = solve([exact(f) for f in fs + lazy], budget / 4)
            if r == 'unsat': return rec('proved', 'z3 nonlinear')
        r, s = solve(fs + lazy, 6)
        if r == 'unsat': return rec('proved', 'z3 (quantified facts)')
        if r == 'sat' and not nl: ob.model = s.model(); return rec('refuted', 'z3')
    last = s
    if lazy:
        rel = cone(neg, ob.hyps)
        rel = rel or lazy
        E = {'smt.qi.eager_threshold': 20.0}; NM = {'smt.mbqi': False}
        for fl, tm, opts in (*((lazy, 3, {**E, 'smt.random_seed': k}) for k in ((0, 1) if nl else (0, 1, 2, 4, 5, 9))),
                             *((rel, 3, {**NM, 'smt.random_seed': k}) for k in ((11,) if nl else (11, 23, 5))), (lazy, 3, {**NM, 'smt.random_seed': 2}), (lazy, 6, {'auto_config': False}),
                             *(((rel, budget / 3, {}),) if len(rel) < len(lazy) else ()), (lazy, 6, {'smt.random_seed': 2, 'smt.arith.solver': 2})):
            r, s2 = solve(fs + fl, tm, **opts)
            if r == 'unsat': return rec('proved', 'z3 (quantified facts)')
        parts = split(goal)
        if len(parts) > 1 and not nl:      # conjunct by conjunct
            for g in parts:
                r = 'unknown'
                for k, fl, opts in ((4, lazy, {}), (3, rel, {'smt.mbqi': False}), (3, lazy, {'smt.mbqi': False}), (3, rel, {'smt.random_seed': 23, 'smt.mbqi': False}), (4, rel, {})):
                    r, s2 = solve(base[:-1] + [z3.Not(g)] + facts + fl, k, **opts)
                    if r == 'unsat': break
                if r != 'unsat': break
            else: return rec('proved', 'z3 (quantified facts, by conjunct)')
    if nl and not lazy and len(split(goal)) > 1:
        for g in split(goal):
            for k, fl in ((4, []), (8, facts)):
                r, s2 = solve(base[:-1] + [z3.Not(g)] + fl, k)
                if r == 'unsat': break
            if r != 'unsat': break
        else: return rec('proved', 'z3 (uninterpreted products, by conjunct)')
    if nl:
        ef = [exact(f) for f in fs]; el = [exact(f) for f in lazy]
        for how, opts, tm in (*(() if lazy else (('z3 nonlinear', {}, budget / 4),)), *(('z3 nonlinear', {'smt.random_seed': k}, budget / 4) for k in (1, 2, 3)), ('z3 nonlinear/old arith', {'smt.arith.solver': 2}, budget / 3), ('z3 nonlinear', {}, budget)):
            try: r, s2 = solve(ef + (el if lazy else []), tm, **opts)
            except z3.Z3Exception: continue
            if r == 'unsat': return rec('proved', how)
            if r == 'sat':
                ob.model = s2.model(); return rec('refuted', how)
    else:
        for opts in ({'smt.random_seed': 7}, {'smt.mbqi': False} if (q or lazy) else {'smt.arith.solver': 2}):
            try: r, s2 = solve(fs + lazy, budget / 2, **opts)
            except z3.Z3Exception: continue
            if r == 'unsat': return rec('proved', 'z3')
            if r == 'sat': ob.model = s2.model(); return rec('refuted', 'z3')
    # candidate counterexample of the ground part
    try:
        if r != 'sat':
            r, s = solve([exact(f) for f in base + facts] if nl else base + facts, 4)
            if r == 'sat': ob.model = s.model()
    except z3.Z3Exception: pass
    return rec('unknown', 'none')


def parallel(jobs, fn, nproc=8, timeout=120):
    """fn(job) -> picklable, in forked workers; results in order"""
    n = len(jobs)
    res = [None] * n
    if n == 0: return res
    nproc = min(nproc, n)
    import select
    todo = list(range(n)); running = {}
    todo.sort(key=lambda i: (i % 17, i))      # neighbours tend to cost alike: spread them
    chunk = max(1, min(4, n // (nproc * 4) or 1))
    def spawn():
        idx = [todo.pop(0) for _ in range(min(chunk, len(todo)))]
        rfd, wfd = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            try:
                with os.fdopen(wfd, 'wb') as f:
                    for i in idx:
                        try: x = fn(jobs[i])
                        except Exception as e: x = ('EXC', traceback.format_exc())
                        pickle.dump((i, x), f); f.flush()
            finally: os._exit(0)
        os.close(wfd)
        running[rfd] = [pid, idx, b'', time.time()]
    while todo or running:
        while todo and len(running) < nproc: spawn()
        rs, _, _ = select.select(list(running), [], [], 1.0)
        now = time.time()
        for fd in list(running):
            pid, idx, buf, t0 = running[fd]
            done = False
            if fd in rs:
                d = os.read(fd, 1 << 20)
                if d: running[fd][2] = buf + d; running[fd][3] = now
                else: done = True
            if not done and now - running[fd][3] > timeout:
                os.kill(pid, signal.SIGKILL); done = True
            if done:
                import io
                b = io.BytesIO(running[fd][2])
                got = set()
                while True:
                    try: i, x = pickle.load(b)
                    except Exception: break
                    res[i] = x; got.add(i)
                left = [i for i in idx if i not in got]
                if left:
                    res[left[0]] = ('KILLED',); todo[:0] = left[1:]
                os.waitpid(pid, 0); os.close(fd); del running[fd]
    return res

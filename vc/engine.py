"""Symbolic execution / VC generation over the MIR served by mirsrv.

Path-wise strongest postconditions; machine integers are mathematical integers
with exact range facts (every overflow check in the MIR is kept); calls to
functions of /repo (and most of the small dependency code) are executed from
their real MIR, calls listed in models.py use a trusted contract.
A panic is a revert: the path is dropped (or recorded when asked for)."""
import z3, re, sys, time
from mir import Mir, Ty, Inst

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ values
class Adt:
    __slots__ = ('ty', 'v', 'f')
    def __init__(self, ty, v, f): self.ty = ty; self.v = v; self.f = f
    def __repr__(self):
        n = self.ty.name.split('::')[-1] if self.ty is not None and self.ty.k == 'adt' else ''
        if self.ty is not None and self.ty.is_enum: n += '::' + self.ty.variants[self.v]['n']
        return f"{n}({', '.join(map(repr, self.f))})"


class Sym:
    __slots__ = ('ty', 't')
    def __init__(self, ty, t): self.ty = ty; self.t = t
    def __repr__(self): return f'Sym<{self.t}>'


class VecV:
    __slots__ = ('e', 'ety', 'cap')
    def __init__(self, e, ety, cap=None): self.e = e; self.ety = ety; self.cap = cap
    def __repr__(self): return f'vec{list(self.e)}'


class Seg:
    """all elements of a symbolic vector, mapped: element i is tmpl[j := i]"""
    __slots__ = ('n', 'j', 'val', 'cond')
    def __init__(self, n, j, val, cond=True): self.n = n; self.j = j; self.val = val; self.cond = cond
    def __repr__(self): return f'Seg<n={self.n} {self.j} -> {self.val} if {self.cond}>'


class Ref:
    __slots__ = ('c', 'p', 'meta')
    def __init__(self, c, p=(), meta=None): self.c = c; self.p = p; self.meta = meta
    def __repr__(self): return f'&{self.c}{"".join("." + str(s[0]) + str(s[1]) for s in self.p)}'


class FnV:
    __slots__ = ('inst',)
    def __init__(self, inst): self.inst = inst
    def __repr__(self): return f'fn {self.inst.name}'


class Opq:
    __slots__ = ('tag', 'd')
    def __init__(self, tag, d=None): self.tag = tag; self.d = d
    def __repr__(self): return f'<{self.tag} {self.d if not isinstance(self.d, (list, tuple)) else "…"}>'


class DiscrV:
    __slots__ = ('t', 'ty')
    def __init__(self, t, ty): self.t = t; self.ty = ty


class IterV:
    """iterator value: kind + immutable parameters"""
    __slots__ = ('k', 'a')
    def __init__(self, k, *a): self.k = k; self.a = a
    def __repr__(self): return f'iter {self.k}'


UNINIT = Opq('uninit')
UNIT = None  # set below


class PC:
    __slots__ = ('up', 'f', 'n', 'lazy')
    def __init__(self, up, f, lazy=False): self.up = up; self.f = f; self.n = (up.n + 1) if up else 1; self.lazy = lazy


FNCALL = re.compile(r'core::ops::function::Fn(Once|Mut)?(<.*>)?>?::call(_once|_mut)?$')
CLOS = re.compile(r'\{closure#\d+\}$')


class _All:
    def __contains__(self, x): return True
ALL = _All()
GHOSTS = (('filters',), ('grids',), ('sets',))
NEXT = re.compile(r'(core::iter::traits::iterator::Iterator::|as core::iter::traits::iterator::Iterator>::)next$|core::iter::traits::iterator::Iterator for .*>::next$|RangeIteratorImpl>::spec_next$')


class State:
    __slots__ = ('mem', 'store', 'pc', 'known', 'ghost', 'tags')
    def __init__(self):
        self.mem = {}; self.store = {}; self.pc = None; self.known = {}; self.ghost = {}; self.tags = ()
    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.store = dict(self.store); s.pc = self.pc; s.known = dict(self.known)
        s.ghost = dict(self.ghost); s.tags = self.tags
        return s
    def add(self, f):
        if f is True: return
        self.pc = PC(self.pc, f)
    def addlazy(self, f):
        """a quantified fact: used by final obligations, not by branch pruning"""
        if f is True: return
        self.pc = PC(self.pc, f, True)
    def pcs(self):
        r = []; p = self.pc
        while p: r.append(p.f); p = p.up
        r.reverse(); return r


CUR = None
MULF = z3.Function('mul', z3.IntSort(), z3.IntSort(), z3.IntSort())
DIVF = z3.Function('div', z3.IntSort(), z3.IntSort(), z3.IntSort())
_v0, _v1 = z3.Var(0, z3.IntSort()), z3.Var(1, z3.IntSort())


def exact(f):
    """replace the abstract product / quotient by the arithmetic ones"""
    return z3.substitute_funs(f, (MULF, _v0 * _v1), (DIVF, _v0 / _v1))


def occurs(v, t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(v): return True
        st += x.children() if not z3.is_quantifier(x) else [x.body()]
    return False
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def isint(x): return isinstance(x, int) and not isinstance(x, bool)


def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def And(*xs):
    ys = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Implies(a, b): return Or(Not(a), b)


def Ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else Not(c)
    if isinstance(a, int) and isinstance(b, int) and a == b and type(a) is type(b): return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): return a
    za = zb(a) if isinstance(a, bool) else zi(a)
    zb_ = zb(b) if isinstance(b, bool) else zi(b)
    return z3.If(c, za, zb_)


def Eq(a, b):
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return a == b
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): return True
    if not isinstance(a, (int, z3.ExprRef)) or not isinstance(b, (int, z3.ExprRef)): raise Unsupported(f'comparison of {type(a).__name__} with {type(b).__name__}')
    return a == b


StrS = z3.DeclareSort('Str')
OpqS = z3.DeclareSort('Opq')
UnitS = z3.Datatype('Unit'); UnitS.declare('unit'); UnitS = UnitS.create()

STRTYPES = {'alloc::string::String', 'cosmwasm_std::binary::Binary', 'alloc::ffi::c_str::CString'}
UINTTYPES = {'bnum::buint::BUint': None}


class Engine:
    def __init__(self, mir=None):
        self.mir = mir or Mir()
        self.ncell = 0
        self.consts = {}        # const memory (negative cells)
        self.facts = []; self.factids = set(); self._keep = []
        self.lits = {}; self.litof = {}
        self.sorts = {}; self.optsorts = {}; self.vecsorts = {}; self.tupsorts = {}; self.funs = {}
        self.sortedarr = set(); self.inprog = set(); self.rngs = {}; self.bnd = {}; self.nlseen = {}
        global CUR
        CUR = self
        self.ctor_ty = {}
        self.unsup = []; self.panics = None; self.bounded = {}; self.loopsum = True; self.havoc = (); self.debugloop = 0
        self.used_models = {}; self.inlined = {}
        self.nfresh = 0
        self.K = 2              # bound for loops over symbolic-length sequences
        self.maxvisit = 40
        self.solver = z3.SimpleSolver(); self.solver.set('timeout', 400)
        self.ccache = {}; self.nidx = 0; self.fcs = []; self.fix = {}; self.runk = 0
        self.stack = []; self.lev = [(frozenset(), set(), 0)]
        self.stats = {'branch_checks': 0, 'branch_time': 0.0, 'steps': 0, 'merged': 0, 'unk': 0}
        self.litid = z3.Function('litid', StrS, z3.IntSort())
        self.strlen_f = z3.Function('strlen', StrS, z3.IntSort())
        self.default_t = {}
        self.contracts = {}; self.nsty = {}; self.constv = {}; self.gen = []
        self.stmtcache = {}
        self.deadline = None
        self.trace = False
        self.depth = 0; self.debug = False; self.debugu = None; self.slow = None; self.names = []
        import models
        self.models = models
        self.hooks_call = None

    # -------------------------------------------------------------- sorts
    def fn(self, name, *sorts):
        k = (name, tuple(s.get_id() for s in sorts))
        f = self.funs.get(k)
        if f is None: f = self.funs[k] = z3.Function(name, *sorts)
        return f

    def opt(self, s):
        k = s.get_id()
        o = self.optsorts.get(k)
        if o is None:
            d = z3.Datatype('Opt<%s>' % s.name()); d.declare('None<%s>' % s.name()); d.declare('Some<%s>' % s.name(), ('some<%s>' % s.name(), s))
            o = self.optsorts[k] = d.create(); self._keep.append(s)
        return o
    def none(self, s): return self.opt(s).constructor(0)()
    def some(self, t): return self.opt(t.sort()).constructor(1)(t)
    def is_none(self, t):
        if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR: return True
        if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR: return False
        return t.sort().recognizer(0)(t)
    def is_some(self, t):
        return Not(self.is_none(t))
    def unsome(self, t):
        if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and t.num_args() == 1: return t.arg(0)
        return t.sort().accessor(1, 0)(t)

    def vecsort(self, s):
        k = s.get_id()
        o = self.vecsorts.get(k)
        if o is None:
            d = z3.Datatype('Vec<%s>' % s.name()); d.declare('vec<%s>' % s.name(), ('len<%s>' % s.name(), z3.IntSort()), ('arr<%s>' % s.name(), z3.ArraySort(z3.IntSort(), s)))
            o = self.vecsorts[k] = d.create(); self._keep.append(s)
        return o

    def tupsort(self, ss):
        k = tuple(s.get_id() for s in ss)
        o = self.tupsorts.get(k)
        if o is None:
            n = '(%s)' % ','.join(s.name() for s in ss)
            d = z3.Datatype(n); d.declare('mk' + n, *[('%d%s' % (i, n), s) for i, s in enumerate(ss)])
            o = self.tupsorts[k] = d.create(); self._keep.extend(ss)
        return o

    # class of a type: bool int str bint(opaque big int) vec unit flat adt tuple ref fn opq
    def cls(self, ty):
        c = ty._cls
        if c is None: c = ty._cls = self._mkcls(ty)
        return c

    def _mkcls(self, ty):
        k = ty.k
        if k in ('bool', 'int'): return k
        if k == 'char': return 'int'
        if k == 'str': return 'str'
        if k in ('slice', 'array'):
            e = ty.e
            if k == 'slice' and e.k == 'int' and e.d['bits'] == 8: return 'str'
            return 'vec'
        if k == 'tuple':
            return 'unit' if all(self.cls(t) == 'unit' for _, t in ty.fields()) else 'tuple'
        if k in ('ref', 'ptr'): return 'ref'
        if k == 'pat': return self.cls(ty.e)
        if k == 'fndef': return 'fn'
        if k == 'closure': return 'closure'
        if k == 'adt':
            n = ty.name
            if n in STRTYPES: return 'str'
            if n == 'alloc::vec::Vec':
                e = ty.args[0]
                return 'str' if e.k == 'int' and e.d['bits'] == 8 else 'vec'
            if n == 'bnum::buint::BUint': return 'bint'
            if n in ('alloc::collections::vec_deque::VecDeque',): return 'vec'
            if n == 'alloc::boxed::Box': return 'ref'
            if n in ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap'): return 'map'
            if n in ('std::collections::hash::set::HashSet',
                     'alloc::collections::btree::set::BTreeSet', 'alloc::rc::Rc', 'alloc::sync::Arc'): return 'opq'
            if n.startswith('core::marker::PhantomData'): return 'unit'
            if ty.d['adt'] == 'union':
                return 'flat'
            if ty.d['adt'] == 'struct':
                if ty.id in self.inprog: return 'adt'
                self.inprog.add(ty.id)
                try:
                    fs = ty.fields()
                    nz = [i for i, (_, t) in enumerate(fs) if self.cls(t) != 'unit']
                finally: self.inprog.discard(ty.id)
                if not nz: return 'unit'
                if len(nz) == 1:
                    ty._flat = nz[0]
                    return 'flat'
                return 'adt'
            return 'adt'
        return 'opq'

    def flat(self, ty):
        """(index, type) of the only significant field of a flat type"""
        if ty._flat is None:
            if ty.d['adt'] == 'union':
                fs = ty.fields()
                nz = [i for i, (_, t) in enumerate(fs) if self.cls(t) != 'unit']
                ty._flat = nz[0] if nz else 0
        return ty._flat, ty.fields()[ty._flat][1]

    def strip(self, ty):
        """flatten newtypes"""
        while True:
            c = self.cls(ty)
            if c == 'flat': ty = self.flat(ty)[1]
            elif ty.k == 'pat': ty = ty.e
            else: return ty

    def sort(self, ty):
        s = ty._sort
        if s is None:
            s = self._mksort(ty); ty._sort = s
        return s

    def _mksort(self, ty):
        c = self.cls(ty)
        if c == 'bool': return z3.BoolSort()
        if c in ('int', 'bint'): return z3.IntSort()
        if c == 'str': return StrS
        if c == 'unit': return UnitS
        if c == 'flat': return self.sort(self.flat(ty)[1])
        if c == 'vec': return self.vecsort(self.sort(ty.args[0] if ty.k == 'adt' else ty.e))
        if c == 'map': return z3.ArraySort(self.sort(ty.args[0]), self.opt(self.sort(ty.args[1])))
        if c == 'tuple': return self.tupsort([self.sort(t) for _, t in ty.fields()])
        if c == 'ref':
            if ty.k == 'adt': return self.sort(ty.args[0])
            return self.sort(ty.e)
        if c == 'adt':
            key = ty.s
            if key in self.sorts: return self.sorts[key]
            if ty.name == 'core::option::Option': return self.opt(self.sort(ty.args[0]))
            if ('S', ty.id) in self.inprog or not ty.variants:
                return self.sorts.setdefault('rec ' + key, z3.DeclareSort('Rec<%s>' % key))
            self.inprog.add(('S', ty.id))
            try:
                d = z3.Datatype(key)
                pref = key
                for vi, v in enumerate(ty.variants):
                    d.declare('%s::%s' % (pref, v['n']), *[('%s::%s.%s' % (pref, v['n'], fn), self.sort(ft)) for fn, ft in ty.fields(vi)])
            finally: self.inprog.discard(('S', ty.id))
            s = d.create()
            self.sorts[key] = s
            return s
        return OpqS

    def is_rec(self, s): return s.kind() == z3.Z3_UNINTERPRETED_SORT and s.name().startswith('Rec<')

    # -------------------------------------------------------------- facts
    def fact(self, f):
        i = f.get_id()
        if i in self.factids: return
        self.factids.add(i); self.facts.append(f)

    def lit(self, s):
        t = self.lits.get(s)
        if t is None:
            t = self.lits[s] = z3.Const('"%s"' % s[:120] if len(s) <= 120 else '"%s"#%d' % (s[:100], len(self.lits)), StrS)
            self.litof[t.get_id()] = s
            self.fact(self.litid(t) == len(self.lits))
            self.fact(self.strlen_f(t) == len(s.encode()))
            if s == '': self.empty = t
        return t

    def strlen(self, t):
        if t.get_id() in self.litof: return len(self.litof[t.get_id()].encode())
        l = self.strlen_f(t)
        self.fact(z3.And(l >= 0, l < 2**32, (l == 0) == (t == self.lit(''))))
        return l

    def fresh(self, name, sort):
        """a value not known; inside a generic iteration it may differ from iteration to iteration"""
        self.nfresh += 1
        if self.gen: return z3.Function('%s!%d' % (name, self.nfresh), *[g.sort() for g in self.gen], sort)(*self.gen)
        return z3.Const('%s!%d' % (name, self.nfresh), sort)

    def freshc(self, name, sort):
        """a fresh constant to be bound (by a quantifier or as the index of a segment)"""
        self.nfresh += 1
        return z3.Const('%s!%d' % (name, self.nfresh), sort)

    def freshfn(self, name, *sorts):
        self.nfresh += 1
        g = tuple(self.gen)
        f = z3.Function('%s!%d' % (name, self.nfresh), *[x.sort() for x in g], *sorts)
        return (lambda *a: f(*g, *a)) if g else f

    def rng(self, ty, t):
        """register the range fact of a scalar leaf term"""
        if isinstance(t, int): return
        if ty.k == 'int':
            b = ty.d['bits']
            self.rngs.setdefault(t.get_id(), (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ty.d['signed'] else (0, (1 << b) - 1))
            if ty.d['signed']: self.fact(z3.And(t >= -(1 << (b - 1)), t < (1 << (b - 1))))
            else: self.fact(z3.And(t >= 0, t < (1 << b)))
        elif ty.k == 'char': self.fact(z3.And(t >= 0, t < 0x110000))
        elif self.cls(ty) == 'bint':
            n = ty.args[0]
            n = n['c'] if isinstance(n, dict) else 4
            self.rngs.setdefault(t.get_id(), (0, (1 << (64 * n)) - 1))
            self.fact(z3.And(t >= 0, t < (1 << (64 * n))))

    def wrap(self, ty, t):
        c = self.cls(ty)
        if c in ('int', 'bint'):
            if z3.is_int_value(t): return t.as_long()
            self.rng(ty, t); return t
        if c == 'bool':
            if z3.is_true(t): return True
            if z3.is_false(t): return False
            return t
        if c == 'str': return t
        if c == 'unit': return UNIT
        if c == 'flat': return self.wrap(self.flat(ty)[1], t)
        if ty.k == 'pat': return self.wrap(ty.e, t)
        if c == 'ref':
            if ty.k == 'adt': return self.wrap(ty.args[0], t)
            if ty.e.k == 'dyn': return Opq('dyn', ty.e.s)
            return self.wrap(ty.e, t)
        if c == 'map': return Sym(ty, t)
        if c in ('adt', 'tuple', 'vec'):
            if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and c != 'vec':
                return self.expand(ty, t)
            if c == 'vec':
                n = self.vlen(t)
                if not isinstance(n, int): self.fact(z3.And(n >= 0, n < 2**32)); self.rngs[n.get_id()] = (0, 2**32 - 1); self._keep.append(n)
            return Sym(ty, t)
        return Opq('term', t)

    def expand(self, ty, t):
        """constructor application -> Adt"""
        if self.cls(ty) == 'tuple':
            return Adt(ty, 0, [self.wrap(ft, t.arg(i)) for i, (_, ft) in enumerate(ty.fields())])
        if ty.name == 'core::option::Option':
            if t.num_args() == 0: return Adt(ty, 0, [])
            return Adt(ty, 1, [self.wrap(ty.args[0], t.arg(0))])
        s = t.sort()
        for v in range(s.num_constructors()):
            if s.constructor(v).eq(t.decl()):
                return Adt(ty, v, [self.wrap(ft, t.arg(i)) for i, (_, ft) in enumerate(ty.fields(v))])
        raise Unsupported('expand ' + ty.s)

    def acc(self, t, v, i):
        if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and t.decl().eq(t.sort().constructor(v)): return t.arg(i)
        return t.sort().accessor(v, i)(t)

    def is_sorted(self, t):
        if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            a = t.arg(1)
            if a.get_id() in self.sortedarr: return True
            if z3.is_quantifier(a):
                b = a.body()
                if z3.is_app_of(b, z3.Z3_OP_SELECT) and b.arg(0).get_id() in self.sortedarr and z3.is_var(b.arg(1)): return True
        return False
    def vlen(self, t): 
        r = self.acc(t, 0, 0)
        return r.as_long() if z3.is_int_value(r) else r
    def vat(self, t, i):
        a = self.acc(t, 0, 1)
        if z3.is_quantifier(a) and a.is_lambda(): return z3.substitute_vars(a.body(), zi(i))
        return z3.Select(a, zi(i))

    def isvar(self, t, v):
        """recognizer, simplified on constructors"""
        s = t.sort()
        if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR: return t.decl().eq(s.constructor(v))
        if s.kind() != z3.Z3_DATATYPE_SORT: raise Unsupported('match on recursive/opaque sort ' + s.name())
        if s.num_constructors() == 1: return True
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = self.isvar(t.arg(1), v), self.isvar(t.arg(2), v)
            return Ite(t.arg(0), a, b)
        return s.recognizer(v)(t)

    def dflt(self, s):
        k = s.get_id()
        if k not in self.default_t: self.default_t[k] = z3.Const('dflt<%s>' % s.name(), s)
        return self.default_t[k]

    def term(self, v, ty, st=None):
        """value -> z3 term of sort(ty)"""
        c = self.cls(ty)
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, z3.ExprRef): return v
        if isinstance(v, Ref):
            if st is None: raise Unsupported('term of ref without state')
            inner = ty
            if c == 'flat': return self.term(v, self.flat(ty)[1], st)
            if c == 'ref': inner = ty.args[0] if ty.k == 'adt' else ty.e
            if inner.k == 'dyn': return self.fresh('dyn', OpqS)
            return self.term(self.load(st, v.c, v.p), inner, st)
        if c == 'unit': return UnitS.unit
        if c == 'flat': return self.term(v, self.flat(ty)[1], st)
        if c == 'ref': return self.term(v, ty.args[0] if ty.k == 'adt' else ty.e, st)
        s = self.sort(ty)
        if self.is_rec(s): return self.fresh('rec', s)
        if isinstance(v, Adt):
            if c == 'tuple':
                return s.constructor(0)(*[self.term(x, ft, st) for x, (_, ft) in zip(v.f, ty.fields())])
            if c == 'adt':
                fs = [self.term(x, ft, st) for x, (_, ft) in zip(v.f, ty.fields(v.v))]
                return s.constructor(v.v)(*fs)
        if isinstance(v, VecV):
            if c == 'str':  # [u8;N] etc
                return self.fresh('bytes', StrS)
            es = self.sort(v.ety)
            if any(isinstance(x, Seg) for x in v.e):
                if len(v.e) == 1:
                    g = v.e[0]; b = self.term(g.val, v.ety, st)
                    if b.decl().kind() == z3.Z3_OP_SELECT and b.arg(1).eq(g.j) and not occurs(g.j, b.arg(0)): return s.constructor(0)(zi(g.n), b.arg(0))
                    return s.constructor(0)(zi(g.n), z3.Lambda([g.j], b))
                q = z3.FreshConst(z3.IntSort(), 'lj'); off = z3.IntVal(0); parts = []
                for x in v.e:
                    if isinstance(x, Seg): parts.append((off, zi(x.n), z3.substitute(self.term(x.val, v.ety, st), (x.j, q - off)))); off = z3.simplify(off + x.n)
                    else: parts.append((off, z3.IntVal(1), self.term(x, v.ety, st))); off = z3.simplify(off + 1)
                r = self.dflt(es)
                for o, n, t in reversed(parts): r = z3.If(q < o + n, t, r)
                return s.constructor(0)(off, z3.Lambda([q], r))
            a = z3.K(z3.IntSort(), self.dflt(es))
            for i, x in enumerate(v.e): a = z3.Store(a, i, self.term(x, v.ety, st))
            return s.constructor(0)(z3.IntVal(len(v.e)), a)
        if isinstance(v, Opq) and v.tag == 'term': return v.d
        if isinstance(v, DiscrV): return zi(self.asint(v))
        if isinstance(v, (Opq, FnV, IterV)): return self.fresh('opq', s)
        if c == 'opq': return self.fresh('opq', s)
        raise Unsupported(f'term of {v!r} as {ty}')

    def sym(self, ty, name):
        """symbolic value of a type"""
        if ty.k == 'ref' and ty.e.k == 'dyn': return Opq('dyn', ty.e.s)
        c = self.cls(ty)
        if c in ('adt', 'tuple') and (ty.k == 'tuple' or ty.d['adt'] == 'struct') and self.hasdyn(ty):
            return Adt(ty, 0, [self.sym(t, name + '.' + n) for n, t in ty.fields()])
        if c == 'flat': return self.sym(self.flat(ty)[1], name)
        return self.wrap(ty, z3.Const(name, self.sort(ty)))

    def hasdyn(self, ty):
        if ty.k in ('ref', 'ptr'): return self.hasdyn(ty.e)
        if ty.k == 'dyn': return True
        if ty.k == 'tuple' or (ty.k == 'adt' and ty.d['adt'] == 'struct' and ty.name.startswith('cosmwasm_std::')):
            if ty.name.startswith('cosmwasm_std::deps') or ty.name.startswith('cosmwasm_std::traits') or ty.k == 'tuple':
                return any(self.hasdyn(t) for _, t in ty.fields())
        return False

    # ------------------------------------------------- nonlinear arithmetic
    # products and quotients of two non-constant terms are kept as mul(a,b) and
    # div(a,b) with linear facts; obligations are decided with the exact operations
    def mul(self, a, b):
        if isint(a) and isint(b): return a * b
        if isint(b): a, b = b, a
        if isint(a):
            if a == 0: return 0
            return b if a == 1 else a * b
        if z3.is_int_value(a) or z3.is_int_value(b):
            return a * b
        # constant factors move out
        ka, a = self.coeff(a); kb, b = self.coeff(b)
        if a.get_id() > b.get_id(): a, b = b, a
        t = MULF(a, b)
        if t.get_id() not in self.nlseen:
            self.nlseen[t.get_id()] = t
            la, ua = self.bounds(a); lb, ub = self.bounds(b)
            fs = [MULF(b, a) == t, z3.Implies(z3.Or(a == 0, b == 0), t == 0), z3.Implies(a == 1, t == b), z3.Implies(b == 1, t == a)]
            if la is not None and la >= 0 and lb is not None and lb >= 0:
                fs += [t >= 0, z3.Implies(z3.And(a >= 1, b >= 1), z3.And(t >= a, t >= b))]
                if ua is not None and ub is not None: fs.append(t <= ua * ub)
            for f in fs: self.fact(f)
        k = ka * kb
        return t if k == 1 else k * t

    def coeff(self, t):
        if z3.is_app_of(t, z3.Z3_OP_MUL) and t.num_args() == 2 and z3.is_int_value(t.arg(0)): return t.arg(0).as_long(), t.arg(1)
        return 1, t

    def div(self, a, b):
        if isint(a) and isint(b): return a // b
        a, b = zi(a), zi(b)
        if z3.is_int_value(b):
            return a if b.as_long() == 1 else a / b
        t = DIVF(a, b)
        if t.get_id() not in self.nlseen:
            self.nlseen[t.get_id()] = t
            la = self.bounds(a)[0]; lb = self.bounds(b)[0]
            if la is not None and la >= 0 and lb is not None and lb >= 0:
                self.fact(z3.Implies(b >= 1, z3.And(t >= 0, t <= a, (a < b) == (t == 0), z3.Implies(a == b, t == 1))))
                self.fact(z3.Implies(b == 1, t == a))
                k, c = self.coeff(a)
                if z3.is_app(c) and c.decl().eq(MULF):
                    x, y = c.arg(0), c.arg(1)
                    if k == 1:
                        for p, q in ((x, y), (y, x)):
                            self.fact(z3.Implies(z3.And(b >= 1, p >= 0, q >= 0, q <= b), t <= p))
                            self.fact(z3.Implies(z3.And(b >= 1, q == b), t == p))
                            self.fact(z3.Implies(z3.And(b >= 1, p >= 0, q >= b), t >= p))
                elif k != 1:
                    self.fact(z3.Implies(z3.And(b >= 1, c <= b), t <= k))
                    self.fact(z3.Implies(z3.And(b >= 1, c == b), t == k))
                    self.fact(z3.Implies(z3.And(b >= 1, c >= b), t >= k))
                    self.fact(z3.Implies(z3.And(b >= 1, b <= k), t >= c))
        return t

    def mod(self, a, b):
        if isint(a) and isint(b): return a % b
        a, b = zi(a), zi(b)
        if z3.is_int_value(b): return a % b
        r = a - self.mul(b, self.div(a, b))
        if self.bounds(a)[0] is not None and self.bounds(a)[0] >= 0: self.fact(z3.Implies(b >= 1, z3.And(r >= 0, r < b, r <= a)))
        return r

    def bounds(self, t):
        """syntactic interval of an integer term (from the range facts)"""
        if isint(t): return (t, t)
        i = t.get_id()
        r = self.bnd.get(i)
        if r is None:
            r = self._bounds(t); self.bnd[i] = r; self._keep.append(t)
        return r

    def _bounds(self, t):
        if z3.is_int_value(t): v = t.as_long(); return (v, v)
        i = t.get_id()
        N = (None, None)
        base = self.rngs.get(i, N)
        k = t.decl().kind() if z3.is_app(t) else None
        r = N
        if k == z3.Z3_OP_ADD:
            bs = [self.bounds(c) for c in t.children()]
            r = (sum(b[0] for b in bs) if all(b[0] is not None for b in bs) else None, sum(b[1] for b in bs) if all(b[1] is not None for b in bs) else None)
        elif k == z3.Z3_OP_SUB and t.num_args() == 2:
            a, b = self.bounds(t.arg(0)), self.bounds(t.arg(1))
            r = (a[0] - b[1] if a[0] is not None and b[1] is not None else None, a[1] - b[0] if a[1] is not None and b[0] is not None else None)
        elif (k == z3.Z3_OP_MUL or (k == z3.Z3_OP_UNINTERPRETED and t.decl().eq(MULF))) and t.num_args() == 2:
            a, b = self.bounds(t.arg(0)), self.bounds(t.arg(1))
            if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
                r = (a[0] * b[0], a[1] * b[1] if a[1] is not None and b[1] is not None else None)
        elif k == z3.Z3_OP_IDIV or (k == z3.Z3_OP_UNINTERPRETED and t.decl().eq(DIVF)):
            a, b = self.bounds(t.arg(0)), self.bounds(t.arg(1))
            if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 1:
                r = (0, a[1] // b[0] if a[1] is not None else None)
        elif k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)): r = (0, t.arg(1).as_long() - 1)
        elif k == z3.Z3_OP_ITE:
            a, b = self.bounds(t.arg(1)), self.bounds(t.arg(2))
            r = (min(a[0], b[0]) if a[0] is not None and b[0] is not None else None, max(a[1], b[1]) if a[1] is not None and b[1] is not None else None)
        mx = lambda x, y: y if x is None else x if y is None else max(x, y)
        mn = lambda x, y: y if x is None else x if y is None else min(x, y)
        return (mx(base[0], r[0]), mn(base[1], r[1]))

    # -------------------------------------------------------------- solver
    # constants (ids) of a term; cached
    def consts_of(self, t):
        cache = self.ccache
        k = t.get_id()
        r = cache.get(k)
        if r is not None: return r
        stack = [t]; self._keep.append(t)
        while stack:
            x = stack[-1]; xi = x.get_id()
            if xi in cache: stack.pop(); continue
            if z3.is_quantifier(x): kids = [x.body()]
            elif z3.is_app(x): kids = x.children()
            else: kids = []
            todo = [y for y in kids if y.get_id() not in cache]
            if todo: stack += todo; continue
            if not kids:
                cache[xi] = frozenset([xi]) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
            elif len(kids) == 1: cache[xi] = cache[kids[0].get_id()]
            else: cache[xi] = frozenset().union(*[cache[y.get_id()] for y in kids])
            self._keep.append(x)
            stack.pop()
        return cache[k]

    def index_facts(self):
        """file facts under one of their constants (the rarest so far)"""
        while self.nidx < len(self.facts):
            f = self.facts[self.nidx]; cs = self.consts_of(f)
            self.fcs.append(cs)
            if not cs: self.fix.setdefault(None, []).append(self.nidx)
            else:
                for c in cs: self.fix.setdefault(c, []).append(self.nidx)
            self.nidx += 1

    def facts_for(self, have, new, done):
        """indices of facts about constants in `have`, at least one of them in `new`"""
        r = []
        for c in new:
            for i in self.fix.get(c, ()):
                if i not in done and self.fcs[i] <= have: done.add(i); r.append(i)
        return r

    def _sync(self, st):
        self.index_facts()
        path = []; p = st.pc
        stk = self.stack
        while p is not None and not (p.n <= len(stk) and stk[p.n - 1] is p):
            path.append(p); p = p.up
        keep = p.n if p is not None else 0
        if len(stk) > keep:
            self.solver.pop(len(stk) - keep); del stk[keep:]; del self.lev[keep + 1:]
        nf = len(self.facts)
        have, done, seen = self.lev[-1]
        if seen < nf:   # facts created since this level was last visited
            done = set(done)
            for i in range(seen, nf):
                if i not in done and self.fcs[i] <= have: done.add(i); self.solver.add(self.facts[i])
            self.lev[-1] = (have, done, nf)
        for q in reversed(path):
            self.solver.push(); stk.append(q)
            if q.lazy:
                self.lev.append((have, done, nf)); continue
            self.solver.add(zb(q.f))
            cs = self.consts_of(zb(q.f)); new = cs - have
            if new:
                have = have | new; done = set(done)
                for i in self.facts_for(have, new, done): self.solver.add(self.facts[i])
            self.lev.append((have, done, nf))

    def feasible(self, st, cond=None):
        if cond is False: return False
        if cond is True: cond = None
        self._sync(st)
        t = time.time()
        if cond is not None:
            have, done, seen = self.lev[-1]
            new = self.consts_of(cond) - have
            extra = [self.facts[i] for i in self.facts_for(have | new, new, set(done))] if new else ()
            if extra:
                self.solver.push(); self.solver.add(*extra); self.solver.add(cond)
                r = self.solver.check(); self.solver.pop()
            else: r = self.solver.check(cond)
        else: r = self.solver.check()
        dt = time.time() - t
        if self.slow is not None and dt > 0.1: self.slow.append((dt, list(self.names), r, cond))
        self.stats['branch_checks'] += 1; self.stats['branch_time'] += dt
        if r == z3.unknown:
            self.stats['unk'] += 1; self.runk += 1
            if self.runk == 15: self.solver.set('timeout', 100)
            if self.runk == 60: self.solver.set('timeout', 40)
        if self.deadline and time.time() > self.deadline: raise TimeoutError('engine deadline')
        return r != z3.unsat

    def new_run(self):
        """fresh branch solver (facts are pulled in on demand)"""
        self.solver = z3.SimpleSolver(); self.solver.set('timeout', 400)
        self.stack = []; self.runk = 0
        self.index_facts()
        done = set(self.fix.get(None, ()))
        for i in done: self.solver.add(self.facts[i])
        self.lev = [(frozenset(), done, len(self.facts))]

    def simp(self, c):
        if isinstance(c, bool): return c
        c2 = z3.simplify(c)
        if z3.is_true(c2): return True
        if z3.is_false(c2): return False
        return c

    def split(self, st, cond):
        """[(state, True)...]: fork a state on a condition; returns list of (st, bool)"""
        c = self.simp(cond)
        if isinstance(c, bool): return [(st, c)]
        t = self.feasible(st, c)
        if not t:
            return [(st, False)]
        f = self.feasible(st, z3.Not(c))
        if not f:
            return [(st, True)]
        s2 = st.fork()
        st.add(c); s2.add(Not(c))
        return [(st, True), (s2, False)]

    def assume(self, st, cond):
        """assume; returns False if trivially dead"""
        c = self.simp(cond)
        if c is True: return True
        if c is False: return False
        st.add(c)
        return True

    # -------------------------------------------------------------- memory
    def newcell(self, st, val):
        self.ncell += 1
        st.mem[self.ncell] = val
        return self.ncell

    def ref_to(self, st, val): return Ref(self.newcell(st, val))

    def const_cell(self, val):
        self.ncell += 1
        c = -self.ncell
        self.consts[c] = val
        return c

    def cell(self, st, c):
        if c < 0: return self.consts[c]
        try: return st.mem[c]
        except KeyError: raise Unsupported('dangling cell')

    def proj(self, st, v, s):
        if s[0] == 'f':
            _, i, var, pty = s
            if isinstance(v, Adt):
                if var is not None and v.v != var and pty.is_enum: raise Unsupported('wrong variant projection')
                return v.f[i]
            if isinstance(v, Sym):
                ty = v.ty
                if isinstance(ty, Ty) and self.cls(ty) in ('adt', 'tuple'):
                    ft = ty.fields(var or 0)[i][1]
                    if ty.name == 'core::option::Option': return self.wrap(ft, self.unsome(v.t))
                    return self.wrap(ft, self.acc(v.t, var or 0, i))
            if isinstance(v, Opq) and v.tag == 'term': return Opq('term', self.fresh('opqf', OpqS))
            raise Unsupported(f'projection .{i} of {v!r} : {pty}')
        if s[0] == 'i':
            idx = s[1]
            if isinstance(v, VecV):
                if isinstance(idx, int):
                    if not any(isinstance(e, Seg) for e in v.e): return v.e[idx]
                    return self.vec_at(st, v, idx)
                return self.vec_at(st, v, idx)
            if isinstance(v, Sym): return self.wrap(self.elty(v.ty), self.vat(v.t, idx))
            if isinstance(v, z3.ExprRef) and v.sort() == StrS:
                b = self.fn('byte_at', StrS, z3.IntSort(), z3.IntSort())(v, zi(idx))
                self.fact(z3.And(b >= 0, b < 256)); return b
            raise Unsupported(f'index of {v!r}')
        raise Unsupported(f'proj {s}')

    def elty(self, ty):
        ty = self.strip(ty)
        if ty.k == 'adt': return ty.args[0]
        return ty.e

    def vec_at(self, st, v, idx):
        """element of a concrete vector at a symbolic index (idx assumed in bounds)"""
        if any(isinstance(e, Seg) for e in v.e):
            if len(v.e) == 1:
                g = v.e[0]
                if g.cond is True: return self.subst(g.val, g.j, zi(idx))
            raise Unsupported('index into segmented vector')
        r = None
        if not v.e: raise Unsupported('index into empty vector')
        r = self.term(v.e[-1], v.ety, st)
        for k in range(len(v.e) - 2, -1, -1):
            r = z3.If(idx == k, self.term(v.e[k], v.ety, st), r)
        return self.wrap(v.ety, r)

    def subst(self, v, j, i):
        if isinstance(v, z3.ExprRef): return z3.substitute(v, (j, i))
        if isinstance(v, Sym): return Sym(v.ty, z3.substitute(v.t, (j, i)))
        if isinstance(v, Adt): return Adt(v.ty, v.v, [self.subst(x, j, i) for x in v.f])
        if isinstance(v, VecV): return VecV(tuple(self.subst(x, j, i) for x in v.e), v.ety)
        if isinstance(v, Seg): return Seg(self.subst(v.n, j, i) if isinstance(v.n, z3.ExprRef) else v.n, v.j, self.subst(v.val, j, i), self.subst(v.cond, j, i) if isinstance(v.cond, z3.ExprRef) else v.cond)
        if isinstance(v, Opq) and v.tag == 'term': return Opq('term', z3.substitute(v.d, (j, i)))
        if isinstance(v, (bool, int, FnV, Opq)): return v
        raise Unsupported(f'subst in {v!r}')

    def load(self, st, c, p):
        v = self.cell(st, c)
        for s in p: v = self.proj(st, v, s)
        return v

    def deref(self, st, v):
        """follow references to a value"""
        while isinstance(v, Ref): v = self.load(st, v.c, v.p)
        return v

    def upd(self, st, v, p, k, nv):
        if k == len(p): return nv
        s = p[k]
        if s[0] == 'f':
            _, i, var, pty = s
            if isinstance(v, Sym) and self.cls(v.ty) in ('adt', 'tuple'):
                vv = var or 0
                v = Adt(v.ty, vv, [self.proj(st, v, ('f', q, var, pty)) for q in range(len(v.ty.fields(vv)))])
            elif v is UNINIT or v is None:
                n = len(pty.fields(var or 0))
                v = Adt(pty, var or 0, [UNINIT] * n)
            if isinstance(v, Adt):
                f = list(v.f); f[i] = self.upd(st, f[i], p, k + 1, nv)
                return Adt(v.ty, v.v, f)
            raise Unsupported(f'update field of {v!r}')
        if s[0] == 'i':
            idx = s[1]
            if isinstance(v, VecV):
                if isinstance(idx, int) and not any(isinstance(e, Seg) for e in v.e):
                    e = list(v.e); e[idx] = self.upd(st, e[idx], p, k + 1, nv); return VecV(tuple(e), v.ety)
                e = []
                for q, x in enumerate(v.e):
                    if isinstance(x, Seg): raise Unsupported('update of segmented vector')
                    n2 = self.upd(st, x, p, k + 1, nv)
                    e.append(self.wrap(v.ety, z3.If(idx == q, self.term(n2, v.ety, st), self.term(x, v.ety, st))))
                return VecV(tuple(e), v.ety)
            if isinstance(v, Sym):
                ety = self.elty(v.ty)
                n2 = self.upd(st, self.wrap(ety, self.vat(v.t, idx)), p, k + 1, nv)
                return Sym(v.ty, v.t.sort().constructor(0)(zi(self.vlen(v.t)), z3.Store(self.acc(v.t, 0, 1), zi(idx), self.term(n2, ety, st))))
        raise Unsupported(f'update {s} of {v!r}')

    def store(self, st, c, p, val):
        if c < 0: raise Unsupported('write to const memory')
        if not p: st.mem[c] = val
        else: st.mem[c] = self.upd(st, st.mem.get(c, UNINIT), p, 0, val)

    def setref(self, st, r, val):
        if not isinstance(r, Ref): raise Unsupported('write through non-reference')
        self.store(st, r.c, r.p, val)

    # -------------------------------------------------------------- places
    def place(self, st, fr, pl):
        """-> (cell, path, ty)"""
        base, body, ltys = fr
        l, projs = pl
        c = base + l; p = ()
        if not projs: return c, p, ltys[l]
        ty = ltys[l]; var = None
        for e in projs:
            k = e[0]
            if k == '*':
                v = self.load(st, c, p)
                if isinstance(v, Ref): c, p = v.c, v.p
                elif isinstance(v, (Opq,)) and v.tag in ('dyn', 'uninit', 'storage'): pass
                if ty.k == 'adt' and ty.name == 'alloc::boxed::Box': ty = ty.args[0]
                elif ty.k in ('ref', 'ptr'): ty = ty.e
                else: raise Unsupported('deref of ' + ty.s)
                var = None
            elif k == 'f':
                i = e[1]; fty = self.mir.ty(e[2])
                cl = self.cls(ty)
                if cl == 'flat' or ty.k == 'pat':
                    fi, ft = self.flat(ty)
                    if i != fi and ty.d.get('adt') != 'union': p = p + (('f', i, None, ty),) if False else p; fty = fty
                elif cl in ('ref',) and ty.k == 'adt':   # Box -> Unique
                    pass
                elif cl in ('str', 'vec', 'opq', 'unit', 'bint', 'map'):
                    if cl == 'unit' or ty.name == 'cosmwasm_std::binary::Binary': pass
                    else: raise Unsupported(f'field of {ty}')
                else:
                    p = p + (('f', i, var, ty),)
                ty = fty; var = None
            elif k == 'd':
                var = e[1]
            elif k == 'i':
                idx = self.load(st, base + e[1], ())
                p = p + (('i', idx),); ty = self.elty(ty)
            elif k == 'c':
                off, mn, fe = e[1], e[2], e[3]
                if fe:
                    n = self.length(st, self.load(st, c, p))
                    off = n - off
                p = p + (('i', off),); ty = self.elty(ty)
            elif k == 's':
                v = self.load(st, c, p)
                if not isinstance(v, VecV): raise Unsupported('subslice of symbolic')
                to = len(v.e) - e[2] if e[3] else e[2]
                c = self.newcell(st, VecV(v.e[e[1]:to], v.ety)); p = ()
            else:
                raise Unsupported(f'place elem {e}')
        return c, p, ty

    def length(self, st, v):
        v = self.deref(st, v)
        if isinstance(v, VecV):
            n = 0
            for e in v.e:
                if isinstance(e, Seg):
                    if e.cond is not True: raise Unsupported('length of filtered segment')
                    n = n + e.n
                else: n = n + 1
            return n
        if isinstance(v, Sym): return self.vlen(v.t)
        if isinstance(v, z3.ExprRef) and v.sort() == StrS: return self.strlen(v)
        raise Unsupported(f'length of {v!r}')

    # -------------------------------------------------------------- constants
    def const(self, st, k):
        ty = self.mir.ty(k['t'])
        return self._const(ty, k)

    def _const(self, ty, k):
        if 'i' in k:
            return bool(k['i']) if ty.k == 'bool' else k['i']
        if 'agg' in k:
            v, fs = k['agg']
            c = self.cls(ty)
            if c == 'unit': return UNIT
            if c == 'bint':
                ds = fs[0]['arr']; return sum(d['i'] << (64 * i) for i, d in enumerate(ds))
            if c == 'str': return self.lit('')
            if c == 'vec': return VecV((), self.elty(ty))
            if c == 'flat':
                i, ft = self.flat(ty); 
                return self._const(ft, fs[i] if i < len(fs) else fs[0])
            if c == 'opq': return Opq('const', ty.s)
            return Adt(ty, v, [self._const(self.mir.ty(f['t']), f) for f in fs])
        if 'str' in k: return Ref(self.const_cell(self.lit(k['str'])))
        if 'bytes' in k: return Ref(self.const_cell(self.lit(k['bytes'])))
        if 'ref' in k: return Ref(self.const_cell(self._const(self.mir.ty(k['ref']['t']), k['ref'])))
        if 'arr' in k:
            return VecV(tuple(self._const(self.mir.ty(f['t']), f) for f in k['arr']), self.elty(ty))
        if 'slice' in k:
            return Ref(self.const_cell(VecV(tuple(self._const(self.mir.ty(f['t']), f) for f in k['slice']), ty.e.e)))
        if 'fn' in k: return FnV(self.mir.inst(k['fn']))
        if k.get('zst'):
            c = self.cls(ty)
            if ty.k == 'fndef':
                return FnV(self.mir.inst(ty.d['inst'])) if ty.d.get('inst') is not None else Opq('fn', ty.s)
            if c == 'unit': return UNIT
            if ty.k == 'closure': return Adt(ty, 0, [])
            if c == 'adt': return Adt(ty, 0, [])
            return Opq('zst', ty.s)
        if 'static' in k: return Opq('static', k['static'])
        if 'addr' in k: return Opq('addr', k['addr'])
        if ty.k == 'array' and ty.e.k == 'int': return VecV(tuple(0 for _ in range(ty.d['n'])), ty.e)
        return Opq('constopaque', ty.s)

    def operand(self, st, fr, o):
        k = o[0]
        if k in ('cp', 'mv'):
            l, projs = o[1]
            if not projs:
                try: return st.mem[fr[0] + l]
                except KeyError:
                    if self.cls(fr[2][l]) == 'unit': return UNIT
                    if self.cls(fr[2][l]) == 'fn': return FnV(self.mir.inst(fr[2][l].d['inst']))
                    if fr[2][l].k == 'closure': return Adt(fr[2][l], 0, [])
                    raise Unsupported(f'uninitialised local _{l}: {fr[2][l]}')
            c, p, ty = self.place(st, fr, o[1])
            if self.cls(ty) == 'unit': return UNIT
            return self.load(st, c, p)
        if k == 'k':
            kk = o[1]
            v = self.constv.get(id(kk))
            if v is None:
                v = self.const(st, kk)
                self.constv[id(kk)] = v
            return v
        if k == 'rt': return False   # runtime checks (UB/overflow checks intrinsics) off
        raise Unsupported(f'operand {o}')

    # -------------------------------------------------------------- rvalues
    def asint(self, v):
        if isinstance(v, DiscrV):
            ty = v.ty; n = len(ty.variants)
            r = zi(ty.variants[n - 1]['d'])
            for i in range(n - 2, -1, -1): r = z3.If(zb(self.isvar(v.t, i)), zi(ty.variants[i]['d']), r)
            return r
        if isinstance(v, bool): return int(v)
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def discr(self, st, v, ty):
        if isinstance(v, Adt):
            return ty.variants[v.v]['d'] if ty.is_enum else 0
        if isinstance(v, Sym):
            t = v.t
            if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                s = t.sort()
                for i in range(s.num_constructors()):
                    if s.constructor(i).eq(t.decl()): return ty.variants[i]['d']
            kv = st.known.get(t.get_id())
            if kv is not None: return ty.variants[kv]['d']
            return DiscrV(t, v.ty)
        raise Unsupported(f'discriminant of {v!r}: {ty}')

    def arith(self, op, a, b, ty, checked=None):
        """machine integer op; a,b ints/terms; result (value, overflow cond)"""
        if ty.k == 'int':
            bits, sg = ty.d['bits'], ty.d['signed']
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        else: lo, hi = None, None
        if op == 'Add': r = a + b
        elif op == 'Sub': r = a - b
        elif op == 'Mul': r = self.mul(a, b)
        else: raise Unsupported(op)
        if lo is None: return r, False
        if isint(r): return r, not (lo <= r <= hi)
        if not sg:
            if op == 'Sub': return r, a < b if not (isint(a) and isint(b)) else r < 0
            u = self.bounds(r)[1]
            if u is not None and u <= hi: return r, False
            return r, r > hi
        return r, z3.Or(r < lo, r > hi)

    def modrange(self, r, ty):
        bits, sg = ty.d['bits'], ty.d['signed']
        m = 1 << bits
        if isint(r):
            r %= m
            return r - m if sg and r >= m // 2 else r
        lo, hi = self.bounds(r)
        if lo is not None and hi is not None and lo >= (-(m // 2) if sg else 0) and hi < (m // 2 if sg else m): return r
        x = r % m
        if sg: x = z3.If(x >= m // 2, x - m, x)
        return x

    def divmod(self, op, a, b, ty):
        sg = ty.k == 'int' and ty.d['signed']
        if isint(a) and isint(b):
            if b == 0: raise Unsupported('const division by zero')
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            return q if op == 'Div' else a - q * b
        a, b = zi(a), zi(b)
        if not sg: return self.div(a, b) if op == 'Div' else self.mod(a, b)
        absa = z3.If(a >= 0, a, -a); absb = z3.If(b >= 0, b, -b)
        q = absa / absb
        q = z3.If((a >= 0) == (b >= 0), q, -q)
        return q if op == 'Div' else a - q * b

    def bitop(self, op, a, b, ty):
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if op == 'BitAnd': return And(a, b)
            if op == 'BitOr': return Or(a, b)
            if isinstance(a, bool) and isinstance(b, bool): return a != b
            return z3.Xor(zb(a), zb(b))
        if isint(a) and isint(b):
            r = {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
            return r
        if isint(a): a, b = b, a
        bits = ty.d['bits']
        if isint(b) and b >= 0:
            if op == 'BitAnd':
                if b == 0: return 0
                if b & (b + 1) == 0: return a % (b + 1)
                inv = ((1 << bits) - 1) ^ b
                if inv & (inv + 1) == 0: return a - a % (inv + 1)
            if op == 'BitOr' and b == 0: return a
            m = b.bit_length()
            if m <= 5:
                low = a % (1 << m); f = {'BitAnd': lambda x: x & b, 'BitOr': lambda x: x | b, 'BitXor': lambda x: x ^ b}[op]
                r = zi(f((1 << m) - 1))
                for x in range((1 << m) - 2, -1, -1): r = z3.If(low == x, zi(f(x)), r)
                return r if op == 'BitAnd' else a - low + r
        # general case through bit-vectors
        x, y = z3.Int2BV(zi(a), bits), z3.Int2BV(zi(b), bits)
        r = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op]
        return z3.BV2Int(r)

    def opty(self, fr, st, o):
        if o[0] == 'k': return self.mir.ty(o[1]['t'])
        if o[0] in ('cp', 'mv'):
            if not o[1][1]: return fr[2][o[1][0]]
            return self.place(st, fr, o[1])[2]
        return None

    def cmp(self, op, a, b):
        a, b = self.asint(a) if isinstance(a, DiscrV) else a, self.asint(b) if isinstance(b, DiscrV) else b
        if op in ('Eq', 'Ne'):
            if isinstance(a, (Ref, Opq, FnV)) or isinstance(b, (Ref, Opq, FnV)) or a is None:
                if a is None and b is None: return op == 'Eq'
                raise Unsupported('pointer comparison')
            e = Eq(a, b)
            return e if op == 'Eq' else Not(e)
        if isinstance(a, (bool, z3.BoolRef)): a = self.asint(a)
        if isinstance(b, (bool, z3.BoolRef)): b = self.asint(b)
        if op == 'Lt': return a < b
        if op == 'Le': return a <= b
        if op == 'Gt': return a > b
        if op == 'Ge': return a >= b

    def rvalue(self, st, fr, rv, destty):
        k = rv[0]
        if k == 'use': return self.operand(st, fr, rv[1])
        if k in ('ref', 'addr', 'reborrow'):
            c, p, ty = self.place(st, fr, rv[1])
            if ty.k == 'dyn' or (ty.k == 'adt' and self.cls(ty) == 'ref' and False):
                v = self.load(st, c, p)
                if isinstance(v, Opq): return v
            # value held behind an erased reference (inside a symbolic value): point at it
            return Ref(c, p)
        if k == 'agg':
            kind = rv[1]; ops = [self.operand(st, fr, o) for o in rv[2]]
            kk = kind[0]
            if kk == 'adt':
                ty = self.mir.ty(kind[1])
                c = self.cls(ty)
                if c == 'unit': return UNIT
                if c == 'flat':
                    if kind[3] is not None: return ops[0]
                    return ops[self.flat(ty)[0]]
                if c == 'ref': return ops[0]
                if c == 'str' and len(ops) == 1 and z3.is_expr(ops[0]) and ops[0].sort() == StrS: return ops[0]
                if c in ('str', 'vec', 'bint', 'opq'):
                    return Opq('agg:' + ty.name, ops)
                return Adt(ty, kind[2], ops)
            if kk == 'tuple':
                if self.cls(destty) == 'unit': return UNIT
                return Adt(destty, 0, ops)
            if kk == 'array':
                return VecV(tuple(ops), self.mir.ty(kind[1]))
            if kk == 'closure': return Adt(self.mir.ty(kind[1]), 0, ops)
            if kk == 'rawptr': return ops[0]
            raise Unsupported(f'aggregate {kind}')
        if k in ('bin', 'cbin'):
            op = rv[1]
            a = self.operand(st, fr, rv[2]); b = self.operand(st, fr, rv[3])
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return self.cmp(op, a, b)
            ty = self.opty(fr, st, rv[2])
            a, b = self.asint(a) if isinstance(a, DiscrV) else a, self.asint(b) if isinstance(b, DiscrV) else b
            if k == 'cbin' or op.endswith('WithOverflow'):
                r, ov = self.arith(op.replace('WithOverflow', ''), a, b, ty)
                return Adt(destty, 0, [r, ov])
            if op.endswith('Unchecked'): op = op[:-9]
            if op in ('Add', 'Sub', 'Mul'):
                r, ov = self.arith(op, a, b, ty)
                if ov is False: return r
                return self.modrange(r, ty)
            if op in ('Div', 'Rem'): return self.divmod(op, a, b, ty)
            if op in ('BitAnd', 'BitOr', 'BitXor'): return self.bitop(op, a, b, ty)
            if op == 'Shl' and isint(b): return self.modrange(a * (1 << b), ty)
            if op == 'Shr' and isint(b): return a // (1 << b) if isint(a) else a / (1 << b)
            if op == 'Cmp':
                if isint(a) and isint(b): return Adt(destty, 0 if a < b else (1 if a == b else 2), [])
                s = self.sort(destty)
                return self.wrap(destty, z3.If(zi(a) < zi(b), s.constructor(0)(), z3.If(zi(a) == zi(b), s.constructor(1)(), s.constructor(2)())))
            if op == 'Offset': raise Unsupported('pointer offset')
            raise Unsupported('binop ' + op)
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if isinstance(a, (bool, z3.BoolRef)): return Not(a)
                ty = self.opty(fr, st, rv[2])
                return ((1 << ty.d['bits']) - 1) - a if not ty.d['signed'] else -a - 1
            if rv[1] == 'Neg': return -a
            if rv[1] == 'PtrMetadata': return self.length(st, a)
            raise Unsupported('unop ' + rv[1])
        if k == 'cast':
            a = self.operand(st, fr, rv[2]); to = self.mir.ty(rv[3]); ck = rv[1]
            if ck == 'IntToInt':
                fr_ty = self.opty(fr, st, rv[2])
                a = self.asint(a)
                if to.k != 'int': return a
                if isint(a): return self.modrange(a, to)
                if fr_ty.k == 'int':
                    fb, fs, tb, ts = fr_ty.d['bits'], fr_ty.d['signed'], to.d['bits'], to.d['signed']
                    if fb == tb and fs == ts or (not fs and tb > fb) or (fs and ts and tb >= fb): return a
                elif fr_ty.k in ('bool', 'char', 'adt'): return a
                return self.modrange(a, to)
            if ck.startswith('PointerCoercion(Unsize') or ck.startswith('PtrToPtr') or ck.startswith('Transmute') or ck.startswith('BoxDeref') or ck.startswith('PointerCoercion(MutToConst') or ck.startswith('Subtype'):
                return a
            if ck.startswith('PointerCoercion(ReifyFnPointer') or ck.startswith('PointerCoercion(Closure') or ck.startswith('PointerCoercion(Unsafe'):
                return a
            if ck.startswith('PointerExposeAddress') or ck.startswith('PointerWithExposedProvenance'): return a
            raise Unsupported('cast ' + ck)
        if k == 'discr':
            c, p, ty = self.place(st, fr, rv[1])
            return self.discr(st, self.load(st, c, p), ty)
        if k == 'len':
            c, p, ty = self.place(st, fr, rv[1])
            return self.length(st, self.load(st, c, p))
        if k == 'repeat':
            a = self.operand(st, fr, rv[1]); n = rv[2]
            if n > 64: return Opq('bigarray', (a, n))
            return VecV(tuple([a] * n), self.elty(destty))
        raise Unsupported(f'rvalue {k}')

    # -------------------------------------------------------------- calls
    def call(self, st, inst, args, track=True):
        """-> list of (state, value)"""
        if isinstance(inst, int): inst = self.mir.inst(inst)
        c = self.contracts.get(inst.name)
        if c is not None:
            r = c(self, st, inst, args)
            if r is not None: return r
        m = inst.model
        if m is False: m = inst.model = self.models.lookup(inst)
        if m is not None:
            self.used_models[inst.name] = self.used_models.get(inst.name, 0) + 1
            r = m(self, st, inst, args)
            if r is NotImplemented: pass
            else:
                if isinstance(r, list): return r
                return [(st, r)]
        if FNCALL.search(inst.name) and len(args) == 2:
            return self.call_value(st, args[0], self.untuple(st, args[1]))
        if not inst.has_body:
            r = inst.ret
            if r is not None and r.k == 'adt':   # tuple struct / variant constructor
                last = re.sub(r'::<.*>$', '', inst.name).split('::')[-1]
                for i, v in enumerate(r.variants):
                    if v['n'] == last and len(v['f']) == len(args) and inst.name.startswith(r.name.split('<')[0]):
                        c = self.cls(r)
                        if c == 'flat': return [(st, args[self.flat(r)[0]])]
                        if c == 'adt': return [(st, Adt(r, i, list(args)))]
            raise Unsupported(f'no body or model: {inst.kind} {inst.full}')
        if len(args) == 2 and inst.name.endswith('}') and CLOS.search(inst.name):
            args = [args[0]] + self.untuple(st, args[1])
        self.inlined[inst.name] = self.inlined.get(inst.name, 0) + 1
        return self.run_body(st, inst, args)

    def call_value(self, st, f, args):
        """call a closure / fn value with untupled args"""
        f0 = f
        f = self.deref(st, f) if isinstance(f, Ref) else f
        if isinstance(f, FnV): return self.call(st, f.inst, args)
        if isinstance(f, Adt) and f.ty.k == 'closure':
            inst = self.mir.inst(f.ty.d['once'])
            return self.call_closure(st, f0, f, args)
        if callable(f): return f(st, args)
        raise Unsupported(f'call of {f!r}')

    def call_closure(self, st, f0, f, args):
        inst = self.mir.inst(f.ty.d['once'])
        b = inst.body
        selfty = self.mir.ty(b['locals'][1])
        if inst.kind == 'shim' or b['nargs'] != len(args) + 1:
            # ClosureOnceShim: args are (closure, tuple)
            pass
        if selfty.k == 'ref':
            me = f0 if isinstance(f0, Ref) else self.ref_to(st, f)
        else: me = f
        if b['nargs'] == len(args) + 1 and b['spread'] is None:
            return self.run_body(st, inst, [me] + list(args))
        tup = Adt(self.mir.ty(b['locals'][2]), 0, list(args))
        return self.run_body(st, inst, [me, tup])

    def run_body(self, st, inst, args):
        b = inst.body
        if b is None: raise Unsupported('no body ' + inst.full)
        n = len(b['locals'])
        ltys = b.get('_tys')
        if ltys is None: ltys = b['_tys'] = [self.mir.ty(t) for t in b['locals']]
        if b['nargs'] != len(args):
            # rust-call: untuple
            if b['nargs'] == len(args) - 1 + self.tuplen(args[-1], inst) :
                args = list(args[:-1]) + self.untuple(st, args[-1])
            elif b['spread'] is not None and len(args) > b['nargs']:
                k = b['spread'] - 1
                args = list(args[:k]) + [Adt(ltys[b['spread']], 0, list(args[k:]))]
            else: raise Unsupported(f'arity of {inst.full}: {b["nargs"]} vs {len(args)}')
        base = self.ncell + 1
        self.ncell += n
        fr = (base, b, ltys)
        for i, a in enumerate(args): st.mem[base + 1 + i] = a
        pc0 = st.pc; mem0 = None
        self.depth += 1
        self.names.append(inst.name)
        if self.trace: print('  ' * self.depth + inst.full[:150], flush=True)
        if self.depth > 120: raise Unsupported('recursion depth: ' + inst.full)
        snap_mem = dict(st.mem); snap_store = st.store.copy()
        outs = []
        work = [(st, 0, None)]
        try:
            while work:
                st, bb, visits = work.pop()
                try:
                    self.run_block(st, fr, inst, bb, visits, work, outs)
                except (Unsupported, z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
                    if self.debug and not isinstance(e, Unsupported): raise
                    if not isinstance(e, Unsupported):
                        import traceback
                        tb = traceback.extract_tb(e.__traceback__)[-1]
                        e = Unsupported(f'{type(e).__name__}: {e} [{tb.name}:{tb.lineno}]')
                    if self.debugu and self.debugu in str(e): raise
                    if not hasattr(e, 'where'): e.where = ' < '.join(x[-50:] for x in self.names[-2:-5:-1]) + f' @ {inst.full} bb{bb} line {b["bbs"][bb][2]} of {inst.d["file"]}'
                    if self.feasible(st):
                        self.unsup.append((str(e), e.where, st))
        finally:
            self.depth -= 1; self.names.pop()
        for s, v in outs:
            m = s.mem
            for i in range(base, base + n): m.pop(i, None)
        if len(outs) > 1: outs = self.merge(pc0, snap_mem, snap_store, outs, inst)
        return outs

    def tuplen(self, a, inst):
        if isinstance(a, Adt) and a.ty.k == 'tuple': return len(a.f)
        if a is UNIT: return 0
        return -999
    def untuple(self, st, a):
        if a is UNIT: return []
        return list(a.f)

    def run_block(self, st, fr, inst, bb, visits, work, outs):
        base, b, ltys = fr
        region = hasattr(work, 'region')
        while True:
            self.stats['steps'] += 1
            if self.deadline and self.stats['steps'] % 512 == 0 and time.time() > self.deadline: raise TimeoutError('engine deadline')
            stmts, term, line = b['bbs'][bb]
            for s in stmts:
                if s[0] == '=':
                    l, projs = s[1]
                    if not projs:
                        st.mem[base + l] = self.rvalue(st, fr, s[2], ltys[l])
                    else:
                        c, p, ty = self.place(st, fr, s[1])
                        v = self.rvalue(st, fr, s[2], ty)
                        if self.cls(ty) == 'unit' and p: continue
                        self.store(st, c, p, v)
                elif s[0] == 'setd':
                    c, p, ty = self.place(st, fr, s[1])
                    try: old = self.load(st, c, p)
                    except Unsupported: old = None
                    f = old.f if isinstance(old, Adt) and old.v == s[2] else [UNINIT] * len(ty.fields(s[2]))
                    self.store(st, c, p, Adt(ty, s[2], f))
                elif s[0] == 'assume': pass
                else: raise Unsupported(f'stmt {s}')
            k = term[0]
            if k == 'goto': nb = term[1]
            elif k == 'drop': nb = term[2]
            elif k == 'return':
                v = st.mem.get(base)
                if v is None and self.cls(ltys[0]) == 'unit': v = UNIT
                outs.append((st, v)); return
            elif k == 'switch':
                d = self.operand(st, fr, term[1])
                if isinstance(d, bool): d = int(d)
                if isint(d):
                    nb = term[3]
                    dty = None
                    for val, tgt in term[2]:
                        if val == d or (d < 0 and val == d % (1 << 128)): nb = tgt; break
                        if d < 0:
                            dty = dty or self.opty(fr, st, term[1])
                            if dty.k == 'int' and val == d % (1 << dty.d['bits']): nb = tgt; break
                else:
                    self.switch(st, fr, inst, d, term, visits, work, outs, bb); return
            elif k == 'assert':
                c = self.operand(st, fr, term[1])
                if not term[2]: c = Not(c)
                c = self.simp(c)
                if c is False:
                    self.panic(st, inst, term[3]); return
                if c is not True:
                    if self.panics is not None:
                        s2 = st.fork(); s2.add(Not(c))
                        if self.feasible(s2): self.panic(s2, inst, term[3])
                    st.add(c)
                nb = term[4]
            elif k == 'call':
                self.do_call(st, fr, inst, term, bb, visits, work, outs)
                return
            elif k == 'unreachable': return
            elif k in ('resume', 'abort'): return
            else: raise Unsupported(f'terminator {term}')
            if nb <= bb:
                visits = self.visit(visits, nb, inst)
            if region and work.out(nb): work.ends.append((st, nb)); return
            bb = nb

    def visit(self, visits, nb, inst):
        visits = dict(visits) if visits else {}
        c = visits.get(nb, 0) + 1
        visits[nb] = c
        if c > self.maxvisit: raise Unsupported('loop bound in ' + inst.full)
        return visits

    def panic(self, st, inst, msg):
        if self.panics is not None: self.panics.append((st, f'{inst.name}: {msg}'))

    def switch(self, st, fr, inst, d, term, visits, work, outs, bb):
        cases = []
        if isinstance(d, DiscrV):
            ty = d.ty; rest = []
            byd = {}
            for i, v in enumerate(ty.variants): byd[v['d'] % (1 << 128)] = i
            used = set()
            for val, tgt in term[2]:
                i = byd.get(val)
                if i is None:
                    for dd, ii in byd.items():
                        if dd % (1 << 64) == val or dd % 256 == val: i = ii
                if i is None: continue
                used.add(i); cases.append((self.isvar(d.t, i), tgt, i))
            others = [i for i in range(len(ty.variants)) if i not in used]
            if others:
                if len(others) == 1: cases.append((self.isvar(d.t, others[0]), term[3], others[0]))
                else: cases.append((And(*[Not(c[0]) for c in cases]), term[3], None))
        elif isinstance(d, z3.BoolRef):
            # switch on 0 => false
            tg = dict(term[2])
            f = tg.get(0, term[3]); t = tg.get(1, term[3])
            cases = [(Not(d), f, None), (d, t, None)]
        elif isinstance(d, z3.ArithRef):
            for val, tgt in term[2]: cases.append((d == val, tgt, None))
            cases.append((And(*[Not(c[0]) for c in cases]), term[3], None))
        else: raise Unsupported(f'switch on {d!r}')
        live = []
        for c, tgt, i in cases:
            c = self.simp(c)
            if c is False: continue
            live.append((c, tgt, i))
        if len(live) > 1 or (len(live) == 1 and live[0][0] is not True):
            n = len(live); l2 = []
            for idx, (c, tgt, i) in enumerate(live):
                if idx == n - 1 and not l2 and c is not True:
                    # all others infeasible: the state itself may be infeasible, but cases are exhaustive
                    l2.append((True if len(cases) == n or True else c, tgt, i)); break
                if c is True or self.feasible(st, c): l2.append((c, tgt, i))
            live = l2
        for idx, (c, tgt, i) in enumerate(live):
            s2 = st if idx == len(live) - 1 else st.fork()
            s2.add(c if c is not True else True)
            if i is not None and isinstance(d, DiscrV): s2.known[d.t.get_id()] = i; self._keep.append(d.t)
            vs = visits
            if tgt <= bb:
                vs = self.visit(visits, tgt, inst)
            work.append((s2, tgt, vs))

    def do_call(self, st, fr, inst, term, bb, visits, work, outs):
        base, b, ltys = fr
        _, f, ops, dest, target = term
        args = [self.operand(st, fr, o) for o in ops]
        if f[0] == 'fn':
            callee = self.mir.inst(f[1])
            if bb in b.get('_heads', ALL) and NEXT.search(callee.name) and self.loopsum:
                import mloops
                if mloops.try_loop(self, st, fr, inst, callee, args, term, bb, visits, work, outs): return
            res = self.call(st, callee, args)
        elif f[0] == 'dynf':
            fv = self.operand(st, fr, f[1])
            res = self.call_value(st, fv, args)
        else: raise Unsupported(f'unresolved call {f}')
        if target is None: return
        for s, v in res:
            l, projs = dest
            if not projs: s.mem[base + l] = v
            else:
                c, p, ty = self.place(s, fr, dest)
                self.store(s, c, p, v)
            vs = visits
            if target <= bb: vs = self.visit(visits, target, inst)
            work.append((s, target, vs))

    # -------------------------------------------------------------- merging
    def termable(self, v):
        if isinstance(v, (bool, int, z3.ExprRef, Sym)) or v is UNIT: return True
        if isinstance(v, Adt): return isinstance(v.ty, Ty) and v.ty.k in ('adt', 'tuple') and all(self.termable(x) for x in v.f)
        return False

    def mkey(self, v):
        """merge class of a value: None if not mergeable"""
        if isinstance(v, bool) or isinstance(v, z3.BoolRef): return 'b'
        if isinstance(v, int) or isinstance(v, z3.ArithRef): return 'i'
        if isinstance(v, z3.ExprRef): return ('s', v.sort().get_id())
        if v is UNIT: return 'u'
        if isinstance(v, Ref): return ('r', v.c, tuple(x[1] if isinstance(x[1], int) else str(x[1]) for x in v.p))
        if isinstance(v, (Adt, Sym)) and isinstance(v.ty, Ty) and v.ty.is_enum and v.ty.name != 'core::result::Result' and self.termable(v) and \
                self.sort(v.ty).kind() == z3.Z3_DATATYPE_SORT:
            return ('e', v.ty.s)
        if isinstance(v, Adt) and isinstance(v.ty, Ty):
            ks = tuple(self.mkey(x) for x in v.f)
            if any(k is None for k in ks): return None
            return ('a', v.ty.s, v.v, ks)
        if isinstance(v, Sym): return ('y', v.t.sort().get_id())
        if isinstance(v, VecV):
            ks = tuple(self.mkey(x) for x in v.e)
            if any(k is None for k in ks): return None
            return ('v', ks)
        if isinstance(v, Seg):
            k = self.mkey(v.val)
            return None if k is None else ('sg', k)
        if isinstance(v, FnV): return ('f', v.inst.id)
        return ('id', id(v))

    def mval(self, conds, vals):
        v0 = vals[0]
        if all(v is v0 for v in vals): return v0
        if v0 is UNIT or isinstance(v0, (Ref, FnV)): return v0
        if isinstance(v0, (Adt, Sym)) and isinstance(v0.ty, Ty) and v0.ty.is_enum and v0.ty.name != 'core::result::Result':
            if all(isinstance(v, Adt) and v.v == v0.v for v in vals) and len({tuple(self.mkey(x) for x in v.f) for v in vals}) == 1:
                return Adt(v0.ty, v0.v, [self.mval(conds, [v.f[i] for v in vals]) for i in range(len(v0.f))])
            ts = [self.term(v, v0.ty) for v in vals]
            r = ts[-1]
            for c, t in list(zip(conds, ts))[-2::-1]: r = Ite(c, t, r)
            return self.wrap(v0.ty, r)
        if isinstance(v0, Adt):
            if not all(isinstance(v, Adt) for v in vals):
                ts = [self.term(v, v0.ty) for v in vals]; r = ts[-1]
                for c, t in list(zip(conds, ts))[-2::-1]: r = Ite(c, t, r)
                return self.wrap(v0.ty, r)
            return Adt(v0.ty, v0.v, [self.mval(conds, [v.f[i] for v in vals]) for i in range(len(v0.f))])
        if isinstance(v0, Sym):
            r = vals[-1].t
            for c, v in list(zip(conds, vals))[-2::-1]: r = Ite(c, v.t, r)
            return Sym(v0.ty, r)
        if isinstance(v0, VecV): return VecV(tuple(self.mval(conds, [v.e[i] for v in vals]) for i in range(len(v0.e))), v0.ety)
        if isinstance(v0, Seg):
            ns = v0.n
            r = vals[-1].n
            for c, v in list(zip(conds, vals))[-2::-1]: r = Ite(c, v.n, r)
            return Seg(r, v0.j, self.mval(conds, [v.val if v.j.eq(v0.j) else self.subst(v.val, v.j, v0.j) for v in vals]), all(v.cond is True for v in vals) or v0.cond)
        if isinstance(v0, (Opq, IterV)): return v0
        r = vals[-1]
        for c, v in list(zip(conds, vals))[-2::-1]: r = Ite(c, v, r)
        return r

    def merge(self, pc0, mem0, store0, outs, inst):
        groups = {}; res = []
        for s, v in outs:
            k = self.mkey(v)
            if k is None: res.append((s, v)); continue
            ks = []
            bad = False
            for c, x in mem0.items():
                y = s.mem.get(c, s)
                if y is x or y is s: continue
                q = self.mkey(y)
                if q is None: bad = True; break
                ks.append((c, q))
            if bad: res.append((s, v)); continue
            # cells written in some states but not others still have to agree on the class
            hs = tuple((n, h) for n, h in s.store.items() if isinstance(n, tuple) and n not in GHOSTS)
            hk = tuple((n, len(h), tuple(id(z) for z in h)) for n, h in hs)
            ns = frozenset(n for n in s.store if isinstance(n, tuple) and n not in GHOSTS)
            groups.setdefault((k, s.tags, hk, ns), []).append((s, v, ks))
        for k, g in groups.items():
            if len(g) == 1: res.append(g[0][:2]); continue
            # second-level: memory classes compatible
            cells = set(c for _, _, ks in g for c, _ in ks)
            sub = {}
            for s, v, ks in g:
                d = dict(ks)
                sig = tuple((c, d[c] if c in d else self.mkey(s.mem[c])) for c in sorted(cells) if c in s.mem)
                sub.setdefault(sig, []).append((s, v))
            for sig, gg in sub.items():
                if len(gg) == 1 or any(x[1] is None for x in sig): res += gg; continue
                res.append(self.join(pc0, [c for c, _ in sig], gg))
        return res

    def join(self, pc0, cells, g):
        conds = []; lazy = {}
        for s, v in g:
            fs = []; p = s.pc; lz = []
            while p is not pc0:
                (lz if p.lazy else fs).append(p.f); p = p.up
            conds.append(And(*reversed(fs)))
            for f in reversed(lz): lazy.setdefault(f.get_id(), (f, []))[1].append(conds[-1])
        lazies = [f if len(cs) == len(g) else Implies(Or(*cs), f) for f, cs in lazy.values()]     # a fact every branch has needs no guard
        s0 = g[0][0]
        val = self.mval(conds, [v for _, v in g])
        newmem = {c: self.mval(conds, [s.mem[c] for s, _ in g]) for c in cells}
        newstore = {}
        for n in set().union(*[s.store.keys() for s, _ in g]):
            if n in GHOSTS:
                u = {id(x): x for s, _ in g for x in s.store.get(n, ())}
                newstore[n] = tuple(u.values()); continue
            if isinstance(n, tuple): newstore[n] = s0.store[n]; continue
            ts = [s.store.get(n) if n in s.store else self.item0[n] for s, _ in g]
            r = ts[-1]
            for c, t in list(zip(conds, ts))[-2::-1]: r = Ite(c, t, r)
            newstore[n] = r
        kn = dict(s0.known)
        for s, _ in g[1:]:
            kn = {k: v for k, v in kn.items() if s.known.get(k) == v}
            for c, x in s.mem.items():
                if c not in s0.mem: s0.mem[c] = x
        for s, _ in g[1:]:
            for q, x in s.ghost.items():
                if q not in s0.ghost: s0.ghost[q] = x
        s0.known = kn
        s0.pc = pc0
        s0.store.update(newstore)
        s0.mem.update(newmem)
        s0.add(self.simp(Or(*conds)))
        for f in lazies: s0.addlazy(f)
        self.stats['merged'] += len(g) - 1
        return s0, val


def _late(self): pass


def _strip_refs(self, ty):
    while True:
        if ty.k in ('ref', 'ptr'): ty = ty.e
        else: return ty
Engine.strip_refs = _strip_refs


def _modrange_(self, r, b, sg):
    m = 1 << b
    if isint(r):
        r %= m
        return r - m if sg and r >= m // 2 else r
    x = r % m
    return z3.If(x >= m // 2, x - m, x) if sg else x
Engine.modrange_ = _modrange_


class _TupTy:
    """stand-in tuple type of unknown component types"""
    k = 'tuple'; is_enum = False; name = ''
    def __init__(self, n): self.n = n; self.s = 'tuple%d' % n; self.id = ('tup', n); self._extra = False; self._cls = 'tuple'; self._flat = None; self._sort = None
    def fields(self, v=0): raise Unsupported('untyped tuple')


def _any_tuple(self, n):
    k = ('anytuple', n)
    if k not in self.sorts: self.sorts[k] = _TupTy(n)
    return self.sorts[k]
Engine.any_tuple = _any_tuple


Engine.item0 = None
Engine.on_write = None
Engine.sum_hook = None
Engine.keep_attrs = False


def _height(self):
    return self.cur_height
Engine.height = _height
_oi = Engine.__init__


def _ni(self, *a, **k):
    _oi(self, *a, **k)
    self.item0 = {}; self.queries = []; self.json_tys = {}; self.loopmaps = {}; self.ranges = []; self.pwl = []; self.iter_kinds = {}
    self.cur_height = z3.Const('env.block.height', z3.IntSort())
Engine.__init__ = _ni

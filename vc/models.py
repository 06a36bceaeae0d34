"""Trusted contracts (models) of dependency functions: core/alloc leaves,
cosmwasm-std externs, cw-storage-plus leaf operations, big integers."""
import re, z3
from engine import *
import engine as E
import loops

EXACT = {}
REGEX = []
_cache = {}


def M(*names):
    def d(f):
        for n in names: EXACT[n] = f
        return f
    return d


def R(*pats):
    def d(f):
        for p in pats: REGEX.append((re.compile(p), f))
        return f
    return d


def lookup(inst):
    n = inst.name
    f = EXACT.get(n)
    if f is not None: return f
    for p, f in REGEX:
        if p.search(n): return f
    return None


# ------------------------------------------------------------------ helpers
def retty(ex, inst):
    b = inst.body
    if b is None:
        if inst.ret is not None: return inst.ret
        raise Unsupported('return type of ' + inst.full)
    return ex.mir.ty(b['locals'][0])

def argty(ex, inst, i):
    return ex.mir.ty(inst.body['locals'][1 + i])

def ok(rty, v): return Adt(rty, 0, [v])
def err(rty, v): return Adt(rty, 1, [v])
def none(oty): return Adt(oty, 0, [])
def some(oty, v): return Adt(oty, 1, [v])
def errty(rty): return rty.args[1]
def okty(rty): return rty.args[0]

def mkerr(ex, ety, variant, st=None):
    """some error value of (std) error type"""
    if not ety.is_enum:
        c = ex.cls(ety)
        if c == 'unit': return UNIT
        return ex.wrap(ety, ex.fresh('err', ex.sort(ety)))
    for i, v in enumerate(ety.variants):
        if v['n'] == variant:
            return Adt(ety, i, [ex.wrap(t, ex.fresh('err', ex.sort(t))) for _, t in ety.fields(i)])
    raise Unsupported(f'error variant {variant} of {ety}')

def stderr_(ex, ety, variant='GenericErr'):
    try: return mkerr(ex, ety, variant)
    except Unsupported: return ex.wrap(ety, ex.fresh('err', ex.sort(ety)))

def isscal(v): return isinstance(v, (bool, int, z3.ExprRef))

def result_of_opt(ex, st, rty, t, variant='GenericErr', wrapf=None):
    """fork on Opt term t: Some -> Ok(value), None -> Err"""
    res = []
    for s, b in ex.split(st, ex.is_none(t)):
        if b: res.append((s, err(rty, stderr_(ex, errty(rty), variant))))
        else: res.append((s, ok(rty, (wrapf or (lambda x: ex.wrap(okty(rty), x)))(ex.unsome(t)))))
    return res

def fork_bool(ex, st, cond, ft, ff):
    res = []
    for s, b in ex.split(st, cond):
        v = (ft if b else ff)
        res.append((s, v(s) if callable(v) else v))
    return res

def opt_val(ex, oty, cond, v, st):
    """Option value: Some(v) if cond"""
    if cond is True: return some(oty, v)
    if cond is False: return none(oty)
    t = ex.term(v, oty.args[0], st)
    return ex.wrap(oty, Ite(cond, ex.some(t), ex.none(t.sort())))


# ------------------------------------------------------------------ storage
def nsname(ex, st, v):
    v = ex.deref(st, v)
    if isinstance(v, Adt): raise Unsupported(f'namespace {v!r}')
    if isinstance(v, z3.ExprRef):
        s = ex.litof.get(v.get_id())
        if s is None: s = 'dyn:' + str(v)
        return s
    raise Unsupported(f'namespace {v!r}')

def item_get(ex, st, ns, vs, T=None):
    if T is not None: ex.nsty[ns] = (None, T)
    t = st.store.get(ns)
    if t is None:
        t = st.store[ns] = z3.Const('s0!' + ns, ex.opt(vs)); ex.item0[ns] = t
    if t.sort() != ex.opt(vs): raise Unsupported(f'storage item {ns} used with two types: {t.sort()} / {vs}')
    return t

def map_get(ex, st, ns, ks, vs, K=None, T=None):
    if T is not None: ex.nsty[ns] = (K, T)
    t = st.store.get(ns)
    if t is None:
        t = st.store[ns] = z3.Const('s0!' + ns, z3.ArraySort(ks, ex.opt(vs)))
        ex.item0[ns] = t
    if t.sort() != z3.ArraySort(ks, ex.opt(vs)): raise Unsupported(f'storage map {ns} used with two types: {t.sort()}')
    return t

def sel(ex, arr, k):
    """select with cheap simplification of stores on syntactically equal keys"""
    while z3.is_app_of(arr, z3.Z3_OP_STORE):
        if arr.arg(1).eq(k): return arr.arg(2)
        d = z3.simplify(arr.arg(1) == k)
        if z3.is_true(d): return arr.arg(2)
        if z3.is_false(d): arr = arr.arg(0); continue
        break
    return z3.Select(arr, k)

IT = 'cw_storage_plus::item::Item::<\'a, T>::'

@M(IT + 'load')
def _(ex, st, inst, a):
    ty = inst.args[0]; ns = nsname(ex, st, a[0])
    return result_of_opt(ex, st, retty(ex, inst), item_get(ex, st, ns, ex.sort(ty), ty), 'NotFound')

@M(IT + 'may_load')
def _(ex, st, inst, a):
    ty = inst.args[0]; ns = nsname(ex, st, a[0]); r = retty(ex, inst)
    return ok(r, ex.wrap(okty(r), item_get(ex, st, ns, ex.sort(ty), ty)))

@M(IT + 'exists')
def _(ex, st, inst, a):
    ns = nsname(ex, st, a[0])
    return ex.is_some(item_get(ex, st, ns, ex.sort(inst.args[0]), inst.args[0]))

@M(IT + 'save')
def _(ex, st, inst, a):
    ty = inst.args[0]; ns = nsname(ex, st, a[0]); item_get(ex, st, ns, ex.sort(ty), ty)
    st.store[ns] = ex.some(ex.term(a[2], ty, st))
    wr(ex, st, ns, None)
    return ok(retty(ex, inst), UNIT)

@M(IT + 'remove')
def _(ex, st, inst, a):
    ty = inst.args[0]; ns = nsname(ex, st, a[0]); item_get(ex, st, ns, ex.sort(ty), ty)
    st.store[ns] = ex.none(ex.sort(ty)); wr(ex, st, ns, None)
    return UNIT

def wr(ex, st, ns, key):
    """ghost log of writes, for Σ-invariants and frame conditions"""
    h = ex.on_write
    if h is not None: h(ex, st, ns, key)

MP = 'cw_storage_plus::map::Map::<\'a, K, T>::'

def mapargs(ex, st, inst, a):
    K, T = inst.args[0], inst.args[1]
    ns = nsname(ex, st, a[0])
    ks, vs = ex.sort(K), ex.sort(T)
    return ns, K, T, map_get(ex, st, ns, ks, vs, K, T)

def keyterm(ex, st, k, K):
    return ex.term(k, K, st)

@M(MP + 'load')
def _(ex, st, inst, a):
    ns, K, T, m = mapargs(ex, st, inst, a)
    k = keyterm(ex, st, a[2], K)
    return result_of_opt(ex, st, retty(ex, inst), sel(ex, m, k), 'NotFound')

@M(MP + 'may_load')
def _(ex, st, inst, a):
    ns, K, T, m = mapargs(ex, st, inst, a)
    r = retty(ex, inst)
    return ok(r, ex.wrap(okty(r), sel(ex, m, keyterm(ex, st, a[2], K))))

@M(MP + 'has')
def _(ex, st, inst, a):
    ns, K, T, m = mapargs(ex, st, inst, a)
    return ex.is_some(sel(ex, m, keyterm(ex, st, a[2], K)))

@M(MP + 'save')
def _(ex, st, inst, a):
    ns, K, T, m = mapargs(ex, st, inst, a)
    k = keyterm(ex, st, a[2], K)
    st.store[ns] = z3.Store(m, k, ex.some(ex.term(a[3], T, st)))
    wr(ex, st, ns, k)
    return ok(retty(ex, inst), UNIT)

@M(MP + 'remove')
def _(ex, st, inst, a):
    ns, K, T, m = mapargs(ex, st, inst, a)
    k = keyterm(ex, st, a[2], K)
    st.store[ns] = z3.Store(m, k, ex.none(ex.sort(T)))
    wr(ex, st, ns, k)
    return UNIT

# snapshot map / item: primary map + value-at-height history
SM = 'cw_storage_plus::snapshot::map::SnapshotMap::<\'a, K, T>::'
SI = 'cw_storage_plus::snapshot::item::SnapshotItem::<\'a, T>::'

def snapargs(ex, st, inst, a):
    v = ex.deref(st, a[0])
    K, T = inst.args[0], inst.args[1]
    if not isinstance(v, Adt): raise Unsupported(f'snapshot map {v!r}')
    ns = None
    for (n, ft), x in zip(v.ty.fields(), v.f):
        if n == 'primary': ns = nsname(ex, st, x)
    return ns, K, T, map_get(ex, st, ns, ex.sort(K), ex.sort(T), K, T)

def snap_hist(ex, st, ns):
    return st.store.get(('hist', ns), ())

def snap_read(ex, st, ns, k, h, ks, vs, cur):
    """value at the start of height h"""
    m0 = ex.item0[ns]
    f = ex.fn('hist!' + ns, ks, z3.IntSort(), ex.opt(vs)) if ks is not None else ex.fn('hist!' + ns, z3.IntSort(), ex.opt(vs))
    base = f(k, zi(h)) if ks is not None else f(zi(h))
    prim = z3.Select(m0, k) if ks is not None else m0
    r = Ite(zi(h) > ex.height(), prim, base)
    for (k2, h2, v2) in snap_hist(ex, st, ns):
        c = And(Eq(k, k2) if ks is not None else True, zi(h) > zi(h2))
        r = Ite(ex.simp(c), v2, r)
    return r

@M(SM + 'load')
def _(ex, st, inst, a):
    ns, K, T, m = snapargs(ex, st, inst, a)
    return result_of_opt(ex, st, retty(ex, inst), sel(ex, m, keyterm(ex, st, a[2], K)), 'NotFound')

@M(SM + 'may_load')
def _(ex, st, inst, a):
    ns, K, T, m = snapargs(ex, st, inst, a); r = retty(ex, inst)
    return ok(r, ex.wrap(okty(r), sel(ex, m, keyterm(ex, st, a[2], K))))

@M(SM + 'has')
def _(ex, st, inst, a):
    ns, K, T, m = snapargs(ex, st, inst, a)
    return ex.is_some(sel(ex, m, keyterm(ex, st, a[2], K)))

@M(SM + 'save')
def _(ex, st, inst, a):
    ns, K, T, m = snapargs(ex, st, inst, a)
    k = keyterm(ex, st, a[2], K); v = ex.some(ex.term(a[3], T, st))
    st.store[ns] = z3.Store(m, k, v)
    st.store[('hist', ns)] = snap_hist(ex, st, ns) + ((k, a[4], v),)
    wr(ex, st, ns, k)
    return ok(retty(ex, inst), UNIT)

@M(SM + 'remove')
def _(ex, st, inst, a):
    ns, K, T, m = snapargs(ex, st, inst, a)
    k = keyterm(ex, st, a[2], K); v = ex.none(ex.sort(T))
    st.store[ns] = z3.Store(m, k, v)
    st.store[('hist', ns)] = snap_hist(ex, st, ns) + ((k, a[3], v),)
    wr(ex, st, ns, k)
    return ok(retty(ex, inst), UNIT)

@M(SM + 'may_load_at_height')
def _(ex, st, inst, a):
    ns, K, T, m = snapargs(ex, st, inst, a); r = retty(ex, inst)
    t = snap_read(ex, st, ns, keyterm(ex, st, a[2], K), a[3], ex.sort(K), ex.sort(T), m)
    return ok(r, ex.wrap(okty(r), t))

def snapitem(ex, st, inst, a):
    v = ex.deref(st, a[0]); T = inst.args[0]
    if not isinstance(v, Adt): raise Unsupported(f'snapshot item {v!r}')
    for (n, ft), x in zip(v.ty.fields(), v.f):
        if n == 'primary': ns = nsname(ex, st, x)
    return ns, T, item_get(ex, st, ns, ex.sort(T), T)

@M(SI + 'load')
def _(ex, st, inst, a):
    ns, T, t = snapitem(ex, st, inst, a)
    return result_of_opt(ex, st, retty(ex, inst), t, 'NotFound')

@M(SI + 'may_load')
def _(ex, st, inst, a):
    ns, T, t = snapitem(ex, st, inst, a); r = retty(ex, inst)
    return ok(r, ex.wrap(okty(r), t))

@M(SI + 'save')
def _(ex, st, inst, a):
    ns, T, t = snapitem(ex, st, inst, a)
    v = ex.some(ex.term(a[2], T, st))
    st.store[ns] = v; st.store[('hist', ns)] = snap_hist(ex, st, ns) + ((None, a[3], v),)
    wr(ex, st, ns, None)
    return ok(retty(ex, inst), UNIT)

@M(SI + 'remove')
def _(ex, st, inst, a):
    ns, T, t = snapitem(ex, st, inst, a)
    v = ex.none(ex.sort(T))
    st.store[ns] = v; st.store[('hist', ns)] = snap_hist(ex, st, ns) + ((None, a[2], v),)
    wr(ex, st, ns, None)
    return ok(retty(ex, inst), UNIT)

@M(SI + 'may_load_at_height')
def _(ex, st, inst, a):
    ns, T, t = snapitem(ex, st, inst, a); r = retty(ex, inst)
    return ok(r, ex.wrap(okty(r), snap_read(ex, st, ns, None, a[2], None, ex.sort(T), t)))

# ------------------------------------------------------------------ externs
@R(r'^cosmwasm_std::traits::Api::addr_validate$')
def _(ex, st, inst, a):
    s = ex.deref(st, a[1])
    c = ex.fn('valid_addr', E.StrS, z3.BoolSort())(s)
    rty = retty(ex, inst)
    return fork_bool(ex, st, c, lambda _: ok(rty, s), lambda _: err(rty, mkerr(ex, errty(rty), 'GenericErr')))

def q_generic(ex, st, rty, R_, tag, *terms, variant='GenericErr'):
    f = ex.fn('query!' + tag, *[t.sort() for t in terms], ex.opt(ex.sort(R_)))
    t = f(*terms)
    ex.queries.append((tag, terms, t))
    return result_of_opt(ex, st, rty, t, variant)

QW = 'cosmwasm_std::traits::QuerierWrapper::<\'a, C>::'

@M(QW + 'query_wasm_smart')
def _(ex, st, inst, a):
    rty = retty(ex, inst)
    addr = ex.deref(st, a[1])
    mty = argty(ex, inst, 2)
    m = ex.term(a[2], mty, st)
    R_ = okty(rty)
    return q_generic(ex, st, rty, R_, f'{ex.strip(mty.e if mty.k=="ref" else mty).s} -> {R_.s}', addr, m)

@M(QW + 'query_balance')
def _(ex, st, inst, a):
    rty = retty(ex, inst); R_ = okty(rty)
    addr, denom = ex.deref(st, a[1]), ex.deref(st, a[2])
    bal = ex.fn('bank_balance', E.StrS, E.StrS, z3.IntSort())(addr, denom)
    ex.fact(z3.And(bal >= 0, bal < 2**128))
    fs = R_.fields()
    v = Adt(R_, 0, [denom if n == 'denom' else bal for n, _ in fs])
    return ok(rty, v)

def bank_supply(ex, st, rty, denom, wrapf):
    f = ex.fn('bank_supply', E.StrS, ex.opt(z3.IntSort()))(denom)
    v = ex.unsome(f); ex.fact(z3.And(v >= 0, v < 2**128))
    return fork_bool(ex, st, ex.is_some(f), lambda _: ok(rty, wrapf(v)), lambda _: err(rty, mkerr(ex, errty(rty), 'GenericErr')))

def coin_in(ex, R_, d, v):
    x = coin_of(R_.fields()[0][1], d, v)
    return x if ex.cls(R_) == 'flat' else Adt(R_, 0, [x])

def coin_of(R_, denom, amount): return Adt(R_, 0, [denom if n == 'denom' else amount for n, _ in R_.fields()])

@M(QW + 'query_supply')
def _(ex, st, inst, a):
    rty = retty(ex, inst); d = ex.deref(st, a[1])
    if not isinstance(d, z3.ExprRef): d = ex.term(a[1], argty(ex, inst, 1), st)
    return bank_supply(ex, st, rty, d, lambda v: coin_of(okty(rty), d, v))

@M(QW + 'query_all_balances', QW + 'query_wasm_contract_info', QW + 'query_wasm_code_info', QW + 'query_all_validators', QW + 'query_bonded_denom', QW + 'query_all_delegations', QW + 'query_delegation', QW + 'query_validator')
def _(ex, st, inst, a):
    rty = retty(ex, inst)
    ts = [ex.term(x, argty(ex, inst, i + 1), st) for i, x in enumerate(a[1:])]
    if not ts: ts = [E.UnitS.unit]
    return q_generic(ex, st, rty, okty(rty), inst.name.split('::')[-1] + '->' + okty(rty).s, *ts)

@M(QW + 'query')
def _(ex, st, inst, a):
    rty = retty(ex, inst); R_ = okty(rty)
    t = ex.term(a[1], argty(ex, inst, 1), st)
    q = canonical_query(ex, ex.strip_refs(argty(ex, inst, 1)), t)
    if q is not None and R_.k == 'adt' and len(R_.fields()) == 1:
        if q[0] == 'supply': return bank_supply(ex, st, rty, q[1], lambda v: coin_in(ex, R_, q[1], v))
        if q[0] == 'balance':
            bal = ex.fn('bank_balance', E.StrS, E.StrS, z3.IntSort())(q[1], q[2]); ex.fact(z3.And(bal >= 0, bal < 2**128))
            return ok(rty, coin_in(ex, R_, q[2], bal))
    if q is not None and q[0] == 'smart': return q_generic(ex, st, rty, R_, f'{q[3]} -> {R_.s}', q[1], q[2])
    return q_generic(ex, st, rty, R_, 'raw ' + R_.s, t)

def canonical_query(ex, ty, t):
    """QueryRequest built by hand: the same question as the dedicated querier method"""
    def var(ty, t):
        if t.decl().kind() != z3.Z3_OP_DT_CONSTRUCTOR: return None
        s = t.sort()
        for i in range(s.num_constructors()):
            if s.constructor(i).eq(t.decl()): return ty.variants[i]['n'], {n: (ft, ex.acc(t, i, k)) for k, (n, ft) in enumerate(ty.fields(i))}
    try:
        v = var(ty, t)
        if v is None or v[0] not in ('Bank', 'Wasm'): return None
        (ity, it) = list(v[1].values())[0]
        w = var(ex.strip_refs(ity), it)
        if w is None: return None
        g = lambda n: z3.simplify(w[1][n][1])
        if w[0] == 'Supply': return 'supply', g('denom')
        if w[0] == 'Balance': return 'balance', g('address'), g('denom')
        if w[0] == 'Smart':
            m = g('msg')
            if m.num_args() == 1 and m.decl().name().startswith('json<'):
                tys = {ty.s for ty in ex.json_tys.get(m.decl().name(), ())}
                if len(tys) == 1: return 'smart', g('contract_addr'), m.arg(0), list(tys)[0]
    except (AttributeError, KeyError): pass
    return None

@M(QW + 'query_wasm_raw')
def _(ex, st, inst, a):
    rty = retty(ex, inst)
    return q_generic(ex, st, rty, okty(rty), 'wasm_raw', ex.deref(st, a[1]), ex.deref(st, a[2]))

# JSON: injective uninterpreted encodings
def json_enc(ex, ty, t):
    s = t.sort()
    f = ex.fn('json<%s>' % s.name(), s, E.StrS)
    g = ex.fn('unjson<%s>' % s.name(), E.StrS, ex.opt(s))
    r = f(t)
    if not z3.is_var(t): ex.fact(g(r) == ex.some(t))
    return r

@M('cosmwasm_std::serde::to_json_binary', 'cosmwasm_std::serde::to_json_vec', 'cosmwasm_std::serde::to_json_string', 'cosmwasm_std::serde::to_binary', 'cosmwasm_std::serde::to_vec')
def _(ex, st, inst, a):
    ty = argty(ex, inst, 0)
    sty = ex.strip(ty.e if ty.k == 'ref' else ty); ex.json_tys.setdefault('json<%s>' % ex.sort(sty).name(), set()).add(sty)
    return ok(retty(ex, inst), json_enc(ex, ty, ex.term(a[0], ty, st)))

@M('cosmwasm_std::serde::from_json', 'cosmwasm_std::serde::from_binary', 'cosmwasm_std::serde::from_slice')
def _(ex, st, inst, a):
    rty = retty(ex, inst)
    b = ex.deref(st, a[0])
    if not (isinstance(b, z3.ExprRef) and b.sort() == E.StrS): raise Unsupported('from_json of ' + repr(b))
    s = ex.sort(okty(rty))
    if b.num_args() == 1 and b.decl().name() == 'json<%s>' % s.name(): return ok(rty, ex.wrap(okty(rty), b.arg(0)))
    g = ex.fn('unjson<%s>' % s.name(), E.StrS, ex.opt(s))
    return result_of_opt(ex, st, rty, g(b), 'ParseErr')

# ------------------------------------------------------------------ formatting
@R(r'^core::fmt::rt::Argument::<\'_>::new_', r'^core::fmt::rt::Argument::<.*>::(new_|from_usize)')
def _(ex, st, inst, a):
    return Opq('fmtarg', (ex.deref(st, a[0]), inst.full))

@R(r'^core::fmt::Arguments::<\'.*>::(new|from_str|new_const|new_v1|from_str_nonconst)')
def _(ex, st, inst, a):
    return Opq('fmt', tuple(ex.deref(st, x) for x in a))

def fmt_str(ex, st, v):
    parts = []; tag = ''
    def go(x):
        nonlocal tag
        if isinstance(x, (bool, int)): parts.append(zi(int(x)))
        elif isinstance(x, z3.ExprRef):
            l = ex.litof.get(x.get_id())
            if l is not None: tag += l
            else: parts.append(x)
        elif isinstance(x, Opq) and x.tag == 'fmtarg':
            tag += '{'
            y = x.d[0]
            y = ex.deref(st, y)
            go(y); tag += '}'
        elif isinstance(x, Opq) and x.tag == 'fmt':
            for y in x.d: go(y)
        elif isinstance(x, VecV):
            for y in x.e: go(y)
        elif isinstance(x, Sym): parts.append(x.t)
        elif isinstance(x, Adt):
            try: parts.append(ex.term(x, x.ty, st))
            except Exception: parts.append(ex.fresh('fmtv', E.OpqS))
        elif x is None: pass
        elif isinstance(x, Ref): go(ex.deref(st, x))
        elif isinstance(x, Opq) and x.tag == 'term': parts.append(x.d)
        else: parts.append(ex.fresh('fmtv', E.OpqS))
    go(v)
    if not parts: return ex.lit('fmt:' + tag) if '{' in tag else ex.lit(tag)
    f = ex.fn('fmt:' + tag, *[p.sort() for p in parts], E.StrS)
    return f(*parts)

@M('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def _(ex, st, inst, a): return fmt_str(ex, st, ex.deref(st, a[0]))

@R(r'as alloc::string::ToString>::to_string$', r'^<T as alloc::string::SpecToString>::spec_to_string$', r'as alloc::string::SpecToString>::spec_to_string$')
def _(ex, st, inst, a):
    v = ex.deref(st, a[0])
    if isinstance(v, z3.ExprRef) and v.sort() == E.StrS: return v
    if isinstance(v, int) and not isinstance(v, bool): return ex.lit(str(v))
    if isinstance(v, (Sym, Adt, z3.ExprRef, bool)):
        ty = inst.args[0] if inst.args else argty(ex, inst, 0).e
        t = ex.term(v, ex.strip(ty), st)
        return ex.fn('to_string<%s>' % t.sort().name(), t.sort(), E.StrS)(t)
    return ex.fresh('string', E.StrS)

@R(r'^core::fmt::', r'^<.* as core::fmt::(Display|Debug|Write)>::')
def _(ex, st, inst, a):
    r = retty(ex, inst)
    if r.name == 'core::result::Result': return ok(r, UNIT)
    raise Unsupported('fmt ' + inst.full)

# ------------------------------------------------------------------ clone / deref / conversions
@R(r'as core::clone::Clone>::clone_from$')
def _(ex, st, inst, a):
    ex.setref(st, a[0], ex.load(st, a[1].c, a[1].p) if isinstance(a[1], Ref) else a[1]); return UNIT

# protobuf: injective uninterpreted encodings
@R(r'^prost::message::Message::(encode_to_vec|encode_length_delimited_to_vec)$', r'as prost::message::Message>::encode_to_vec$')
def _(ex, st, inst, a):
    ty = ex.strip_refs(argty(ex, inst, 0))
    t = ex.term(a[0], ty, st); s = t.sort()
    r = ex.fn('proto<%s>' % s.name(), s, E.StrS)(t)
    ex.fact(ex.fn('unproto<%s>' % s.name(), E.StrS, ex.opt(s))(r) == ex.some(t))
    return r

@R(r'^prost::message::Message::encoded_len$', r'as prost::message::Message>::encoded_len$')
def _(ex, st, inst, a):
    n = ex.fresh('plen', z3.IntSort()); ex.fact(z3.And(n >= 0, n < 2**32)); return n

@R(r'^prost::message::Message::(decode|merge)$', r'as prost::message::Message>::decode$')
def _(ex, st, inst, a):
    rty = retty(ex, inst); s = ex.sort(okty(rty))
    b = ex.deref(st, a[0])
    if not (isinstance(b, z3.ExprRef) and b.sort() == E.StrS): raise Unsupported('decode of ' + repr(b))
    return result_of_opt(ex, st, rty, ex.fn('unproto<%s>' % s.name(), E.StrS, ex.opt(s))(b), 'Description')

@R(r'^<.*(Msg|Query)\w+ as core::convert::TryFrom<cosmwasm_std::binary::Binary>>::try_from$')
def _(ex, st, inst, a):
    rty = retty(ex, inst); s = ex.sort(okty(rty))
    b = ex.deref(st, a[0])
    return result_of_opt(ex, st, rty, ex.fn('unproto<%s>' % s.name(), E.StrS, ex.opt(s))(b), 'ParseErr')

@R(r'^alloc::slice::<impl \[T\]>::(join|concat)$')
def _(ex, st, inst, a):
    v = ex.deref(st, a[0])
    ty = ex.strip_refs(argty(ex, inst, 0))
    r = retty(ex, inst)
    if ex.cls(r) != 'str': raise Unsupported('join')
    t = ex.term(v, ty, st)
    return ex.fn('join', t.sort(), E.StrS)(t)

# HashMap / BTreeMap values: arrays
def hm(ex, st, r):
    v = ex.load(st, r.c, r.p) if isinstance(r, Ref) else r
    while isinstance(v, Ref): r = v; v = ex.load(st, r.c, r.p)
    return r, v
HMK = r'^(std::collections::hash::map::HashMap::<K, V, S(, A)?>|alloc::collections::btree::map::BTreeMap::<K, V, A>|std::collections::hash::map::HashMap::<K, V>)::'
def hmty(ex, inst, i=0):
    t = ex.strip_refs(argty(ex, inst, i)); return t

@R(HMK + r'(get|contains_key|get_mut)$')
def _(ex, st, inst, a):
    ty = hmty(ex, inst); r, v = hm(ex, st, a[0]); op = inst.name.split('::')[-1]
    k = ex.term(a[1], ex.strip_refs(argty(ex, inst, 1)), st)
    o = sel(ex, v.t, k)
    if op == 'contains_key': return ex.is_some(o)
    if op == 'get_mut': raise Unsupported('HashMap::get_mut')
    rty = retty(ex, inst)
    return fork_bool(ex, st, ex.is_none(o), lambda s: none(rty), lambda s: some(rty, ex.ref_to(s, ex.wrap(ty.args[1], ex.unsome(o)))))

@R(HMK + r'(insert|remove)$')
def _(ex, st, inst, a):
    ty = hmty(ex, inst); r, v = hm(ex, st, a[0]); op = inst.name.split('::')[-1]
    k = ex.term(a[1], ex.strip_refs(argty(ex, inst, 1)), st)
    o = sel(ex, v.t, k)
    nv = ex.some(ex.term(a[2], ty.args[1], st)) if op == 'insert' else ex.none(ex.sort(ty.args[1]))
    ex.setref(st, r, Sym(ty, z3.Store(v.t, k, nv)))
    return ex.wrap(retty(ex, inst), o)

@R(HMK + r'(new|with_capacity)$', r'^<(std::collections::hash::map::HashMap|alloc::collections::btree::map::BTreeMap)<.*> as core::default::Default>::default$')
def _(ex, st, inst, a):
    ty = retty(ex, inst)
    return Sym(ty, z3.K(ex.sort(ty.args[0]), ex.none(ex.sort(ty.args[1]))))

# native denom syntax check (character loop): an uninterpreted predicate of the string
@R(r'^<.* as core::clone::Clone>::clone$', r'^core::clone::impls::<impl core::clone::Clone for .*>::clone$', r'^core::clone::Clone::clone$')
def _(ex, st, inst, a):
    v = a[0]
    if isinstance(v, Ref): return ex.load(st, v.c, v.p)
    return v

@R(r'as alloc::borrow::ToOwned>::to_owned$', r'^alloc::slice::<impl \[T\]>::(to_vec|into_vec)$', r'as alloc::slice::<impl \[T\]>::to_vec_in::ConvertVec>::to_vec$', r'^alloc::string::String::(as_str|as_bytes|into_bytes|into_boxed_str|as_mut_str)$', r'^core::str::<impl str>::(as_bytes|into_string|as_ptr)$',
   r'^<alloc::string::String as core::convert::From<.*>>::from$', r'^<alloc::vec::Vec<.*> as core::convert::From<.*>>::from$', r'^<&.*str as core::convert::Into<alloc::string::String>>::into$',
   r'^alloc::vec::Vec::<T, A>::(into_boxed_slice)$', r'^core::str::converts::from_utf8_unchecked$', r'^alloc::str::<impl str>::into_boxed_bytes$', r'^cosmwasm_std::binary::Binary::(as_slice|to_vec|new)$',
   r'^<cosmwasm_std::binary::Binary as core::convert::From<.*>>::from$', r'^<.* as core::convert::From<cosmwasm_std::binary::Binary>>::from$')
def _(ex, st, inst, a):
    r = retty(ex, inst)
    v = a[0]
    if r is not None and ex.cls(r) == 'ref' and r.k in ('ref', 'ptr'):
        if isinstance(v, Ref):
            w = ex.load(st, v.c, v.p)
            return w if isinstance(w, Ref) and False else v
        return ex.ref_to(st, v)
    v = ex.deref(st, v)
    return v

@R(r'^<.* as core::ops::deref::Deref(Mut)?>::deref(_mut)?$', r'^<.* as core::convert::AsRef<.*>>::as_ref$', r'^<.* as core::borrow::Borrow<.*>>::borrow$', r'^<.* as core::convert::AsMut<.*>>::as_mut$',
   r'^core::str::traits::<impl core::convert::AsRef', r'^alloc::vec::Vec::<T, A>::(as_slice|as_mut_slice|as_ptr)$', r'^core::slice::<impl \[T\]>::(as_ptr|as_mut_ptr)$', r'^core::borrow::(Borrow|BorrowMut)::')
def _(ex, st, inst, a):
    if inst.has_body:
        # only for types whose target has the same representation
        aty = argty(ex, inst, 0)
        if aty.k == 'ref' and ex.cls(ex.strip(aty.e)) in ('str', 'vec', 'ref'):
            v = a[0]
            if ex.cls(ex.strip(aty.e)) == 'ref' and isinstance(v, Ref):
                w = ex.load(st, v.c, v.p)
                if isinstance(w, Ref): return w
            return v
        return NotImplemented
    return a[0]

@R(r'^core::mem::(drop|forget)$', r'^core::ptr::drop_in_place', r'^<.* as core::ops::drop::Drop>::drop$', r'^core::intrinsics::(assume|cold_path)$', r'^core::hint::(assert_unchecked|spin_loop|cold_path)')
def _(ex, st, inst, a): return UNIT

@M('core::hint::must_use', 'core::hint::black_box')
def _(ex, st, inst, a): return a[0]

@M('core::mem::swap')
def _(ex, st, inst, a):
    x, y = ex.load(st, a[0].c, a[0].p), ex.load(st, a[1].c, a[1].p)
    ex.setref(st, a[0], y); ex.setref(st, a[1], x); return UNIT

@M('core::mem::replace', 'core::ptr::replace')
def _(ex, st, inst, a):
    x = ex.load(st, a[0].c, a[0].p); ex.setref(st, a[0], a[1]); return x

@M('core::mem::take')
def _(ex, st, inst, a):
    x = ex.load(st, a[0].c, a[0].p); T = inst.args[0]; c = ex.cls(T)
    d = {'vec': lambda: VecV((), ex.elty(T)), 'str': lambda: ex.lit(''), 'int': lambda: 0, 'bool': lambda: False}.get(c)
    if T.name == 'core::option::Option': ex.setref(st, a[0], none(T))
    elif d: ex.setref(st, a[0], d())
    elif ex.cls(ex.strip(T)) in ('int',): ex.setref(st, a[0], 0)
    else: raise Unsupported('mem::take of ' + T.s)
    return x

@M('core::intrinsics::discriminant_value')
def _(ex, st, inst, a):
    T = inst.args[0]
    v = a[0]
    if isinstance(v, Ref): v = ex.load(st, v.c, v.p)
    v = ex.deref(st, v)
    return ex.discr(st, v, T)

@R(r'^core::panicking::', r'^core::option::(unwrap_failed|expect_failed)$', r'^core::result::unwrap_failed$', r'^std::rt::', r'^std::panicking::', r'^core::slice::index::slice_', r'^core::str::slice_error_fail', r'^core::intrinsics::(abort|unreachable)$', r'^core::slice::copy_from_slice_impl::len_mismatch')
def _(ex, st, inst, a):
    ex.panic(st, inst, inst.name)
    return []

@M('core::result::Result::<T, E>::unwrap', 'core::result::Result::<T, E>::expect', 'core::option::Option::<T>::unwrap', 'core::option::Option::<T>::expect')
def _(ex, st, inst, a):
    v = a[0]
    good = 0 if 'result' in inst.name else 1
    if isinstance(v, Adt):
        if v.v == good: return v.f[0]
        ex.panic(st, inst, inst.name); return []
    if isinstance(v, Sym):
        c = ex.simp(ex.isvar(v.t, good))
        if c is False: ex.panic(st, inst, inst.name); return []
        if ex.panics is not None and c is not True:
            s2 = st.fork(); s2.add(Not(c))
            if ex.feasible(s2): ex.panic(s2, inst, inst.name)
        st.add(c)
        ft = v.ty.args[0]
        return ex.wrap(ft, ex.acc(v.t, good, 0))
    return NotImplemented

# ------------------------------------------------------------------ comparisons
LIBS = ('core', 'alloc', 'std', 'cosmwasm_std', 'bnum', 'cw_utils')

def scal2(ex, st, a):
    x, y = ex.deref(st, a[0]), ex.deref(st, a[1])
    return x, y

def vec_eq(ex, st, x, y):
    if isinstance(x, VecV) and isinstance(y, VecV) and not any(isinstance(e, Seg) for e in x.e + y.e):
        if len(x.e) != len(y.e): return False
        return And(*[Eq(ex.term(p, x.ety, st), ex.term(q, y.ety, st)) for p, q in zip(x.e, y.e)])
    ty = x.ty if isinstance(x, Sym) else y.ty if isinstance(y, Sym) else None
    if ty is None: return NotImplemented
    nx, ny = ex.length(st, x), ex.length(st, y)
    if isinstance(nx, int) or isinstance(ny, int):
        n = nx if isinstance(nx, int) else ny
        if n <= 4:
            ety = ex.elty(ty)
            def at(v, i): return ex.term(v.e[i], ety, st) if isinstance(v, VecV) else ex.vat(v.t, i)
            if isinstance(x, VecV) and any(isinstance(e, Seg) for e in x.e): return NotImplemented
            return And(Eq(nx, ny), *[Eq(at(x, i), at(y, i)) for i in range(n)])
    return Eq(ex.term(x, ty, st), ex.term(y, ty, st))

@R(r' as core::cmp::PartialEq(<.*>)?>::(eq|ne)$', r'impl core::cmp::PartialEq.*>::(eq|ne)$', r'^core::cmp::PartialEq::(eq|ne)$', r'as alloc::slice::SlicePartialEq', r'as core::slice::cmp::SlicePartialEq')
def _(ex, st, inst, a):
    x, y = scal2(ex, st, a)
    neg = inst.name.endswith('ne')
    if isscal(x) and isscal(y):
        if inst.crate not in LIBS and inst.has_body:
            aty = ex.strip_refs(argty(ex, inst, 0))
            if ex.cls(aty) == 'flat': return NotImplemented
        e = Eq(x, y)
        return Not(e) if neg else e
    if isinstance(x, (VecV, Sym)) and isinstance(y, (VecV, Sym)) and (isinstance(x, VecV) or ex.cls(x.ty) == 'vec') and (isinstance(y, VecV) or ex.cls(y.ty) == 'vec'):
        e = vec_eq(ex, st, x, y)
        if e is NotImplemented: return e
        return Not(e) if neg else e
    if x is None and y is None: return not neg
    if inst.name.startswith('<&') or 'for &' in inst.name:
        pass
    if not inst.has_body or inst.crate in ('core',):
        # Option / Result / tuples of library types: term equality when representable
        ty = x.ty if isinstance(x, (Sym, Adt)) else None
        if ty is not None and not inst.has_body:
            e = Eq(ex.term(x, ty, st), ex.term(y, ty, st)); return Not(e) if neg else e
    if neg and inst.name.endswith('PartialEq::ne'): return NotImplemented
    return NotImplemented

def ordering(ex, lt, eq, oty):
    s = ex.sort(oty)
    if isinstance(lt, bool) and isinstance(eq, bool): return Adt(oty, 0 if lt else 1 if eq else 2, [])
    return ex.wrap(oty, Ite(lt, s.constructor(0)(), Ite(eq, s.constructor(1)(), s.constructor(2)())))

def lt(ex, x, y):
    x, y = ex.asint(x), ex.asint(y)
    if isinstance(x, z3.ExprRef) and x.sort() == E.StrS:
        r = ex.fn('strrank', E.StrS, z3.IntSort())
        ex.fact((r(x) == r(y)) == (x == y))
        return r(x) < r(y)
    return x < y

@R(r' as core::cmp::(Partial)?Ord(<.*>)?>::(cmp|partial_cmp|lt|le|gt|ge|max|min|clamp)$', r'impl core::cmp::(Partial)?Ord.*>::(cmp|partial_cmp|lt|le|gt|ge|max|min)$', r'^core::cmp::(Partial)?Ord::(lt|le|gt|ge|max|min)$', r'^core::cmp::(max|min)$')
def _(ex, st, inst, a):
    x, y = scal2(ex, st, a)
    if not (isscal(x) and isscal(y)): return NotImplemented
    op = inst.name.split('::')[-1]
    if inst.crate not in LIBS: return NotImplemented
    if inst.args and isinstance(inst.args[0], Ty):
        t = ex.strip_refs(inst.args[0])
        if t.k == 'adt' and t.d['crate'] not in LIBS and ex.cls(t) == 'flat': return NotImplemented
    if op in ('cmp', 'partial_cmp'):
        r = retty(ex, inst)
        if r is None: raise Unsupported('cmp without body')
        oty = r if op == 'cmp' else r.args[0]
        o = ordering(ex, lt(ex, x, y), Eq(x, y), oty)
        return o if op == 'cmp' else some(r, o)
    if op == 'lt': return lt(ex, x, y)
    if op == 'gt': return lt(ex, y, x)
    if op == 'le': return Not(lt(ex, y, x))
    if op == 'ge': return Not(lt(ex, x, y))
    if op == 'max': return Ite(lt(ex, y, x), x, y)
    if op == 'min': return Ite(lt(ex, y, x), y, x)
    return NotImplemented

# ------------------------------------------------------------------ integers
NUM = r'^core::num::<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::'
BN = r'^bnum::buint::.*BUint<N>>::|^bnum::buint::.*BUint::<N>::'

def intinfo(ex, inst):
    m = re.match(r'^core::num::<impl (\w)(\w+)>::', inst.name)
    if m:
        b = 64 if m.group(2) == 'size' else int(m.group(2)); sg = m.group(1) == 'i'
    else:
        n = [x for x in inst.args if isinstance(x, dict)]
        b = 64 * (n[0]['c'] if n else 4); sg = False
    return (-(1 << (b - 1)) if sg else 0, (1 << (b - 1)) - 1 if sg else (1 << b) - 1, sg, b)

def inrange(r, lo, hi):
    if isint(r): return lo <= r <= hi
    l, u = E.CUR.bounds(r)
    if u is not None and u <= hi:
        if l is not None and l >= lo: return True
        return r >= lo
    if l is not None and l >= lo: return r <= hi
    return z3.And(r >= lo, r <= hi)

def powi(x, n):
    if isint(n) and n <= 80:
        if isint(x): return x ** n
        if n <= 6:
            r = 1
            for _ in range(n): r = E.CUR.mul(r, x)
            return r
    raise Unsupported('symbolic pow')

def dv(a, b): return E.CUR.div(a, b)
def md(a, b): return E.CUR.mod(a, b)
def mul(a, b): return E.CUR.mul(a, b)

@R(NUM + r'(checked_add|checked_sub|checked_mul|checked_div|checked_rem|checked_pow|checked_shl|checked_shr|checked_add_unsigned)$', BN + r'(checked_add|checked_sub|checked_mul|checked_div|checked_rem|checked_pow|checked_shl|checked_shr)$')
def _(ex, st, inst, a):
    op = inst.name.split('_')[-1]
    lo, hi, sg, b = intinfo(ex, inst)
    oty = retty(ex, inst)
    x, y = a[0], a[1]
    if op in ('div', 'rem'):
        if sg: raise Unsupported('signed checked div')
        r = dv if op == 'div' else md
        if isint(y): return none(oty) if y == 0 else some(oty, r(x, y))
        res = []
        for s, z in ex.split(st, y == 0): res.append((s, none(oty) if z else some(oty, r(x, y))))
        return res
    if op == 'add' or op == 'unsigned': r = x + y
    elif op == 'sub': r = x - y
    elif op == 'mul': r = mul(x, y)
    elif op == 'pow': r = powi(x, y)
    elif op == 'shl':
        return some(oty, ex.modrange_(x * (1 << y), b, sg)) if isint(y) else NotImplemented
    elif op == 'shr': return some(oty, dv(x, 1 << y)) if isint(y) else NotImplemented
    c = inrange(r, lo, hi)
    if isinstance(c, bool): return some(oty, r) if c else none(oty)
    if not sg and not isinstance(c, bool): c = (x >= y) if op == 'sub' else (r <= hi)
    res = []
    for s, z in ex.split(st, c): res.append((s, some(oty, r) if z else none(oty)))
    return res

@R(NUM + r'overflowing_(add|sub|mul)$', BN + r'overflowing_(add|sub|mul)$')
def _(ex, st, inst, a):
    lo, hi, sg, b = intinfo(ex, inst); op = inst.name.split('_')[-1]
    r = a[0] + a[1] if op == 'add' else a[0] - a[1] if op == 'sub' else mul(a[0], a[1])
    return Adt(retty(ex, inst), 0, [ex.modrange_(r, b, sg), Not(inrange(r, lo, hi))])

@R(NUM + r'saturating_(add|sub|mul|pow)$', BN + r'saturating_(add|sub|mul|pow)$')
def _(ex, st, inst, a):
    lo, hi, sg, b = intinfo(ex, inst); op = inst.name.split('_')[-1]
    r = a[0] + a[1] if op == 'add' else a[0] - a[1] if op == 'sub' else mul(a[0], a[1]) if op == 'mul' else powi(*a)
    if isint(r): return max(lo, min(hi, r))
    return z3.If(r > hi, zi(hi), z3.If(r < lo, zi(lo), r))

@R(NUM + r'wrapping_(add|sub|mul)$', BN + r'wrapping_(add|sub|mul)$')
def _(ex, st, inst, a):
    lo, hi, sg, b = intinfo(ex, inst); op = inst.name.split('_')[-1]
    r = a[0] + a[1] if op == 'add' else a[0] - a[1] if op == 'sub' else mul(a[0], a[1])
    if not isint(r) and ex.simp(inrange(r, lo, hi)) is True: return r
    return ex.modrange_(r, b, sg)

@R(NUM + r'(pow|abs_diff|is_power_of_two|count_ones|leading_zeros|trailing_zeros|abs|unsigned_abs|div_ceil|isqrt|rem_euclid|is_zero)$', BN + r'(pow|is_zero|abs_diff)$')
def _(ex, st, inst, a):
    op = inst.name.split('::')[-1]; lo, hi, sg, b = intinfo(ex, inst); a = [ex.load(st, x.c, x.p) if isinstance(x, Ref) else x for x in a]
    if op == 'pow':
        r = powi(*a); c = inrange(r, lo, hi)
        if c is False: ex.panic(st, inst, 'pow overflow'); return []
        if c is not True: st.add(c)
        return r
    if op == 'is_zero': return Eq(a[0], 0)
    if op == 'abs_diff': return Ite(a[0] < a[1], a[1] - a[0], a[0] - a[1])
    if op in ('abs', 'unsigned_abs'): return Ite(a[0] < 0, -a[0], a[0])
    if op == 'div_ceil': return dv(a[0] + a[1] - 1, a[1])
    raise Unsupported(inst.name)

@R(r'^core::num::<impl \w+>::(to_be_bytes|to_le_bytes|from_be_bytes|from_le_bytes|to_ne_bytes)$')
def _(ex, st, inst, a):
    op = inst.name.split('::')[-1]
    raise Unsupported(inst.full)

@R(r'^core::num::<impl \w+>::(from_str_radix|from_str)', r'^core::num::<impl core::str::traits::FromStr', r'^core::str::<impl str>::parse$')
def _(ex, st, inst, a):
    rty = retty(ex, inst); s = ex.deref(st, a[0])
    t = ex.fn('parse<%s>' % okty(rty).s, E.StrS, ex.opt(ex.sort(okty(rty))))(s)
    return result_of_opt(ex, st, rty, t)

@R(r'^<bnum::buint::BUint<N> as core::ops::arith::(Add|Sub|Mul|Div|Rem)(<.*>)?>::', r'^<&?bnum::buint::BUint<N> as core::ops::arith::(Add|Sub|Mul|Div|Rem)', r'^bnum::buint::.*core::ops::arith::(Add|Sub|Mul|Div|Rem).*>::(add|sub|mul|div|rem)$')
def _(ex, st, inst, a):
    op = inst.name.split('::')[-1]; x, y = scal2(ex, st, a)
    n = [z for z in inst.args if isinstance(z, dict)]; b = 64 * (n[0]['c'] if n else 4)
    if op in ('div', 'rem'):
        c = Eq(y, 0)
        if c is True: return []
        if c is not False: st.add(Not(c))
        return dv(x, y) if op == 'div' else md(x, y)
    r = x + y if op == 'add' else x - y if op == 'sub' else mul(x, y)
    c = inrange(r, 0, (1 << b) - 1)
    if c is False: return []
    if c is not True: st.add(c)
    return r

@R(r'^bnum::.*core::convert::From<(u|bool|char).*>::from$', r'^<bnum::buint::BUint<N> as core::convert::From<', r'^bnum::buint::cast::', r'^<bnum::buint::BUint<.*> as bnum::cast::(CastFrom|As)', r'^bnum::cast::As::as_', r'^<T as bnum::cast::As>::as_$')
def _(ex, st, inst, a):
    return a[0]

@R(r'^bnum::.*core::convert::TryFrom<bnum::buint::BUint<.*>>.* for u(8|16|32|64|128)>::try_from$', r'^<u(8|16|32|64|128) as core::convert::TryFrom<bnum::buint::BUint<.*>>>::try_from$')
def _(ex, st, inst, a):
    rty = retty(ex, inst); b = okty(rty).d['bits']
    return fork_bool(ex, st, zi(a[0]) < (1 << b), lambda _: ok(rty, a[0]), lambda _: err(rty, ex.wrap(errty(rty), ex.fresh('e', ex.sort(errty(rty))))))

U2 = r'cosmwasm_std::math::uint(256|512)::Uint(256|512)'

@R(r'^<' + U2 + r' as core::convert::From<(cosmwasm_std::math::uint\d+::Uint\d+|u\d+)>>::from$')
def _(ex, st, inst, a): return a[0]

@R(r'^<cosmwasm_std::math::uint(\d+)::Uint(\d+) as core::convert::TryFrom<.*>>::try_from$', r'^cosmwasm_std::math::.*<impl core::convert::TryFrom<cosmwasm_std::math::.*> for cosmwasm_std::math::uint(\d+)::Uint(\d+)>::try_from$')
def _(ex, st, inst, a):
    m = re.search(r'Uint(\d+)(>::try_from$| as core::convert::TryFrom<)', inst.name); b = int(m.group(1))
    if not isscal(a[0]) or (isinstance(a[0], z3.ExprRef) and a[0].sort() != z3.IntSort()): return NotImplemented
    rty = retty(ex, inst)
    return fork_bool(ex, st, zi(a[0]) < (1 << b), lambda _: ok(rty, a[0]), lambda _: err(rty, stderr_(ex, errty(rty))))

@R(r'^<u(\d+|size) as core::convert::TryFrom<u(\d+|size)>>::try_from$', r'^core::convert::num::.*TryFrom<.*>::try_from$', r'^core::convert::num::.* for (u|i)(\d+|size)>::try_from$')
def _(ex, st, inst, a):
    rty = retty(ex, inst); t = okty(rty)
    lo, hi = (-(1 << (t.d['bits'] - 1)), (1 << (t.d['bits'] - 1)) - 1) if t.d['signed'] else (0, (1 << t.d['bits']) - 1)
    return fork_bool(ex, st, zb(inrange(zi(a[0]), lo, hi)), lambda _: ok(rty, a[0]), lambda _: err(rty, ex.wrap(errty(rty), ex.fresh('e', ex.sort(errty(rty))))))

# ------------------------------------------------------------------ strings
@R(r'^alloc::string::String::(new|with_capacity)$', r'^<alloc::string::String as core::default::Default>::default$', r'^<cosmwasm_std::binary::Binary as core::default::Default>::default$')
def _(ex, st, inst, a): return ex.lit('')

@R(r'^core::str::<impl str>::(is_empty)$', r'^alloc::string::String::is_empty$', r'^cosmwasm_std::binary::Binary::is_empty$')
def _(ex, st, inst, a): return Eq(ex.strlen(ex.deref(st, a[0])), 0)

@R(r'^core::str::<impl str>::len$', r'^alloc::string::String::len$', r'^cosmwasm_std::binary::Binary::len$')
def _(ex, st, inst, a): return ex.strlen(ex.deref(st, a[0]))

@R(r'^(core|alloc)::str::<impl str>::(starts_with|ends_with|contains|eq_ignore_ascii_case|is_ascii)$')
def _(ex, st, inst, a):
    ts = []
    for i, x in enumerate(a):
        v = ex.deref(st, x)
        if isinstance(v, (int, bool)): v = zi(v)
        if isinstance(v, z3.ExprRef): ts.append(v)
    lits = [ex.litof.get(t.get_id()) for t in ts]
    op = inst.name.split('::')[-1]
    if len(ts) == 2 and None not in lits:
        return getattr(str, {'starts_with': 'startswith', 'ends_with': 'endswith', 'contains': '__contains__'}[op])(*lits)
    return ex.fn('str_' + op + '_' + str(len(ts)), *[t.sort() for t in ts], z3.BoolSort())(*ts)

@R(r'^(core|alloc)::str::<impl str>::(to_lowercase|to_uppercase|trim|to_ascii_lowercase|to_ascii_uppercase|trim_start|trim_end|trim_start_matches|trim_end_matches|repeat|replace)$')
def _(ex, st, inst, a):
    ts = []
    for x in a:
        v = ex.deref(st, x)
        if isinstance(v, (int, bool)): v = zi(v)
        ts.append(v)
    op = inst.name.split('::')[-1]
    if not all(isinstance(t, z3.ExprRef) for t in ts): raise Unsupported(inst.full)
    r = ex.fn('str_' + op, *[t.sort() for t in ts], E.StrS)(*ts)
    rt = retty(ex, inst)
    return ex.ref_to(st, r) if rt.k == 'ref' else r

@R(r'^alloc::string::String::(push_str|push)$')
def _(ex, st, inst, a):
    s = ex.load(st, a[0].c, a[0].p); t = ex.deref(st, a[1])
    t = zi(t) if isint(t) else t
    ex.setref(st, a[0], ex.fn('str_push', s.sort(), t.sort(), E.StrS)(s, t)); return UNIT

@R(r'^<alloc::string::String as core::ops::arith::Add<&str>>::add$')
def _(ex, st, inst, a):
    s = ex.deref(st, a[0]); t = ex.deref(st, a[1])
    return ex.fn('str_push', s.sort(), t.sort(), E.StrS)(s, t)

@R(r'^alloc::string::String::from_utf8$', r'^core::str::converts::from_utf8$')
def _(ex, st, inst, a):
    r = retty(ex, inst); v = ex.deref(st, a[0])
    return fork_bool(ex, st, ex.fn('is_utf8', E.StrS, z3.BoolSort())(v), lambda s: ok(r, v), lambda s: err(r, ex.wrap(errty(r), ex.fresh('e', ex.sort(errty(r))))))

# ------------------------------------------------------------------ vectors
VN = 'alloc::vec::Vec::<T, A>::'

def vload(ex, st, r):
    return ex.deref(st, r)

def vec_append(ex, st, v, xs, ety):
    if isinstance(v, VecV): return VecV(v.e + tuple(xs), v.ety, v.cap)
    if isinstance(v, Sym):
        n, arr = ex.vlen(v.t), ex.acc(v.t, 0, 1)
        if any(isinstance(x, Seg) for x in xs):
            return VecV((vec_as_seg(ex, v),) + tuple(xs), ety)
        for x in xs:
            arr = z3.Store(arr, zi(n), ex.term(x, ety, st)); n = n + 1
        return Sym(v.ty, v.t.sort().constructor(0)(zi(n), arr))
    raise Unsupported(f'push to {v!r}')

def vec_as_seg(ex, v):
    j = ex.freshc('j', z3.IntSort())
    return Seg(ex.vlen(v.t), j, ex.wrap(ex.elty(v.ty), ex.vat(v.t, j)))

@R(r'^alloc::vec::Vec::<T>::(new|with_capacity)$', r'^alloc::vec::Vec::<T, A>::(new_in|with_capacity_in)$', r'^<alloc::vec::Vec<T> as core::default::Default>::default$')
def _(ex, st, inst, a):
    ty = inst.args[0]
    if ty.k == 'int' and ty.d['bits'] == 8: return ex.lit('')
    return VecV((), ty, a[0] if 'with_capacity' in inst.name else None)

@M(VN + 'push', VN + 'push_back', 'alloc::collections::vec_deque::VecDeque::<T, A>::push_back')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p)
    if isinstance(v, z3.ExprRef):
        ex.setref(st, a[0], ex.fn('bytes_push', E.StrS, z3.IntSort(), E.StrS)(v, zi(a[1]))); return UNIT
    ex.setref(st, a[0], vec_append(ex, st, v, [a[1]], inst.args[0])); return UNIT

@M(VN + 'push_mut')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p)
    n = ex.length(st, v)
    ex.setref(st, a[0], vec_append(ex, st, v, [a[1]], inst.args[0]))
    return Ref(a[0].c, a[0].p + (('i', n),))

@M(VN + 'as_ptr', VN + 'as_mut_ptr')
def _(ex, st, inst, a): return 0

@M(VN + 'capacity')
def _(ex, st, inst, a):
    # with_capacity(n) allocates exactly n (documented for non-zero-sized types in practice); anything else: at least the length
    v = ex.deref(st, a[0]); n = ex.length(st, v)
    if isinstance(v, VecV) and v.cap is not None and not ex.feasible(st, z3.Not(zb_(zi(n) <= zi(v.cap)))): return v.cap
    c = ex.fresh('cap', z3.IntSort()); st.add(z3.And(c >= zi(n), c < 2**63)); return c
def zb_(x): return z3.BoolVal(x) if isinstance(x, bool) else x

def one_bool(ex, st, f, arg):
    """truth value of a predicate on one element as a term (no effects allowed)"""
    s = st.fork(); pc0 = s.pc
    outs = ex.call_value(s, f, [arg])
    t = False
    for s1, b in outs:
        fs = []; p = s1.pc
        while p is not pc0: fs.append(p.f); p = p.up
        t = Or(t, And(*fs[::-1], b))
    return t

def filter_idx(ex, st, n, j, cond, near=False, bare=False):
    """strictly increasing enumeration of {j in [0,n) | cond(j)}: exact characterisation.
    -> (m, idx)"""
    I = z3.IntSort()
    ex.nfresh += 1; q = ex.nfresh
    idx = ex.freshfn('fidx', I, I); inv = ex.freshfn('finv', I, I)
    m = ex.fresh('flen', I)
    n = zi(n); c = zb(cond)
    at = lambda x: z3.substitute(c, (j, x))
    has = (lambda x: z3.BoolVal(True)) if bare else at      # bare: the caller states what holds of the kept ones (a condition on the neighbour makes the solver descend)
    st.add(z3.And(m >= 0, m <= n))
    x, y = z3.Ints('fx!%d fy!%d' % (q, q))
    st.addlazy(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < m), z3.And(idx(x) >= 0, idx(x) < n, has(idx(x)))), patterns=[idx(x)]))
    st.addlazy(z3.ForAll([x], inv(idx(x)) == x, patterns=[idx(x)]))
    st.addlazy(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < m), idx(x) < idx(y)), patterns=[z3.MultiPattern(idx(x), idx(y))]))
    st.addlazy(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n, at(x)), z3.And(inv(x) >= 0, inv(x) < m, idx(inv(x)) == x)), **(dict(patterns=[inv(x)]) if near else {})))
    for k in (0, 1):
        st.add(z3.Implies(m > k, z3.And(idx(z3.IntVal(k)) >= k, idx(z3.IntVal(k)) < n, has(idx(z3.IntVal(k))))))
    st.add(z3.Implies(m > 1, idx(z3.IntVal(0)) < idx(z3.IntVal(1))))
    st.add(z3.Implies(n > 0, z3.Implies(at(z3.IntVal(0)), z3.And(m > 0, idx(z3.IntVal(0)) == 0))))
    st.store[('filters',)] = st.store.get(('filters',), ()) + ((n, at, m, idx),)
    return m, idx

@R(r'^alloc::vec::Vec::<T, A>::retain(_mut)?$')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p); T = inst.args[0]
    f = a[1] if isinstance(a[1], (Ref, FnV)) else ex.ref_to(st, a[1])
    if conc(v):
        cur = [(st, ())]
        for e in v.e:
            nxt = []
            for s, acc in cur:
                for s2, b in ex.call_value(s, f, [ex.ref_to(s, e)]):
                    for s3, z in ex.split(s2, b): nxt.append((s3, acc + (e,) if z else acc))
            cur = nxt
        for s, acc in cur: ex.setref(s, a[0], VecV(acc, v.ety))
        return [(s, UNIT) for s, _ in cur]
    sg = vec_as_seg(ex, v) if isinstance(v, Sym) else v.e[0] if len(v.e) == 1 else None
    if sg is None: raise Unsupported('retain')
    s0 = st.fork()
    with generic(ex, sg.j): c = one_bool(ex, s0, f, ex.ref_to(s0, sg.val))
    m, idx = filter_idx(ex, st, sg.n, sg.j, c)
    j = ex.freshc('j', z3.IntSort())
    ex.setref(st, a[0], VecV((Seg(m, j, ex.subst(sg.val, sg.j, idx(j))),), T))
    return UNIT

@R(r'^alloc::vec::Vec::<T, A>::dedup(_by|_by_key)?$')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p); T = inst.args[0]
    if not inst.name.endswith('dedup'): raise Unsupported('dedup_by')
    if conc(v):
        cur = [(st, ())]
        for e in v.e:
            nxt = []
            for s, acc in cur:
                if not acc: nxt.append((s, (e,))); continue
                for s2, z in ex.split(s, Eq(ex.term(acc[-1], T, s), ex.term(e, T, s))): nxt.append((s2, acc if z else acc + (e,)))
            cur = nxt
        for s, acc in cur: ex.setref(s, a[0], VecV(acc, v.ety))
        return [(s, UNIT) for s, _ in cur]
    t = ex.term(v, ex.strip_refs(argty(ex, inst, 0)), st)
    srt = ex.is_sorted(t)
    n = ex.vlen(t); j = ex.freshc('j', z3.IntSort())
    cond = z3.Or(j == 0, ex.vat(t, j) != ex.vat(t, j - 1))
    m, idx = filter_idx(ex, st, n, j, cond, near=True, bare=srt)     # the condition looks at the neighbour: no instance per element
    j = ex.freshc('j', z3.IntSort())
    el = ex.wrap(T, ex.vat(t, idx(j)))
    st.store[('sets',)] = st.store.get(('sets',), ()) + ((m, lambda i: ex.vat(t, idx(i))),)
    x, y = z3.Ints('dx dy')
    if srt:   # consecutive distinct elements of a sorted vector: all distinct, same element set
        st.addlazy(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < m), ex.vat(t, idx(x)) != ex.vat(t, idx(y))), patterns=[z3.MultiPattern(idx(x), idx(y))]))
    # every dropped element equals a kept one
    w = ex.freshfn('dd', z3.IntSort(), z3.IntSort())
    st.addlazy(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < zi(n)), z3.And(w(x) >= 0, w(x) < m, ex.vat(t, idx(w(x))) == ex.vat(t, x))), **(dict(patterns=[ex.vat(t, x)]) if not z3.is_quantifier(ex.acc(t, 0, 1)) else {})))
    st.addlazy(z3.ForAll([x], w(idx(x)) == x, patterns=[idx(x)]))
    st.add(z3.Implies(zi(n) > 0, m > 0))
    ex.setref(st, a[0], VecV((Seg(m, j, el),), T))
    return UNIT

@M(VN + 'pop')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p); oty = retty(ex, inst)
    if isinstance(v, VecV) and not any(isinstance(e, Seg) for e in v.e):
        if not v.e: return none(oty)
        ex.setref(st, a[0], VecV(v.e[:-1], v.ety)); return some(oty, v.e[-1])
    if isinstance(v, Sym):
        n = ex.vlen(v.t); res = []
        for s, z in ex.split(st, Eq(n, 0)):
            if z: res.append((s, none(oty)))
            else:
                ex.setref(s, a[0], Sym(v.ty, v.t.sort().constructor(0)(zi(n - 1), ex.acc(v.t, 0, 1))))
                res.append((s, some(oty, ex.wrap(inst.args[0], ex.vat(v.t, n - 1)))))
        return res
    raise Unsupported('pop')

@R(r'^alloc::vec::Vec::<T, A>::len$', r'^core::slice::<impl \[T\]>::len$', r'^alloc::collections::vec_deque::VecDeque::<T, A>::len$')
def _(ex, st, inst, a): return ex.length(st, a[0])

@R(r'^alloc::vec::Vec::<T, A>::is_empty$', r'^core::slice::<impl \[T\]>::is_empty$')
def _(ex, st, inst, a): return Eq(ex.length(st, a[0]), 0)

@R(r'^alloc::vec::Vec::<T, A>::(reserve|shrink_to_fit|reserve_exact)$')
def _(ex, st, inst, a): return UNIT

@R(r'^alloc::vec::Vec::<T, A>::clear$')
def _(ex, st, inst, a): ex.setref(st, a[0], VecV((), inst.args[0])); return UNIT

@R(r'^alloc::vec::Vec::<T, A>::(truncate)$')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p)
    if isinstance(v, VecV) and isint(a[1]): ex.setref(st, a[0], VecV(v.e[:a[1]], v.ety)); return UNIT
    n = ex.length(st, v)
    if isinstance(v, Sym):
        ex.setref(st, a[0], Sym(v.ty, v.t.sort().constructor(0)(zi(Ite(zi(n) < zi(a[1]), n, a[1])), ex.acc(v.t, 0, 1)))); return UNIT
    raise Unsupported('truncate')

def conc(v): return isinstance(v, VecV) and not any(isinstance(e, Seg) for e in v.e)

@R(r'^alloc::vec::Vec::<T, A>::(remove|swap_remove)$')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p); i = a[1]
    sw = inst.name.endswith('swap_remove')
    if conc(v) and isint(i):
        if i >= len(v.e): ex.panic(st, inst, 'remove oob'); return []
        e = list(v.e); x = e[i]
        if sw: e[i] = e[-1]; e.pop()
        else: e.pop(i)
        ex.setref(st, a[0], VecV(tuple(e), v.ety)); return x
    if conc(v):
        res = []
        for k in range(len(v.e)):
            s = st.fork()
            s.add(i == k)
            if ex.feasible(s):
                e = list(v.e); x = e[k]
                if sw: e[k] = e[-1]; e.pop()
                else: e.pop(k)
                ex.setref(s, a[0], VecV(tuple(e), v.ety)); res.append((s, x))
        return res
    if isinstance(v, Sym):
        n = ex.vlen(v.t); arr = ex.acc(v.t, 0, 1)
        st.add(zi(i) < zi(n))
        x = ex.wrap(inst.args[0], z3.Select(arr, zi(i)))
        if sw:
            na = z3.Store(arr, zi(i), z3.Select(arr, zi(n) - 1))
        else:
            j = z3.FreshConst(z3.IntSort(), 'lj')
            na = z3.Lambda([j], z3.If(j < zi(i), z3.Select(arr, j), z3.Select(arr, j + 1)))
        ex.setref(st, a[0], Sym(v.ty, v.t.sort().constructor(0)(zi(n) - 1, na)))
        return x
    raise Unsupported('remove')

@R(r'^alloc::vec::Vec::<T, A>::insert$')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p)
    if conc(v) and isint(a[1]):
        e = list(v.e); e.insert(a[1], a[2]); ex.setref(st, a[0], VecV(tuple(e), v.ety)); return UNIT
    raise Unsupported('insert')

@R(r'^alloc::vec::Vec::<T, A>::(append)$')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p); w = ex.load(st, a[1].c, a[1].p)
    ex.setref(st, a[0], vec_concat(ex, st, v, w)); ex.setref(st, a[1], VecV((), inst.args[0])); return UNIT

@R(r'^alloc::vec::Vec::<T, A>::extend_from_slice$')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p); w = ex.deref(st, a[1])
    if isinstance(v, z3.ExprRef): ex.setref(st, a[0], ex.fn('str_push', v.sort(), w.sort(), E.StrS)(v, w)); return UNIT
    ex.setref(st, a[0], vec_concat(ex, st, v, w)); return UNIT

def vec_concat(ex, st, v, w):
    if isinstance(w, VecV):
        if not w.e: return v
        return vec_append(ex, st, v, list(w.e), w.ety)
    if isinstance(w, Sym):
        if isinstance(v, VecV) and not v.e: return w
        sg = vec_as_seg(ex, w)
        return vec_append(ex, st, v, [sg], ex.elty(w.ty))
    raise Unsupported('concat')

@R(r'^core::slice::<impl \[T\]>::(first|last)$')
def _(ex, st, inst, a):
    v = ex.deref(st, a[0]); oty = retty(ex, inst); r = a[0]
    n = ex.length(st, v)
    def mk(s):
        i = 0 if inst.name.endswith('first') else n - 1
        return some(oty, refelem(ex, s, r, v, i))
    return fork_bool(ex, st, Eq(n, 0), lambda s: none(oty), mk)

def innermost(ex, st, r):
    """the last reference before the value"""
    while isinstance(r, Ref):
        v = ex.load(st, r.c, r.p)
        if not isinstance(v, Ref): return r
        r = v
    return ex.ref_to(st, r)

def refelem(ex, st, r, v, i):
    r = innermost(ex, st, r)
    return Ref(r.c, r.p + (('i', i),))

@R(r'^core::slice::<impl \[T\]>::(get|get_mut)$')
def _(ex, st, inst, a):
    v = ex.deref(st, a[0]); oty = retty(ex, inst)
    if not isint(a[1]) and not isinstance(a[1], z3.ArithRef): raise Unsupported('get with range')
    n = ex.length(st, v)
    c = zi(a[1]) < zi(n) if not (isint(a[1]) and isint(n)) else a[1] < n
    return fork_bool(ex, st, c, lambda s: some(oty, refelem(ex, s, a[0], v, a[1])), lambda s: none(oty))

@R(r'^<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$', r'^core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index(_mut)?$')
def _(ex, st, inst, a):
    v = ex.deref(st, a[0])
    i = a[1]
    ity = argty(ex, inst, 1)
    if ity.k == 'adt' and ity.name.startswith('core::ops::range::Range') and not isinstance(v, z3.ExprRef):
        nm = ity.name.split('::')[-1]; n = ex.length(st, v)
        if nm == 'RangeFull': return a[0]
        if nm == 'RangeFrom': lo, hi = i, n
        elif nm == 'RangeTo': lo, hi = 0, i
        elif nm == 'RangeToInclusive': lo, hi = 0, i + 1
        elif nm == 'Range': lo, hi = (i.f[0], i.f[1]) if isinstance(i, Adt) else (ex.acc(i.t, 0, 0), ex.acc(i.t, 0, 1))
        else: raise Unsupported('range index ' + nm)
        c = ex.simp(And(zi(lo) <= zi(hi), zi(hi) <= zi(n)))
        if c is False: ex.panic(st, inst, 'slice oob'); return []
        if c is not True:
            if ex.panics is not None:
                s2 = st.fork(); s2.add(Not(c))
                if ex.feasible(s2): ex.panic(s2, inst, 'slice oob')
            st.add(c)
        if conc(v) and isint(lo) and isint(hi): return ex.ref_to(st, VecV(v.e[lo:hi], v.ety))
        if isint(lo) and lo == 0 and hi is n: return a[0]
        j = ex.freshc('sj', z3.IntSort())
        if isinstance(v, Sym): el = ex.wrap(ex.elty(v.ty), ex.vat(v.t, j + zi(lo))); ety = ex.elty(v.ty)
        elif len(v.e) == 1 and isinstance(v.e[0], Seg) and v.e[0].cond is True: el = ex.subst(v.e[0].val, v.e[0].j, j + zi(lo)); ety = v.ety
        else: raise Unsupported('slice of concatenation')
        return ex.ref_to(st, VecV((Seg(z3.simplify(zi(hi) - zi(lo)), j, el),), ety))
    if isint(i) or isinstance(i, z3.ArithRef):
        n = ex.length(st, v)
        c = (i < n) if isint(i) and isint(n) else zi(i) < zi(n)
        if c is False: ex.panic(st, inst, 'index oob'); return []
        if c is not True:
            if ex.panics is not None:
                s2 = st.fork(); s2.add(Not(c))
                if ex.feasible(s2): ex.panic(s2, inst, 'index oob')
            st.add(c)
        if isinstance(v, z3.ExprRef): return ex.ref_to(st, ex.proj(st, v, ('i', i)))
        return refelem(ex, st, a[0], v, i)
    # ranges
    if i is None: return a[0]
    if isinstance(i, Adt) and conc(v):
        nm = i.ty.name.split('::')[-1]; f = i.f
        lo, hi = {'Range': lambda: (f[0], f[1]), 'RangeFrom': lambda: (f[0], len(v.e)), 'RangeTo': lambda: (0, f[0]), 'RangeFull': lambda: (0, len(v.e))}[nm]()
        if isint(lo) and isint(hi): return ex.ref_to(st, VecV(v.e[lo:hi], v.ety))
    if (isint(i) is False) and isinstance(v, z3.ExprRef):
        return ex.ref_to(st, ex.fn('substr', E.StrS, ex.sort(i.ty) if isinstance(i, Adt) else z3.IntSort(), E.StrS)(v, ex.term(i, i.ty, st) if isinstance(i, Adt) else zi(i)))
    raise Unsupported('range index ' + inst.full)

@R(r'^core::slice::<impl \[T\]>::contains$')
def _(ex, st, inst, a):
    v = ex.deref(st, a[0]); T = inst.args[0]
    x = ex.term(a[1], T, st) if not isinstance(a[1], Ref) else ex.term(ex.load(st, a[1].c, a[1].p), T, st)
    return vec_contains(ex, st, v, x, T)

def vec_contains(ex, st, v, x, T):
    if conc(v): return Or(*[Eq(ex.term(e, T, st), x) for e in v.e])
    if isinstance(v, Sym):
        j = ex.fresh('cj', z3.IntSort())
        return quantified(ex, st, 'any', j, ex.vlen(v.t), ex.vat(v.t, j) == x)
    if isinstance(v, VecV):
        r = False
        for e in v.e:
            if isinstance(e, Seg):
                p = Eq(ex.term(e.val, T, st), x)
                if e.cond is not True: p = And(e.cond, p)
                r = Or(r, quantified(ex, st, 'any', e.j, e.n, zb(p)))
            else: r = Or(r, Eq(ex.term(e, T, st), x))
        return r
    raise Unsupported('contains')

@R(r'^alloc::boxed::Box::<T>::(new|pin)$', r'^alloc::rc::Rc::<T>::new$')
def _(ex, st, inst, a):
    if isinstance(a[0], IterV): return a[0]
    return ex.ref_to(st, a[0])

@R(r'^alloc::boxed::Box::<T>::new_uninit$', r'^alloc::boxed::Box::<T, A>::new_uninit_in$')
def _(ex, st, inst, a): return ex.ref_to(st, UNINIT)

@R(r'^alloc::boxed::box_assume_init_into_vec_unsafe$', r'^alloc::slice::<impl \[T\]>::into_vec$')
def _(ex, st, inst, a): 
    v = ex.deref(st, a[0])
    if isinstance(v, Opq) and v.tag == 'uninit': return VecV((), inst.args[0])
    return v

@R(r'^alloc::boxed::Box::<.*>::(assume_init|into_inner|write)$')
def _(ex, st, inst, a): return a[0]

@R(r'^alloc::vec::from_elem$')
def _(ex, st, inst, a):
    if isint(a[1]): return VecV(tuple([a[0]] * a[1]), inst.args[0])
    T = inst.args[0]
    s = ex.vecsort(ex.sort(T))
    r = retty(ex, inst)
    return Sym(r, s.constructor(0)(zi(a[1]), z3.K(z3.IntSort(), ex.term(a[0], T, st))))

# sorting: an unknown permutation (sortedness only remembered for dedup)
@R(r'^alloc::slice::<impl \[T\]>::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key)$', r'^core::slice::<impl \[T\]>::(sort_unstable|sort_unstable_by|sort_unstable_by_key)$')
def _(ex, st, inst, a):
    r = innermost(ex, st, a[0])
    v = ex.deref(st, r); T = inst.args[0]
    if conc(v) and len(v.e) <= 1: return UNIT
    bty = ex.strip_refs(argty(ex, inst, 0))
    t = ex.term(v, bty, st)
    n = zi(ex.vlen(t)); I = z3.IntSort()
    ex.nfresh += 1; q = ex.nfresh
    pm = ex.freshfn('perm', I, I); iv = ex.freshfn('iperm', I, I); x = z3.Int('px')
    arr = ex.fresh('sorted', ex.acc(t, 0, 1).sort())
    # outside the vector both are the identity: unconditional inverses keep instantiation finite
    src0 = ex.acc(t, 0, 1)
    st.addlazy(z3.ForAll([x], z3.And(iv(pm(x)) == x, z3.Implies(z3.And(x >= 0, x < n), z3.And(pm(x) >= 0, pm(x) < n))), patterns=[pm(x)]))
    st.addlazy(z3.ForAll([x], z3.And(pm(iv(x)) == x, z3.Select(arr, iv(x)) == z3.Select(src0, x), z3.Implies(z3.And(x >= 0, x < n), z3.And(iv(x) >= 0, iv(x) < n))), patterns=[iv(x)] + ([] if z3.is_quantifier(src0) else [z3.Select(src0, x)])))
    st.add(z3.Implies(n == 1, pm(z3.IntVal(0)) == 0))
    st.addlazy(z3.ForAll([x], z3.Select(arr, x) == z3.Select(src0, pm(x)), patterns=[z3.Select(arr, x)]))
    st.add(z3.Implies(n == 1, z3.Select(arr, 0) == z3.Select(ex.acc(t, 0, 1), 0)))
    if isinstance(v, VecV):     # where each part of the vector went, found from its elements
        off = z3.IntVal(0)
        for e in v.e:
            k = zi(e.n) if isinstance(e, Seg) else 1
            if isinstance(e, Seg):
                src = z3.substitute(ex.term(e.val, T, st), (e.j, x)); at = iv(off + x)
                b = z3.Implies(z3.And(x >= 0, x < k), z3.And(at >= 0, at < n, z3.Select(arr, at) == src))
                pats = [src] if z3.is_app(src) and src.num_args() and src.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR) else []
                try: f = z3.ForAll([x], b, patterns=pats)
                except z3.Z3Exception: f = z3.ForAll([x], b)
                st.addlazy(f)
            else: st.addlazy(z3.And(iv(off) >= 0, iv(off) < n, z3.Select(arr, iv(off)) == ex.term(e, T, st)))
            off = z3.simplify(off + k)
    nt = t.sort().constructor(0)(n, arr)
    if inst.name.endswith('sort') or inst.name.endswith('sort_unstable'): ex.sortedarr.add(arr.get_id()); ex._keep.append(arr)
    vt = v.ty if isinstance(v, Sym) else bty
    if isinstance(v, Sym): ex.setref(st, r, Sym(v.ty, nt))
    else: ex.setref(st, r, VecV((Seg(n, x0 := ex.freshc('j', I), ex.wrap(T, z3.Select(arr, x0))),), T))
    return UNIT

# ------------------------------------------------------------------ iterators
STOP = object()

def as_iter(ex, st, v, byref=False):
    """IntoIterator for a value"""
    if isinstance(v, IterV): return v
    if isinstance(v, Ref):
        w = ex.load(st, v.c, v.p)
        if isinstance(w, IterV): return IterV('byref', v)
        r = innermost(ex, st, v); w = ex.deref(st, r)
        if isinstance(w, (VecV, Sym)):
            if isinstance(w, Sym) and ex.cls(w.ty) != 'vec':
                if w.ty.name == 'core::option::Option': return IterV('optref', w, r)
                raise Unsupported('iterate ' + w.ty.s)
            return IterV('vec', w, 0, r)
        if isinstance(w, Adt) and w.ty.name == 'core::option::Option':
            return IterV('list', tuple([Ref(r.c, r.p + (('f', 0, 1, w.ty),))] if w.v == 1 else []))
        raise Unsupported(f'iterate {w!r}')
    if isinstance(v, VecV): return IterV('vec', v, 0, None)
    if isinstance(v, Sym):
        if ex.cls(v.ty) == 'vec': return IterV('vec', v, 0, None)
        if v.ty.name == 'core::option::Option': return IterV('opt', v)
    if isinstance(v, Adt):
        if v.ty.name == 'core::option::Option': return IterV('list', tuple(v.f))
        if v.ty.name == 'core::ops::range::Range': return IterV('range', v.f[0], v.f[1])
        if v.ty.name == 'core::ops::range::RangeInclusive': return IterV('range', v.f[0], v.f[1] + 1)
        if v.ty.name == 'core::result::Result': return IterV('list', tuple(v.f) if v.v == 0 else ())
    if isinstance(v, Opq) and v.tag == 'coll': return IterV('list', v.d)
    raise Unsupported(f'into_iter of {v!r}')

def inext(ex, st, it):
    """-> [(st, elem|STOP, it')]"""
    k = it.k
    if k == 'vec':
        v, i, r = it.a[:3]
        if isinstance(v, VecV):
            if i >= len(v.e): return [(st, STOP, it)]
            e = v.e[i]
            if not isinstance(e, Seg):
                el = Ref(r.c, r.p + (('i', i),)) if r is not None and conc(v) else (ex.ref_to(st, e) if r is not None else e)
                return [(st, el, IterV('vec', v, i + 1, r))]
            off = it.a[3] if len(it.a) > 3 else 0
            res = []
            if e.cond is not True: raise Unsupported('iterate filtered segment')
            if off >= ex.K:
                ex.bounded['segment iteration'] = ex.K
                for s, z in ex.split(st, zi(e.n) <= off):
                    if z: res += inext(ex, s, IterV('vec', v, i + 1, r))
                return res
            for s, z in ex.split(st, zi(e.n) <= off):
                if z: res += inext(ex, s, IterV('vec', v, i + 1, r))
                else:
                    el = ex.subst(e.val, e.j, zi(off))
                    res.append((s, ex.ref_to(s, el) if r is not None else el, IterV('vec', v, i, r, off + 1)))
            return res
        n = ex.vlen(v.t); ety = ex.elty(v.ty)
        res = []
        if isint(n):
            cs = [(st, i >= n)]
        else: cs = ex.split(st, n <= i)
        for s, z in cs:
            if z: res.append((s, STOP, it))
            else:
                if isint(i) and i >= ex.K and not isint(n):
                    ex.bounded[f'loop over {v.ty.s}'] = ex.K; continue
                el = Ref(r.c, r.p + (('i', i),)) if r is not None else ex.wrap(ety, ex.vat(v.t, i))
                res.append((s, el, IterV('vec', v, i + 1, r)))
        return res
    if k == 'list':
        l = it.a[0]
        if not l: return [(st, STOP, it)]
        return [(st, l[0], IterV('list', l[1:]))]
    if k == 'opt':
        v = it.a[0]; res = []
        for s, z in ex.split(st, ex.is_none(v.t)):
            if z: res.append((s, STOP, IterV('list', ())))
            else: res.append((s, ex.wrap(v.ty.args[0], ex.unsome(v.t)), IterV('list', ())))
        return res
    if k == 'optref':
        v = it.a[0]; res = []
        for s, z in ex.split(st, ex.is_none(v.t)):
            if z: res.append((s, STOP, IterV('list', ())))
            else: res.append((s, ex.ref_to(s, ex.wrap(v.ty.args[0], ex.unsome(v.t))), IterV('list', ())))
        return res
    if k == 'byref':
        r = it.a[0]; inner = ex.load(st, r.c, r.p); res = []
        for s, e, i2 in inext(ex, st, inner):
            ex.setref(s, r, i2); res.append((s, e, it))
        return res
    if k == 'range':
        lo, hi = it.a[:2]; cnt = it.a[2] if len(it.a) > 2 else 0
        res = []
        c = lo >= hi if isint(lo) and isint(hi) else zi(lo) >= zi(hi)
        for s, z in ex.split(st, c):
            if z: res.append((s, STOP, it))
            else:
                if not (isint(lo) and isint(hi)) and cnt >= ex.K:
                    ex.bounded['symbolic range loop'] = ex.K; continue
                res.append((s, lo, IterV('range', lo + 1, hi, cnt + 1)))
        return res
    if k == 'map':
        res = []
        for s, e, i2 in inext(ex, st, it.a[0]):
            if e is STOP: res.append((s, STOP, IterV('map', i2, it.a[1])))
            else:
                for s2, v in ex.call_value(s, it.a[1], [e]): res.append((s2, v, IterV('map', i2, it.a[1])))
        return res
    if k in ('filter', 'filter_map', 'take_while', 'map_while', 'skip_while'):
        res = []; work = [(st, it.a[0])]
        while work:
            s0, i0 = work.pop()
            for s, e, i2 in inext(ex, s0, i0):
                if e is STOP: res.append((s, STOP, IterV(k, i2, it.a[1]))); continue
                if k in ('filter', 'take_while'):
                    for s2, b in ex.call_value(s, it.a[1], [ex.ref_to(s, e)]):
                        for s3, z in ex.split(s2, b):
                            if z: res.append((s3, e, IterV(k, i2, it.a[1])))
                            elif k == 'filter': work.append((s3, i2))
                            else: res.append((s3, STOP, IterV('list', ())))
                else:
                    for s2, o in ex.call_value(s, it.a[1], [e]):
                        for s3, z, pv in opt_cases(ex, s2, o):
                            if z: res.append((s3, pv, IterV(k, i2, it.a[1])))
                            elif k == 'filter_map': work.append((s3, i2))
                            else: res.append((s3, STOP, IterV('list', ())))
        return res
    if k == 'enumerate':
        res = []
        for s, e, i2 in inext(ex, st, it.a[0]):
            n = it.a[1]
            if e is STOP: res.append((s, STOP, IterV('enumerate', i2, n)))
            else: res.append((s, ('tup', n, e), IterV('enumerate', i2, n + 1)))
        return [(s, TupV(ex, e[1:]) if isinstance(e, tuple) else e, i2) for s, e, i2 in res]
    if k == 'zip':
        res = []
        for s, e, i2 in inext(ex, st, it.a[0]):
            if e is STOP: res.append((s, STOP, IterV('list', ()))); continue
            for s2, f, j2 in inext(ex, s, it.a[1]):
                if f is STOP: res.append((s2, STOP, IterV('list', ())))
                else: res.append((s2, TupV(ex, (e, f)), IterV('zip', i2, j2)))
        return res
    if k == 'chain':
        res = []
        for s, e, i2 in inext(ex, st, it.a[0]):
            if e is STOP: res += inext(ex, s, it.a[1])
            else: res.append((s, e, IterV('chain', i2, it.a[1])))
        return res
    if k in ('cloned', 'copied'):
        res = []
        for s, e, i2 in inext(ex, st, it.a[0]):
            if e is STOP: res.append((s, STOP, IterV(k, i2)))
            else: res.append((s, ex.load(s, e.c, e.p) if isinstance(e, Ref) else e, IterV(k, i2)))
        return res
    if k == 'take':
        n = it.a[1]
        c = n <= 0
        res = []
        for s, z in ex.split(st, c):
            if z: res.append((s, STOP, it)); continue
            for s2, e, i2 in inext(ex, s, it.a[0]):
                res.append((s2, e, IterV('take', i2, n - 1)))
        return res
    if k == 'skip':
        n = it.a[1]
        res = []
        for s, z in ex.split(st, n <= 0):
            if z: 
                for s2, e, i2 in inext(ex, s, it.a[0]): res.append((s2, e, IterV('skip', i2, 0)))
            else:
                for s2, e, i2 in inext(ex, s, it.a[0]):
                    if e is STOP: res.append((s2, STOP, IterV('list', ())))
                    else: res += inext(ex, s2, IterV('skip', i2, n - 1))
        return res
    if k == 'flatten':
        inner, cur = it.a
        res = []
        if cur is not None:
            for s, e, c2 in inext(ex, st, cur):
                if e is STOP: res += inext(ex, s, IterV('flatten', inner, None))
                else: res.append((s, e, IterV('flatten', inner, c2)))
            return res
        for s, e, i2 in inext(ex, st, inner):
            if e is STOP: res.append((s, STOP, IterV('list', ())))
            else: res += inext(ex, s, IterV('flatten', i2, as_iter(ex, s, e)))
        return res
    if k == 'peekable':
        inner, pk = it.a
        if pk is None:
            return [(s, e, IterV('peekable', i2, None)) for s, e, i2 in inext(ex, st, inner)]
        return [(st, pk[0], IterV('peekable', inner, None))]
    h = ex.iter_kinds.get(k)
    if h: return h(ex, st, it)
    raise Unsupported('iterator ' + k)

class TupleNoTy: pass

def TupV(ex, xs):
    return Adt(ex.any_tuple(len(xs)), 0, list(xs))

def opt_cases(ex, st, o):
    """[(st, is_some, payload)]"""
    o = ex.deref(st, o)
    if isinstance(o, Adt): return [(st, o.v == 1, o.f[0] if o.v == 1 else None)]
    res = []
    for s, z in ex.split(st, ex.is_none(o.t)):
        res.append((s, not z, None if z else ex.wrap(o.ty.args[0], ex.unsome(o.t))))
    return res

def res_cases(ex, st, o):
    """[(st, ok?, payload)] of a Result"""
    if isinstance(o, Adt): return [(st, o.v == 0, o.f[0])]
    res = []
    for s, z in ex.split(st, ex.isvar(o.t, 0)):
        res.append((s, z, ex.wrap(o.ty.args[0 if z else 1], ex.acc(o.t, 0 if z else 1, 0))))
    return res

def drain(ex, st, it, limit=200):
    """[(st, [elems])]"""
    out = []; work = [(st, it, ())]
    while work:
        s, i, acc = work.pop()
        if len(acc) > limit: raise Unsupported('iterator too long')
        for s2, e, i2 in inext(ex, s, i):
            if e is STOP: out.append((s2, list(acc)))
            else: work.append((s2, i2, acc + (e,)))
    return out

def symbase(it):
    """base symbolic vector of a pure map pipeline, with the stages, or None"""
    stages = []
    while True:
        if it.k == 'map': stages.append((it.k, it.a[1])); it = it.a[0]
        elif it.k in ('cloned', 'copied'): stages.append((it.k, None)); it = it.a[0]
        elif it.k == 'enumerate' and it.a[1] == 0: stages.append(('enumerate', None)); it = it.a[0]
        elif it.k == 'vec' and it.a[1] == 0 and not (conc(it.a[0])) and len(it.a) == 3:
            v = it.a[0]
            if isinstance(v, Sym) and isint(ex_vlen(v)): return None
            return v, it.a[2], stages[::-1]
        else: return None

def ex_vlen(v):
    t = v.t
    if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        n = t.arg(0)
        if z3.is_int_value(n): return n.as_long()
    return None

def norm_iter(ex, st, it):
    """materialise filter stages over symbolic vectors (exact enumeration of the kept indices)"""
    k = it.k
    if k in ('map', 'enumerate'): return IterV(k, norm_iter(ex, st, it.a[0]), *it.a[1:])
    if k in ('cloned', 'copied'): return IterV(k, norm_iter(ex, st, it.a[0]))
    if k in ('take', 'skip'):
        inner = norm_iter(ex, st, it.a[0])
        r = reseg(ex, inner, k, it.a[1])
        return r if r is not None else IterV(k, inner, *it.a[1:])
    if k == 'flatten' and it.a[1] is None:      # of options or results: the values that are there
        inner = norm_iter(ex, st, it.a[0])
        if symbase(inner) is None: return it
        g = generic_elems(ex, st, inner)
        if g is not None and len(g[2]) == 1:
            n, j, [(c, e, s1)] = g; e = freeze(ex, s1, e)
            if isinstance(e, Sym) and ex.cls(e.ty) == 'vec' or isinstance(e, VecV) and len(e.e) == 1 and isinstance(e.e[0], Seg) and e.e[0].cond is True:
                st.addlazy(forall(ex, j, n, c))
                return flat_grid(ex, st, n, j, vec_as_seg(ex, e) if isinstance(e, Sym) else e.e[0])
            if isinstance(e, VecV) and not e.e: return IterV('list', ())
        if g is None or not all(isinstance(e, Adt) and e.ty.name in ('core::option::Option', 'core::result::Result') for _, e, _ in g[2]): return it
        n, j, outs = g
        good = [(c, freeze(ex, s1, e.f[0])) for c, e, s1 in outs if (e.v == 0) == e.ty.name.endswith('Result')]
        if not good: return IterV('list', ())
        val = ex.mval([c for c, _ in good], [v for _, v in good]) if len(good) > 1 else good[0][1]
        st.addlazy(forall(ex, j, n, Or(*[c for c, _, _ in outs])))
        if len(good) == len(outs): m, f = n, (lambda x: x)
        else: m, f = filter_idx(ex, st, n, j, Or(*[c for c, _ in good]))
        j2 = ex.freshc('j', z3.IntSort())
        return IterV('vec', VecV((Seg(m, j2, ex.subst(val, j, f(j2))),), None), 0, None)
    if k not in ('filter', 'filter_map'): return it
    inner = norm_iter(ex, st, it.a[0])
    if symbase(inner) is None: return IterV(k, inner, it.a[1])
    g = generic_elems(ex, st, inner)
    if g is None or len(g[2]) != 1: return IterV(k, inner, it.a[1])
    n, j, [(c, el, s1)] = g
    st.addlazy(forall(ex, j, n, c))
    f = it.a[1]
    s1 = s1.fork()
    if k == 'filter':
        with generic(ex, j): c2 = one_bool(ex, s1, f, ex.ref_to(s1, el))
        val = freeze(ex, s1, el)
    else:
        pc0 = s1.pc; c2 = False; vals = []
        with generic(ex, j): res = ex.call_value(s1, f, [el])
        for s2, o in res:
            fs = []; p = s2.pc
            while p is not pc0: fs.append(p.f); p = p.up
            cc = And(*fs[::-1])
            for s3, z, pv in ([(s2, o.v == 1, o.f[0] if o.v == 1 else None)] if isinstance(o, Adt) else [(s2, ex.is_some(o.t), ex.wrap(o.ty.args[0], ex.unsome(o.t)))]):
                if z is False: continue
                c2 = Or(c2, And(cc, z)); vals.append((And(cc, z), freeze(ex, s3, pv)))
        if not vals: return IterV('list', ())
        if len(vals) > 1 and len(set(map(str, [ex.mkey(v) for _, v in vals]))) > 1: return IterV(k, inner, it.a[1])
        val = ex.mval([x[0] for x in vals], [x[1] for x in vals])
    m, idx = filter_idx(ex, st, n, j, c2)
    j2 = ex.freshc('j', z3.IntSort())
    return IterV('vec', VecV((Seg(m, j2, ex.subst(val, j, idx(j2))),), None), 0, el if isinstance(el, Ref) and k == 'filter' else None)

def flat_grid(ex, st, n, j, g):
    """rows laid end to end: row j has g.n(j) elements g.val(j, i). Exact: positions of the result and
    (row, column) pairs correspond one to one, in lexicographic order"""
    I = z3.IntSort(); n = zi(n); w = lambda r: z3.substitute(zi(g.n), (j, r))
    ex.nfresh += 1; q = ex.nfresh
    row, col, at = ex.freshfn('row', I, I), ex.freshfn('col', I, I), ex.freshfn('cell', I, I, I)
    N = ex.fresh('cells', I); x, r, c = z3.Ints('gx!%d gr!%d gc!%d' % (q, q, q)); x2 = z3.Int('gy!%d' % q)
    st.add(N >= 0)
    st.addlazy(z3.ForAll([x], z3.And(at(row(x), col(x)) == x, z3.Implies(z3.And(x >= 0, x < N), z3.And(row(x) >= 0, row(x) < n, col(x) >= 0, col(x) < w(row(x))))), patterns=[row(x)]))
    st.addlazy(z3.ForAll([r, c], z3.And(row(at(r, c)) == r, col(at(r, c)) == c, z3.Implies(z3.And(r >= 0, r < n, c >= 0, c < w(r)), z3.And(at(r, c) >= 0, at(r, c) < N))), patterns=[at(r, c)]))
    st.addlazy(z3.ForAll([x, x2], z3.Implies(z3.And(0 <= x, x < x2, x2 < N), z3.Or(row(x) < row(x2), z3.And(row(x) == row(x2), col(x) < col(x2)))), patterns=[z3.MultiPattern(row(x), row(x2))]))
    if not E.occurs(j, g.n) if isinstance(g.n, z3.ExprRef) else True: st.add(N == zi(mul(n, zi(g.n))))
    st.store[('grids',)] = st.store.get(('grids',), ()) + ((N, row, col, at),)
    j2 = ex.freshc('j', I)
    return IterV('vec', VecV((Seg(N, j2, ex.subst(ex.subst(g.val, g.j, col(j2)), j, row(j2))),), None), 0, None)

def reseg(ex, it, how, c=None):
    """the first c / all but the first c / the reversed elements of a pipeline over one symbolic segment"""
    k = it.k
    if k in ('map', 'enumerate') and (k == 'map' or how == 'take'):
        r = reseg(ex, it.a[0], how, c); return None if r is None else IterV(k, r, *it.a[1:])
    if k in ('cloned', 'copied'):
        r = reseg(ex, it.a[0], how, c); return None if r is None else IterV(k, r)
    if k != 'vec' or it.a[1] != 0 or len(it.a) != 3: return None
    v = it.a[0]
    if isinstance(v, Sym):
        if isint(ex_vlen(v)): return None
        g = vec_as_seg(ex, v)
    elif len(v.e) == 1 and isinstance(v.e[0], Seg) and v.e[0].cond is True: g = v.e[0]
    else: return None
    n = zi(g.n); j = ex.freshc('j', z3.IntSort())
    if how == 'take': n2 = z3.If(n <= zi(c), n, zi(c)); at = j
    elif how == 'skip': n2 = z3.If(n >= zi(c), n - zi(c), 0); at = j + zi(c)
    else: n2 = n; at = n - 1 - j
    return IterV('vec', VecV((Seg(n2, j, ex.subst(g.val, g.j, at)),), v.ety if isinstance(v, VecV) else ex.elty(v.ty)), 0, it.a[2])

def seg_pieces(ex, st, it):
    """everything a pipeline yields, segments of symbolic length included: [(st, [element | Seg])] or None"""
    import mloops
    out = []; work = [(st, it, ())]
    while work:
        s, i, acc = work.pop()
        if len(acc) > 60: return None
        h = mloops.ahead(ex, s, i)
        if h is not None:
            n, j, el, ref, stages, aft = h
            sub = IterV('vec', VecV((Seg(n, j, el),), None), 0, ref)
            for k, f in stages:
                sub = IterV('map', sub, f) if k == 'map' else IterV(k, sub, *([f] if k == 'enumerate' else []))
            r = collect_seg(ex, s, sub, 'vec')
            if r is None: return None
            for s2, w in r: work.append((s2, aft, acc + tuple(w.e)))
            continue
        for s2, e, i2 in inext(ex, s, i):
            if e is STOP: out.append((s2, list(acc)))
            else: work.append((s2, i2, acc + (e,)))
    return out

generic = loops.Gen

def generic_elems(ex, st, it, exits=None, full=False):
    """Run a pipeline over a symbolic vector once on a generic element.
    -> (st, n, j, [(state, elem)])  outcomes of one application, or None"""
    it = norm_iter(ex, st, it)
    b = symbase(it)
    if b is None: return None
    v, r, stages = b
    if isinstance(v, VecV):
        if len(v.e) != 1 or not isinstance(v.e[0], Seg) or v.e[0].cond is not True: return None
        g = v.e[0]; n, j, el = g.n, g.j, g.val
        j2 = ex.freshc('j', z3.IntSort()); el = ex.subst(el, j, j2); j = j2
    else:
        n = ex.vlen(v.t); j = ex.freshc('j', z3.IntSort()); el = ex.wrap(ex.elty(v.ty), ex.vat(v.t, j))
    def body(s):
        cur = [(s, ex.ref_to(s, el) if r is not None else el)]
        for k, f in stages:
            nxt = []
            for s1, e in cur:
                if k in ('cloned', 'copied'): nxt.append((s1, ex.deref(s1, e)))
                elif k == 'enumerate': nxt.append((s1, TupV(ex, (j, e))))
                elif k == 'map': nxt += ex.call_value(s1, f, [e])
                else: return None
            cur = nxt
        return cur
    g = loops.summarize(ex, st, n, j, body, exits)
    if g is None: return None
    cur, conds, cont, exit_at = g
    outs = [(conds(s1), e, s1) for s1, e in cur]
    if full: return n, j, outs, exit_at
    return n, j, outs

def forall(ex, j, n, body):
    if body is True: return True
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), zb(body)))

def freeze(ex, st, v):
    """replace references by values so that a template does not point into a forked state"""
    if isinstance(v, Ref): return freeze(ex, st, ex.deref(st, v))
    if isinstance(v, Adt): return Adt(v.ty, v.v, [freeze(ex, st, x) for x in v.f])
    if isinstance(v, VecV): return VecV(tuple(x if isinstance(x, Seg) else freeze(ex, st, x) for x in v.e), v.ety)
    return v

def collect_seg(ex, st, it, target):
    """collect a symbolic pipeline into Vec / Result<Vec>: exact, no bound"""
    try: g = generic_elems(ex, st, it, (lambda e: isinstance(e, Adt) and e.v == 1) if target == 'result' else None)
    except Unsupported: return None
    if g is None: return None
    n, j, outs = g
    if target == 'vec':
        if len(outs) != 1: return None
        c, e, s1 = outs[0]
        # the closure may only panic or not: assume non-panic for every element
        st.addlazy(forall(ex, j, n, c))
        return [(st, VecV((Seg(n, j, freeze(ex, s1, e)),), None))]
    if target == 'result':
        oks = []; errs = []
        for c, e, s1 in outs:
            if not isinstance(e, Adt): return None
            (oks if e.v == 0 else errs).append((c, e, s1))
        res = []
        if len(oks) != 1:     # several shapes of element: fine if it is the same shape for all of them
            if not oks or any(isinstance(c, z3.ExprRef) and E.occurs(j, c) for c, _, _ in oks): return None
            s0 = st.fork(); s0.add(zi(n) == 0)
            if ex.feasible(s0): res.append((s0, ('ok', VecV((), None))))
        for c, e, s1 in oks:
            so = st.fork()
            if len(oks) > 1: so.add(zi(n) > 0); so.add(c)
            so.addlazy(forall(ex, j, n, c))
            if len(oks) > 1 and not ex.feasible(so): continue
            res.append((so, ('ok', VecV((Seg(n, j, freeze(ex, s1, e.f[0])),), None))))
        for c, e, s1 in errs:
            se = st.fork(); j2 = ex.fresh('i', z3.IntSort())
            se.add(z3.And(j2 >= 0, j2 < n)); se.add(z3.substitute(zb(c), (j, j2)))
            try: ev = ex.subst(freeze(ex, s1, e.f[0]), j, j2)
            except Unsupported: ev = freeze(ex, s1, e.f[0])
            if ex.feasible(se): res.append((se, ('err', ev)))
        return res
    return None

IR = r'^core::iter::traits::iterator::Iterator::'
ITER_ANY = r'(?:core::iter::traits::iterator::Iterator::|as core::iter::traits::iterator::Iterator>::)'

def itarg(ex, st, v):
    """iterator argument by value or by &mut"""
    if isinstance(v, IterV): return v
    if isinstance(v, Ref):
        w = ex.load(st, v.c, v.p)
        if isinstance(w, IterV): return IterV('byref', v)
        if isinstance(w, Adt) and w.ty.name.startswith('core::ops::range::Range'):
            ex.setref(st, v, as_iter(ex, st, w)); return IterV('byref', v)
        if isinstance(w, Ref): return itarg(ex, st, w)
    return as_iter(ex, st, v)

@R(r'as core::iter::traits::collect::IntoIterator>::into_iter$', r'^core::slice::<impl \[T\]>::iter(_mut)?$', r'^core::iter::traits::collect::IntoIterator::into_iter$', r'^core::option::Option::<T>::iter$', r'^alloc::vec::Vec::<T, A>::(into_iter|drain)$', r'^core::array::.*IntoIterator.*::into_iter$', r'^core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &.*>::into_iter$', r'<impl core::iter::traits::collect::IntoIterator for .*>::into_iter$')
def _(ex, st, inst, a):
    if inst.name.endswith('drain'):
        v = ex.load(st, a[0].c, a[0].p)
        if a[1] is not None: raise Unsupported('drain range')
        ex.setref(st, a[0], VecV((), inst.args[0]))
        return as_iter(ex, st, v)
    return as_iter(ex, st, a[0])

@R(ITER_ANY + r'(map|filter|filter_map|take_while|map_while|skip_while)$')
def _(ex, st, inst, a):
    return IterV(inst.name.split('::')[-1], itarg(ex, st, a[0]), a[1])

@R(ITER_ANY + r'(cloned|copied)$')
def _(ex, st, inst, a): return IterV(inst.name.split('::')[-1], itarg(ex, st, a[0]))
@R(ITER_ANY + r'enumerate$')
def _(ex, st, inst, a): return IterV('enumerate', itarg(ex, st, a[0]), 0)
@R(ITER_ANY + r'(zip|chain)$', r'^core::iter::adapters::zip::zip$')
def _(ex, st, inst, a): return IterV(inst.name.split('::')[-1], itarg(ex, st, a[0]), as_iter(ex, st, a[1]))
@R(ITER_ANY + r'(take|skip)$')
def _(ex, st, inst, a): return IterV(inst.name.split('::')[-1], itarg(ex, st, a[0]), a[1])
@R(ITER_ANY + r'(flatten)$')
def _(ex, st, inst, a): return IterV('flatten', itarg(ex, st, a[0]), None)
@R(ITER_ANY + r'(flat_map)$')
def _(ex, st, inst, a): return IterV('flatten', IterV('map', itarg(ex, st, a[0]), a[1]), None)
@R(ITER_ANY + r'(by_ref)$')
def _(ex, st, inst, a): return a[0]
@R(ITER_ANY + r'(peekable|fuse)$')
def _(ex, st, inst, a): return IterV('peekable', itarg(ex, st, a[0]), None)
@R(ITER_ANY + r'rev$', r'as core::iter::traits::double_ended::DoubleEndedIterator>::rev$')
def _(ex, st, inst, a):
    it = itarg(ex, st, a[0])
    if it.k != 'byref':
        r = reseg(ex, norm_iter(ex, st, it), 'rev')
        if r is not None: return r
    return [(s, IterV('list', tuple(reversed(l)))) for s, l in drain(ex, st, it)]
@R(r'^core::iter::sources::(once|empty)::')
def _(ex, st, inst, a): return IterV('list', tuple(a))

@R(ITER_ANY + r'next$', r'as core::iter::range::RangeIteratorImpl>::spec_next$')
def _(ex, st, inst, a):
    r = a[0]
    v = ex.deref(st, r) if isinstance(r, Ref) else r
    if isinstance(v, Adt) and v.ty.name == 'core::ops::range::Range':
        v = as_iter(ex, st, v)
    if not isinstance(v, IterV): return NotImplemented
    r = innermost(ex, st, r)
    oty = retty(ex, inst)
    if oty is None: raise Unsupported('next without type: ' + inst.full)
    res = []
    for s, e, i2 in inext(ex, st, v):
        ex.setref(s, r, i2)
        res.append((s, none(oty) if e is STOP else some(oty, retype(ex, s, e, oty.args[0]))))
    return res

def retype(ex, st, e, ty):
    if isinstance(e, Adt) and e.ty.k == 'tuple' and ty.k == 'tuple': 
        return Adt(ty, 0, [retype(ex, st, x, t) for x, (_, t) in zip(e.f, ty.fields())])
    if isinstance(e, Adt) and isinstance(e.ty, _Stub) and e.ty.name == 'core::result::Result' and ty.k == 'adt':
        return Adt(ty, e.v, [retype(ex, st, e.f[0], ty.args[e.v])])
    if isinstance(e, Sym) and isinstance(e.ty, _Stub): return ex.wrap(ty, e.t)
    return e

def collect_into(ex, st, xs, B, inst):
    """build collection B from a list of values"""
    c = ex.cls(B)
    if c == 'vec': return [(st, VecV(tuple(retype(ex, st, x, ex.elty(B)) for x in xs), ex.elty(B)))]
    if B.name in ('core::result::Result', 'core::option::Option'):
        good = 0 if B.name.endswith('Result') else 1
        cur = [(st, [], None)]
        for x in xs:
            nxt = []
            for s, acc, bad in cur:
                if bad is not None: nxt.append((s, acc, bad)); continue
                cs = res_cases(ex, s, x) if good == 0 else opt_cases(ex, s, x)
                for s2, z, p in cs: nxt.append((s2, acc + [p], None) if z else (s2, acc, (p,)))
            cur = nxt
        res = []
        for s, acc, bad in cur:
            if bad is not None: res.append((s, err(B, bad[0]) if good == 0 else none(B)))
            else:
                for s2, v in collect_into(ex, s, acc, B.args[0], inst): res.append((s2, Adt(B, good, [v])))
        return res
    if c == 'unit': return [(st, UNIT)]
    if c == 'str':
        ts = [ex.deref(st, x) for x in xs]
        if all(isinstance(t, z3.ExprRef) for t in ts):
            r = ex.lit('')
            for t in ts: r = ex.fn('str_push', r.sort(), t.sort(), E.StrS)(r, t)
            return [(st, r)]
        return [(st, ex.fresh('collected', E.StrS))]
    if B.name.startswith('std::collections') or B.name.startswith('alloc::collections'):
        return [(st, Opq('coll', tuple(xs)))]
    raise Unsupported('collect into ' + B.s)

@R(ITER_ANY + r'(collect|try_collect)$', r'as core::iter::traits::collect::FromIterator<.*>>::from_iter$')
def _(ex, st, inst, a):
    B = retty(ex, inst)
    it = itarg(ex, st, a[0])
    if it.k == 'flatten' and it.a[1] is None:
        i2 = norm_iter(ex, st, it)
        if i2.k == 'list' and not i2.a[0]: it = i2
    if ex.cls(B) == 'vec':
        r = collect_seg(ex, st, it, 'vec')
        if r is not None: return [(s, VecV(v.e, ex.elty(B))) for s, v in r]
        try: r = seg_pieces(ex, st.fork(), it)
        except Unsupported: r = None
        if r is not None and any(isinstance(x, Seg) for _, xs in r for x in xs):
            return [(s, VecV(tuple(x if isinstance(x, Seg) else retype(ex, s, x, ex.elty(B)) for x in xs), ex.elty(B))) for s, xs in r]
    if B.name == 'core::result::Result' and ex.cls(B.args[0]) == 'vec':
        r = collect_seg(ex, st, it, 'result')
        if r is not None:
            return [(s, ok(B, VecV(v[1].e, ex.elty(B.args[0]))) if v[0] == 'ok' else err(B, v[1])) for s, v in r]
    res = []
    for s, xs in drain(ex, st, it): res += collect_into(ex, s, xs, B, inst)
    return res

@R(r'as core::iter::traits::collect::Extend<.*>>::extend$')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p)
    it = as_iter(ex, st, a[1])
    if not isinstance(v, (VecV, Sym)): raise Unsupported('extend of ' + repr(v))
    ety = v.ety if isinstance(v, VecV) else ex.elty(v.ty)
    r = collect_seg(ex, st, it, 'vec')
    if r is not None:
        for s, w in r: ex.setref(s, a[0], vec_append(ex, s, v, list(w.e), ety))
        return [(s, UNIT) for s, _ in r]
    if it.k == 'vec' and it.a[1] == 0 and it.a[2] is None:
        ex.setref(st, a[0], vec_concat(ex, st, v, it.a[0])); return UNIT
    try: r = seg_pieces(ex, st.fork(), it)
    except Unsupported: r = None
    if r is not None and any(isinstance(x, Seg) for _, xs in r for x in xs):
        res = []
        for s, xs in r:
            xs = [ex.load(s, x.c, x.p) if isinstance(x, Ref) and not (ety.k in ('ref', 'ptr') or ex.cls(ety) == 'ref') else x for x in xs]
            ex.setref(s, a[0], vec_append(ex, s, v, xs, ety)); res.append((s, UNIT))
        return res
    res = []
    for s, xs in drain(ex, st, it):
        xs = [ex.load(s, x.c, x.p) if isinstance(x, Ref) and not (ety.k in ('ref', 'ptr') or ex.cls(ety) == 'ref') else x for x in xs]
        ex.setref(s, a[0], vec_append(ex, s, v, xs, ety)); res.append((s, UNIT))
    return res

@R(ITER_ANY + r'(any|all|find|position|find_map|rposition)$')
def _(ex, st, inst, a):
    op = inst.name.split('::')[-1]
    src = a[0]
    it = itarg(ex, st, src); f = a[1]
    rty = retty(ex, inst)
    # exact, unbounded quantified result for pure predicates over symbolic vectors
    inner = it
    if it.k == 'byref': inner = ex.load(st, it.a[0].c, it.a[0].p)
    inner = norm_iter(ex, st, inner)
    if op in ('any', 'all', 'position', 'find') and symbase(inner) is not None:
        g = None
        try:
            g = generic_elems(ex, st, IterV('map', inner, f if op != 'find' else (lambda s, xs: [(s2, TupV(ex, (b, xs[0]))) for s2, b in ex.call_value(s, f, [ex.ref_to(s, xs[0])])])))
        except Unsupported: g = None
        if g is not None:
            n, j, outs = g
            if op == 'find':
                pj = Or(*[And(c, e.f[0]) for c, e, s1 in outs]); el0 = outs[0][1].f[1]
            else: pj = Or(*[And(c, e) for c, e, s1 in outs])
            def at(x): return z3.substitute(zb(pj), (j, x)) if not isinstance(pj, bool) else pj
            if it.k == 'byref': ex.setref(st, it.a[0], IterV('list', ()))
            if op in ('any', 'all'):
                return quantified(ex, st, op, j, n, zb(pj))
            i = ex.fresh('pos', z3.IntSort())
            sn = st.fork(); sn.addlazy(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(zb(pj)))))
            st.add(z3.And(i >= 0, i < n)); st.add(at(i))
            q = z3.FreshConst(z3.IntSort(), 'q')
            st.addlazy(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i), z3.Not(at(q)))))
            res = []
            if ex.feasible(st):
                if op == 'position': res.append((st, some(rty, i)))
                else:
                    v, r, stages = symbase(inner)
                    if stages or not isinstance(v, Sym): return [x for x in []] or generic_find(ex, st, el0, j, i, rty, sn)
                    el = Ref(r.c, r.p + (('i', i),)) if r is not None else ex.wrap(ex.elty(v.ty), ex.vat(v.t, i))
                    res.append((st, some(rty, el)))
            if ex.feasible(sn): res.append((sn, none(rty)))
            return res
    out = []; work = [(st, it, 0)]
    while work:
        s, i, n = work.pop()
        for s2, e, i2 in inext(ex, s, i):
            if e is STOP:
                out.append((s2, {'any': False, 'all': True}.get(op, None) if op in ('any', 'all') else none(rty))); continue
            arg = ex.ref_to(s2, e) if op == 'find' else e
            for s3, b in ex.call_value(s2, f, [arg]):
                if op == 'find_map':
                    for s4, z, p in opt_cases(ex, s3, b):
                        if z: out.append((s4, some(rty, p)))
                        else: work.append((s4, i2, n + 1))
                    continue
                for s4, z in ex.split(s3, b):
                    if op == 'any' and z: out.append((s4, True))
                    elif op == 'all' and not z: out.append((s4, False))
                    elif op == 'find' and z: out.append((s4, some(rty, retype(ex, s4, e, rty.args[0]))))
                    elif op == 'position' and z: out.append((s4, some(rty, n)))
                    else: work.append((s4, i2, n + 1))
    return out

def quantified(ex, st, op, j, n, pj):
    """exact truth value of exists/forall over an index: witness eagerly, quantifier lazily"""
    if op == 'all': pj = z3.Not(pj)
    if ex.gen:     # inside a generic iteration: the quantified formula itself (no witness to name)
        q = z3.FreshConst(z3.IntSort(), 'nq')
        b = z3.Exists([q], z3.And(q >= 0, q < zi(n), z3.substitute(pj, (j, q))))
        return b if op == 'any' else Not(b)
    b = ex.fresh('exists', z3.BoolSort()); w = ex.fresh('wit', z3.IntSort())
    st.add(z3.Implies(b, z3.And(w >= 0, w < zi(n), z3.substitute(pj, (j, w)))))
    st.addlazy(z3.Implies(z3.Not(b), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(n)), z3.Not(pj)))))
    return b if op == 'any' else Not(b)

def generic_find(ex, st, el, j, i, rty, sn):
    res = []
    if ex.feasible(st): res.append((st, some(rty, ex.subst(freeze(ex, st, el), j, i))))
    if ex.feasible(sn): res.append((sn, none(rty)))
    return res

def fold_generic(ex, st, it, f, op, init, rty):
    """loop summary of a fold over a symbolic sequence, or None"""
    tryy = op.startswith('try'); res = rty is not None and isinstance(rty, E.Ty) and rty.name.endswith('Result')
    if tryy and not (isinstance(rty, E.Ty) and rty.name in ('core::result::Result', 'core::option::Option')): return None
    src = it
    st0 = st.fork()
    try:
        if it.k == 'byref': it = ex.load(st0, it.a[0].c, it.a[0].p)
        it = norm_iter(ex, st0, it)
        if symbase(it) is None: return None
        fv = f if isinstance(f, (Ref, FnV)) else ex.ref_to(st0, f)
        acc = ex.ref_to(st0, init) if init is not None else None
        bad = 0 if rty is not None and not res else 1
        def step(s, xs):
            out = []
            for s2, r in ex.call_value(s, fv, ([ex.load(s, acc.c, ())] if acc else []) + [xs[0]]):
                if tryy:
                    for s3, z, p in (res_cases(ex, s2, r) if res else opt_cases(ex, s2, r)):
                        if z and acc: ex.store(s3, acc.c, (), p)
                        out.append((s3, ('go',) if z else ('stop', p)))
                else:
                    if acc: ex.store(s2, acc.c, (), r)
                    out.append((s2, ('go',)))
            return out
        g = generic_elems(ex, st0, IterV('map', it, step), lambda e: e[0] == 'stop', True)
        if g is None: return None
        n, j, outs, exit_at = g
        ok_ = Or(*[c for c, e, s1 in outs if e[0] == 'go'])
        ret = []
        for c, e, s1 in outs:
            if e[0] != 'stop': continue
            i = ex.fresh('i', z3.IntSort())
            p = e[1]
            if p is not None: p = freeze(ex, s1, p); p = ex.subst(p, j, i) if not isinstance(p, (bool, int)) else p
            s = exit_at(s1, i)
            s.addlazy(forall(ex, j, i, ok_))
            if src.k == 'byref': ex.setref(s, src.a[0], IterV('list', ()))
            if ex.feasible(s): ret.append((s, err(rty, p) if res else none(rty)))
    except Unsupported: return None
    st0.addlazy(forall(ex, j, n, ok_))
    if src.k == 'byref': ex.setref(st0, src.a[0], IterV('list', ()))
    v = ex.load(st0, acc.c, ()) if acc else UNIT
    if tryy: v = Adt(rty, 0 if res else 1, [v])
    if ex.feasible(st0): ret.append((st0, v))
    return ret

@R(ITER_ANY + r'partition$')
def _(ex, st, inst, a):
    it = itarg(ex, st, a[0]); f = a[1] if isinstance(a[1], (Ref, FnV)) else ex.ref_to(st, a[1])
    rty = retty(ex, inst); it = norm_iter(ex, st, it)
    if symbase(it) is not None:
        g = generic_elems(ex, st, IterV('map', it, lambda s, xs: [(s2, TupV(ex, (b, freeze(ex, s2, xs[0])))) for s2, b in ex.call_value(s, f, [ex.ref_to(s, xs[0])])]))
        if g is not None:
            n, j, outs = g
            st.addlazy(forall(ex, j, n, Or(*[c for c, e, s1 in outs])))
            yes = Or(*[And(c, e.f[0]) for c, e, s1 in outs]); no = Or(*[And(c, Not(e.f[0])) for c, e, s1 in outs])
            el = outs[0][1].f[1]; r = []
            for cond, ft in zip((yes, no), rty.args if rty.k != 'tuple' else [t for _, t in rty.fields()]):
                m, idx = filter_idx(ex, st, n, j, cond)
                j2 = ex.freshc('j', z3.IntSort())
                r.append(VecV((Seg(m, j2, ex.subst(el, j, idx(j2))),), ex.elty(ft)))
            return TupV(ex, r)
    return NotImplemented

@R(ITER_ANY + r'(fold|try_fold|for_each|try_for_each)$')
def _(ex, st, inst, a):
    op = inst.name.split('::')[-1]
    it = itarg(ex, st, a[0])
    f = a[2] if op.endswith('_fold') or op == 'fold' else a[1]
    rty = retty(ex, inst)
    r = fold_generic(ex, st, it, f, op, a[1] if 'fold' in op else None, rty)
    if r is not None: return r
    out = []; work = [(st, it, a[1] if 'fold' in op else UNIT)]
    fr = f
    while work:
        s, i, acc = work.pop()
        for s2, e, i2 in inext(ex, s, i):
            if e is STOP:
                out.append((s2, acc if not op.startswith('try') else Adt(rty, 0 if rty.name.endswith('Result') else 1, [acc]))); continue
            fv = f if isinstance(f, (Ref, FnV)) else ex.ref_to(s2, f)
            for s3, r in ex.call_value(s2, fv, [acc, e] if 'fold' in op else [e]):
                if op.startswith('try'):
                    for s4, z, p in (res_cases(ex, s3, r) if rty.name.endswith('Result') else opt_cases(ex, s3, r)):
                        if z: work.append((s4, i2, p))
                        else: out.append((s4, err(rty, p) if rty.name.endswith('Result') else none(rty)))
                else: work.append((s3, i2, r))
    return out

@R(ITER_ANY + r'(sum|product)$')
def _(ex, st, inst, a):
    it = itarg(ex, st, a[0]); B = retty(ex, inst)
    op = inst.name.split('::')[-1]
    h = ex.sum_hook
    if h is not None:
        r = h(ex, st, it, B, op)
        if r is not None: return r
    res = []
    if op == 'sum' and B.name != 'core::result::Result' and ex.cls(ex.strip(B)) in ('int', 'bint') and not concrete_iter(ex, st, it):
        r = vsum(ex, st, inst, it, B)
        if r is not None: return r
    for s, xs in drain(ex, st, it):
        acc = 0 if op == 'sum' else 1
        if B.name == 'core::result::Result':
            raise Unsupported('sum of results')
        for x in xs:
            x = ex.deref(s, x); acc = acc + x if op == 'sum' else mul(acc, x)
        t = ex.strip(B); hi = (1 << t.d['bits']) - 1
        c = inrange(acc, 0, hi)
        if c is False: ex.panic(s, inst, 'sum overflow'); continue
        if c is not True: s.add(c)
        res.append((s, acc))
    return res

@R(ITER_ANY + r'(count|last|max|min|max_by|min_by|max_by_key|min_by_key|nth)$')
def _(ex, st, inst, a):
    op = inst.name.split('::')[-1]; it = itarg(ex, st, a[0]); rty = retty(ex, inst)
    if op == 'count':
        if it.k == 'vec' and it.a[1] == 0: return ex.length(st, it.a[0])
        return [(s, len(xs)) for s, xs in drain(ex, st, it)]
    res = []
    if op in ('max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key') and not concrete_iter(ex, st, it):
        r = extremum(ex, st, inst, it, op, a[1] if len(a) > 1 else None, rty)
        if r is not None: return r
    if op == 'nth':
        for s, xs in drain(ex, st, it): res.append((s, some(rty, xs[a[1]]) if a[1] < len(xs) else none(rty)))
        return res
    for s, xs in drain(ex, st, it):
        if not xs: res.append((s, none(rty))); continue
        if op == 'last': res.append((s, some(rty, xs[-1]))); continue
        if op in ('max', 'min'):
            vs = [ex.deref(s, x) for x in xs]
            if not all(isscal(v) for v in vs): raise Unsupported('max of compound')
            m = vs[0]
            for v in vs[1:]: m = Ite(lt(ex, v, m), m, v) if op == 'max' else Ite(lt(ex, v, m), v, m)
            res.append((s, some(rty, m if not isinstance(xs[0], Ref) else ex.ref_to(s, m)))); continue
        if op in ('max_by', 'min_by'):
            f = a[1]; cur = [(s, xs[0])]
            for x in xs[1:]:
                nxt = []
                for s1, m in cur:
                    fv = f if isinstance(f, (Ref, FnV)) else ex.ref_to(s1, f)
                    for s2, o in ex.call_value(s1, fv, [ex.ref_to(s1, m), ex.ref_to(s1, x)]):
                        gt_ = (o.v == 2) if isinstance(o, Adt) else ex.isvar(o.t, 2)
                        for s3, z in ex.split(s2, gt_): nxt.append((s3, (m if z else x) if op == 'max_by' else (x if z else m)))
                cur = nxt
            res += [(s1, some(rty, m)) for s1, m in cur]; continue
        raise Unsupported(inst.name)
    return res

@R(r'^core::iter::adapters::peekable::Peekable::<I>::peek$')
def _(ex, st, inst, a):
    r = innermost(ex, st, a[0]); it = ex.deref(st, r); rty = retty(ex, inst)
    inner, pk = it.a
    if pk is not None: return some(rty, ex.ref_to(st, pk[0])) if pk[0] is not STOP else none(rty)
    res = []
    for s, e, i2 in inext(ex, st, inner):
        ex.setref(s, r, IterV('peekable', i2, (e,)))
        res.append((s, none(rty) if e is STOP else some(rty, ex.ref_to(s, e))))
    return res

@R(r'as core::iter::traits::exact_size::ExactSizeIterator>::len$', r'^core::iter::traits::exact_size::ExactSizeIterator::len$')
def _(ex, st, inst, a):
    it = ex.deref(st, a[0])
    if it.k == 'vec' and it.a[1] == 0: return ex.length(st, it.a[0])
    raise Unsupported('iterator len')

# response attributes and events carry no obligation here: identity
RS = 'cosmwasm_std::results::response::Response::<T>::'
@M(RS + 'add_attribute', RS + 'add_attributes', RS + 'add_event', RS + 'add_events')
def _(ex, st, inst, a):
    if ex.keep_attrs: return NotImplemented
    return a[0]

@R(r'^<.* as core::default::Default>::default$')
def _(ex, st, inst, a):
    r = retty(ex, inst)
    if r is None: raise Unsupported('default')
    c = ex.cls(r)
    if c in ('int', 'bint'): return 0
    if c == 'bool': return False
    if c == 'str': return ex.lit('')
    if c == 'vec': return VecV((), ex.elty(r))
    if c == 'unit': return UNIT
    return NotImplemented

@R(r'^backtrace::|^std::backtrace::')
def _(ex, st, inst, a):
    r = retty(ex, inst)
    return ex.wrap(r, ex.fresh('bt', ex.sort(r))) if r is not None else UNIT

# logical maps/sets used in memory
@R(r'^std::collections::hash::set::HashSet::<T>::new$', r'^alloc::collections::btree::set::BTreeSet::<T>::new$'  )
def _(ex, st, inst, a): return Opq('coll', ())

@R(r'HashSet::<T, S>::insert$', r'BTreeSet::<T, A>::insert$')
def _(ex, st, inst, a):
    v = ex.load(st, a[0].c, a[0].p)
    T = inst.args[0]; x = ex.term(a[1], T, st)
    dup = Or(*[Eq(ex.term(y, T, st), x) for y in v.d])
    res = []
    for s, z in ex.split(st, dup):
        if not z: ex.setref(s, a[0], Opq('coll', v.d + (a[1],)))
        res.append((s, not z))
    return res

@R(r'HashSet::<T, S>::contains$', r'BTreeSet::<T, A>::contains$')
def _(ex, st, inst, a):
    v = ex.deref(st, a[0]); T = inst.args[0]; x = ex.term(a[1], T, st)
    return Or(*[Eq(ex.term(y, T, st), x) for y in v.d])

@R(r'HashSet::<T, S>::len$', r'BTreeSet::<T, A>::len$', r'HashMap::<K, V, S>::len$')
def _(ex, st, inst, a):
    # entries are inserted only when new, so the tuple has no duplicates, except right after collect()
    v = ex.deref(st, a[0])
    raise Unsupported('set len')

# ------------------------------------------------------------------ cw-storage-plus paths
@M(MP + 'key')
def _(ex, st, inst, a):
    K, T = inst.args[0], inst.args[1]
    ns = nsname(ex, st, a[0])
    map_get(ex, st, ns, ex.sort(K), ex.sort(T), K, T)
    return Opq('path', (ns, keyterm(ex, st, a[1], K), K, T))

PT = "cw_storage_plus::path::Path::<T>::"
@M(PT + 'load', PT + 'may_load', PT + 'has', PT + 'save', PT + 'remove')
def _(ex, st, inst, a):
    p = ex.deref(st, a[0])
    ns, k, K, T = p.d
    m = map_get(ex, st, ns, ex.sort(K), ex.sort(T), K, T)
    op = inst.name.split('::')[-1]
    if op == 'load': return result_of_opt(ex, st, retty(ex, inst), sel(ex, m, k), 'NotFound')
    if op == 'may_load':
        r = retty(ex, inst); return ok(r, ex.wrap(okty(r), sel(ex, m, k)))
    if op == 'has': return ex.is_some(sel(ex, m, k))
    if op == 'save':
        st.store[ns] = z3.Store(m, k, ex.some(ex.term(a[2], T, st))); wr(ex, st, ns, k)
        return ok(retty(ex, inst), UNIT)
    st.store[ns] = z3.Store(m, k, ex.none(ex.sort(T))); wr(ex, st, ns, k)
    return UNIT

# ------------------------------------------------------------------ replies (cw-utils protobuf parsing)
@M('cw_utils::parse_reply::parse_instantiate_response_data', 'cw_utils::parse_reply::parse_execute_response_data')
def _(ex, st, inst, a):
    rty = retty(ex, inst); b = ex.deref(st, a[0])
    if not (isinstance(b, z3.ExprRef) and b.sort() == E.StrS): raise Unsupported('parse_reply of ' + repr(b))
    s = ex.sort(okty(rty))
    return result_of_opt(ex, st, rty, ex.fn('reply<%s>' % s.name(), E.StrS, ex.opt(s))(b), 'ParseFailure')

@R(r'^prost::message::Message::encode$', r'as prost::message::Message>::encode$')
def _(ex, st, inst, a):
    ty = ex.strip_refs(argty(ex, inst, 0))
    t = ex.term(a[0], ty, st); s = t.sort()
    r = ex.fn('proto<%s>' % s.name(), s, E.StrS)(t)
    ex.fact(ex.fn('unproto<%s>' % s.name(), E.StrS, ex.opt(s))(r) == ex.some(t))
    ref = innermost(ex, st, a[1])
    ex.setref(st, ref, r)
    return ok(retty(ex, inst), UNIT)

@M('cw_denom::validate_native_denom')
def _(ex, st, inst, a):
    """Ok(Native(denom)) exactly for denominations the (uninterpreted) SDK syntax check accepts"""
    rty = retty(ex, inst); d = a[0]
    c = ex.fn('valid_denom', E.StrS, z3.BoolSort())(d)
    okt = okty(rty)
    for i, v in enumerate(okt.variants if okt.is_enum else []):
        if v['n'] == 'Native': val = Adt(okt, i, [d]); break
    else: val = d
    return fork_bool(ex, st, c, lambda _: ok(rty, val), lambda _: err(rty, mkerr(ex, errty(rty), 'NonAlphabeticAscii')))

# ------------------------------------------------------------------ range iteration over maps
class _Stub:
    is_enum = False; name = ''
    def __init__(self, k, s, args=(), variants=None, name='', fs=None):
        self.k = k; self.s = s; self.id = ('stub', s); self._extra = False; self._cls = None; self._flat = None; self._sort = None
        self.args = list(args); self.name = name; self.is_enum = variants is not None; self.variants = variants; self.fs = fs
        self.d = {'adt': 'enum', 'k': k}
    def fields(self, v=0):
        if self.fs is None: raise Unsupported('stub fields')
        return self.fs[v] if self.is_enum else self.fs

def stub_tuple(ex, ts):
    if len(ts) == 1: return ts[0]
    r = _Stub('tuple', '(' + ','.join(t.s for t in ts) + ')', fs=[(str(i), t) for i, t in enumerate(ts)]); r._cls = 'tuple'
    return r

def stub_ok(ex, T):
    r = _Stub('adt', f'Result<{T.s}>', args=[T, None], variants=[{'n': 'Ok', 'd': 0, 'f': []}, {'n': 'Err', 'd': 1, 'f': []}], name='core::result::Result', fs=[[('0', T)], [('0', None)]])
    r._cls = 'adt'
    return r

def keycomps(ex, K):
    """component types of a storage key type"""
    K = ex.strip_refs(K)
    if K.k == 'tuple': return [t for _, t in K.fields()]
    if ex.cls(K) == 'flat' and ex.strip(K).k == 'tuple': return keycomps(ex, ex.strip(K))
    return [K]

def bound_of(ex, st, b, sufty):
    """Option<Bound<K>> -> list of (cond, inclusive?, term)"""
    b = ex.deref(st, b)
    if isinstance(b, Adt):
        if b.v == 0: return []
        x = b.f[0]
        if isinstance(x, Adt):
            vn = x.ty.variants[x.v]['n']
            if 'Raw' in vn: raise Unsupported('raw bound')
            k = x.f[0]
            if isinstance(k, Adt) and k.ty.k == 'tuple' and not k.ty.fields()[1:] : k = k.f[0]
            kt = x.ty.fields(x.v)[0][1]
            t = ex.term(k, kt, st)
            if t.sort().kind() == z3.Z3_DATATYPE_SORT and t.num_args() == 2 and t.arg(1).sort().eq(E.UnitS): t = t.arg(0)
            return [(True, vn == 'Inclusive', t)]
        b = Sym(b.ty, ex.term(b, b.ty, st))
    # symbolic option of bound
    t = b.t; x = ex.unsome(t); bt = b.ty.args[0]
    r = []
    for vi, v in enumerate(bt.variants):
        if 'Raw' in v['n']:
            continue
        kk = ex.acc(x, vi, 0)
        while kk.sort().kind() == z3.Z3_DATATYPE_SORT and kk.sort().num_constructors() == 1 and kk.sort().constructor(0).arity() == 2 and kk.sort().constructor(0).domain(1).eq(E.UnitS): kk = ex.acc(kk, 0, 0)
        r.append((And(ex.is_some(t), ex.isvar(x, vi)), v['n'] == 'Inclusive', kk))
    return r

def klt(ex, a, b):
    """strict storage order of two key terms of the same sort"""
    if a.sort() == z3.IntSort(): return a < b
    if a.sort().kind() == z3.Z3_DATATYPE_SORT and a.sort().num_constructors() == 1:
        n = a.sort().constructor(0).arity(); r = False
        for i in range(n - 1, -1, -1):
            x, y = ex.acc(a, 0, i), ex.acc(b, 0, i)
            r = Or(klt(ex, x, y), And(Eq(x, y), r))
        return r
    return ex.fn('keylt<%s>' % a.sort().name(), a.sort(), a.sort(), z3.BoolSort())(a, b)

def map_range(ex, st, ns, K, T, fixed, mn, mx, order, what):
    """every (key, value) of the map under a key prefix, in storage order, as an exact symbolic sequence"""
    ks, vs = ex.sort(K), ex.sort(T)
    m = map_get(ex, st, ns, ks, vs, K, T)
    comps = keycomps(ex, K); suf = comps[len(fixed):]
    sty = stub_tuple(ex, suf); ss = ex.sort(sty) if len(suf) == 1 else ex.tupsort([ex.sort(t) for t in suf])
    if len(suf) > 1: sty._sort = ss
    def full(k):
        parts = list(fixed) + ([k] if len(suf) == 1 else [ex.acc(k, 0, i) for i in range(len(suf))])
        return parts[0] if len(parts) == 1 else ks.constructor(0)(*parts)
    lo, hi = bound_of(ex, st, mn, sty), bound_of(ex, st, mx, sty)
    def inr(k):
        c = []
        for cond, inc, t in lo: c.append(Implies(cond, Or(klt(ex, t, k), Eq(t, k)) if inc else klt(ex, t, k)))
        for cond, inc, t in hi: c.append(Implies(cond, Or(klt(ex, k, t), Eq(t, k)) if inc else klt(ex, k, t)))
        return And(*c)
    ex.nfresh += 1; q = ex.nfresh
    I = z3.IntSort()
    kf = ex.freshfn('rkey', I, ss); inv = ex.freshfn('rinv', ss, I); n = ex.fresh('rlen', I)
    st.add(z3.And(n >= 0, n < 2**32)); ex.rngs[n.get_id()] = (0, 2**32)
    asc = order_asc(ex, st, order)
    def lt(a, b):
        if asc is True: return klt(ex, a, b)
        if asc is False: return klt(ex, b, a)
        return Or(And(asc, klt(ex, a, b)), And(Not(asc), klt(ex, b, a)))
    def elemf(x): return And(ex.is_some(z3.Select(m, full(kf(x)))), inr(kf(x)), inv(kf(x)) == x)
    x, y = z3.Ints('rx!%d ry!%d' % (q, q)); k = z3.Const('rk!%d' % q, ss)
    for i in (0, 1): st.add(z3.Implies(n > i, zb(elemf(z3.IntVal(i)))))
    st.add(z3.Implies(n > 1, zb(lt(kf(z3.IntVal(0)), kf(z3.IntVal(1))))))
    st.addlazy(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), zb(elemf(x))), patterns=[kf(x)]))
    st.addlazy(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n), zb(lt(kf(x), kf(y)))), patterns=[z3.MultiPattern(kf(x), kf(y))]))
    pat = dict(patterns=[z3.Select(m, full(k))]) if m.num_args() == 0 else {}
    st.addlazy(z3.ForAll([k], z3.Implies(zb(And(ex.is_some(z3.Select(m, full(k))), inr(k))), z3.And(inv(k) >= 0, inv(k) < n, kf(inv(k)) == k)), **pat))
    # nothing before the first / nothing at all
    st.addlazy(z3.ForAll([k], z3.Implies(zb(And(ex.is_some(z3.Select(m, full(k))), inr(k))), z3.And(n > 0, zb(Or(Eq(kf(z3.IntVal(0)), k), lt(kf(z3.IntVal(0)), k))))), **pat))
    j = ex.freshc('rj', I)
    kv = (kf(j) if len(suf) == 1 else Sym(sty, kf(j)))
    if what == 'keys': val, vt = kv, sty
    else:
        vv = ex.unsome(z3.Select(m, full(kf(j))))
        val = Adt(stub_tuple(ex, [sty, T]), 0, [kv, wrapq(ex, T, vv)]); vt = val.ty
    rty = stub_ok(ex, vt)
    ex.ranges.append((ns, fixed, n, kf, inv, full))
    return IterV('vec', VecV((Seg(n, j, Adt(rty, 0, [val])),), rty), 0, None)

def wrapq(ex, ty, t):
    """wrap a term that contains an index variable"""
    return ex.wrap(ty, t)

def order_asc(ex, st, o):
    o = ex.deref(st, o)
    if isinstance(o, Adt): return o.ty.variants[o.v]['n'] == 'Ascending'
    if isinstance(o, Sym): return ex.isvar(o.t, 0)
    raise Unsupported('order')

def mapself(ex, st, inst, v):
    """(ns, K, T) of Map / SnapshotMap / IndexedMap"""
    K, T = inst.args[0], inst.args[1]
    w = ex.deref(st, v)
    if isinstance(w, Adt):
        for (n, ft), x in zip(w.ty.fields(), w.f):
            if n in ('primary', 'pk_namespace'): return (nsname(ex, st, x), K, T)
        raise Unsupported('map self')
    return (nsname(ex, st, v), K, T)

RNG = r'^cw_storage_plus::(map::Map|snapshot::map::SnapshotMap|indexed_map::IndexedMap)::<.*>::'
@R(RNG + r'(range|keys)$')
def _(ex, st, inst, a):
    ns, K, T = mapself(ex, st, inst, a[0])
    return map_range(ex, st, ns, K, T, [], a[2], a[3], a[4], inst.name.split('::')[-1])

@R(RNG + r'(prefix|sub_prefix)$')
def _(ex, st, inst, a):
    ns, K, T = mapself(ex, st, inst, a[0])
    comps = keycomps(ex, K)
    pt = ex.strip_refs(argty(ex, inst, 1))
    t = ex.term(a[1], pt, st)
    if len(comps) <= 1: fixed = []
    elif t.sort() == ex.sort(comps[0]): fixed = [t]
    elif t.sort().kind() == z3.Z3_DATATYPE_SORT: fixed = [ex.acc(t, 0, i) for i in range(t.sort().constructor(0).arity())]
    else: raise Unsupported('prefix')
    return Opq('prefix', (ns, K, T, tuple(fixed)))

@R(r'^cw_storage_plus::prefix::Prefix::<.*>::(range|keys)$')
def _(ex, st, inst, a):
    p = ex.deref(st, a[0])
    if not (isinstance(p, Opq) and p.tag == 'prefix'): raise Unsupported('prefix value')
    ns, K, T, fixed = p.d
    return map_range(ex, st, ns, K, T, list(fixed), a[2], a[3], a[4], inst.name.split('::')[-1])

@R(RNG + r'is_empty$')
def _(ex, st, inst, a):
    ns, K, T = mapself(ex, st, inst, a[0])
    m = map_get(ex, st, ns, ex.sort(K), ex.sort(T), K, T)
    b = ex.fresh('empty', z3.BoolSort()); k = z3.FreshConst(ex.sort(K), 'ek'); w = ex.fresh('ew', ex.sort(K))
    st.add(z3.Implies(z3.Not(b), zb(ex.is_some(z3.Select(m, w)))))
    st.addlazy(z3.Implies(b, z3.ForAll([k], zb(ex.is_none(z3.Select(m, k))))))
    return b

@R(RNG + r'clear$')
def _(ex, st, inst, a):
    ns, K, T = mapself(ex, st, inst, a[0]); ks = ex.sort(K)
    map_get(ex, st, ns, ks, ex.sort(T), K, T)
    st.store[ns] = z3.K(ks, ex.none(ex.sort(T)))
    wr(ex, st, ns, None)
    return UNIT

# indexed maps: the primary map; secondary indexes hold no information of their own
IM = 'cw_storage_plus::indexed_map::IndexedMap::<\'a, K, T, I>::'
def imargs(ex, st, inst, a):
    ns, K, T = mapself(ex, st, inst, a[0])
    return ns, K, T, map_get(ex, st, ns, ex.sort(K), ex.sort(T), K, T)

@M(IM + 'load')
def _(ex, st, inst, a):
    ns, K, T, m = imargs(ex, st, inst, a)
    return result_of_opt(ex, st, retty(ex, inst), sel(ex, m, keyterm(ex, st, a[2], K)), 'NotFound')

@M(IM + 'may_load')
def _(ex, st, inst, a):
    ns, K, T, m = imargs(ex, st, inst, a); r = retty(ex, inst)
    return ok(r, ex.wrap(okty(r), sel(ex, m, keyterm(ex, st, a[2], K))))

@M(IM + 'has')
def _(ex, st, inst, a):
    ns, K, T, m = imargs(ex, st, inst, a)
    return ex.is_some(sel(ex, m, keyterm(ex, st, a[2], K)))

@M(IM + 'save')
def _(ex, st, inst, a):
    ns, K, T, m = imargs(ex, st, inst, a); k = keyterm(ex, st, a[2], K)
    st.store[ns] = z3.Store(m, k, ex.some(ex.term(a[3], T, st))); wr(ex, st, ns, k)
    return ok(retty(ex, inst), UNIT)

@M(IM + 'remove')
def _(ex, st, inst, a):
    ns, K, T, m = imargs(ex, st, inst, a); k = keyterm(ex, st, a[2], K)
    st.store[ns] = z3.Store(m, k, ex.none(ex.sort(T))); wr(ex, st, ns, k)
    return ok(retty(ex, inst), UNIT)

@M(IM + 'replace')
def _(ex, st, inst, a):
    ns, K, T, m = imargs(ex, st, inst, a); k = keyterm(ex, st, a[2], K)
    o = ex.deref(st, a[3]); oty = ex.strip_refs(argty(ex, inst, 3))
    if isinstance(o, Adt): v = ex.some(ex.term(o.f[0], T, st)) if o.v == 1 else ex.none(ex.sort(T))
    else: v = o.t
    st.store[ns] = z3.Store(m, k, v); wr(ex, st, ns, k)
    return ok(retty(ex, inst), UNIT)


# ------------------------------------------------------------------ sums and extrema of symbolic sequences (exact)
def concrete_iter(ex, st, it):
    try: it2 = norm_iter(ex, st, it)
    except Unsupported: return True
    return symbase(it2) is None

ARRI = z3.ArraySort(z3.IntSort(), z3.IntSort())
VSUM = z3.Function('vsum', ARRI, z3.IntSort(), z3.IntSort())

def vsum_term(ex, arr, n, lazy, depth=0):
    """sum of arr[0..n) with its defining facts for stores / choices"""
    n = zi(n)
    t = VSUM(arr, n)
    key = ('vs', t.get_id())
    if key in ex.nlseen: return t
    ex.nlseen[key] = t
    if z3.is_app_of(arr, z3.Z3_OP_STORE):
        a, i, x = arr.arg(0), arr.arg(1), arr.arg(2)
        u = vsum_term(ex, a, n, lazy, depth + 1)
        ex.fact(z3.Implies(z3.And(i >= 0, i < n), t == u - z3.Select(a, i) + x))
        ex.fact(z3.Implies(z3.Not(z3.And(i >= 0, i < n)), t == u))
    elif z3.is_app_of(arr, z3.Z3_OP_ITE):
        u, v = vsum_term(ex, arr.arg(1), n, lazy), vsum_term(ex, arr.arg(2), n, lazy)
        ex.fact(t == z3.If(arr.arg(0), u, v))
    elif z3.is_K(arr):
        ex.fact(z3.Implies(n >= 0, t == ex.mul(n, arr.arg(0))))
    ex.fact(z3.Implies(n <= 0, t == 0))
    lazy.append((arr, n, t))
    return t

def vsum_facts(ex, st, lazy):
    for arr, n, t in lazy:
        i, j = z3.Ints('vsi vsj')
        nn = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, i) >= 0))
        st.addlazy(z3.Implies(nn, z3.And(t >= 0,
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, i) <= t)),
            z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, i != j), z3.Select(arr, i) + z3.Select(arr, j) <= t)))))

def seq_scalars(ex, st, it):
    """(n, arr) of a pure pipeline of scalars over a symbolic vector"""
    g = None
    try: g = generic_elems(ex, st, it)
    except Unsupported: return None
    if g is None: return None
    n, j, outs = g
    t = None
    for c, e, s1 in reversed(outs):
        x = ex.deref(s1, e) if isinstance(e, Ref) else e
        if isinstance(x, int): x = zi(x)
        if not (isinstance(x, z3.ExprRef) and x.sort() == z3.IntSort()): return None
        t = x if t is None else Ite(c, x, t)
    if t is None: return None
    if z3.is_app_of(t, z3.Z3_OP_SELECT) and t.arg(1).eq(j) and j.get_id() not in E_consts(t.arg(0)): arr = t.arg(0)
    else: arr = z3.Lambda([j], t)
    return n, arr

def E_consts(t):
    seen = set(); stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); stack += x.children()
    return seen

def vsum(ex, st, inst, it, B):
    na = seq_scalars(ex, st, it)
    if na is None: return None
    n, arr = na
    lazy = []
    t = vsum_term(ex, arr, n, lazy); vsum_facts(ex, st, lazy)
    b = ex.strip(B); hi = (1 << b.d['bits']) - 1 if b.k == 'int' else (1 << 256) - 1
    c = z3.And(t >= 0, t <= hi)
    if ex.panics is not None:
        s2 = st.fork(); s2.add(z3.Not(c))
        if ex.feasible(s2): ex.panic(s2, inst, 'sum overflow')
    st.add(c)
    return [(st, t)]

def extremum(ex, st, inst, it, op, f, rty):
    it = norm_iter(ex, st, it)
    v, r, stages = symbase(it)
    g = generic_elems(ex, st, it)
    if g is None: return None
    n, j, outs = g
    if len(outs) != 1: return None
    el = freeze(ex, st, outs[0][1]) if not isinstance(outs[0][1], Ref) else ex.deref(outs[0][2], outs[0][1])
    n = zi(n)
    w = ex.fresh('best', z3.IntSort()); q = ex.freshc('q', z3.IntSort())
    def cmpt(i1, i2):
        """-1/0/1-like comparison terms (lt, gt) of the elements at two indices"""
        a, b = ex.subst(el, j, i1), ex.subst(el, j, i2)
        if op in ('max', 'min'):
            a, b = ex.deref(st, a), ex.deref(st, b)
            if not isscal(a): raise Unsupported(op + ' of compound values')
            return zi(a) < zi(b), zi(a) > zi(b)
        s0 = st.fork(); pc0 = s0.pc
        fv = f if isinstance(f, (Ref, FnV)) else ex.ref_to(s0, f)
        if op.endswith('_key'):
            ks = []
            for x in (a, b):
                o = ex.call_value(s0, fv, [ex.ref_to(s0, x)])
                if len(o) != 1: raise Unsupported(op)
                ks.append(ex.deref(o[0][0], o[0][1]))
            if not all(isscal(k) for k in ks): raise Unsupported(op + ' key')
            return zi(ks[0]) < zi(ks[1]), zi(ks[0]) > zi(ks[1])
        isref = isinstance(outs[0][1], Ref)
        wrapr = lambda x: ex.ref_to(s0, ex.ref_to(s0, x)) if isref else ex.ref_to(s0, x)
        lt_, gt_ = False, False
        for s1, o in ex.call_value(s0, fv, [wrapr(a), wrapr(b)]):
            fs = []; p = s1.pc
            while p is not pc0:
                if not p.lazy: fs.append(p.f)
                p = p.up
            c = And(*fs[::-1])
            if isinstance(o, Adt): l, gg = o.ty.variants[o.v]['n'] == 'Less', o.ty.variants[o.v]['n'] == 'Greater'
            elif isinstance(o, Sym): l, gg = ex.isvar(o.t, 0), ex.isvar(o.t, 2)
            elif isint(o): l, gg = o == -1, o == 1
            else: l, gg = o == -1, o == 1
            lt_ = Or(lt_, And(c, l)); gt_ = Or(gt_, And(c, gg))
        return zb(lt_), zb(gt_)
    sn = st.fork(); sn.add(n <= 0)
    st.add(z3.And(n > 0, w >= 0, w < n))
    with generic(ex, q): l, gt = cmpt(q, w)
    if op.startswith('max'): body = z3.And(z3.Not(gt), z3.Implies(q > w, l))          # the last maximum
    else: body = z3.And(z3.Not(l), z3.Implies(q < w, gt))                              # the first minimum
    st.addlazy(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), body)))
    res = []
    if ex.feasible(st):
        x = ex.subst(el, j, w)
        res.append((st, some(rty, ex.ref_to(st, x) if isinstance(outs[0][1], Ref) else retype(ex, st, x, rty.args[0]))))
    if ex.feasible(sn): res.append((sn, none(rty)))
    return res

# ------------------------------------------------------------------ wynd-utils piecewise-linear curves (dependency): uninterpreted
PWL = 'wynd_utils::curve::PiecewiseLinear::'
@M(PWL + 'value')
def _(ex, st, inst, a):
    ty = ex.strip_refs(argty(ex, inst, 0)); c = ex.term(a[0], ty, st)
    r = ex.fn('pwl_value', c.sort(), z3.IntSort(), z3.IntSort())(c, zi(a[1]))
    hi = ex.fn('pwl_high', c.sort(), z3.IntSort())(c); lo = ex.fn('pwl_low', c.sort(), z3.IntSort())(c)
    ex.fact(z3.And(lo >= 0, lo <= r, r <= hi, hi < 2**128))
    ex.pwl.append((c, a[1], r))
    return r

@M(PWL + 'range')
def _(ex, st, inst, a):
    ty = ex.strip_refs(argty(ex, inst, 0)); c = ex.term(a[0], ty, st)
    hi = ex.fn('pwl_high', c.sort(), z3.IntSort())(c); lo = ex.fn('pwl_low', c.sort(), z3.IntSort())(c)
    ex.fact(z3.And(lo >= 0, lo <= hi, hi < 2**128))
    return Adt(retty(ex, inst), 0, [lo, hi])

@M(PWL + 'validate', PWL + 'validate_monotonic_increasing', PWL + 'validate_monotonic_decreasing')
def _(ex, st, inst, a):
    ty = ex.strip_refs(argty(ex, inst, 0)); c = ex.term(a[0], ty, st); rty = retty(ex, inst)
    b = ex.fn('pwl_' + inst.name.split('::')[-1], c.sort(), z3.BoolSort())(c)
    return fork_bool(ex, st, b, lambda _: ok(rty, UNIT), lambda _: err(rty, mkerr(ex, errty(rty), 'NotMonotonic')))

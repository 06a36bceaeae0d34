"""Clauses shared by many contracts: ownership, hooks lists, frames, claims, stake hooks."""
from spec import *
from dv import expired, after, same_but


def frame(P, o, *may):
    """nothing but these keys is written"""
    for ns in o.written():
        if ns not in may: P.ob(o, f'frame: {ns}', o.unchanged(ns))


def no_msgs(P, o): P.ob(o, 'no message', o.nmsgs() == 0)


def is_owner(c, who, ns='ownership'):
    ow = c.pre(ns)
    return z3.And(ow.issome, ow.some.owner.issome, ow.some.owner.some == who)


def ownership(P, c, o, ns='ownership'):
    """two-step transfer: only the owner nominates or renounces, only the nominee accepts in time"""
    a, b = c.pre(ns), o.post(ns)
    x, y = a.some, b.some
    P.ob(o, 'ownership moves only by its two steps', z3.And(a.issome, b.issome, z3.Or(
        z3.And(x.owner.issome, x.owner.some == c.sender, z3.Or(y.owner == x.owner, z3.And(y.owner.isnone, y.pending_owner.isnone))),
        z3.And(x.pending_owner.issome, x.pending_owner.some == c.sender, z3.Or(x.pending_expiry.isnone, z3.Not(expired(c, x.pending_expiry.some))),
               y.owner.issome, y.owner.some == c.sender, y.pending_owner.isnone))))


def hook_edit(P, c, o, ns, add, addr):
    h0, h1 = c.pre(ns), o.post(ns)
    if add:
        n0 = z3.If(h0.isnone, 0, h0.some.n)
        P.ob(o, 'the hook is appended once', z3.And(h1.issome, h1.some.n == n0 + 1, h1.some.at(n0) == addr, h1.some.all(lambda x, j: z3.Implies(j < n0, z3.And(x == h0.some.at(j), x != addr)))))
    else:
        P.ob(o, 'the hook is taken out', z3.And(h0.issome, h1.issome, h1.some.n == h0.some.n - 1, h0.some.any(lambda x, j: z3.And(x == addr,
             h1.some.all(lambda y, i: y == h0.some.at(z3.If(i < j, i, i + 1)))))))


def to_hooks(c, m, ns, ty, f, on=('Never',)):
    """m goes to the hook of list ns it stands for, with a payload of type ty satisfying f"""
    hs = c.pre(ns)
    if m.j is None: return FALSE
    return z3.And(hs.issome, m.n == hs.some.n, m.is_exec_to(hs.some.at(m.j), ty, f), m.exec.funds.n == 0, m.reply_on.is_(*on))


def told(o, c, ns, ms):
    """all hooks of the list are among the addressees of the messages ms"""
    hs = c.pre(ns); segs = [m for m in ms if m.j is not None]
    return z3.Or(hs.isnone, hs.some.n == 0, *[m.n == hs.some.n for m in segs])


def guarded(m, g):
    return z3.Implies(z3.And(m.j >= 0, m.j < m.n), g) if m.j is not None else g


def claims_made(P, c, o, ns, who, amount, duration, limit):
    """a claim on `amount` after `duration` is appended to the sender's, no other claim changes"""
    a, b = c.pre(ns, who), o.post(ns, who)
    n0 = z3.If(a.isnone, 0, a.some.n); k = o.skolem(ns)
    x = b.some.at(n0)
    P.ob(o, 'a claim is recorded: what was unstaked, after the unstaking duration', z3.And(b.issome, b.some.n == n0 + 1, x.amount == amount, raw(x.release_at) == after(c, duration, x.release_at.ty),
         b.some.all(lambda y, i: z3.Implies(i < n0, raw(y) == raw(a.some.at(i)))), n0 < limit))
    P.ob(o, "nobody else's claims change", z3.Implies(k != raw(who), o.post(ns, k) == c.pre(ns, k)))


def claims_paid(P, c, o, ns, paid):
    """the sender's matured claims, no more no less, are taken and paid"""
    a, b = c.pre(ns, c.sender), o.post(ns, c.sender); k = o.skolem(ns)
    ripe = lambda x: expired(c, x.release_at)
    P.ob(o, 'pays the sum of the matured claims, something', z3.And(a.issome, paid > 0, o.sum_is(paid, a.some, lambda x: z3.If(ripe(x), x.amount, 0))))
    P.ob(o, 'exactly the claims not matured stay', z3.And(b.issome, o.filtered(b.some, a.some, lambda x: z3.Not(ripe(x)))))
    P.ob(o, "nobody else's claims change", z3.Implies(k != c.sender, o.post(ns, k) == c.pre(ns, k)))


def at_height(c, ns, key, h):
    """value of a snapshot at the start of block h (h in the past: its history; later: now)"""
    K, T = c.nsty(ns); ex = c.ex
    ks = ex.sort(K) if K is not None and key is not None else None
    f = c.fn('hist!' + ns, ks, z3.IntSort(), ex.opt(ex.sort(T))) if ks is not None else c.fn('hist!' + ns, z3.IntSort(), ex.opt(ex.sort(T)))
    h = raw(h)
    base = f(raw(key), h) if ks is not None else f(h)
    p = c.pre(ns, key) if key is not None else c.pre(ns)
    return OptV(ex, T, z3.If(h > c.height, raw(p), base))


# ---- active thresholds
def valid_count(count, supply): return z3.And(count > 0, count <= supply)
def valid_percent(p): return z3.And(p > 0, p <= 10**18)


def supply_of(c, denom):
    return c.ex.fn('bank_supply', E.StrS, c.ex.opt(z3.IntSort()))(raw(denom))


def needed(c, total, p):
    """power needed for an active threshold of p (atomics) percent: rounded up, at the precision 10^9"""
    ex = c.ex
    a = zi(ex.div(ex.mul(ex.mul(total, 10**9), p), 10**18))
    return zi(ex.div(a + (10**9 - 1), 10**9))


def is_active(c, th, staked, total):
    t = th.some
    return z3.Or(th.isnone, z3.If(t.is_('AbsoluteCount'), staked >= t.as_('AbsoluteCount').count, staked >= needed(c, total, t.as_('Percentage').percent)))


def threshold_set(P, c, o, ns, new, total):
    """an update of the active threshold: as asked, if it makes sense; total: what an absolute count is checked against"""
    x = o.post(ns)
    P.ob(o, 'the threshold is the one asked for', z3.If(new.isnone, x.isnone, z3.And(x.issome, raw(x.some) == raw(new.some))))
    t = new.some
    P.ob(o, 'it makes sense', z3.Or(new.isnone, z3.If(t.is_('Percentage'), valid_percent(t.as_('Percentage').percent), valid_count(t.as_('AbsoluteCount').count, total))))


def only(x, f):
    """field f of x, where x may be a structure of that single field (which the generator collapses)"""
    if isinstance(x, V) and x.ty is not None:
        try: return x.fld(f)
        except Lost: return x
    return x


def rest_same(a, b, *fs):
    """structures a and b agree but for fields fs"""
    if not isinstance(a, V): return TRUE
    try: [a.fld(f) for f in fs]
    except Lost: return TRUE
    return same_but(a, b, *fs)


# ---- values over time (cw-wormhole): the value at t is the one recorded last up to t
def last_upto(c, get, t, name='tl'):
    """get(k): optional value recorded for time k -> (value at t, defining hypotheses)"""
    has = z3.FreshConst(z3.BoolSort(), name + '_has'); k0 = z3.FreshConst(z3.IntSort(), name + '_k'); k = z3.FreshConst(z3.IntSort(), name + '_q')
    d = z3.If(has, z3.And(k0 <= t, k0 >= 0, get(k0).issome, z3.ForAll([k], z3.Implies(z3.And(k <= t, get(k).issome), k <= k0))),
              z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= t), get(k).isnone)))
    v = get(k0)
    return z3.If(has, v.val(0), 0), [d]


def pays_denom(m, denom, to, amount):
    """message m transfers amount of a checked denomination (native or cw20)"""
    return z3.If(denom.is_('Native'), m.is_send1(to, denom.as_('Native')[0], amount),
                 z3.And(m.is_cw20_transfer(denom.as_('Cw20')[0], to, amount), m.exec.funds.n == 0))

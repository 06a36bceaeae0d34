"""dao-rewards-distributor: rewards emitted over time, shared by voting power."""
from spec import *
from common import *
import c22

D, UR, RH, CT = 'd', 'ur', 'rh', 'count'
SCALE = 10**39
UPDATE = 'dao_rewards_distributor::rewards::update_rewards'
NANO = 10**9


def lt(a, b): return z3.If(a < b, a, b)


def latest(c, ep):
    """when rewards were last emitted: now, or when they ended"""
    e = ep.ends_at; b = c.env.block
    return z3.If(e.is_('Never'), raw(ep.last_updated_total_earned_puvp),
                 z3.If(e.is_('AtHeight'), c.make(e.ty, 'AtHeight', **{'0': lt(b.height, e.as_('AtHeight')[0])}), c.make(e.ty, 'AtTime', **{'0': lt(b.time, e.as_('AtTime')[0])})))


def bumped(c, ep):
    e = ep.ends_at
    return z3.If(e.is_('Never'), c.make(e.ty, 'Never'), latest(c, ep))


def since(c, a, b):
    """blocks or (full) seconds from b to a, 0 if b is not before a"""
    ex = c.ex
    h0, h1 = b.as_('AtHeight')[0], a.as_('AtHeight')[0]; t0, t1 = b.as_('AtTime')[0], a.as_('AtTime')[0]
    sec = lambda t: zi(ex.div(t, NANO))
    return z3.If(a.is_('AtHeight'), z3.If(h1 > h0, h1 - h0, 0), z3.If(t1 > t0, sec(t1) - sec(t0), 0))


def units(d): return z3.If(d.is_('Height'), d.as_('Height')[0], d.as_('Time')[0])


def comparable(a, b): return z3.Or(z3.And(a.is_('AtHeight'), b.is_('AtHeight')), z3.And(a.is_('AtTime'), b.is_('AtTime')))


def total(c, d): return raw(c22.total(c, d.vp_contract, c.height).some.power)
def power(c, d, who): return raw(c22.power(c, d.vp_contract, who, c.height).some.power)


def mul(c, a, b): return zi(c.ex.mul(zi(raw(a)), zi(raw(b))))
def div(c, a, b): return zi(c.ex.div(zi(raw(a)), zi(raw(b))))


def linear(ep): return ep.emission_rate.as_('Linear')


def emitted(c, d, frm, to):
    """what the linear rate emits from one time to another: whole intervals only"""
    r = linear(d.active_epoch)
    return mul(c, r.amount, div(c, since(c, to, frm), units(r.duration)))


def earned(c, d):
    """rewards of the current epoch up to now, per unit of voting power"""
    ep = d.active_epoch; r = ep.emission_rate; l = V(c.ex, ep.ends_at.ty, latest(c, ep)); lu = ep.last_updated_total_earned_puvp
    cur = raw(ep.total_earned_puvp); tp = total(c, d)
    new = cur + div(c, mul(c, emitted(c, d, lu, l), SCALE), tp)
    return z3.If(r.is_('Paused'), 0, z3.If(z3.Or(r.is_('Immediate'), l.is_('Never'), since(c, l, lu) == 0, tp == 0), cur, new))


def until(c, d, e, started=None, rate=None, funded=None):
    """rewards emitted by time e"""
    ep = d.active_epoch; r = ep.emission_rate; s = ep.started_at
    return z3.If(r.is_('Paused'), 0, z3.If(r.is_('Immediate'), raw(d.funded_amount), z3.If(s.is_('Never'), 0, emitted(c, d, s, e))))


def lasts(c, r, funded):
    """how long the linear rate r lasts with so much funding, in blocks or seconds"""
    return div(c, mul(c, units(r.duration), div(c, mul(c, funded, 10**18), r.amount)), 10**18)


def accrued(c, d, rec, who, tot):
    acc = rec.accounted_for_rewards_puvp.get(d.id).val(0) if rec is not None else 0
    return div(c, mul(c, power(c, d, who), tot - acc), SCALE)


class User:
    """reward record of an account; one that is not there is empty"""
    def __init__(self, c, r): self.c = c; self.r = r
    def pending(self, i): return z3.If(self.r.issome, self.r.some.pending_rewards.get(i).val(0), 0)
    def accounted(self, i): return z3.If(self.r.issome, self.r.some.accounted_for_rewards_puvp.get(i).val(0), 0)


def settle(P, o, c, who, i, pending):
    """update_rewards: pending(old pending + accrued) is what is recorded as pending"""
    p, q = c.pre(D, i), o.post(D, i); d = p.some; a, b = c.pre(UR, who), o.post(UR, who)
    k, kd = o.skolem(UR), o.skolem(D); n = z3.FreshConst(z3.IntSort(), 'id')
    ua, ub = User(c, a), User(c, b)
    tot = earned(c, d) + raw(d.historical_earned_puvp)
    new = div(c, mul(c, power(c, d, who), tot - ua.accounted(i)), SCALE)
    own = [d.id == i]
    P.ob(o, 'earlier rewards are never counted again', tot >= ua.accounted(i), own)
    P.ob(o, 'everything emitted up to now is accounted for', z3.And(p.issome, q.issome, q.some.active_epoch.total_earned_puvp == earned(c, d), raw(q.some.active_epoch.last_updated_total_earned_puvp) == bumped(c, d.active_epoch)), own)
    P.ob(o, 'the distribution is otherwise unchanged', z3.And(same_but(q.some, d, 'active_epoch'), same_but(q.some.active_epoch, d.active_epoch, 'total_earned_puvp', 'last_updated_total_earned_puvp')), own)
    P.ob(o, 'no other distribution is touched', z3.Implies(kd != i, o.post(D, kd) == c.pre(D, kd)))
    P.ob(o, 'the account is settled up to now', z3.And(b.issome, ub.accounted(i) == tot), own)
    P.ob(o, 'its part by voting power is added to its rewards', ub.pending(i) == pending(ua.pending(i) + new), own)
    P.ob(o, 'its other rewards stay', z3.Implies(n != i, z3.And(ub.pending(n) == ua.pending(n), ub.accounted(n) == ua.accounted(n))))
    P.ob(o, "nobody else's rewards change", z3.Implies(k != who, o.post(UR, k) == c.pre(UR, k)))
    ep = d.active_epoch; lu = ep.last_updated_total_earned_puvp; l = V(c.ex, ep.ends_at.ty, latest(c, ep))
    P.ob(o, 'all voting power together gets no more than was emitted since', z3.Implies(z3.Not(ep.emission_rate.is_('Paused')), mul(c, q.some.active_epoch.total_earned_puvp - ep.total_earned_puvp, total(c, d)) <=
         z3.If(ep.emission_rate.is_('Linear'), mul(c, emitted(c, d, lu, l), SCALE), 0)), own + [comparable(l, lu), sane(ep.emission_rate)])
    frame(P, o, D, UR)
    return ua.pending(i) + new


def credited(P, o, c, i, amount, p):
    """funding a distribution"""
    own = [p.id == i]; q = o.post(D, i).some
    ep, eq = p.active_epoch, q.active_epoch; r = ep.emission_rate; kd = o.skolem(D); b = c.env.block
    P.ob(o, 'no other distribution is touched', z3.Implies(kd != i, o.post(D, kd) == c.pre(D, kd)), own)
    P.ob(o, 'only its rewards and period change', z3.And(same_but(q, p, 'funded_amount', 'active_epoch', 'historical_earned_puvp'), raw(eq.emission_rate) == raw(r)), own)
    prev = raw(p.funded_amount) != 0; over = expired(c, ep.ends_at); tp = total(c, p)
    lin = r.is_('Linear'); cont = linear(ep).continuous; ht = linear(ep).duration.is_('Height')
    kept = lambda *fs: z3.And(*[raw(getattr(eq, f)) == raw(getattr(ep, f)) for f in fs])
    added = z3.And(q.funded_amount == p.funded_amount + amount, q.historical_earned_puvp == p.historical_earned_puvp)
    P.ob(o, 'not emitting: kept until it does', z3.And(added, kept('started_at', 'ends_at', 'total_earned_puvp', 'last_updated_total_earned_puvp')), own + [r.is_('Paused')])
    P.ob(o, 'emitting at once: shared by all voting power now', z3.And(tp > 0, added, kept('started_at', 'ends_at', 'last_updated_total_earned_puvp'), eq.total_earned_puvp == ep.total_earned_puvp + div(c, mul(c, amount, SCALE), tp)), own + [r.is_('Immediate')])
    for unit, uh, at in (('blocks', ht, lambda n: (c.make(ep.started_at.ty, 'AtHeight', **{'0': b.height}), c.make(ep.started_at.ty, 'AtHeight', **{'0': n}))), ('time', z3.Not(ht), lambda n: (c.make(ep.started_at.ty, 'AtTime', **{'0': b.time}), c.make(ep.started_at.ty, 'AtTime', **{'0': n})))):
        n = lasts(c, linear(ep), q.funded_amount)
        now, end = at(b.height + n if unit == 'blocks' else b.time + n * NANO)
        fresh = z3.And(q.funded_amount == amount, raw(eq.started_at) == now, raw(eq.ends_at) == end, eq.total_earned_puvp == 0, raw(eq.last_updated_total_earned_puvp) == now)
        P.ob(o, f'first funds: a period starts now and ends when they are used up ({unit})', z3.And(fresh, q.historical_earned_puvp == p.historical_earned_puvp), own + [lin, z3.Not(prev), uh])
        P.ob(o, f'funds after all was emitted: a new period, rewards of the last one are kept ({unit})', z3.And(fresh, q.historical_earned_puvp == p.historical_earned_puvp + earned(c, p)), own + [lin, prev, z3.Not(cont), over, uh])
    s = ep.started_at
    for unit, uh, end in (('blocks', s.is_('AtHeight'), lambda n: c.make(s.ty, 'AtHeight', **{'0': s.as_('AtHeight')[0] + n})), ('time', s.is_('AtTime'), lambda n: c.make(s.ty, 'AtTime', **{'0': s.as_('AtTime')[0] + n * NANO}))):
        e = end(lasts(c, linear(ep), q.funded_amount)); ne = Shadow(c, p, ends_at=V(c.ex, s.ty, e))
        P.ob(o, f'more funds: the period goes on for longer ({unit})', z3.And(added, raw(eq.ends_at) == e, kept('started_at', 'total_earned_puvp', 'last_updated_total_earned_puvp')), own + [lin, prev, z3.Not(over), uh])
        P.ob(o, f'more funds for one that goes on without: its end moves ({unit})', z3.And(added, raw(eq.ends_at) == e, kept('started_at'), raw(eq.last_updated_total_earned_puvp) == bumped(c, ne.active_epoch)), own + [lin, prev, cont, over, uh])
        P.obcases(o, f'and the time without funds is filled up ({unit})', earned(c, ne), lambda t: raw(eq.total_earned_puvp) == t, own + [lin, prev, cont, over, uh])


class Shadow:
    """a distribution whose epoch differs in some fields"""
    def __init__(self, c, d, **fs):
        self._d = d; self.active_epoch = _Over(d.active_epoch, fs)
    def __getattr__(self, n): return getattr(self._d, n)
class _Over:
    def __init__(self, b, fs): self._b = b; self._fs = fs
    def __getattr__(self, n): return self._fs[n] if n in self._fs else getattr(self._b, n)


def allowed(c, d, who): return z3.Or(d.open_funding, is_owner(c, who))


def no_funds(c): return c.info.funds.n == 0


def paid1(c, denom, amount):
    f = c.info.funds
    return z3.And(f.n == 1, f.at(0).denom == denom, f.at(0).amount == amount, amount > 0)


def check(P):
    c = P.contract('dao_rewards_distributor')
    execs(P, c)
    queries(P, c)
    i = c.run('contract::instantiate'); P.reach(i.oks, 'instantiate succeeds')
    for o in i.oks:
        no_msgs(P, o)
        P.ob(o, 'no distribution yet', z3.And(o.post(CT).issome, o.post(CT).some == 0, *[o.unchanged(ns) for ns in o.written() if ns in (D, UR, RH)]))
        ow = o.post('ownership')
        P.ob(o, 'the owner asked for, or the sender', z3.And(ow.issome, ow.some.owner.issome, ow.some.owner.some == z3.If(i.msg.isnone, c.sender, i.msg.some), ow.some.pending_owner.isnone))
    hooks(P)
    lemmas(P, c)


def execs(P, c):
    c.run_all('contract::execute', skip=('StakeChangeHook', 'NftStakeChangeHook', 'MemberChangedHook'))
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            m = r.msg.as_(v); ms = o.msgs()
            if v == 'Claim':
                i = m.id; d = c.pre(D, i).some
                amt = settle(P, o, c, c.sender, i, lambda x: 0)
                P.ob(o, 'the sender is paid all its rewards, something', z3.And(amt > 0, B(len(ms) == 1), *[pays_denom(x, d.denom, c.sender, amt) for x in ms]), [d.id == i])
            elif v == 'Withdraw':
                i = m.id; p, q = c.pre(D, i), o.post(D, i); d, e = p.some, q.some; k = o.skolem(D)
                P.ob(o, 'only the owner, before the rewards have ended', z3.And(is_owner(c, c.sender), p.issome, z3.Not(expired(c, d.active_epoch.ends_at))))
                s = d.active_epoch.started_at; b = c.env.block
                end = z3.If(s.is_('Never'), raw(s), z3.If(s.is_('AtHeight'), c.make(s.ty, 'AtHeight', **{'0': b.height}), c.make(s.ty, 'AtTime', **{'0': b.time})))
                out = until(c, d, V(c.ex, s.ty, end))
                P.ob(o, 'the rewards end now; those emitted so far stay funded', z3.And(q.issome, raw(e.active_epoch.ends_at) == end, e.funded_amount == out, out <= d.funded_amount))
                P.ob(o, 'nothing else changes', z3.And(same_but(e, d, 'active_epoch', 'funded_amount'), same_but(e.active_epoch, d.active_epoch, 'ends_at'), z3.Implies(k != i, o.post(D, k) == c.pre(D, k))))
                P.ob(o, 'the rest goes to the destination of the distribution', z3.And(B(len(ms) == 1), *[pays_denom(x, d.denom, d.withdraw_destination, d.funded_amount - out) for x in ms]))
                frame(P, o, D)
            elif v in ('Fund', 'FundLatest', 'Receive'):
                no_msgs(P, o); frame(P, o, D)
                if v == 'Receive':
                    w = m[0]; dm = c.decode(w.msg, c.adt('dao_rewards_distributor', 'msg::ReceiveCw20Msg')).some
                    i = z3.If(dm.is_('Fund'), only(dm.as_('Fund')[0], 'id'), c.pre(CT).some); d = c.pre(D, i)
                    P.ob(o, 'only its own token', z3.And(d.issome, d.some.denom.is_('Cw20'), d.some.denom.as_('Cw20')[0] == c.sender))
                    who, amount = w.sender, w.amount
                else:
                    i = only(m[0], 'id') if v == 'Fund' else c.pre(CT).some
                    d = c.pre(D, i); who = c.sender; amount = c.info.funds.at(0).amount
                    P.ob(o, 'only its own denomination, and all that was sent', z3.And(d.issome, d.some.denom.is_('Native'), paid1(c, d.some.denom.as_('Native')[0], amount)))
                P.ob(o, 'only the owner unless anybody may', allowed(c, d.some, who))
                credited(P, o, c, i, amount, d.some)
            elif v == 'Create':
                x = m[0]; n = c.pre(CT).some + 1; q = o.post(D, n); k = o.skolem(D); h = o.skolem(RH)
                no_msgs(P, o); frame(P, o, D, CT, RH)
                P.ob(o, 'only the owner', is_owner(c, c.sender))
                P.ob(o, 'the next id, not used before', z3.And(o.post(CT).issome, o.post(CT).some == n, c.pre(D, n).isnone, q.issome, q.some.id == n))
                P.ob(o, 'nothing happens to other distributions', z3.Implies(k != n, o.post(D, k) == c.pre(D, k)))
                e = q.some
                P.ob(o, 'as asked', z3.And(e.vp_contract == x.vp_contract, e.hook_caller == x.hook_caller, e.open_funding == z3.Or(x.open_funding.isnone, x.open_funding.some), raw(e.active_epoch.emission_rate) == raw(x.emission_rate),
                     e.withdraw_destination == z3.If(x.withdraw_destination.issome, x.withdraw_destination.some, c.sender), e.historical_earned_puvp == 0,
                     z3.If(x.denom.is_('Native'), z3.And(e.denom.is_('Native'), e.denom.as_('Native')[0] == x.denom.as_('Native')[0]), z3.And(e.denom.is_('Cw20'), e.denom.as_('Cw20')[0] == x.denom.as_('Cw20')[0]))))
                P.ob(o, 'a rate that emits something', sane(x.emission_rate))
                P.ob(o, 'funded with exactly what was sent', z3.If(no_funds(c), z3.And(e.funded_amount == 0, e.active_epoch.started_at.is_('Never'), e.active_epoch.ends_at.is_('Never'), e.active_epoch.total_earned_puvp == 0),
                     z3.And(e.denom.is_('Native'), paid1(c, e.denom.as_('Native')[0], e.funded_amount))))
                a, b = c.pre(RH, x.hook_caller), o.post(RH, x.hook_caller); n0 = z3.If(a.issome, a.some.n, 0)
                P.ob(o, 'its hook caller is registered for it', z3.And(b.issome, b.some.n == n0 + 1, b.some.at(n0) == n, b.some.all(lambda y, j: z3.Implies(j < n0, y == a.some.at(j))), z3.Implies(h != raw(x.hook_caller), o.post(RH, h) == c.pre(RH, h))))
            elif v == 'Update':
                update(P, o, c, m)
            elif v == 'UpdateOwnership':
                ownership(P, c, o); no_msgs(P, o); frame(P, o, 'ownership')
            else: raise Lost('unknown message ' + v)


def sane(r): return z3.Implies(r.is_('Linear'), z3.And(r.as_('Linear').amount > 0, units(r.as_('Linear').duration) > 0))


def update(P, o, c, m):
    i = m.id; p, q = c.pre(D, i), o.post(D, i); d, e = p.some, q.some; k = o.skolem(D); h = o.skolem(RH); b = c.env.block
    no_msgs(P, o); frame(P, o, D, RH)
    P.ob(o, 'only the owner, without funds', z3.And(is_owner(c, c.sender), no_funds(c), p.issome, q.issome))
    P.ob(o, 'no other distribution is touched', z3.Implies(k != i, o.post(D, k) == c.pre(D, k)))
    pick = lambda opt, old: z3.If(opt.issome, raw(opt.some), raw(old))
    P.ob(o, 'what is asked for is set, the rest stays', z3.And(e.vp_contract == pick(m.vp_contract, d.vp_contract), e.hook_caller == pick(m.hook_caller, d.hook_caller), raw(e.open_funding) == pick(m.open_funding, d.open_funding),
         e.withdraw_destination == pick(m.withdraw_destination, d.withdraw_destination), e.id == d.id, raw(e.denom) == raw(d.denom), raw(e.active_epoch.emission_rate) == pick(m.emission_rate, d.active_epoch.emission_rate)))
    new = z3.And(m.emission_rate.issome, raw(m.emission_rate.some) != raw(d.active_epoch.emission_rate)); r = m.emission_rate.some
    P.ob(o, 'without a new rate rewards stay as they are', z3.Implies(z3.Not(new), same_but(e, d, 'vp_contract', 'hook_caller', 'open_funding', 'withdraw_destination')))
    P.ob(o, 'a rate that emits something', z3.Implies(m.emission_rate.issome, sane(r)))
    l = V(c.ex, d.active_epoch.ends_at.ty, latest(c, d.active_epoch))
    left = d.funded_amount - until(c, d, l)
    P.ob(o, 'with a new rate, rewards emitted so far are kept', z3.Implies(new, e.historical_earned_puvp == d.historical_earned_puvp + earned(c, d)))
    P.ob(o, 'and only what was not emitted funds the new one', z3.Implies(new, z3.And(e.funded_amount == left, left >= 0)))
    ep = e.active_epoch; x = r.as_('Linear'); n = lasts(c, x, left); s = ep.started_at; M = 2**64 - 1
    st = z3.If(r.is_('Linear'), z3.If(x.duration.is_('Height'), c.make(s.ty, 'AtHeight', **{'0': b.height}), c.make(s.ty, 'AtTime', **{'0': b.time})), c.make(s.ty, 'Never'))
    P.ob(o, 'the new rate starts now, if it is one over time', z3.Implies(new, z3.And(raw(s) == st, raw(ep.last_updated_total_earned_puvp) == st)))
    en = ep.ends_at
    P.ob(o, 'and ends when the funds are used up', z3.Implies(new, z3.If(r.is_('Linear'), z3.If(x.duration.is_('Height'), z3.And(en.is_('AtHeight'), en.as_('AtHeight')[0] == z3.If(b.height + n <= M, b.height + n, M)),
         z3.And(en.is_('AtTime'), z3.Or(en.as_('AtTime')[0] == b.time + n * NANO, zi(c.ex.div(b.time, NANO)) + n > M))), en.is_('Never'))))
    P.ob(o, 'emitting over time from nothing, at once all that is left', z3.Implies(new, ep.total_earned_puvp == z3.If(r.is_('Immediate'), div(c, mul(c, left, SCALE), total(c, d)), 0)))
    P.ob(o, 'funds emitted at once need voting power to go to', z3.Implies(z3.And(new, r.is_('Immediate')), total(c, d) > 0))
    # hooks: moved from the old to the new caller
    nh, oh = raw(m.hook_caller.some), raw(d.hook_caller)
    ch = m.hook_caller.issome
    P.ob(o, 'other hook callers stay as they are', z3.Implies(z3.Or(z3.Not(ch), z3.And(h != nh, h != oh)), o.post(RH, h) == c.pre(RH, h)))
    a, z = o.post(RH, nh), o.post(RH, oh); w = z3.FreshConst(z3.IntSort(), 'w'); w2 = z3.FreshConst(z3.IntSort(), 'w2')
    P.ob(o, 'the new hook caller is registered', z3.Implies(ch, z3.And(a.issome, a.some.n > 0, a.some.at(a.some.n - 1) == i)))
    a0, z0 = c.pre(RH, nh), c.pre(RH, oh); n0 = z3.If(a0.issome, a0.some.n, 0)
    P.ob(o, 'and still for what it was registered for', z3.Implies(z3.And(ch, nh != oh), z3.And(a.some.n == n0 + 1, a.some.all(lambda y, j: z3.Implies(j < n0, y == a0.some.at(j))))))
    P.ob(o, 'the old one stays registered for exactly its other distributions', z3.Implies(z3.And(ch, nh != oh, z0.issome, z.issome), o.filtered(z.some, z0.some, lambda y: y != i)))
    P.ob(o, 'or for none if it has no other', z3.Implies(z3.And(ch, nh != oh, z0.issome, z.isnone), z0.some.all(lambda y, j: y == i)))
    P.ob(o, 'the old one no longer is', z3.Implies(z3.And(ch, nh != oh), z3.Or(z.isnone, z.some.all(lambda y, j: y != i))))


def hooks(P):
    c = P.contract('dao_rewards_distributor', contracts={UPDATE: recorder('update_rewards', 2, 3)}); c.calls = True
    call = lambda who, i: c.ex.fn('call!update_rewards', E.StrS, z3.IntSort(), E.StrS)(raw(who), raw(i))
    for v in ('StakeChangeHook', 'NftStakeChangeHook', 'MemberChangedHook'):
        r = c.run('contract::execute', v)
        P.reach(r.oks, f'{v} succeeds')
        for o in r.oks:
            ids = c.pre(RH, c.sender); m = r.msg.as_(v)[0]
            P.ob(o, 'only a registered hook caller', ids.issome)
            no_msgs(P, o); frame(P, o)
            cs = o.calls(); n = ids.some.n
            if v == 'MemberChangedHook':
                df = only(m, 'diffs')
                ok = []
                for t, j, k in cs: ok.append(o.grid(Seq(j, k), df.n, n, lambda a, b: t == call(df.at(a).key, ids.some.at(b))))
                P.ob(o, 'every member that changes is settled in every distribution the caller is registered for', z3.And(*ok) if cs else z3.Or(df.n == 0, n == 0))
            else:
                who = z3.If(m.is_('Stake'), raw(m.as_('Stake').addr), raw(m.as_('Unstake').addr))
                if any(j is None for _, j, _ in cs): raise Lost('calls outside the loop')
                P.ob(o, 'the account is settled in every distribution the caller is registered for', z3.And(*[z3.And(k == n, z3.Implies(z3.And(j >= 0, j < k), t == call(who, ids.some.at(j)))) for t, j, k in cs]) if cs else n == 0)
                P.ob(o, 'once', B(len(cs) <= 1))


class Seq:
    def __init__(self, j, n): self.j, self.n = j, n


def queries(P, c):
    q = c.run('contract::query', 'UndistributedRewards'); P.reach(q.oks, 'query UndistributedRewards')
    i = only(q.msg.as_('UndistributedRewards'), 'id')
    i = q.msg.as_('UndistributedRewards').id
    ty = next(t for t in c.ex.mir.tys.values() if t.s == 'cosmwasm_std::math::uint128::Uint128')
    for o in q.oks:
        d = c.pre(D, i).some; l = V(c.ex, d.active_epoch.ends_at.ty, latest(c, d.active_epoch))
        P.ob(o, 'undistributed: funded but not emitted by now', raw(o.json(ty).some) == d.funded_amount - until(c, d, l))


def lemmas(P, c): pass

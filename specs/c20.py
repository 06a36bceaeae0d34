"""cw-vesting: what is paid to whom, when."""
from spec import *
from common import *

V_, OW, ST = 'vesting', 'ownership', 'staked'
mn = lambda a, b: z3.If(a <= b, a, b)
pos = lambda a: z3.If(a > 0, a, 0)


def curve_at(c, cv, x):
    """value of a vesting curve x seconds after its start"""
    s = cv.as_('SaturatingLinear')[0]; p = cv.as_('PiecewiseLinear')[0]
    up = s.min_y + zi(c.ex.div(c.ex.mul(s.max_y - s.min_y, x - s.min_x), s.max_x - s.min_x))
    dn = s.min_y - zi(c.ex.div(c.ex.mul(s.min_y - s.max_y, x - s.min_x), s.max_x - s.min_x))
    pw = c.ex.fn('pwl_value', raw(p).sort(), z3.IntSort(), z3.IntSort())(raw(p), x)
    return z3.If(cv.is_('Constant'), cv.as_('Constant').y, z3.If(cv.is_('SaturatingLinear'),
                 z3.If(x < s.min_x, s.min_y, z3.If(x > s.max_x, s.max_y, z3.If(s.max_y > s.min_y, up, dn))), pw))


def curve_max(c, cv):
    s = cv.as_('SaturatingLinear')[0]; p = cv.as_('PiecewiseLinear')[0]
    return z3.If(cv.is_('Constant'), cv.as_('Constant').y, z3.If(cv.is_('SaturatingLinear'), z3.If(s.max_y > s.min_y, s.max_y, s.min_y), c.ex.fn('pwl_high', raw(p).sort(), z3.IntSort())(raw(p))))


def secs(t): return t / 10**9


def figures(c, o, t):
    """(vested, total, staked, liquid, claimable, hypotheses) at time t"""
    v = c.pre(V_).some
    el = pos(secs(t) - secs(v.start_time))
    vest = curve_at(c, v.vested, el); tot = curve_max(c, v.vested)
    if ST in c.ex.nsty: st, h = last_upto(c, lambda k: c.pre(ST, c.key(ST, E.UnitS.unit, k)), secs(t))
    else: raise Lost('staked')
    ow = v.status.as_('Canceled').owner_withdrawable
    liq = z3.If(v.status.is_('Unfunded'), 0, z3.If(v.status.is_('Funded'), tot - v.claimed - st - v.slashed, ow + (tot - v.claimed) - st))
    cl = pos(vest - v.claimed - v.slashed)
    return vest, tot, st, liq, cl, h


def check(P):
    c = P.contract('cw_vesting')
    c.run_all('contract::execute', skip=('RegisterSlash',))
    fm = c.adt('cw_vesting', 'msg::ReceiveMsg')
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            a, b = c.pre(V_), o.post(V_); x, y = a.some, b.some
            t = c.env.block.time; ms = o.msgs(); m = r.msg.as_(v)
            own = c.pre(OW).some.owner
            if v in ('Distribute', 'Cancel', 'WithdrawCanceledPayment'):
                vest, tot, st, liq, cl, h = figures(c, o, t)
            if v == 'Receive':
                p = m[0]
                P.ob(o, 'funded once, with exactly the total, in the right token', z3.And(a.issome, x.status.is_('Unfunded'), y.status.is_('Funded'), x.denom.is_('Cw20'), x.denom.as_('Cw20')[0] == c.sender, p.amount == curve_max(c, x.vested)))
                P.ob(o, 'nothing else changes', z3.And(b.issome, same_but(x, y, 'status')))
                no_msgs(P, o); frame(P, o, V_)
            elif v == 'Distribute':
                d = mn(liq, cl); req = z3.If(m.amount.isnone, d, m.amount.some)
                P.ob(o, 'no more than is vested, unclaimed, not slashed and liquid, and something', z3.And(a.issome, req > 0, req <= d), h)
                P.ob(o, 'one payment, to the recipient', z3.And(len(ms) == 1, pays_denom(ms[0], x.denom, x.recipient, req) if len(ms) == 1 else FALSE), h)
                P.ob(o, 'it counts as claimed, nothing else changes', z3.And(b.issome, same_but(x, y, 'claimed'), y.claimed == x.claimed + req), h)
                P.ob(o, 'claims never exceed what has vested', y.claimed + x.slashed <= vest, h)
                frame(P, o, V_)
            elif v == 'Cancel':
                tv = mn(cl, liq); to = liq - tv
                P.ob(o, 'only the owner, only once', z3.And(is_owner(c, c.sender), a.issome, z3.Not(x.status.is_('Canceled'))))
                P.ob(o, 'nothing more vests', z3.And(b.issome, same_but(x, y, 'status', 'vested', 'claimed'), y.vested.is_('Constant'), y.vested.as_('Constant').y == vest, y.claimed == x.claimed + tv), h)
                owed = pos(vest - y.claimed - x.slashed)
                P.ob(o, 'the owner is left with the staked tokens not owed to the recipient', z3.And(y.status.is_('Canceled'), y.status.as_('Canceled').owner_withdrawable == st - owed), h)
                sw = [q for q in ms if q.j is None]
                isw = lambda q: z3.And(q.msg.is_('Distribution'), q.msg.as_('Distribution')[0].is_('SetWithdrawAddress'), q.msg.as_('Distribution')[0].as_('SetWithdrawAddress').address == c.sender)
                po = lambda q: pays_denom(q, x.denom, c.sender, to); pv = lambda q: pays_denom(q, x.denom, x.recipient, tv)
                for i, q in enumerate(ms): P.ob(o, f'message {i}: staking rewards go to the owner, liquid tokens to those entitled', z3.Or(isw(q), z3.And(to > 0, po(q)), z3.And(tv > 0, pv(q))), h)
                P.ob(o, 'each of these once, if anything is due', z3.And(o.nmsgs() == 1 + z3.If(to > 0, 1, 0) + z3.If(tv > 0, 1, 0), z3.Or(*[isw(q) for q in ms]) if ms else FALSE,
                     z3.Implies(to > 0, z3.Or(*[po(q) for q in ms])), z3.Implies(tv > 0, z3.Or(*[pv(q) for q in ms]))), h)
                for i in range(len(ms)):
                    for j in range(i): P.ob(o, f'messages {j} and {i} are not the same payment', z3.Not(z3.Or(z3.And(isw(ms[i]), isw(ms[j])))))
                frame(P, o, V_)
            elif v == 'WithdrawCanceledPayment':
                ow = x.status.as_('Canceled').owner_withdrawable
                d = mn(liq, ow); req = z3.If(m.amount.isnone, d, m.amount.some)
                P.ob(o, 'once canceled, no more than is liquid and the owner\'s', z3.And(a.issome, x.status.is_('Canceled'), req > 0, req <= d), h)
                P.ob(o, 'one payment, to the owner', z3.And(len(ms) == 1, c.pre(OW).issome, own.issome, pays_denom(ms[0], x.denom, own.some, req) if len(ms) == 1 else FALSE), h)
                P.ob(o, 'it is taken off what the owner may withdraw', z3.And(b.issome, same_but(x, y, 'status'), y.status.is_('Canceled'), y.status.as_('Canceled').owner_withdrawable == ow - req), h)
                frame(P, o, V_)
            elif v in ('Delegate', 'Redelegate', 'Undelegate'):
                P.ob(o, 'the recipient stakes, while funded', z3.And(a.issome, z3.Or(z3.And(x.status.is_('Funded'), c.sender == x.recipient), z3.And(x.status.is_('Canceled'), B(v == 'Undelegate')))))
                P.ob(o, 'no funds are sent along', c.info.funds.n == 0) if v != 'Undelegate' else None
                if len(ms) != 1 or ms[0].j is not None: P.ob(o, 'one staking message', FALSE); continue
                s = ms[0].msg.as_('Staking')[0]; z = s.as_(v)
                same = [z.validator == m.validator] if v != 'Redelegate' else [z.src_validator == m.src_validator, z.dst_validator == m.dst_validator]
                P.ob(o, 'exactly what was asked for is staked', z3.And(ms[0].msg.is_('Staking'), s.is_(v), z.amount.amount == m.amount, *same))
                P.ob(o, 'only tokens of this payment', z3.And(x.denom.is_('Native'), z.amount.denom == x.denom.as_('Native')[0])) if v != 'Undelegate' else None
                frame(P, o, ST, 'validator', 'cardinality')
                tracked(P, c, o, v, m)
                if v == 'Redelegate':
                    d = delegation(c, m.src_validator)
                    P.ob(o, 'no more than may be moved at once', z3.And(d.issome, d.some.issome, m.amount <= d.some.some.can_redelegate.amount))
            elif v == 'SetWithdrawAddress':
                s = ms[0].msg.as_('Distribution')[0]
                P.ob(o, 'rewards are directed by the recipient, after cancelation by the owner', z3.And(a.issome, z3.If(x.status.is_('Canceled'), is_owner(c, c.sender), c.sender == x.recipient)))
                P.ob(o, 'as asked for, not to itself', z3.And(len(ms) == 1, ms[0].msg.is_('Distribution'), s.is_('SetWithdrawAddress'), s.as_('SetWithdrawAddress').address == m.address, m.address != c.self_addr))
                frame(P, o)
            elif v == 'WithdrawDelegatorReward':
                s = ms[0].msg.as_('Distribution')[0]
                P.ob(o, 'rewards are withdrawn as asked for', z3.And(len(ms) == 1, ms[0].msg.is_('Distribution'), s.is_('WithdrawDelegatorReward'), s.as_('WithdrawDelegatorReward').validator == m.validator))
                frame(P, o)
            elif v == 'UpdateOwnership':
                ownership(P, c, o); no_msgs(P, o); frame(P, o, OW)
                P.ob(o, 'no renouncing while the owner has tokens to withdraw', z3.Implies(z3.And(m[0].is_('RenounceOwnership'), x.status.is_('Canceled')), x.status.as_('Canceled').owner_withdrawable == 0))
            else: P.ob(o, 'unknown message', FALSE)
    slash(P, c)
    setup(P, c)
    queries(P, c)


def delegation(c, validator):
    """what the chain answers about the contract's stake with a validator"""
    ex = c.ex; qr, sq, R_ = (next((t for t in ex.mir.tys.values() if t.k == 'adt' and t.name.endswith('::' + n)), None) for n in ('QueryRequest', 'StakingQuery', 'DelegationResponse'))
    if None in (qr, sq, R_): raise Lost('the query for delegations')
    t = c.make(qr, 'Staking', **{'0': c.make(sq, 'Delegation', delegator=c.self_addr, validator=validator)})
    return OptV(ex, R_, ex.fn('query!raw ' + R_.s, t.sort(), ex.opt(ex.sort(R_)))(t))


def slash(P, c):
    e = 'contract::execute'; c.ex.havoc = ('cardinality',)     # (the number of validators staked with, by time: nothing is claimed)
    both = [c.run(e, 'RegisterSlash', name='execute.RegisterSlash.' + n, pre=lambda r: [r.msg.as_('RegisterSlash').during_unbonding == b]) for n, b in (('unbonding', True), ('bonded', False))]
    for r in both:
      P.reach(r.oks, f'{r.name} succeeds')
      for o in r.oks:
        a, b = c.pre(V_), o.post(V_); x, y = a.some, b.some; m = r.msg.as_('RegisterSlash')
        ow = x.status.as_('Canceled').owner_withdrawable; ow1 = y.status.as_('Canceled').owner_withdrawable
        P.ob(o, 'only the owner, for something that happened', z3.And(is_owner(c, c.sender), m.time <= c.env.block.time, m.amount > 0))
        P.ob(o, 'the recipient bears it while funded, afterwards the owner first', z3.And(a.issome, b.issome, same_but(x, y, 'status', 'slashed'), z3.Or(
            z3.And(x.status.is_('Funded'), y.status.is_('Funded'), y.slashed == x.slashed + m.amount),
            z3.And(x.status.is_('Canceled'), y.status.is_('Canceled'), ow1 == pos(ow - m.amount), y.slashed == x.slashed + pos(m.amount - ow)))))
        no_msgs(P, o); frame(P, o, V_, ST, 'validator', 'cardinality')
        if not r.name.endswith('unbonding'):
            line(P, c, o, ST, lambda k: c.key(ST, E.UnitS.unit, k), -m.amount, secs(m.time), 'total staked')
            line(P, c, o, 'validator', lambda k: c.key('validator', raw(m.validator), k), -m.amount, secs(m.time), 'stake with that validator')
            w = z3.FreshConst(E.StrS, 'tv'); k = c.key('validator', w, z3.FreshConst(z3.IntSort(), 'tk'))
            P.ob(o, 'stake with others stays', z3.Implies(w != raw(m.validator), raw(c.pre('validator', k)) == raw(o.post('validator', k))))
            continue
        t = secs(m.time); k = z3.FreshConst(z3.IntSort(), 'tk'); key = lambda k: c.key(ST, E.UnitS.unit, k)
        A, Z = c.pre(ST, key(k)), o.post(ST, key(k)); hyp = [k >= 0, k < 2**64]
        old, h = last_upto(c, lambda q: c.pre(ST, key(q)), t)
        P.ob(o, 'total staked before stays', z3.Implies(k < t, raw(A) == raw(Z)), hyp)
        P.ob(o, 'total staked then is less by the slash', z3.And(o.post(ST, key(t)).issome, o.post(ST, key(t)).some == old - m.amount), h)
        P.ob(o, 'total staked later stays', z3.Implies(k > t, raw(A) == raw(Z)), hyp)


def line(P, c, o, ns, key, amt, t, what):
    k = z3.FreshConst(z3.IntSort(), 'tk'); hyp = [k >= 0, k < 2**64]
    a, b = c.pre(ns, key(k)), o.post(ns, key(k))
    old, h = last_upto(c, lambda q: c.pre(ns, key(q)), t)
    P.ob(o, what + ' before stays', z3.Implies(k < t, raw(a) == raw(b)), hyp)
    P.ob(o, what + ' at that time', z3.And(o.post(ns, key(t)).issome, o.post(ns, key(t)).some == old + amt), h)
    P.ob(o, what + ' later', z3.Implies(k > t, z3.If(a.isnone, b.isnone, z3.And(b.issome, b.some == a.some + amt))), hyp)


def tracked(P, c, o, v, m):
    """the stake tracker: the change counts from its time on, before it nothing changes"""
    now = secs(c.env.block.time)
    ubs = c.pre('ubs').some if v == 'Undelegate' else 0
    t = now + ubs
    if v != 'Redelegate': line(P, c, o, ST, lambda k: c.key(ST, E.UnitS.unit, k), m.amount if v == 'Delegate' else -m.amount, t, 'total staked')
    vk = lambda who: (lambda k: c.key('validator', who, k))
    if v == 'Delegate': line(P, c, o, 'validator', vk(m.validator), m.amount, t, 'staked with the validator')
    if v == 'Undelegate': line(P, c, o, 'validator', vk(m.validator), -m.amount, t, 'staked with the validator')


def setup(P, c):
    r = c.run('contract::instantiate'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg; b = o.post(V_); y = b.some; s = y.vested.as_('SaturatingLinear')[0]; t = c.env.block.time
        P.ob(o, 'set up as asked', z3.And(b.issome, y.recipient == m.recipient, y.claimed == 0, y.slashed == 0, y.title == m.title, raw(y.description) == raw(m.description), y.start_time == z3.If(m.start_time.isnone, t, m.start_time.some),
             z3.If(m.denom.is_('Native'), z3.And(y.denom.is_('Native'), y.denom.as_('Native')[0] == m.denom.as_('Native')[0]), z3.And(y.denom.is_('Cw20'), y.denom.as_('Cw20')[0] == m.denom.as_('Cw20')[0]))))
        P.ob(o, 'vests linearly from nothing to the total, or by the steps given', z3.If(m.schedule.is_('SaturatingLinear'), z3.And(y.vested.is_('SaturatingLinear'), s.min_x == 0, s.min_y == 0, s.max_x == m.vesting_duration_seconds, s.max_y == m.total, m.vesting_duration_seconds > 0),
             z3.And(y.vested.is_('PiecewiseLinear'), raw(only(y.vested.as_('PiecewiseLinear')[0], 'steps')) == raw(m.schedule.as_('PiecewiseLinear')[0]))))
        P.ob(o, 'the total is what vests in the end, and something', z3.And(curve_max(c, y.vested) == m.total, m.total > 0))
        P.ob(o, 'not over before it starts', y.start_time + m.vesting_duration_seconds * 10**9 > t)
        f = c.info.funds
        P.ob(o, 'native payments are funded in full at once, cw20 ones later', z3.If(y.denom.is_('Native'), z3.And(y.status.is_('Funded'), f.n == 1, f.at(0).denom == y.denom.as_('Native')[0], f.at(0).amount == m.total), z3.And(y.status.is_('Unfunded'), f.n == 0)))
        for q in o.msgs():
            d = q.msg.as_('Distribution')[0]
            P.ob(o, 'staking rewards go to the recipient', z3.And(q.msg.is_('Distribution'), d.is_('SetWithdrawAddress'), d.as_('SetWithdrawAddress').address == y.recipient))
        ow = o.post(OW)
        P.ob(o, 'owned as asked', z3.And(ow.issome, raw(ow.some.owner) == raw(m.owner), o.post('ubs').issome, o.post('ubs').some == m.unbonding_duration_seconds))
        frame(P, o, V_, OW, 'ubs', 'contract_info')


def queries(P, c):
    e = 'contract::query'
    U = lambda o: o.json(c.ex.mir.adt('cosmwasm_std', 'math::uint128::Uint128'))
    for n in ('Distributable', 'Vested', 'TotalToVest'):
        r = c.run(e, n); P.reach(r.oks, r.name)
        for o in r.oks:
            d = U(o); m = r.msg.as_(n) if n != 'TotalToVest' else None
            t = z3.If(m.t.isnone, c.env.block.time, m.t.some) if m else c.env.block.time
            vest, tot, st, liq, cl, h = figures(c, o, t)
            want = {'Distributable': mn(liq, cl), 'Vested': vest, 'TotalToVest': tot}[n]
            P.ob(o, 'the figure asked for', z3.And(c.pre(V_).issome, d.issome, d.some == want), h)

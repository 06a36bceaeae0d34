"""cw20-stake-external-rewards: rewards per block shared by staked tokens."""
from spec import *
from common import *

CF, RC, LU, PT, PR, UT, OW = 'config_v2', 'reward_config', 'last_update_block', 'reward_per_token', 'pending_rewards', 'user_reward_per_token', 'ownership'
SCALE = 10**39


def mul(c, *xs):
    r = zi(raw(xs[0]))
    for x in xs[1:]: r = zi(c.ex.mul(r, zi(raw(x))))
    return r
def div(c, a, b): return zi(c.ex.div(zi(raw(a)), zi(raw(b))))


def staked(c, who=None):
    q = c.adt('cw20_stake', 'msg::QueryMsg'); a = c.pre(CF).some.staking_contract
    none = lambda v: c.none(dict(q.fields(c.vidx(q, v)))['height'].args[0])
    if who is None: return c.smart(q, c.adt('cw20_stake', 'msg::TotalStakedAtHeightResponse'), a, c.make(q, 'TotalStakedAtHeight', height=none('TotalStakedAtHeight'))).some
    return c.smart(q, c.adt('cw20_stake', 'msg::StakedBalanceAtHeightResponse'), a, c.make(q, 'StakedBalanceAtHeight', address=raw(who), height=none('StakedBalanceAtHeight'))).some


def applicable(c):
    f = raw(c.pre(RC).some.period_finish)
    return z3.If(c.height < f, zi(raw(c.height)), f)


def per_token(c):
    """rewards per staked token up to now"""
    rc = c.pre(RC).some; t = raw(only(staked(c), 'total'))
    add = div(c, mul(c, mul(c, rc.reward_rate, applicable(c) - c.pre(LU).val(0)), SCALE), t)
    return c.pre(PT).val(0) + z3.If(t == 0, 0, add)


def earned(c, who):
    b = only(staked(c, who), 'balance')
    return div(c, mul(c, b, per_token(c) - c.pre(UT, who).val(0)), SCALE)


def settled(P, o, c, who, pending, upto=None):
    pt = per_token(c); k = o.skolem(PR); k2 = o.skolem(UT)
    P.ob(o, 'rewards per token grow by what the rate emits since, shared by all staked tokens', z3.And(o.post(PT).issome, o.post(PT).some == pt))
    P.ob(o, 'and are up to date', z3.And(o.post(LU).issome, o.post(LU).some == (applicable(c) if upto is None else upto)))
    P.ob(o, 'rewards are never counted twice', z3.And(pt >= c.pre(UT, who).val(0), o.post(UT, who).issome, o.post(UT, who).some == pt))
    P.ob(o, 'the account gets its part by staked tokens', z3.And(o.post(PR, who).issome, o.post(PR, who).some == pending(c.pre(PR, who).val(0) + earned(c, who))))
    P.ob(o, "nobody else's rewards change", z3.And(z3.Implies(k != raw(who), o.post(PR, k) == c.pre(PR, k)), z3.Implies(k2 != raw(who), o.post(UT, k2) == c.pre(UT, k2))))
    t = raw(only(staked(c), 'total')); rc = c.pre(RC).some
    P.ob(o, 'all staked tokens together get no more than was emitted since', mul(c, o.post(PT).some - c.pre(PT).val(0), t) <= mul(c, mul(c, rc.reward_rate, applicable(c) - c.pre(LU).val(0)), SCALE), [c.pre(LU).val(0) <= applicable(c)])
    P.ob(o, 'what was emitted is never from the future', z3.And(o.post(LU).some <= c.height, o.post(LU).some <= o.post(RC).some.period_finish))


def check(P):
    c = P.contract('cw20_stake_external_rewards')
    c.run_all('contract::execute')
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            m = r.msg.as_(v); ms = o.msgs(); cf = c.pre(CF).some; rc, rd = c.pre(RC), o.post(RC)
            if v == 'StakeChangeHook':
                h = m[0]
                P.ob(o, 'only the staking contract', c.sender == cf.staking_contract)
                who = z3.If(h.is_('Stake'), raw(h.as_('Stake').addr), raw(h.as_('Unstake').addr))
                settled(P, o, c, who, lambda x: x); no_msgs(P, o); frame(P, o, LU, PT, PR, UT)
            elif v == 'Claim':
                settled(P, o, c, c.sender, lambda x: 0); frame(P, o, LU, PT, PR, UT)
                amt = c.pre(PR, c.sender).val(0) + earned(c, c.sender)
                P.ob(o, 'the sender is paid all its rewards, something', z3.And(amt > 0, B(len(ms) == 1), *[pays_denom(x, cf.reward_token, c.sender, amt) for x in ms]))
            elif v in ('Fund', 'Receive'):
                if v == 'Fund':
                    f = c.info.funds; who = c.sender; amt = f.at(0).amount
                    P.ob(o, 'exactly the reward denomination', z3.And(cf.reward_token.is_('Native'), f.n == 1, f.at(0).denom == cf.reward_token.as_('Native')[0], amt > 0))
                else:
                    w = m[0]; who, amt = w.sender, w.amount
                    P.ob(o, 'only the reward token', z3.And(cf.reward_token.is_('Cw20'), cf.reward_token.as_('Cw20')[0] == c.sender))
                P.ob(o, 'only the owner, when no period is running', z3.And(is_owner(c, who), rc.issome, rc.some.period_finish <= c.height))
                d = rc.some.reward_duration
                P.ob(o, 'a period starts now, at the rate that uses the funds up', z3.And(rd.issome, rd.some.period_finish == c.height + d, rd.some.reward_rate == div(c, amt, d), rd.some.reward_rate > 0, rd.some.reward_duration == d))
                P.ob(o, 'never more than was received', mul(c, rd.some.reward_rate, rd.some.reward_duration) <= amt, [d > 0])
                settled(P, o, c, who, lambda x: x, upto=c.height); no_msgs(P, o); frame(P, o, LU, PT, PR, UT, RC)
            elif v == 'UpdateRewardDuration':
                P.ob(o, 'only the owner, when no period is running', z3.And(is_owner(c, c.sender), rc.issome, rc.some.period_finish <= c.height))
                P.ob(o, 'only the duration changes, to a nonzero one', z3.And(rd.issome, rd.some.reward_duration == m.new_duration, m.new_duration > 0, same_but(rd.some, rc.some, 'reward_duration')))
                no_msgs(P, o); frame(P, o, RC)
            elif v == 'UpdateOwnership':
                ownership(P, c, o); no_msgs(P, o); frame(P, o, OW)
            else: raise Lost('unknown message ' + v)
    i = c.run('contract::instantiate'); P.reach(i.oks, 'instantiate succeeds')
    for o in i.oks:
        x = o.post(RC).some; m = i.msg; ow = o.post(OW).some
        P.ob(o, 'no rewards yet, a nonzero duration', z3.And(o.post(RC).issome, x.period_finish == 0, x.reward_rate == 0, x.reward_duration == m.reward_duration, x.reward_duration > 0))
        P.ob(o, 'as asked', z3.And(o.post(CF).issome, o.post(CF).some.staking_contract == m.staking_contract, z3.If(m.owner.issome, z3.And(ow.owner.issome, ow.owner.some == m.owner.some), ow.owner.isnone)))
        no_msgs(P, o)
    q = c.run('contract::query', 'GetPendingRewards'); P.reach(q.oks, 'query GetPendingRewards')
    ty = c.adt('cw20_stake_external_rewards', 'msg::PendingRewardsResponse')
    for o in q.oks:
        who = q.msg.as_('GetPendingRewards').address
        P.ob(o, 'pending: recorded and earned since', o.json(ty).some.pending_rewards == c.pre(PR, who).val(0) + earned(c, who))

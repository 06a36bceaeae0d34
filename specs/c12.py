"""dao-voting-token-staked: custody, power, claims, authority."""
from spec import *
from common import *
from c11 import stake_hook

SB, ST, CL, CF, HK, DAO, DN, AT = 'staked_balances', 'total_staked', 'claims', 'config', 'hooks', 'dao', 'denom', 'active_threshold'


def check(P):
    c = P.contract('dao_voting_token_staked')
    c.run_all('contract::execute')
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            cf, dn, dao = c.pre(CF), c.pre(DN), c.pre(DAO)
            s0, s1 = c.pre(SB, c.sender).val(0), o.post(SB, c.sender).val(0); k = o.skolem(SB)
            ms = o.msgs()
            if v in ('Stake', 'Unstake'):
                P.ob(o, "nobody else's stake changes", z3.Implies(k != c.sender, o.post(SB, k) == c.pre(SB, k)))
                P.ob(o, 'total staked follows the stakes', o.post(ST).val(0) - c.pre(ST).val(0) == o.delta(SB, lambda v: v.val(0)))
                P.ob(o, 'changes are recorded at this block', z3.And(o.recorded(SB), o.recorded(ST)))
                P.ob(o, 'every hook is told', told(o, c, HK, ms))
            else: frame(P, o, CL, CF, AT, HK)
            if v == 'Stake':
                f = c.info.funds
                a = f.at(0).amount
                P.ob(o, 'exactly one payment, of the staked denomination', z3.And(f.n == 1, dn.issome, f.at(0).denom == dn.some, a > 0))
                P.ob(o, 'credited one to one', s1 == s0 + a)
                for i, m in enumerate(ms): P.ob(o, f'message {i} tells a hook what was staked', guarded(m, stake_hook(c, m, 'Stake', c.sender, a)))
                frame(P, o, SB, ST)
            elif v == 'Unstake':
                a = r.msg.as_(v).amount; ud = only(cf.some, "unstaking_duration")
                P.ob(o, "only the sender's own stake", z3.And(a > 0, s0 >= a, s1 == s0 - a))
                pay = lambda m: m.is_send1(c.sender, dn.some, a)
                one = [m for m in ms if m.j is None]
                P.ob(o, 'paid at once without an unstaking duration, never otherwise', z3.And(cf.issome, z3.If(ud.isnone, z3.And(dn.issome, pay(one[0])) if len(one) == 1 else FALSE, B(not one))))
                for i, m in enumerate(ms):
                    P.ob(o, f'message {i} is the payment or tells a hook', guarded(m, pay(m) if m.j is None else stake_hook(c, m, 'Unstake', c.sender, a)))
                if CL in o.written():
                    P.ob(o, 'a claim only with an unstaking duration', ud.issome)
                    claims_made(P, c, o, CL, c.sender, a, ud.some, 100)
                else: P.ob(o, 'no claim only without an unstaking duration', ud.isnone)
                frame(P, o, SB, ST, CL)
            elif v == 'Claim':
                if len(ms) != 1 or ms[0].j is not None: P.ob(o, 'one payment', FALSE); continue
                paid = ms[0].send.amount.at(0).amount
                P.ob(o, 'one payment of the staked denomination to the sender', z3.And(dn.issome, ms[0].is_send1(c.sender, dn.some, paid)))
                claims_paid(P, c, o, CL, paid)
                frame(P, o, CL)
            else:
                P.ob(o, 'only the DAO', z3.And(dao.issome, dao.some == c.sender))
                no_msgs(P, o)
                if v == 'UpdateConfig':
                    x = o.post(CF)
                    P.ob(o, 'only the unstaking duration changes', z3.And(x.issome, cf.issome, rest_same(cf.some, x.some, 'unstaking_duration'), only(x.some, "unstaking_duration") == r.msg.as_(v).duration))
                    frame(P, o, CF)
                elif v == 'UpdateActiveThreshold':
                    threshold_set(P, c, o, AT, r.msg.as_(v).new_threshold, c.ex.unsome(supply_of(c, dn.some)))
                    frame(P, o, AT)
                else:
                    hook_edit(P, c, o, HK, v == 'AddHook', r.msg.as_(v).addr); frame(P, o, HK)
    setup(P, c)
    q(P, c)


def setup(P, c):
    r = c.run('contract::instantiate'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg; x, dn, at = o.post(CF), o.post(DN), o.post(AT); t = m.token_info
        P.ob(o, 'configured as asked, for the DAO that asked', z3.And(x.issome, only(x.some, "unstaking_duration") == m.unstaking_duration, o.post(DAO).issome, o.post(DAO).some == c.sender))
        P.ob(o, 'the threshold is the one asked for', z3.If(m.active_threshold.isnone, at == c.pre(AT), z3.And(at.issome, raw(at.some) == raw(m.active_threshold.some))))
        a = m.active_threshold.some
        P.ob(o, 'a percentage makes sense', z3.Implies(z3.And(m.active_threshold.issome, a.is_('Percentage')), valid_percent(a.as_('Percentage').percent)))
        d = t.as_('Existing').denom
        P.ob(o, 'an existing denomination is used, and a count makes sense against its supply', z3.Implies(t.is_('Existing'), z3.And(dn.issome, dn.some == d, o.nmsgs() == 0,
             z3.Implies(z3.And(m.active_threshold.issome, a.is_('AbsoluteCount')), valid_count(a.as_('AbsoluteCount').count, c.ex.unsome(supply_of(c, d)))))))
        ms = o.msgs()
        P.ob(o, 'otherwise one message makes the token, and is waited for', z3.Implies(z3.Not(t.is_('Existing')), z3.And(o.nmsgs() == 1, dn == c.pre(DN), *[z3.And(x.reply_on.is_('Success'),
             z3.If(t.is_('New'), z3.And(x.is_inst(), x.id == 0), z3.And(x.is_exec(), x.id == 2))) for x in ms])))
        frame(P, o, CF, DN, DAO, AT, 'contract_info', 'token_instantiation_info')
    r = c.run('contract::reply'); P.reach(r.oks, r.name)
    for o in r.oks:
        a = c.pre(AT)
        frame(P, o, DN, 'token_issuer_contract', 'token_instantiation_info')


def q(P, c):
    e = 'contract::query'
    h = lambda m: z3.If(m.height.isnone, c.height, m.height.some)
    r = c.run(e, 'VotingPowerAtHeight'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg.as_('VotingPowerAtHeight'); d = o.json(c.adt('dao_interface', 'voting::VotingPowerAtHeightResponse'))
        P.ob(o, 'the stake at the start of the block', z3.And(d.issome, d.some.height == h(m), d.some.power == at_height(c, SB, m.address, h(m)).val(0)))
    r = c.run(e, 'TotalPowerAtHeight'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg.as_('TotalPowerAtHeight'); d = o.json(c.adt('dao_interface', 'voting::TotalPowerAtHeightResponse'))
        P.ob(o, 'the total at the start of the block', z3.And(d.issome, d.some.height == h(m), d.some.power == at_height(c, ST, None, h(m)).val(0)))
    r = c.run(e, 'IsActive'); P.reach(r.oks, r.name)
    for o in r.oks:
        d = o.json(c.adt('dao_interface', 'voting::IsActiveResponse'))
        P.ob(o, 'active exactly when enough is staked', z3.And(d.issome, d.some == is_active(c, c.pre(AT), c.pre(ST).val(0), c.ex.unsome(supply_of(c, c.pre(DN).some)))))
    r = c.run(e, 'Claims'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg.as_('Claims'); d = o.json(c.adt('cw_controllers', 'claim::ClaimsResponse')); a = c.pre(CL, m.address)
        P.ob(o, 'the outstanding claims', z3.And(d.issome, z3.If(a.isnone, d.some.n == 0, raw(d.some) == raw(a.some))))

"""cw20-stake: shares, custody and claims."""
from spec import *
from common import *

SB, ST, BA, CL, CF, HK, OW = 'staked_balances', 'total_staked', 'balance', 'claims', 'config_v2', 'hooks', 'ownership'


def sums(P, c, o):
    """invariant: the total is the sum of the balances (this call keeps the difference)"""
    P.ob(o, 'total staked follows the balances', o.post(ST).val(0) - c.pre(ST).val(0) == o.delta(SB, lambda v: v.val(0)))
    P.ob(o, 'changes are recorded at this block', z3.And(o.recorded(SB), o.recorded(ST)))


def stake_hook(c, m, kind, who, amount, ns=HK):
    ty = c.adt('dao_hooks', 'stake::StakeChangedExecuteMsg')
    def f(d):
        h = d.as_('StakeChangeHook')[0]; x = h.as_(kind)
        return z3.And(d.is_('StakeChangeHook'), h.is_(kind), x.addr == raw(who), x.amount == amount)
    return to_hooks(c, m, ns, ty, f)


def check(P):
    c = P.contract('cw20_stake')
    c.run_all('contract::execute', skip=('Receive',))
    rm = c.adt('cw20_stake', 'msg::ReceiveMsg')
    c.run('contract::execute', 'Receive')
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            cf = c.pre(CF); sh0, st0, ba0 = c.pre(SB, c.sender).val(0), c.pre(ST), c.pre(BA)
            st1, ba1 = o.post(ST), o.post(BA)
            ms = o.msgs()
            if v == 'Receive':
                m = r.msg.as_(v)[0]; d = c.decode(m.msg, rm); who = m.sender
                P.ob(o, 'only tokens of the configured kind', z3.And(cf.issome, c.sender == cf.some.token_address, d.issome))
                P.ob(o, 'custody grows by what was received', z3.And(ba0.issome, ba1.issome, ba1.some == ba0.some + m.amount))
                dx = o.post(SB, who).val(0) - c.pre(SB, who).val(0)
                T, A = st0.val(0), ba0.val(0)
                want = z3.If(z3.Or(T == 0, A == 0), m.amount, zi(c.ex.div(c.ex.mul(T, m.amount), A)))
                P.ob(o, 'shares at the current price, rounded down; none for funding', dx == z3.If(d.some.is_('Stake'), want, 0))
                k = o.skolem(SB)
                P.ob(o, "nobody else's shares change", z3.Implies(k != who, o.post(SB, k) == c.pre(SB, k)))
                for i, x in enumerate(ms): P.ob(o, f'message {i} tells a hook what was staked', guarded(x, z3.And(d.some.is_('Stake'), stake_hook(c, x, 'Stake', who, want))))
                P.ob(o, 'every hook is told', z3.Implies(d.some.is_('Stake'), told(o, c, HK, ms)))
                frame(P, o, SB, ST, BA)
                P.ob(o, 'the price of a share never falls', z3.Implies(T > 0, (A + m.amount) * T >= A * (T + dx)), [dx == z3.If(d.some.is_('Stake'), want, 0)])
            elif v == 'Unstake':
                a = r.msg.as_(v).amount; T, A = st0.val(0), ba0.val(0)
                pay = zi(c.ex.div(c.ex.mul(a, A), T))
                P.ob(o, "only the sender's own shares", z3.And(sh0 >= a, o.post(SB, c.sender).val(0) == sh0 - a, st0.issome, T > 0))
                k = o.skolem(SB)
                P.ob(o, "nobody else's shares change", z3.Implies(k != c.sender, o.post(SB, k) == c.pre(SB, k)))
                P.ob(o, 'pays out the value of the shares, rounded down', z3.And(ba1.issome, ba1.some == ba0.some - pay))
                P.ob(o, 'the price of a share never falls', z3.And(pay <= A, (A - pay) * T >= A * (T - a)), [a <= T])
                ud = cf.some.unstaking_duration
                xfer = [x.is_cw20_transfer(cf.some.token_address, c.sender, pay) for x in ms if x.j is None]
                P.ob(o, 'paid at once without an unstaking duration, never otherwise', z3.And(cf.issome, z3.If(ud.isnone, xfer[0] if len(xfer) == 1 else FALSE, B(not xfer))))
                for i, x in enumerate(ms):
                    g = stake_hook(c, x, 'Unstake', c.sender, a)
                    P.ob(o, f'message {i} is the payment or tells a hook', guarded(x, z3.Or(g, x.is_cw20_transfer(cf.some.token_address, c.sender, pay)) if x.j is None else g))
                P.ob(o, 'every hook is told', told(o, c, HK, ms))
                if CL in o.written():
                    P.ob(o, 'a claim only with an unstaking duration', ud.issome)
                    claims_made(P, c, o, CL, c.sender, pay, ud.some, 100)
                else: P.ob(o, 'no claim only without an unstaking duration', ud.isnone)
                frame(P, o, SB, ST, BA, CL)
            elif v == 'Claim':
                e = ms[0].exec if len(ms) == 1 and ms[0].j is None else None
                ty = c.adt('cw20', 'msg::Cw20ExecuteMsg')
                if e is None: P.ob(o, 'one payment', FALSE); continue
                d = c.decode(e.msg, ty)
                paid = d.some.as_('Transfer').amount
                P.ob(o, 'one payment of the staked token to the sender', z3.And(cf.issome, ms[0].is_cw20_transfer(cf.some.token_address, c.sender, paid)))
                claims_paid(P, c, o, CL, paid)
                frame(P, o, CL)
            elif v == 'UpdateOwnership':
                ownership(P, c, o); frame(P, o, OW); no_msgs(P, o)
            else:
                P.ob(o, 'only the owner', is_owner(c, c.sender))
                no_msgs(P, o)
                if v == 'UpdateConfig':
                    x = o.post(CF); d = r.msg.as_(v).duration
                    P.ob(o, 'only the unstaking duration changes', z3.And(x.issome, cf.issome, same_but(cf.some, x.some, 'unstaking_duration'), x.some.unstaking_duration == d))
                    frame(P, o, CF)
                else:
                    hook_edit(P, c, o, HK, v == 'AddHook', r.msg.as_(v).addr); frame(P, o, HK)
            sums(P, c, o)
    r = c.run('contract::instantiate')
    P.reach(r.oks, 'instantiate')
    for o in r.oks:
        m = r.msg
        x = o.post(CF)
        P.ob(o, 'starts empty', z3.And(o.post(ST).issome, o.post(ST).some == 0, o.post(BA).issome, o.post(BA).some == 0, o.recorded(ST)))
        P.ob(o, 'configured as asked', z3.And(x.issome, x.some.token_address == m.token_address, x.some.unstaking_duration == m.unstaking_duration))
        frame(P, o, ST, BA, CF, OW, 'contract_info')
    q(P, c)


def q(P, c):
    e = 'contract::query'
    h = lambda o, m: z3.If(m.height.isnone, c.height, m.height.some)
    r = c.run(e, 'StakedBalanceAtHeight'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg.as_('StakedBalanceAtHeight'); d = o.json(c.adt('cw20_stake', 'msg::StakedBalanceAtHeightResponse'))
        P.ob(o, 'the shares at the start of the block', z3.And(d.issome, d.some.height == h(o, m), d.some.balance == at_height(c, SB, m.address, h(o, m)).val(0)))
    r = c.run(e, 'TotalStakedAtHeight'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg.as_('TotalStakedAtHeight'); d = o.json(c.adt('cw20_stake', 'msg::TotalStakedAtHeightResponse'))
        P.ob(o, 'the total at the start of the block', z3.And(d.issome, d.some.height == h(o, m), d.some.total == at_height(c, ST, None, h(o, m)).val(0)))
    r = c.run(e, 'StakedValue'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg.as_('StakedValue'); d = o.json(c.adt('cw20_stake', 'msg::StakedValueResponse'))
        s, A, T = c.pre(SB, m.address).val(0), c.pre(BA).val(0), c.pre(ST).val(0)
        P.ob(o, 'the value of the shares, rounded down', z3.And(d.issome, d.some == z3.If(T == 0, 0, zi(c.ex.div(c.ex.mul(s, A), T)))))
    r = c.run(e, 'Claims'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg.as_('Claims'); d = o.json(c.adt('cw_controllers', 'claim::ClaimsResponse')); a = c.pre(CL, m.address)
        P.ob(o, 'the outstanding claims', z3.And(d.issome, z3.If(a.isnone, d.some.n == 0, raw(d.some) == raw(a.some))))

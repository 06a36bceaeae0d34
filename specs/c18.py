"""cw20-stake-reward-distributor: pays a staking contract at a rate per block."""
from spec import *
from common import *
from c17 import mul

CF, LP, OW = 'config_v2', 'last_payment_block', 'ownership'


def balance(c):
    q = c.adt('cw20', 'query::Cw20QueryMsg')
    return c.smart(q, c.adt('cw20', 'query::BalanceResponse'), c.pre(CF).some.reward_token, c.make(q, 'Balance', address=raw(only(c.env.contract, 'address')) if isinstance(c.env.contract, V) else c.env.contract)).some


def check(P):
    c = P.contract('cw20_stake_reward_distributor')
    c.run_all('contract::execute')
    fund = c.adt('cw20_stake', 'msg::ReceiveMsg'); cw20 = c.adt('cw20', 'msg::Cw20ExecuteMsg')
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            m = r.msg.as_(v); ms = o.msgs(); cf = c.pre(CF).some; lp, lq = c.pre(LP), o.post(LP); bal = raw(only(balance(c), 'balance'))
            if v == 'Distribute':
                due = mul(c, cf.reward_rate, c.height - lp.some); amt = z3.If(bal < due, bal, due)
                P.ob(o, 'every block is paid for once', z3.And(lp.issome, lp.some < c.height, lq.issome, lq.some == c.height))
                def send(d):
                    s = d.as_('Send'); f = c.decode(s.msg, fund)
                    return z3.And(d.is_('Send'), s.contract == cf.staking_addr, s.amount == amt, f.issome, f.some.is_('Fund'))
                P.ob(o, 'the staking contract is funded with the rate for the blocks since, or all there is', z3.And(amt > 0, B(len(ms) == 1), *[z3.And(x.is_exec_to(cf.reward_token, cw20, send), x.exec.funds.n == 0, x.reply_on.is_('Never')) for x in ms]))
                frame(P, o, LP)
            elif v == 'Withdraw':
                P.ob(o, 'only the owner', is_owner(c, c.sender))
                P.ob(o, 'gets the whole balance', z3.And(B(len(ms) == 1), *[z3.And(x.is_cw20_transfer(cf.reward_token, c.sender, bal), x.exec.funds.n == 0) for x in ms]))
                frame(P, o)
            elif v == 'UpdateConfig':
                x = o.post(CF)
                P.ob(o, 'only the owner', is_owner(c, c.sender))
                P.ob(o, 'as asked', z3.And(x.issome, x.some.staking_addr == m.staking_addr, x.some.reward_rate == m.reward_rate, x.some.reward_token == m.reward_token))
                P.ob(o, 'the new rate counts from now on', z3.And(lq.issome, lq.some == c.height))
                no_msgs(P, o); frame(P, o, CF, LP)
            elif v == 'UpdateOwnership':
                ownership(P, c, o); no_msgs(P, o); frame(P, o, OW)
            else: raise Lost('unknown message ' + v)
    i = c.run('contract::instantiate'); P.reach(i.oks, 'instantiate succeeds')
    for o in i.oks:
        m = i.msg; x = o.post(CF).some; ow = o.post(OW).some
        P.ob(o, 'as asked, counting from now', z3.And(x.staking_addr == m.staking_addr, x.reward_rate == m.reward_rate, x.reward_token == m.reward_token, o.post(LP).some == c.height, ow.owner.issome, ow.owner.some == m.owner))
        no_msgs(P, o)

"""cw-token-swap: an escrow between two parties."""
from spec import *
from common import *

ONE, TWO = 'counterparty_one', 'counterparty_two'


def pays(m, p, to):
    """message m sends the promise p, whole, to `to`"""
    n, k = p.as_('Native'), p.as_('Cw20')
    return z3.If(p.is_('Native'), m.is_send1(to, n.denom, n.amount), z3.And(m.is_cw20_transfer(k.contract_addr, to, k.amount), m.exec.funds.n == 0))


def check(P):
    c = P.contract('cw_token_swap')
    c.run_all('contract::execute')
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            a, b = c.pre(ONE), c.pre(TWO); a1, b1 = o.post(ONE), o.post(TWO)
            who = r.msg.as_(v)[0].sender if v == 'Receive' else c.sender
            P.ob(o, 'set up, by one of the parties', z3.And(a.issome, b.issome, a1.issome, b1.issome, z3.Or(a.some.address == who, b.some.address == who)))
            P.ob(o, 'parties and promises never change', z3.And(*[z3.And(x1.some.address == x.some.address, raw(x1.some.promise) == raw(x.some.promise)) for x, x1 in ((a, a1), (b, b1))]))
            first = a.some.address == who
            me0, me1 = (lambda f: z3.If(first, f(a.some), f(b.some))), (lambda f: z3.If(first, f(a1.some), f(b1.some)))
            ot0, ot1 = (lambda f: z3.If(first, f(b.some), f(a.some))), (lambda f: z3.If(first, f(b1.some), f(a1.some)))
            pr = lambda x: x.provided
            P.ob(o, "the other side's provision does not change", ot1(pr) == ot0(pr))
            ms = o.msgs()
            if v == 'Withdraw':
                P.ob(o, 'only what was provided, while the other has not', z3.And(me0(pr), z3.Not(me1(pr)), z3.Not(ot0(pr))))
                P.ob(o, 'the whole promise goes back to its provider', z3.And(len(ms) == 1, me0(lambda x: pays(ms[0], x.promise, who)) if len(ms) == 1 else FALSE))
            else:
                P.ob(o, 'provided once', z3.And(z3.Not(me0(pr)), me1(pr)))
                if v == 'Receive':
                    am = r.msg.as_(v)[0].amount
                    P.ob(o, 'exactly the promised cw20 tokens', me0(lambda x: z3.And(x.promise.is_('Cw20'), x.promise.as_('Cw20').contract_addr == c.sender, x.promise.as_('Cw20').amount == am)))
                else:
                    f = c.info.funds
                    P.ob(o, 'exactly the promised native tokens', me0(lambda x: z3.And(x.promise.is_('Native'), f.n == 1, x.promise.as_('Native').denom == f.at(0).denom, x.promise.as_('Native').amount == f.at(0).amount)))
                P.ob(o, 'tokens move exactly when both have provided', o.nmsgs() == z3.If(ot0(pr), 2, 0))
                if len(ms) == 2:
                    P.ob(o, 'each side gets the whole promise of the other', z3.Or(*[z3.And(pays(x, a.some.promise, b.some.address), pays(y, b.some.promise, a.some.address)) for x, y in (ms, ms[::-1])]))
            frame(P, o, ONE, TWO)
    r = c.run('contract::instantiate'); P.reach(r.oks, r.name)
    for o in r.oks:
        a, b = o.post(ONE), o.post(TWO); m = r.msg
        P.ob(o, 'set up as asked, with distinct parties and nothing provided', z3.And(a.issome, b.issome, a.some.address != b.some.address,
             *[z3.And(x.some.address == y.address, z3.Not(x.some.provided)) for x, y in ((a, m.counterparty_one), (b, m.counterparty_two))]))
        for x, y in ((a.some.promise, m.counterparty_one.promise), (b.some.promise, m.counterparty_two.promise)):
            P.ob(o, 'something is promised, as asked', z3.If(y.is_('Native'), z3.And(x.is_('Native'), x.as_('Native').denom == y.as_('Native').denom, x.as_('Native').amount == y.as_('Native').amount, y.as_('Native').amount > 0),
                 z3.And(x.is_('Cw20'), x.as_('Cw20').contract_addr == y.as_('Cw20').contract_addr, x.as_('Cw20').amount == y.as_('Cw20').amount, y.as_('Cw20').amount > 0)))
        no_msgs(P, o); frame(P, o, ONE, TWO, 'contract_info')
    r = c.run('contract::query', 'Status'); P.reach(r.oks, r.name)
    for o in r.oks:
        d = o.json(c.adt('cw_token_swap', 'msg::StatusResponse'))
        P.ob(o, 'the status is what is stored', z3.And(d.issome, c.pre(ONE).issome, c.pre(TWO).issome, raw(d.some.counterparty_one) == raw(c.pre(ONE).some), raw(d.some.counterparty_two) == raw(c.pre(TWO).some)))

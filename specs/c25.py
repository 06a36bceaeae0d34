"""cw-payroll-factory and cw-admin-factory: contracts instantiated for somebody."""
from spec import *
from common import *
from c02 import parse
from c20 import curve_max

CODE, TMP, VC, OW = 'pci', 'tmp_instantiator_info', 'vesting_contracts', 'ownership'
AD, EX = 'admin', 'expect'


def inst2(m): return m.msg.as_('Wasm')[0].as_('Instantiate2')
def inst(m): return m.msg.as_('Wasm')[0].as_('Instantiate')


def check(P):
    payroll(P); admin(P)


def payroll(P):
    c = P.contract('cw_payroll_factory')
    c.run_all('contract::execute')
    it = c.adt('cw_vesting', 'msg::InstantiateMsg'); rt = c.adt('cw_payroll_factory', 'msg::ReceiveMsg')
    for r in c.runs:
        v = r.name.split('.')[-1]; P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            m = r.msg.as_(v); ms = o.msgs()
            if v in ('Receive', 'InstantiateNativePayrollContract'):
                if v == 'Receive':
                    w = m[0]; d = c.decode(w.msg, rt); q = d.some if d.some.ty.name.endswith('InstantiatePayrollContract') else d.some.as_('InstantiatePayrollContract')
                    who, im, label = w.sender, q.instantiate_msg, q.label
                    P.ob(o, 'for exactly the tokens received, with no other funds', z3.And(d.issome, w.amount == im.total, c.info.funds.n == 0))
                    P.ob(o, 'one at a time', c.pre(TMP).isnone)
                    funds = lambda f: f.n == 0
                else:
                    who, im, label = c.sender, m.instantiate_msg, m.label
                    funds = lambda f: raw(f) == raw(c.info.funds)
                ow = c.pre(OW).some.owner
                P.ob(o, 'only the owner, if there is one', z3.And(c.pre(OW).issome, z3.Or(ow.isnone, ow.some == who)))
                P.ob(o, 'the payer is remembered until the contract is there', z3.And(o.post(TMP).issome, o.post(TMP).some == who))
                P.ob(o, 'one vesting contract, as asked, funded with what came along', z3.And(B(len(ms) == 1), *[z3.And(x.msg.is_('Wasm'), x.msg.as_('Wasm')[0].is_('Instantiate'), inst(x).code_id == c.pre(CODE).some, c.pre(CODE).issome,
                     c.decode(inst(x).msg, it).issome, raw(c.decode(inst(x).msg, it).some) == raw(im), raw(inst(x).admin) == raw(im.owner), inst(x).label == label, funds(inst(x).funds), x.reply_on.is_('Success'), x.id == 0) for x in ms]))
                frame(P, o, TMP)
            elif v == 'UpdateCodeId':
                P.ob(o, 'only the owner', is_owner(c, c.sender))
                P.ob(o, 'as asked', z3.And(o.post(CODE).issome, o.post(CODE).some == m.vesting_code_id)); no_msgs(P, o); frame(P, o, CODE)
            elif v == 'UpdateOwnership': ownership(P, c, o); no_msgs(P, o); frame(P, o, OW)
            else: raise Lost('unknown message ' + v)
    i = c.run('contract::instantiate'); P.reach(i.oks, 'instantiate succeeds')
    for o in i.oks:
        ow = o.post(OW).some
        P.ob(o, 'as asked', z3.And(o.post(CODE).some == i.msg.vesting_code_id, z3.If(i.msg.owner.issome, z3.And(ow.owner.issome, ow.owner.some == i.msg.owner.some), ow.owner.isnone)))
        no_msgs(P, o); frame(P, o, CODE, OW, 'contract_info')
    r = c.run('contract::reply'); P.reach(r.oks, 'reply succeeds')
    qt = c.adt('cw_vesting', 'msg::QueryMsg'); vt = c.adt('cw_vesting', 'vesting::Vest')
    cw20 = c.adt('cw20', 'msg::Cw20ExecuteMsg'); fund = c.adt('cw_vesting', 'msg::ReceiveMsg')
    for o in r.oks:
        p = parse(c, r.msg); a = p.some.contract_address; x = o.post(VC, a); k = o.skolem(VC); ms = o.msgs(); t0 = c.pre(TMP)
        P.ob(o, 'the reply is about a new vesting contract', z3.And(r.msg.id == 0, p.issome, t0.issome, o.post(TMP).isnone))
        vest = c.smart(qt, vt, a, c.make(qt, 'Info')).some
        P.ob(o, 'it is listed with who pays and who is paid', z3.And(x.issome, x.some.contract == a, x.some.instantiator == t0.some, x.some.recipient == vest.recipient))
        P.ob(o, 'no other entry changes', z3.Implies(k != raw(a), o.post(VC, k) == c.pre(VC, k)))
        frame(P, o, VC, TMP)
        den = vest.denom
        def send(d):
            s = d.as_('Send'); f = c.decode(s.msg, fund)
            return z3.And(d.is_('Send'), s.contract == a, f.issome, f.some.is_('Fund'))
        P.ob(o, 'tokens received are passed on to it, once', z3.If(den.is_('Cw20'), z3.And(o.nmsgs() == 1, *[z3.And(y.is_exec_to(den.as_('Cw20')[0], cw20, send), y.exec.funds.n == 0, y.reply_on.is_('Never')) for y in ms]), o.nmsgs() == 0))
        P.ob(o, 'all of them', z3.Implies(den.is_('Cw20'), z3.And(*[c.decode(y.exec.msg, cw20).some.as_('Send').amount == curve_max(c, vest.vested) for y in ms])))


def admin(P):
    c = P.contract('cw_admin_factory')
    c.run_all('contract::execute')
    for r in c.runs:
        v = r.name.split('.')[-1]; P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            m = r.msg.as_(v); ms = o.msgs(); ad = c.pre(AD).some; two = v.startswith('Instantiate2'); w = inst2 if two else inst; e = o.post(EX)
            P.ob(o, 'only the admin, if there is one', z3.And(c.pre(AD).issome, z3.Or(ad.isnone, ad.some == c.sender)))
            P.ob(o, 'one contract, as asked, administered by the factory until it is there', z3.And(B(len(ms) == 1), *[z3.And(x.msg.is_('Wasm'), x.msg.as_('Wasm')[0].is_('Instantiate2' if two else 'Instantiate'), w(x).admin.issome, w(x).admin.some == raw(c.env.contract),
                 w(x).code_id == m.code_id, w(x).msg == m.instantiate_msg, w(x).label == m.label, raw(w(x).funds) == raw(c.info.funds), x.reply_on.is_('Success'), x.id == (2 if two else 0), *([raw(w(x).salt) == raw(m.salt)] if two else [])) for x in ms]))
            if two: P.ob(o, 'an expected address is remembered', z3.If(m.expect.issome, z3.And(e.issome, e.some == m.expect.some), o.unchanged(EX)))
            frame(P, o, *([EX] if two else []))
    i = c.run('contract::instantiate'); P.reach(i.oks, 'instantiate succeeds')
    for o in i.oks:
        P.ob(o, 'as asked', z3.And(o.post(AD).issome, raw(o.post(AD).some) == raw(i.msg if not i.msg.ty.name.endswith('InstantiateMsg') else i.msg.admin))); no_msgs(P, o); frame(P, o, AD, 'contract_info')
    r = c.run('contract::reply'); P.reach(r.oks, 'reply succeeds')
    for o in r.oks:
        p = parse(c, r.msg); a = p.some.contract_address; ms = o.msgs(); e = c.pre(EX)
        u = lambda x: x.msg.as_('Wasm')[0].as_('UpdateAdmin')
        P.ob(o, 'the new contract becomes its own admin', z3.And(p.issome, B(len(ms) == 1), *[z3.And(x.msg.is_('Wasm'), x.msg.as_('Wasm')[0].is_('UpdateAdmin'), u(x).contract_addr == a, u(x).admin == a, x.reply_on.is_('Never')) for x in ms]))
        P.ob(o, 'only at the address expected, if one is', z3.And(z3.Or(r.msg.id == 0, r.msg.id == 2), z3.Implies(r.msg.id == 2, z3.And(o.post(EX).isnone, z3.Or(e.isnone, e.some == a))), z3.Implies(r.msg.id == 0, o.unchanged(EX))))
        frame(P, o, EX)

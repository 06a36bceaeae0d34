"""cw-tokenfactory-issuer: allowances, ownership, freezing, deny and allow lists."""
from spec import *
from common import *

DN, DL, AL, HI, FZ, BA, MA, OW = 'denom', 'denylist', 'allowlist', 'hook_features_enabled', 'is_frozen', 'burner_allowances', 'minter_allowances', 'ownership'
URL = '/osmosis.tokenfactory.v1beta1.'


def one_only(P, c, o, ns, who, what):
    k = o.skolem(ns)
    P.ob(o, f"nobody else's {what} changes", z3.Implies(k != raw(who), o.post(ns, k) == c.pre(ns, k)))


def allowed(c, who): return c.pre(AL, who).val(False)


def not_frozen(c, frm, to, denom):
    """coins of the frozen denomination move only from or to someone on the allowlist"""
    fz, dn = c.pre(FZ), c.pre(DN)
    return z3.And(fz.issome, dn.issome, z3.Or(z3.Not(fz.some), denom != dn.some, allowed(c, frm), allowed(c, to)))


def check(P):
    c = P.contract('cw_tokenfactory_issuer')
    T = lambda n: c.adt('osmosis_std', 'types::osmosis::tokenfactory::v1beta1::' + n)
    coin = lambda x, d, a: z3.And(x.issome, x.some.denom == d, x.some.amount == c.fn('to_string<Int>', z3.IntSort(), E.StrS)(a))
    c.run_all('contract::execute')
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            m = r.msg.as_(v); ms = o.msgs(); dn = c.pre(DN); me = c.self_addr
            proto = lambda n, f: ms[0].is_proto(URL + n, T(n), f) if ms else FALSE
            if v in ('Mint', 'Burn'):
                ns, what = (MA, 'minting allowance') if v == 'Mint' else (BA, 'burning allowance')
                a0, a1 = c.pre(ns, c.sender), o.post(ns, c.sender)
                P.ob(o, 'within the allowance of the sender, which it uses up', z3.And(m.amount > 0, a0.val(0) >= m.amount, a1.val(0) == a0.val(0) - m.amount))
                one_only(P, c, o, ns, c.sender, what); frame(P, o, ns)
                if v == 'Mint':
                    P.ob(o, 'exactly the amount asked for is made and sent on', z3.And(len(ms) == 2, dn.issome, proto('MsgMint', lambda d: z3.And(d.sender == me, d.mint_to_address == me, coin(d.amount, dn.some, m.amount))),
                         ms[1].is_send1(m.to_address, dn.some, m.amount) if len(ms) == 2 else FALSE))
                    P.ob(o, 'not while frozen', not_frozen(c, c.sender, m.to_address, dn.some))
                else: P.ob(o, 'exactly the amount asked for is burnt, from where asked for', z3.And(len(ms) == 1, dn.issome, proto('MsgBurn', lambda d: z3.And(d.sender == me, d.burn_from_address == m.from_address, coin(d.amount, dn.some, m.amount)))))
            elif v == 'UpdateOwnership':
                ownership(P, c, o); no_msgs(P, o); frame(P, o, OW)
            else:
                P.ob(o, 'only the owner', is_owner(c, c.sender))
                if v in ('SetMinterAllowance', 'SetBurnerAllowance'):
                    ns = MA if 'Minter' in v else BA
                    P.ob(o, 'the allowance is the one given', o.post(ns, m.address).val(0) == m.allowance)
                    one_only(P, c, o, ns, m.address, 'allowance'); no_msgs(P, o); frame(P, o, ns)
                elif v in ('Deny', 'Allow', 'Freeze'):
                    P.ob(o, 'only while this contract is asked before every transfer', c.pre(HI).somep(lambda x: x.advanced_features_enabled))
                    no_msgs(P, o)
                    if v == 'Freeze':
                        P.ob(o, 'frozen as asked, never for the issuer', z3.And(o.post(FZ).issome, o.post(FZ).some == m.status, o.post(AL, me).val(False) == m.status))
                        one_only(P, c, o, AL, me, 'place on the allowlist'); frame(P, o, FZ, AL)
                    else:
                        ns = DL if v == 'Deny' else AL
                        P.ob(o, 'listed as asked', o.post(ns, m.address).val(False) == m.status)
                        if v == 'Deny': P.ob(o, 'never the issuer', m.address != me)
                        one_only(P, c, o, ns, m.address, 'listing'); frame(P, o, ns)
                elif v == 'ForceTransfer':
                    P.ob(o, 'moves what is asked for', z3.And(len(ms) == 1, dn.issome, proto('MsgForceTransfer', lambda d: z3.And(d.sender == me, d.transfer_from_address == m.from_address, d.transfer_to_address == m.to_address, coin(d.amount, dn.some, m.amount)))))
                    frame(P, o)
                elif v == 'SetBeforeSendHook':
                    hi = o.post(HI); a = m.cosmwasm_address; empty = a == c.lit('')
                    P.ob(o, 'the hook is the one given; features only when it is this contract', z3.And(hi.issome, hi.some.advanced_features_enabled == z3.And(z3.Not(empty), a == me), z3.If(empty, hi.some.hook_contract_address.isnone, hi.some.hook_contract_address.somep(lambda x: x == a))))
                    P.ob(o, 'the chain is told', z3.And(len(ms) == 1, dn.issome, proto('MsgSetBeforeSendHook', lambda d: z3.And(d.sender == me, d.denom == dn.some, d.cosmwasm_address == a))))
                    frame(P, o, HI)
                elif v == 'SetDenomMetadata':
                    P.ob(o, 'the metadata given', z3.And(len(ms) == 1, proto('MsgSetDenomMetadata', lambda d: z3.And(d.sender == me, d.metadata.issome,
                         *[d.metadata.some.fld(f) == m.metadata.fld(f) for f in ('description', 'base', 'display', 'name', 'symbol')], d.metadata.some.denom_units.n == m.metadata.denom_units.n))))
                    frame(P, o)
                elif v == 'UpdateTokenFactoryAdmin':
                    P.ob(o, 'the admin given', z3.And(len(ms) == 1, dn.issome, proto('MsgChangeAdmin', lambda d: z3.And(d.sender == me, d.denom == dn.some, d.new_admin == m.new_admin))))
                    frame(P, o)
                else: P.ob(o, 'unknown message', FALSE)
    r = c.run('contract::sudo', 'BlockBeforeSend'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg.as_('BlockBeforeSend')
        P.ob(o, 'a transfer passes only when not frozen, between parties not denied', z3.And(not_frozen(c, getattr(m, 'from'), m.to, m.amount.denom),
             z3.Not(c.pre(DL, getattr(m, 'from')).val(False)), z3.Not(c.pre(DL, m.to).val(False))))
        no_msgs(P, o); frame(P, o)
    for n in c.variants('contract::instantiate'):
        r = c.run('contract::instantiate', n); P.reach(r.oks, r.name)
        for o in r.oks:
            m = r.msg.as_(n); ms = o.msgs(); hi, ow = o.post(HI), o.post(OW)
            P.ob(o, 'owned by its creator, not frozen, no hook', z3.And(ow.issome, ow.some.owner.somep(lambda x: x == c.sender), ow.some.pending_owner.isnone, o.post(FZ).issome, z3.Not(o.post(FZ).some),
                 hi.somep(lambda x: z3.And(z3.Not(x.advanced_features_enabled), x.hook_contract_address.isnone))))
            if n == 'NewToken': P.ob(o, 'the token asked for is made, and waited for', z3.And(len(ms) == 1, ms[0].is_proto(URL + 'MsgCreateDenom', T('MsgCreateDenom'), lambda d: z3.And(d.sender == c.self_addr, d.subdenom == m.subdenom)), ms[0].reply_on.is_('Success'), ms[0].id == 1))
            else: P.ob(o, 'the existing token is used', z3.And(o.nmsgs() == 0, o.post(DN).somep(lambda x: x == m.denom)))
            frame(P, o, OW, FZ, HI, DN, 'contract_info') if n != 'NewToken' else frame(P, o, OW, FZ, HI, 'contract_info')
    r = c.run('contract::reply'); P.reach(r.oks, r.name)
    for o in r.oks:
        P.ob(o, 'only the creation is answered', r.msg.id == 1); no_msgs(P, o); frame(P, o, DN)
    e = 'contract::query'
    Rs = lambda n: c.adt('cw_tokenfactory_issuer', 'msg::' + n)
    for n, ns, rt, dv in (('IsDenied', DL, 'StatusResponse', False), ('IsAllowed', AL, 'StatusResponse', False), ('MintAllowance', MA, 'AllowanceResponse', 0), ('BurnAllowance', BA, 'AllowanceResponse', 0)):
        r = c.run(e, n); P.reach(r.oks, r.name)
        for o in r.oks:
            d = o.json(Rs(rt)); P.ob(o, 'the answer is what is stored', z3.And(d.issome, raw(d.some) == raw(c.pre(ns, r.msg.as_(n).address).val(dv))))

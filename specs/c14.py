"""Voting modules that ask another contract: cw4 groups, cw20-stake, role NFTs."""
from spec import *
from common import *


def answers(P, c, q, power, height, total):
    """the answer to a query about voting power"""
    ty = c.adt('dao_interface', 'voting::TotalPowerAtHeightResponse' if total else 'voting::VotingPowerAtHeightResponse')
    for o in q.oks:
        a = o.json(ty)
        P.ob(o, 'the power is the one recorded there for that height', z3.And(a.issome, a.some.power == power(q.msg)))
        P.ob(o, 'and the height is given', a.some.height == height(q.msg))


def opt_default(h, d): return z3.If(h.isnone, zi(raw(d)), zi(raw(h.some)))


def module(P, crate, source, member, total, ext=None, own_height=False):
    """queries are answered from contract `source`: member(who, h) / total(h) -> (power, height)"""
    c = P.contract(crate)
    for v, tot in (('VotingPowerAtHeight', False), ('TotalPowerAtHeight', True)):
        q = c.run('contract::query', v); P.reach(q.oks, f'query {v}')
        m = q.msg.as_(v)
        h = m.height
        p, hh = total(c, h) if tot else member(c, m.address, h)
        answers(P, c, q, lambda _: p, lambda _: hh, tot)
    q = c.run('contract::query', 'Dao'); P.reach(q.oks, 'query Dao')
    return c


def check(P):
    # cw4
    def w4(c, v, rn, **a):
        q = c.adt('cw4_group', 'msg::QueryMsg')
        return c.smart(q, c.adt('cw4', 'query::' + rn), c.pre('group_contract').some, c.make(q, v, **a)).some
    c = module(P, 'dao_voting_cw4', 'group_contract',
               lambda c, who, h: (lambda w: (z3.If(w.isnone, 0, zi(raw(w.some))), opt_default(h, c.height)))(only(w4(c, 'Member', 'MemberResponse', addr=raw(who), at_height=raw(h)), 'weight')),
               lambda c, h: (raw(only(w4(c, 'TotalWeight', 'TotalWeightResponse', at_height=raw(h)), 'weight')), opt_default(h, c.height)))
    i = c.run('contract::instantiate'); P.reach(i.oks, 'instantiate succeeds')
    for o in i.oks:
        P.ob(o, 'belongs to who instantiates it', z3.And(o.post('dao_address').issome, o.post('dao_address').some == c.sender))
        g = i.msg.group_contract if not i.msg.ty.name.endswith('GroupContract') else i.msg
        ms = o.msgs(); new = g.as_('New'); gi = c.adt('cw4_group', 'msg::InstantiateMsg')
        P.ob(o, 'an existing group is used, a new one asked for', z3.If(g.is_('Existing'), z3.And(o.post('group_contract').issome, o.post('group_contract').some == g.as_('Existing').address, o.nmsgs() == 0), z3.And(o.unchanged('group_contract'), o.nmsgs() == 1)))
        P.ob(o, 'somebody has a weight', z3.Implies(g.is_('New'), o.sum_positive(new.initial_members, lambda y: raw(y.weight))))
        frame(P, o, 'dao_address', 'group_contract', 'contract_info')
        for x in ms:
            gd = z3.Not(g.is_('Existing'))
            def inst(d):
                k = z3.FreshConst(z3.IntSort(), 'k')
                return z3.And(d.admin.issome, d.admin.some == c.sender, d.members.n == new.initial_members.n)
            w = z3.FreshConst(z3.IntSort(), 'w'); im = new.initial_members
            P.ob(o, 'every member given is in the new group', z3.Implies(z3.And(gd, w >= 0, w < im.n), x.inst_of(new.cw4_group_code_id, gi, lambda d: d.members.any(lambda y, j: raw(y) == raw(im.at(w))), admin=c.sender)))
            P.ob(o, 'and no other', z3.Implies(gd, x.inst_of(new.cw4_group_code_id, gi, lambda d: z3.Implies(z3.And(w >= 0, w < d.members.n), im.any(lambda y, j: raw(y) == raw(d.members.at(w)))), admin=c.sender)))
            P.ob(o, 'its admin is the DAO, its members those given', z3.Implies(gd, z3.And(x.inst_of(new.cw4_group_code_id, gi, inst, admin=c.sender), x.reply_on.is_('Success'))))
    r = c.run('contract::reply'); P.reach(r.oks, 'reply succeeds')
    for o in r.oks:
        P.ob(o, 'a group is set once', z3.And(c.pre('group_contract').isnone, o.post('group_contract').issome)); frame(P, o, 'group_contract'); no_msgs(P, o)
    # role NFTs
    roles(P)
    core(P)
    # cw20 staked
    def st(c, v, rn, **a):
        q = c.adt('cw20_stake', 'msg::QueryMsg')
        return c.smart(q, c.adt('cw20_stake', 'msg::' + rn), c.pre('staking_contract').some, c.make(q, v, **a)).some
    c = module(P, 'dao_voting_cw20_staked', 'staking_contract',
               lambda c, who, h: (lambda a: (raw(a.balance), raw(a.height)))(st(c, 'StakedBalanceAtHeight', 'StakedBalanceAtHeightResponse', address=raw(who), height=raw(h))),
               lambda c, h: (lambda a: (raw(a.total), raw(a.height)))(st(c, 'TotalStakedAtHeight', 'TotalStakedAtHeightResponse', height=raw(h))))
    AT = 'active_threshold'
    def supply():
        q = c.adt('cw20_base', 'msg::QueryMsg')
        return raw(c.smart(q, c.adt('cw20', 'query::TokenInfoResponse'), c.pre('token').some, c.make(q, 'TokenInfo')).some.total_supply)
    u = c.run('contract::execute', 'UpdateActiveThreshold'); P.reach(u.oks, 'UpdateActiveThreshold succeeds')
    for o in u.oks:
        P.ob(o, 'only the DAO', z3.And(c.pre('dao').issome, c.pre('dao').some == c.sender))
        threshold_set(P, c, o, AT, u.msg.as_('UpdateActiveThreshold').new_threshold, supply()); no_msgs(P, o); frame(P, o, AT)
    q = c.run('contract::query', 'IsActive'); P.reach(q.oks, 'query IsActive')
    hn = c.none(dict(c.adt('cw20_stake', 'msg::QueryMsg').fields(c.vidx(c.adt('cw20_stake', 'msg::QueryMsg'), 'TotalStakedAtHeight')))['height'].args[0])
    staked = raw(st(c, 'TotalStakedAtHeight', 'TotalStakedAtHeightResponse', height=hn).total)
    for o in q.oks:
        P.ob(o, 'active exactly when enough is staked', raw(o.json(c.adt('dao_interface', 'voting::IsActiveResponse')).some) == is_active(c, c.pre(AT), staked, supply()))
    i = c.run('contract::instantiate'); P.reach(i.oks, 'instantiate succeeds')
    for o in i.oks:
        m = i.msg; ti = m.token_info; ex_ = ti.as_('Existing'); t = m.active_threshold
        P.ob(o, 'belongs to who instantiates it', z3.And(o.post('dao').issome, o.post('dao').some == c.sender))
        P.ob(o, 'the threshold is the one asked for', z3.If(t.isnone, o.unchanged(AT), z3.And(o.post(AT).issome, raw(o.post(AT).some) == raw(t.some))))
        P.ob(o, 'a percentage makes sense', z3.Implies(z3.And(t.issome, t.some.is_('Percentage')), valid_percent(t.some.as_('Percentage').percent)))
        sc = ex_.staking_contract
        P.ob(o, 'an existing token and staking contract are used', z3.Implies(ti.is_('Existing'), z3.And(o.post('token').issome, o.post('token').some == ex_.address, z3.If(sc.is_('Existing'), z3.And(o.post('staking_contract').issome, o.post('staking_contract').some == sc.as_('Existing').staking_contract_address, o.nmsgs() == 0), z3.And(o.unchanged('staking_contract'), o.nmsgs() == 1)))))
        sq = c.adt('cw20_stake', 'msg::QueryMsg'); cfg = c.smart(sq, c.adt('cw20_stake', 'state::Config'), sc.as_('Existing').staking_contract_address, c.make(sq, 'GetConfig'))
        P.ob(o, 'an existing staking contract is for the token', z3.Implies(z3.And(ti.is_('Existing'), sc.is_('Existing')), z3.And(cfg.issome, cfg.some.token_address == ex_.address)))
        n = ti.as_('New'); bi = c.adt('cw20_base', 'msg::InstantiateMsg'); si = c.adt('cw20_stake', 'msg::InstantiateMsg')
        kept = z3.And(o.post('staking_contract_code_id').some == n.staking_code_id, raw(o.post('staking_contract_unstaking_duration').some) == raw(n.unstaking_duration))
        P.ob(o, 'a new token is minted by the DAO only', z3.Implies(ti.is_('New'), z3.And(kept, o.unchanged('token'), o.nmsgs() == 1, *[z3.Implies(z3.Not(ti.is_('Existing')), z3.And(x.reply_on.is_('Success'), x.inst_of(n.code_id, bi,
             lambda d: z3.And(d.mint.issome, d.mint.some.minter == c.sender, d.mint.some.cap.isnone, d.name == n.name, d.symbol == n.symbol, d.decimals == n.decimals), admin=c.sender))) for x in o.msgs()])))
        ib = n.initial_balances; ad = n.initial_dao_balance; dao = z3.And(ad.issome, ad.some > 0)
        P.ob(o, 'with the balances asked for and the DAO\'s own', z3.Implies(ti.is_('New'), z3.And(*[z3.Implies(z3.Not(ti.is_('Existing')), x.inst_of(n.code_id, bi, lambda d: z3.And(
             d.initial_balances.n == ib.n + z3.If(dao, 1, 0), d.initial_balances.all(lambda y, j: z3.If(j < ib.n, z3.And(y.address == ib.at(j).address, y.amount == ib.at(j).amount), z3.And(y.address == c.sender, y.amount == ad.some)))), admin=c.sender)) for x in o.msgs()])))
        P.ob(o, 'somebody holds the new token', z3.Implies(ti.is_('New'), o.sum_positive(ib, lambda y: raw(y.amount))))
        nsc = sc.as_('New')
        P.ob(o, 'a new staking contract is for the token and the DAO', z3.Implies(z3.And(ti.is_('Existing'), sc.is_('New')), z3.And(o.nmsgs() == 1, *[z3.And(x.reply_on.is_('Success'), x.inst_of(nsc.staking_code_id, si,
             lambda d: z3.And(d.owner.issome, d.owner.some == c.sender, raw(d.unstaking_duration) == raw(nsc.unstaking_duration), d.token_address == ex_.address), admin=c.sender)) for x in o.msgs()])))
    r = c.run('contract::reply'); P.reach(r.oks, 'reply succeeds')
    for o in r.oks:
        P.ob(o, 'token and staking contract are set once', z3.And(*[z3.Or(o.unchanged(ns), z3.And(c.pre(ns).isnone, o.post(ns).issome)) for ns in ('token', 'staking_contract')])); frame(P, o, 'token', 'staking_contract')
        th = c.pre(AT); si = c.adt('cw20_stake', 'msg::InstantiateMsg'); ms = o.msgs(); sd = c.pre('staking_contract_unstaking_duration').some
        P.ob(o, 'with a new token comes its staking contract, of the DAO', z3.If(o.unchanged('token'), o.nmsgs() == 0, z3.And(o.nmsgs() == 1, *[z3.And(x.reply_on.is_('Success'), x.inst_of(c.pre('staking_contract_code_id').some, si,
             lambda d: z3.And(d.owner.issome, d.owner.some == c.pre('dao').some, raw(d.unstaking_duration) == raw(sd), d.token_address == o.post('token').some), admin=c.pre('dao').some)) for x in ms])))
        P.ob(o, 'a count is checked against the supply of the new token', z3.Or(o.unchanged('token'), th.isnone, z3.Not(th.some.is_('AbsoluteCount')), th.some.as_('AbsoluteCount').count > 0))


def roles(P):
    c = P.contract('dao_voting_cw721_roles')
    for v, tot in (('VotingPowerAtHeight', False), ('TotalPowerAtHeight', True)):
        q = c.run('contract::query', v); P.reach(q.oks, f'query {v}'); m = q.msg.as_(v); h = m.height
        qt = next((t for t in c.ex.mir.tys.values() if t.s == 'cw721_base::msg::QueryMsg<dao_cw721_extensions::roles::QueryExt>'), None)
        if qt is None: raise Lost('query of the NFT contract')
        et = dict(qt.fields(c.vidx(qt, 'Extension')))['msg']
        e = c.make(et, 'TotalWeight', at_height=raw(h)) if tot else c.make(et, 'Member', addr=raw(m.address), at_height=raw(h))
        w = only(c.smart(qt, c.adt('cw4', 'query::TotalWeightResponse' if tot else 'query::MemberResponse'), raw(c.pre('config').some), c.make(qt, 'Extension', msg=e)).some, 'weight')
        p = raw(w) if tot else z3.If(w.isnone, 0, zi(raw(w.some)))
        answers(P, c, q, lambda _: p, lambda _: opt_default(h, c.height), tot)
    i = c.run('contract::instantiate'); P.reach(i.oks, 'instantiate succeeds')
    for o in i.oks:
        g = i.msg if i.msg.ty.name.endswith('NftContract') else i.msg.nft_contract; n = g.as_('New'); ms = o.msgs()
        P.ob(o, 'belongs to who instantiates it', z3.And(o.post('dao').issome, o.post('dao').some == c.sender))
        P.ob(o, 'an existing collection is used, a new one asked for', z3.If(g.is_('Existing'), z3.And(o.post('config').issome, raw(o.post('config').some) == raw(g.as_('Existing').address), o.nmsgs() == 0),
             z3.And(o.unchanged('config'), o.nmsgs() == 1, n.initial_nfts.n > 0, raw(o.post('initial_nfts').some) == raw(n.initial_nfts))))
    r = c.run('contract::reply'); P.reach(r.oks, 'reply succeeds')
    et = next((t for t in c.ex.mir.tys.values() if t.s.startswith('cw721_base::msg::ExecuteMsg<dao_cw721_extensions::roles::MetadataExt')), None)
    for o in r.oks:
        ini = c.pre('initial_nfts').some; col = o.post('config').some
        P.ob(o, 'the new collection is used', o.post('config').issome); frame(P, o, 'config', 'initial_nfts')
        ms = o.msgs()
        def mint(d, j):
            x = d.as_('Mint'); y = ini.at(j)
            return z3.And(d.is_('Mint'), x.token_id == y.token_id, x.owner == y.owner, raw(x.token_uri) == raw(y.token_uri), x.extension.weight == y.extension.weight, raw(x.extension.role) == raw(y.extension.role))
        rows = [x for x in ms if x.j is not None]; one = [x for x in ms if x.j is None]
        P.ob(o, 'each initial token is minted as asked', z3.And(B(len(rows) == 1), *[z3.And(x.n == ini.n, guarded(x, z3.And(x.is_exec_to(raw(col), et, lambda d: mint(d, x.j)), x.exec.funds.n == 0))) for x in rows]))
        def own(d):
            a = d.as_('UpdateOwnership')[0].as_('TransferOwnership')
            return z3.And(d.is_('UpdateOwnership'), d.as_('UpdateOwnership')[0].is_('TransferOwnership'), a.new_owner == c.pre('dao').some, a.expiry.isnone)
        P.ob(o, 'and the collection is handed to the DAO', z3.And(B(len(one) == 1), *[x.is_exec_to(raw(col), et, own) for x in one]))


def core(P):
    """the DAO core passes questions about power on to its voting module, for the same account and height"""
    c = P.contract('dao_dao_core'); vq = c.adt('dao_interface', 'voting::Query')
    for v, rt in (('VotingPowerAtHeight', 'voting::VotingPowerAtHeightResponse'), ('TotalPowerAtHeight', 'voting::TotalPowerAtHeightResponse')):
        q = c.run('contract::query', v); P.reach(q.oks, f'query {v} of the DAO'); m = q.msg.as_(v); ty = c.adt('dao_interface', rt)
        a = dict(height=raw(m.height)); a.update({'address': raw(m.address)} if v == 'VotingPowerAtHeight' else {})
        r = c.smart(vq, ty, c.pre('voting_module').some, c.make(vq, v, **a))
        for o in q.oks:
            d = o.json(ty)
            P.ob(o, 'the DAO answers what its voting module answers', z3.And(d.issome, r.issome, d.some.power == r.some.power, d.some.height == r.some.height))

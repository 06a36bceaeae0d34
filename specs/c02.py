"""dao-dao-core: the registry of voting and proposal modules stays consistent."""
from spec import *


def prefix_contract(ex, st, inst, a):
    """derive_proposal_module_prefix: a total function of the number (its text is not specified)"""
    r = ex.mir.ty(inst.body['locals'][0])
    return [(st, Adt(r, 0, [ex.fn('module_prefix', z3.IntSort(), E.StrS)(zi(a[0]))]))]


def check(P):
    c = P.contract('dao_dao_core', contracts={'dao_dao_core::contract::derive_proposal_module_prefix': prefix_contract})
    enabled = lambda m: z3.If(z3.And(m.issome, m.some.status.is_('Enabled')), 1, 0)
    exists = lambda m: z3.If(m.issome, 1, 0)
    PM = 'proposal_modules_v2'
    # execute
    c.run_all('contract::execute')
    upd = [r for r in c.runs if r.name == 'execute.UpdateProposalModules'][0]
    P.reach(upd.oks, 'UpdateProposalModules succeeds')
    act0 = c.pre('active_proposal_module_count'); tot0 = c.pre('total_proposal_module_count') if 'total_proposal_module_count' in c.ex.nsty else None
    for o in upd.oks:
        m = upd.msg.as_('UpdateProposalModules')
        a1 = o.post('active_proposal_module_count')
        P.ob(o, 'the active count follows the number of enabled modules', z3.And(a1.issome, a1.some - act0.some == o.delta(PM, enabled)))
        P.ob(o, 'as many modules get disabled as are listed', o.delta(PM, enabled) == -m.to_disable.n)
        P.ob(o, 'no module is forgotten', o.delta(PM, exists) == 0)
        P.ob(o, 'an active module remains or is being added', z3.Or(a1.some >= 1, m.to_add.n > 0))
        k = o.skolem(PM)
        P.ob(o, 'modules only change from enabled to disabled',
             z3.Or(o.post(PM, k) == c.pre(PM, k), z3.And(c.pre(PM, k).issome, o.post(PM, k).issome, c.pre(PM, k).some.status.is_('Enabled'), o.post(PM, k).some.status.is_('Disabled'),
                   o.post(PM, k).some.address == c.pre(PM, k).some.address, o.post(PM, k).some.prefix == c.pre(PM, k).some.prefix,
                   m.to_disable.any(lambda x, j: x == k))))
        P.ob(o, 'one instantiation per module to add', o.nmsgs() == m.to_add.n)
        P.ob(o, 'every instantiation is the one asked for, and is registered when it succeeds', o.all_msgs(lambda x: z3.And(
             x.is_inst(), x.id == 0, x.reply_on.is_('Success'), inst_matches(c, x, m.to_add.at(x.j)) if x.j is not None else FALSE)))
    for r in c.runs:
        v = r.name.split('.')[1]
        if v == 'UpdateVotingModule':
            P.reach(r.oks, 'UpdateVotingModule succeeds')
            for o in r.oks:
                P.ob(o, 'one instantiation that replaces the voting module when it succeeds', z3.And(o.nmsgs() == 1, o.all_msgs(lambda x: z3.And(
                     x.is_inst(), x.id == 2, x.reply_on.is_('Success'), inst_matches(c, x, r.msg.as_(v).module)))))
        if v != 'UpdateProposalModules':
            for o in r.oks:
                P.ob(o, 'modules untouched', z3.And(*[o.unchanged(n) for n in (PM, 'active_proposal_module_count', 'total_proposal_module_count', 'voting_module') if n in c.ex.nsty]))
    # reply
    r = c.run('contract::reply')
    P.reach(r.oks, 'reply succeeds')
    pri = lambda: parse(c, r.msg)
    for o in r.oks:
        rid = r.msg.id
        res = pri()
        addr = res.some.contract_address
        P.ob(o, 'only known replies', z3.Or(rid == 0, rid == 1, rid == 2))
        new = c.pre(PM, addr).isnone     # a freshly instantiated contract is not registered yet
        p1 = o.post(PM, addr)
        a1, t1 = o.post('active_proposal_module_count'), o.post('total_proposal_module_count')
        P.ob(o, 'a new proposal module is registered and enabled', z3.Implies(rid == 0, z3.And(p1.issome, p1.some.status.is_('Enabled'), p1.some.address == addr)))
        P.ob(o, 'active count follows', z3.Implies(z3.And(rid == 0, new), z3.And(a1.issome, a1.some == c.pre('active_proposal_module_count').some + 1, o.delta(PM, enabled) == 1)))
        P.ob(o, 'total count follows', z3.Implies(z3.And(rid == 0, new), z3.And(t1.issome, t1.some == c.pre('total_proposal_module_count').some + 1, o.delta(PM, exists) == 1)))
        k = o.skolem(PM)
        P.ob(o, 'no other module changes', z3.Implies(z3.Or(rid != 0, k != addr), o.post(PM, k) == c.pre(PM, k)))
        P.ob(o, 'voting module frame', z3.Implies(rid == 0, o.unchanged('voting_module')))
        P.ob(o, 'counts frame', z3.Implies(rid != 0, z3.And(o.unchanged('active_proposal_module_count'), o.unchanged('total_proposal_module_count'))))
        vm = o.post('voting_module')
        P.ob(o, 'the instantiated voting module takes its place', z3.Implies(rid != 0, z3.And(vm.issome, vm.some == addr)))
        P.ob(o, 'the initial voting module is set once', z3.Implies(rid == 1, c.pre('voting_module').isnone))
        P.ob(o, 'frame', z3.And(*[o.unchanged(n) for n in o.written() if n not in (PM, 'active_proposal_module_count', 'total_proposal_module_count', 'voting_module')]))
    # instantiate
    r = c.run('contract::instantiate')
    P.reach(r.oks, 'instantiate succeeds')
    for o in r.oks:
        m = r.msg
        P.ob(o, 'starts with no module registered and at least one being added', z3.And(o.post('active_proposal_module_count').some == 0, o.post('total_proposal_module_count').some == 0,
             m.proposal_modules_instantiate_info.n >= 1, o.unchanged(PM), o.unchanged('voting_module')))
        P.ob(o, 'one instantiation per module', o.nmsgs() == 1 + m.proposal_modules_instantiate_info.n)
        P.ob(o, 'module instantiations', o.all_msgs(lambda x: z3.And(x.is_inst(), x.reply_on.is_('Success'),
             z3.And(x.id == 0, inst_matches(c, x, m.proposal_modules_instantiate_info.at(x.j))) if x.j is not None else z3.And(x.id == 1, inst_matches(c, x, m.voting_module_instantiate_info)))))
        P.ob(o, 'its own admin unless one is named', z3.And(o.post('admin').issome, z3.If(m.admin.issome, o.post('admin').some == m.admin.some, o.post('admin').some == c.self_addr)))
        cf = o.post('config_v2').some
        P.ob(o, 'the given configuration', z3.And(cf.name == m.name, cf.description == m.description, cf.image_url == m.image_url, cf.dao_uri == m.dao_uri,
             cf.automatically_add_cw20s == m.automatically_add_cw20s, cf.automatically_add_cw721s == m.automatically_add_cw721s))
        its = m.initial_items; k = o.skolem('items')
        P.ob(o, 'each initial item is there', z3.Or(its.isnone, its.some.all(lambda it, j: z3.And(o.post('items', it.key).issome, o.post('items', it.key).some == it.value))))
        P.ob(o, 'no other item', z3.Or(o.post('items', k) == c.pre('items', k), z3.And(its.issome, its.some.any(lambda it, j: it.key == k))))
    # queries
    q = c.run('contract::query', 'ProposalModuleCount')
    ty = c.adt('dao_interface', 'query::ProposalModuleCountResponse')
    for o in q.oks:
        d = o.json(ty)
        P.ob(o, 'reports the counts', z3.And(d.issome, d.some.active_proposal_module_count == c.pre('active_proposal_module_count').some, d.some.total_proposal_module_count == c.pre('total_proposal_module_count').some))
    for v in ('VotingPowerAtHeight', 'TotalPowerAtHeight'):
        q = c.run('contract::query', v)
        P.reach(q.oks, v)
        for o in q.oks:
            P.ob(o, 'is the answer of the voting module', voting_answer(c, o, q, v))


def inst_matches(c, x, info):
    w = x.msg.as_('Wasm')[0].as_('Instantiate')
    ad = info.admin
    exp = z3.If(ad.isnone, w.admin.isnone, z3.And(w.admin.issome, z3.If(ad.some.is_('Address'), w.admin.some == ad.some.as_('Address').addr, w.admin.some == c.self_addr)))
    return z3.And(x.msg.as_('Wasm')[0].is_('Instantiate'), w.code_id == info.code_id, w.msg == info.msg, w.label == info.label, w.funds == info.funds, exp)


def parse(c, reply):
    """parse_reply_instantiate_data"""
    ty = c.adt('cw_utils', 'parse_reply::MsgInstantiateContractResponse')
    s = c.ex.sort(ty)
    data = reply.result.as_('Ok')[0].data
    t = c.ex.fn('reply<%s>' % s.name(), E.StrS, c.ex.opt(s))(raw(data.some))
    return OptV(c.ex, ty, t)


def voting_answer(c, o, q, v):
    """the DAO's voting power is whatever its voting module says, for the same address and height"""
    qt = c.adt('dao_interface', 'voting::Query'); rt = c.adt('dao_interface', f'voting::{v}Response')
    m = q.msg.as_(v)
    args = {'address': m.address, 'height': m.height} if v == 'VotingPowerAtHeight' else {'height': m.height}
    a = c.smart(qt, rt, c.pre('voting_module').some, c.make(qt, v, **args))
    d = o.json(rt)
    return z3.And(c.pre('voting_module').issome, d.issome, a.issome, d.some == a.some)

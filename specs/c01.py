"""dao-dao-core: who may change the DAO and make it act."""
from spec import *
from dv import after
from common import only

SELF_ONLY = ['Pause', 'RemoveItem', 'SetItem', 'UpdateConfig', 'UpdateCw20List', 'UpdateCw721List',
             'UpdateVotingModule', 'UpdateProposalModules', 'UpdateSubDaos']
ADMIN_ONLY = ['ExecuteAdminMsgs', 'Unpause', 'NominateAdmin', 'WithdrawAdminNomination']
OPEN = ['Receive', 'ReceiveNft']


def check(P):
    c = P.contract('dao_dao_core')
    c.run_all('contract::execute')
    ALLNS = ['admin', 'nominated_admin', 'config_v2', 'paused', 'voting_module', 'proposal_modules_v2',
             'active_proposal_module_count', 'total_proposal_module_count', 'items', 'cw20s', 'cw721s', 'sub_daos']
    seen = set()
    for r in c.runs:
        v = r.name.split('.')[-1]; seen.add(v)
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            admin = c.pre('admin')
            if v in SELF_ONLY:
                P.ob(o, 'only the DAO itself', c.sender == c.self_addr)
            elif v in ADMIN_ONLY:
                P.ob(o, 'only the admin', z3.And(admin.issome, c.sender == admin.some))
            elif v == 'ExecuteProposalHook':
                m = c.pre('proposal_modules_v2', c.sender)
                P.ob(o, 'only an enabled proposal module', z3.And(m.issome, m.some.status.is_('Enabled')))
            elif v == 'AcceptAdminNomination':
                n = c.pre('nominated_admin')
                P.ob(o, 'only the nominee', z3.And(n.issome, c.sender == n.some))
                P.ob(o, 'nominee becomes admin', z3.And(o.post('admin').issome, o.post('admin').some == c.sender, o.post('nominated_admin').isnone))
            elif v not in OPEN:
                P.ob(o, 'unknown entry point is restricted', FALSE)
            # messages: only the two message-carrying calls and module instantiation emit any
            if v in ('ExecuteAdminMsgs', 'ExecuteProposalHook'):
                ms = V(c.ex, dict(r.msg.ty.fields([x['n'] for x in r.msg.ty.variants].index(v)))['msgs'], r.msg.as_(v).msgs.t)
                P.ob(o, 'emits exactly the given messages', z3.And(o.nmsgs() == ms.n, o.all_msgs(lambda m: m.msg == ms.at(m.j) if m.j is not None else FALSE)))
            elif v not in ('UpdateVotingModule', 'UpdateProposalModules'):
                P.ob(o, 'emits no message', o.nmsgs() == 0)
            else:
                P.ob(o, 'emits only instantiations', o.all_msgs(lambda m: z3.And(m.is_inst())))
            # frame
            may = {'Pause': ['paused'], 'Unpause': ['paused'], 'RemoveItem': ['items'], 'SetItem': ['items'], 'UpdateConfig': ['config_v2'],
                   'UpdateCw20List': ['cw20s'], 'UpdateCw721List': ['cw721s'], 'UpdateSubDaos': ['sub_daos'], 'Receive': ['cw20s'], 'ReceiveNft': ['cw721s'],
                   'UpdateProposalModules': ['proposal_modules_v2', 'active_proposal_module_count'],
                   'NominateAdmin': ['nominated_admin', 'admin'], 'AcceptAdminNomination': ['nominated_admin', 'admin'], 'WithdrawAdminNomination': ['nominated_admin']}.get(v, [])
            for ns in o.written():
                if ns not in may: P.ob(o, f'frame: {ns} unchanged', o.unchanged(ns))
            # paused
            p = c.pre('paused')
            blk = c.env.block
            exp = z3.And(p.issome, z3.Or(z3.And(p.some.is_('AtHeight'), blk.height < p.some.as_('AtHeight')[0]),
                                         z3.And(p.some.is_('AtTime'), blk.time < p.some.as_('AtTime')[0]), p.some.is_('Never')))
            P.ob(o, 'while paused only the DAO or its admin act', z3.Implies(exp, z3.Or(c.sender == c.self_addr, z3.And(admin.issome, c.sender == admin.some))))
            if v == 'NominateAdmin':
                nm = r.msg.as_(v).admin
                P.ob(o, 'two-step', z3.And(c.pre('nominated_admin').isnone,
                     z3.If(nm.issome, z3.And(o.post('admin') == c.pre('admin'), o.post('nominated_admin').somep(lambda x: x == nm.some)),
                           z3.And(o.post('nominated_admin').isnone, o.post('admin').somep(lambda x: x == c.self_addr)))))
            if v == 'WithdrawAdminNomination':
                P.ob(o, 'withdrawn', z3.And(c.pre('nominated_admin').issome, o.post('nominated_admin').isnone))
            if v == 'Unpause':
                P.ob(o, 'unpaused', o.post('paused').isnone)
            effects(P, c, o, v, r.msg.as_(v))
    queries(P, c)


def effects(P, c, o, v, m):
    """each call does what it was asked to do, and nothing else to the same list"""
    if v == 'Pause':
        x = o.post('paused')
        P.ob(o, 'paused for the duration asked', z3.And(x.issome, x.some == after(c, m.duration, x.some.ty)))
    elif v == 'UpdateConfig':
        P.ob(o, 'the configuration is the one given', o.post('config_v2').somep(lambda x: x == m.config))
    elif v in ('SetItem', 'RemoveItem'):
        k = o.skolem('items'); x = o.post('items', m.key)
        P.ob(o, 'the item is as asked', x.somep(lambda y: y == m.value) if v == 'SetItem' else z3.And(c.pre('items', m.key).issome, x.isnone))
        P.ob(o, 'no other item changes', z3.Implies(k != m.key, o.post('items', k) == c.pre('items', k)))
    elif v in ('UpdateCw20List', 'UpdateCw721List', 'UpdateSubDaos'):
        ns = {'UpdateCw20List': 'cw20s', 'UpdateCw721List': 'cw721s', 'UpdateSubDaos': 'sub_daos'}[v]
        k = o.skolem(ns); a, b = c.pre(ns, k), o.post(ns, k)
        gone = m.to_remove.any(lambda x, j: x == k)
        if v != 'UpdateSubDaos':
            P.ob(o, 'the list gains and loses what was asked', z3.If(gone, b.isnone, z3.If(m.to_add.any(lambda x, j: x == k), b.issome, b == a)))
        else:
            P.ob(o, 'the list gains and loses what was asked', z3.If(m.to_add.any(lambda x, j: x.addr == k), z3.And(b.issome, m.to_add.any(lambda x, j: z3.And(x.addr == k, x.charter == b.some))),
                 z3.If(gone, b.isnone, b == a)))
    elif v in ('Receive', 'ReceiveNft'):
        ns, f = ('cw20s', 'automatically_add_cw20s') if v == 'Receive' else ('cw721s', 'automatically_add_cw721s')
        k = o.skolem(ns); cf = c.pre('config_v2')
        P.ob(o, 'the token is listed if the DAO wants that', z3.And(cf.issome, z3.If(cf.some.fld(f), z3.And(o.post(ns, c.sender).issome, z3.Implies(k != c.sender, o.post(ns, k) == c.pre(ns, k))), o.post(ns, k) == c.pre(ns, k))))


def queries(P, c):
    q = c.run('contract::query', 'PauseInfo'); P.reach(q.oks, q.name)
    ty = c.adt('dao_interface', 'query::PauseInfoResponse')
    for o in q.oks:
        d = o.json(ty); p = c.pre('paused'); blk = c.env.block
        on = z3.And(p.issome, z3.Or(z3.And(p.some.is_('AtHeight'), blk.height < p.some.as_('AtHeight')[0]), z3.And(p.some.is_('AtTime'), blk.time < p.some.as_('AtTime')[0]), p.some.is_('Never')))
        P.ob(o, 'says whether the DAO is paused', z3.And(d.issome, z3.If(on, z3.And(d.some.is_('Paused'), d.some.as_('Paused').expiration == p.some), d.some.is_('Unpaused'))))
    for v, ns in (('Admin', 'admin'), ('Config', 'config_v2'), ('VotingModule', 'voting_module')):
        q = c.run('contract::query', v); P.reach(q.oks, q.name)
        for o in q.oks:
            ty = c.nsty(ns)[1]
            d = o.json(ty)
            P.ob(o, f'says {v}', z3.And(d.issome, c.pre(ns).issome, raw(d.some) == raw(c.pre(ns).some)))
    q = c.run('contract::query', 'GetItem'); P.reach(q.oks, q.name)
    for o in q.oks:
        d = o.json(c.adt('dao_interface', 'query::GetItemResponse'))
        P.ob(o, 'says the item', z3.And(d.issome, raw(only(d.some, 'item')) == raw(c.pre('items', q.msg.as_('GetItem').key))))

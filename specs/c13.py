"""dao-voting-cw721-staked and dao-voting-onft-staked: staked NFTs are custody, each token counts once."""
from spec import *
from common import *

SN, NB, TS, CL, CF, HK, DAO, AT, PO = 'snpw', 'nb', 'tsn', 'nft_claims', 'config', 'hooks', 'dao', 'active_threshold', 'po'
ONFT = 'omniflix_std::types::omniflix::onft::v1beta1::'


class Nft:
    """dao-voting-cw721-staked: a cw721 contract keeps the tokens"""
    key = 'nft_address'
    def __init__(self, P, crate): self.P = P; self.c = P.contract(crate)
    @property
    def cf(self): return self.c.pre(CF)
    def transfer(self, m, to, tok):
        c = self.c; ty = c.adt('cw721', 'msg::Cw721ExecuteMsg')
        return z3.And(m.is_exec_to(self.cf.some.nft_address, ty, lambda d: z3.And(d.is_('TransferNft'), d.as_('TransferNft').recipient == raw(to), d.as_('TransferNft').token_id == raw(tok))),
                      m.exec.funds.n == 0, m.reply_on.is_('Never'))
    def supply(self, addr=None):
        q = self.c.queries('NumTokens')
        addr = raw(self.cf.some.nft_address if addr is None else addr)
        l = [t for tag, ts, t in q if ts[0].eq(addr) or ts[0].eq(z3.simplify(addr))]
        if not l: raise Lost('the supply of the collection is not asked for')
        self.same = [x == l[0] for x in l[1:]]      # the question is the same whichever type it is written in
        return raw(self.c.ex.unsome(l[0]))


class Onft(Nft):
    """dao-voting-onft-staked: the chain's onft module keeps the tokens"""
    key = 'onft_collection_id'; same = []
    def q(self, path, req, res, **fs):
        c = self.c; ex = c.ex; ty = lambda s: next(t for t in ex.mir.tys.values() if t.s == s)
        rq = ty(ONFT + req); x = c.make(rq, **fs)
        d = ex.fn('proto<%s>' % ex.sort(rq).name(), x.sort(), StrS)(x)
        qr = c.make(ty('cosmwasm_std::query::QueryRequest<cosmwasm_std::results::empty::Empty>'), 'Stargate', path=c.lit(path), data=d)
        R = ty(ONFT + res)
        return OptV(ex, R, ex.fn('query!raw ' + R.s, qr.sort(), ex.opt(ex.sort(R)))(qr))
    def owner(self, tok):
        """(there is such a token, its owner)"""
        r = self.q('/OmniFlix.onft.v1beta1.Query/ONFT', 'QueryOnftRequest', 'QueryOnftResponse', denom_id=self.cf.some.onft_collection_id, id=tok)
        x = only(r.some, 'onft')
        return z3.And(r.issome, x.issome), x.some.owner
    def supply(self, addr=None):
        r = self.q('/OmniFlix.onft.v1beta1.Query/Supply', 'QuerySupplyRequest', 'QuerySupplyResponse', denom_id=self.cf.some.onft_collection_id if addr is None else addr, owner=self.c.lit(''))
        return raw(only(r.some, 'amount'))
    def transfer(self, m, to, tok):
        c = self.c; ty = next(t for t in c.ex.mir.tys.values() if t.s == ONFT + 'MsgTransferOnft')
        return z3.And(m.is_proto('/OmniFlix.onft.v1beta1.MsgTransferONFT', ty, lambda d: z3.And(d.denom_id == raw(self.cf.some.onft_collection_id), d.id == raw(tok), d.sender == only(c.env.contract, 'address'), d.recipient == raw(to))), m.reply_on.is_('Never'))


def hook(c, m, kind, who, f):
    ty = c.adt('dao_hooks', 'nft_stake::NftStakeChangedExecuteMsg')
    def g(d):
        h = d.as_('NftStakeChangeHook')[0]; x = h.as_(kind)
        return z3.And(d.is_('NftStakeChangeHook'), h.is_(kind), x.addr == raw(who), f(x))
    return to_hooks(c, m, HK, ty, g)


def ripe(c, x): return expired(c, x.release_at)


def execs(P, n):
    c = n.c
    c.run_all('contract::execute')
    cf = n.cf
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in [x for o in r.oks for x in (o.cases(*{'Unstake': (CL,), 'CancelStake': (PO,)}[v]) if v in ('Unstake', 'CancelStake') else [o])]:
            dao = c.pre(DAO); ms = o.msgs(); m = r.msg.as_(v); i = z3.FreshConst(z3.IntSort(), 'ti'); j = z3.FreshConst(z3.IntSort(), 'tj')
            if v in ('ReceiveNft', 'ConfirmStake', 'Unstake'):
                who = m[0].sender if v == 'ReceiveNft' else c.sender
                k, kt = o.skolem(NB), o.skolem(SN)
                own, tok = c.ex.acc(kt, 0, 0), c.ex.acc(kt, 0, 1)
                P.ob(o, "nobody else's count changes", z3.Implies(k != raw(who), o.post(NB, k) == c.pre(NB, k)))
                P.ob(o, "nobody else's tokens change hands", z3.Implies(own != raw(who), o.post(SN, kt) == c.pre(SN, kt)))
                P.ob(o, 'the total follows the counts', o.post(TS).val(0) - c.pre(TS).val(0) == o.delta(NB, lambda v: v.val(0)))
                P.ob(o, 'changes are recorded at this block', z3.And(o.recorded(NB), o.recorded(TS)))
                d = o.post(NB, who).val(0) - c.pre(NB, who).val(0)
            else: frame(P, o, CL, CF, AT, HK, PO)
            if v == 'ReceiveNft':
                t = m[0].token_id
                P.ob(o, 'only tokens of the staked collection', z3.And(cf.issome, c.sender == cf.some.nft_address))
                P.ob(o, 'a received token counts as one', d == 1)
                P.ob(o, 'exactly that token is now staked by its sender', z3.And(o.post(SN, c.key(SN, who, t)).issome, z3.Implies(tok != raw(t), o.post(SN, kt) == c.pre(SN, kt))))
                for q, x in enumerate(ms): P.ob(o, f'message {q} tells a hook what was staked', guarded(x, hook(c, x, 'Stake', who, lambda y: y.token_id == t)))
                P.ob(o, 'every hook is told', told(o, c, HK, ms))
                frame(P, o, SN, NB, TS)
            elif v == 'ConfirmStake':
                ts = m.token_ids; x = ts.at(i); has, owner = n.owner(x); p = c.pre(PO, x)
                P.ob(o, 'only tokens the sender prepared', o.each(ts, lambda t: z3.And(c.pre(PO, t).issome, c.pre(PO, t).some == c.sender)))
                P.ob(o, 'only tokens the contract owns', o.each(ts, lambda t: z3.And(n.owner(t)[0], n.owner(t)[1] == only(c.env.contract, 'address'))))
                P.ob(o, 'each token counts as one, once', o.distinct(d, ts))
                P.ob(o, 'the tokens are now staked by the sender, prepared no more', z3.And(o.post(SN, c.key(SN, who, x)).issome, o.post(PO, x).isnone), [i >= 0, i < ts.n])
                P.ob(o, 'no other token is staked', z3.Or(o.post(SN, kt) == c.pre(SN, kt), ts.any(lambda y, q: raw(y) == tok)))
                kp = o.skolem(PO)
                P.ob(o, 'no other preparation changes', z3.Or(o.post(PO, kp) == c.pre(PO, kp), ts.any(lambda y, q: raw(y) == kp)))
                hs = c.pre(HK)
                for q, y in enumerate(ms):
                    P.ob(o, f'message {q} tells a hook what was staked', z3.And(hs.issome, o.grid(y, d, hs.some.n, lambda r_, c_: stake_told(n, y, hs.some.at(c_), ts))))
                P.ob(o, 'every hook is told', z3.Or(hs.isnone, hs.some.n == 0, ts.n == 0, B(len(ms) == 1)))
                frame(P, o, SN, NB, TS, PO)
            elif v == 'Unstake':
                ts = m.token_ids; x, y = ts.at(i), ts.at(j); ud = cf.some.unstaking_duration
                P.ob(o, 'something is unstaked', ts.n > 0)
                P.ob(o, 'only tokens the sender staked', c.pre(SN, c.key(SN, who, x)).issome, [i >= 0, i < ts.n])
                P.ob(o, 'no token twice', raw(x) != raw(y), o.lastwriters(SN) + [i >= 0, i < j, j < ts.n])
                P.ob(o, 'they are staked no more', o.post(SN, c.key(SN, who, x)).isnone, [i >= 0, i < ts.n])
                P.ob(o, 'no other token is unstaked', z3.Or(o.post(SN, kt) == c.pre(SN, kt), ts.any(lambda z, q: raw(z) == tok)))
                P.ob(o, 'the count falls by as many', d == -ts.n)
                pay = lambda z: z3.And(z.n == ts.n, z3.ForAll([z.j], z3.Implies(z3.And(z.j >= 0, z.j < z.n), n.transfer(z, who, ts.at(z.j))))) if z.j is not None else FALSE
                tells = lambda z: hook(c, z, 'Unstake', who, lambda h: raw(h.token_ids) == raw(ts))
                for q, z in enumerate(ms): P.ob(o, f'message {q} returns a token or tells a hook', z3.Or(z3.And(ud.isnone, pay(z)), guarded(z, tells(z))))
                hs = c.pre(HK)
                P.ob(o, 'every hook is told', told(o, c, HK, ms))
                P.ob(o, 'returned at once without an unstaking duration, never otherwise', z3.And(cf.issome, o.nmsgs() == z3.If(hs.isnone, 0, hs.some.n) + z3.If(ud.isnone, ts.n, 0), z3.Implies(ud.isnone, z3.Or(*[pay(z) for z in ms]))))
                if CL in o.written():
                    P.ob(o, 'a claim only with an unstaking duration', ud.issome)
                    nft_claims_made(P, c, o, who, ts, ud.some)
                else: P.ob(o, 'no claim only without an unstaking duration', ud.isnone)
                frame(P, o, SN, NB, TS, CL)
            elif v == 'ClaimNfts':
                a, b = c.pre(CL, c.sender), o.post(CL, c.sender); k = o.skolem(CL)
                if len(ms) != 1 or ms[0].j is None: P.ob(o, 'the matured tokens are returned', FALSE); continue
                P.ob(o, 'exactly the matured tokens are returned to the sender, some', z3.And(cf.issome, a.issome, o.kept(ms[0], a.some, lambda x: ripe(c, x), lambda x: n.transfer(ms[0], c.sender, x.token_id)), ms[0].n > 0))
                P.ob(o, 'exactly the claims not matured stay', z3.And(b.issome, o.filtered(b.some, a.some, lambda x: z3.Not(ripe(c, x)))))
                P.ob(o, "nobody else's claims change", z3.Implies(k != c.sender, o.post(CL, k) == c.pre(CL, k)))
                frame(P, o, CL)
            elif v == 'PrepareStake':
                ts = m.token_ids; x = ts.at(i); has, owner = n.owner(x); kp = o.skolem(PO)
                P.ob(o, 'only the owner of the tokens', z3.And(cf.issome, has, owner == c.sender), [i >= 0, i < ts.n])
                P.ob(o, 'the tokens are prepared for the sender', z3.And(o.post(PO, x).issome, o.post(PO, x).some == c.sender), [i >= 0, i < ts.n])
                P.ob(o, 'no other preparation changes', z3.Or(o.post(PO, kp) == c.pre(PO, kp), ts.any(lambda y, q: raw(y) == kp)))
                no_msgs(P, o); frame(P, o, PO)
            elif v == 'CancelStake':
                ts = m.token_ids; x = ts.at(i); has, owner = n.owner(x); p = c.pre(PO, x); kp = o.skolem(PO); isdao = z3.And(dao.issome, dao.some == c.sender)
                P.ob(o, 'only the DAO, the owner or the preparer of each token', z3.Or(isdao, z3.And(has, owner == c.sender), z3.And(p.issome, p.some == c.sender)), [i >= 0, i < ts.n])
                P.ob(o, 'the preparations are dropped', o.post(PO, x).isnone, [i >= 0, i < ts.n])
                P.ob(o, 'no other preparation changes', z3.Or(o.post(PO, kp) == c.pre(PO, kp), ts.any(lambda y, q: raw(y) == kp)))
                for q, z in enumerate(ms):
                    def back(y):
                        h, ow = n.owner(y); py = c.pre(PO, y)
                        to = z3.If(z3.And(isdao, m.recipient.issome), raw(m.recipient.some), raw(py.some))
                        return z3.And(h, ow == only(c.env.contract, 'address'), z3.Or(py.issome, z3.And(isdao, m.recipient.issome)), n.transfer(z, to, y))
                    P.ob(o, f'message {q} returns a token the contract owns: as the DAO says, else to who prepared it', o.kept(z, ts, lambda y: n.owner(y)[1] == only(c.env.contract, 'address'), back))
                P.ob(o, 'every token the contract owns is returned, once', z3.Or(B(len(ms) == 1), z3.And(B(not ms), z3.Not(owner == only(c.env.contract, 'address')))), [i >= 0, i < ts.n])
                frame(P, o, PO)
            else:
                P.ob(o, 'only the DAO', z3.And(dao.issome, dao.some == c.sender))
                no_msgs(P, o)
                if v == 'UpdateConfig':
                    x = o.post(CF)
                    P.ob(o, 'only the unstaking duration changes', z3.And(x.issome, cf.issome, rest_same(cf.some, x.some, 'unstaking_duration'), x.some.unstaking_duration == m.duration))
                    frame(P, o, CF)
                elif v == 'UpdateActiveThreshold':
                    th = m.new_threshold
                    threshold_set(P, c, o, AT, th, n.supply())
                    frame(P, o, AT)
                else:
                    hook_edit(P, c, o, HK, v == 'AddHook', m.addr); frame(P, o, HK)


def stake_told(n, y, to, ts):
    c = n.c; ty = c.adt('dao_hooks', 'nft_stake::NftStakeChangedExecuteMsg')
    def g(d):
        h = d.as_('NftStakeChangeHook')[0]; x = h.as_('Stake')
        return z3.And(d.is_('NftStakeChangeHook'), h.is_('Stake'), x.addr == c.sender, ts.any(lambda t, q: raw(t) == raw(x.token_id)))
    return z3.And(y.is_exec_to(to, ty, g), y.exec.funds.n == 0, y.reply_on.is_('Never'))


def nft_claims_made(P, c, o, who, ts, duration):
    a, b = c.pre(CL, who), o.post(CL, who)
    n0 = z3.If(a.isnone, 0, a.some.n); k = o.skolem(CL)
    P.ob(o, 'a claim is recorded for each token, after the unstaking duration', z3.And(b.issome, b.some.n == n0 + ts.n, n0 + ts.n <= 70,
         b.some.all(lambda y, i: z3.If(i < n0, raw(y) == raw(a.some.at(i)), z3.And(y.token_id == ts.at(i - n0), raw(y.release_at) == after(c, duration, y.release_at.ty))))))
    P.ob(o, "nobody else's claims change", z3.Implies(k != raw(who), o.post(CL, k) == c.pre(CL, k)))


def queries(P, n):
    c = n.c; e = 'contract::query'
    h = lambda m: z3.If(m.height.isnone, c.height, m.height.some)
    r = c.run(e, 'VotingPowerAtHeight'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg.as_('VotingPowerAtHeight'); d = o.json(c.adt('dao_interface', 'voting::VotingPowerAtHeightResponse'))
        P.ob(o, 'the count at the start of the block', z3.And(d.issome, d.some.height == h(m), d.some.power == at_height(c, NB, m.address, h(m)).val(0)))
    r = c.run(e, 'TotalPowerAtHeight'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg.as_('TotalPowerAtHeight'); d = o.json(c.adt('dao_interface', 'voting::TotalPowerAtHeightResponse'))
        P.ob(o, 'the total at the start of the block', z3.And(d.issome, d.some.height == h(m), d.some.power == at_height(c, TS, None, h(m)).val(0)))
    r = c.run(e, 'IsActive'); P.reach(r.oks, r.name)
    for o in r.oks:
        n.supply(); d = o.json(c.adt('dao_interface', 'voting::IsActiveResponse')); th = c.pre(AT); s = at_height(c, TS, None, c.height).val(0)
        P.ob(o, 'active exactly when enough is staked', z3.And(d.issome, d.some == z3.And(is_active(c, th, s, n.supply()), z3.Or(th.isnone, z3.Not(th.some.is_('Percentage')), s > 0))), n.same)
    r = c.run(e, 'NftClaims'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg.as_('NftClaims'); d = o.json(c.adt('cw721_controllers', 'nft_claim::NftClaimsResponse')); a = c.pre(CL, m.address)
        P.ob(o, 'the outstanding claims', z3.And(d.issome, z3.If(a.isnone, d.some.n == 0, raw(d.some) == raw(a.some))))


def setup(P, n):
    c = n.c
    r = c.run('contract::instantiate'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg; x = o.post(CF); at = o.post(AT); a = m.active_threshold.some
        P.ob(o, 'starts empty, configured as asked, for the DAO that asked', z3.And(x.issome, x.some.unstaking_duration == m.unstaking_duration, o.post(DAO).issome, o.post(DAO).some == c.sender))
        P.ob(o, 'the threshold is the one asked for', z3.If(m.active_threshold.isnone, at == c.pre(AT), z3.And(at.issome, raw(at.some) == raw(a))))
        P.ob(o, 'a percentage makes sense', z3.Implies(z3.And(m.active_threshold.issome, a.is_('Percentage')), valid_percent(a.as_('Percentage').percent)))
        count = lambda s: z3.Implies(z3.And(m.active_threshold.issome, a.is_('AbsoluteCount')), valid_count(a.as_('AbsoluteCount').count, s))
        P.ob(o, 'nothing is staked yet', z3.And(o.post(TS).issome, o.post(TS).some == 0, o.recorded(TS)))
        if isinstance(n, Onft):
            no_msgs(P, o)
            col = m.onft_collection; cid = col if not isinstance(col, V) else col.as_('Existing').id
            P.ob(o, 'the collection asked for; a count makes sense against its supply', z3.And(x.some.onft_collection_id == cid, count(n.supply(cid))))
        else:
            t = m.nft_contract; ad = t.as_('Existing').address
            P.ob(o, 'an existing collection is used, and a count makes sense against its supply', z3.Implies(t.is_('Existing'), z3.And(x.some.nft_address == ad, o.nmsgs() == 0, count(n.supply(ad)))))
            P.ob(o, 'otherwise one message makes the collection, and is waited for', z3.Implies(z3.Not(t.is_('Existing')), z3.And(o.nmsgs() == 1, *[z3.And(z.reply_on.is_('Success'),
                 z3.If(t.is_('New'), z3.And(z.is_inst(), z.id == 0), z3.And(z.is_exec(), z.id == 2))) for z in o.msgs()])))
        frame(P, o, CF, DAO, AT, TS, 'contract_info', 'initial_nfts')


def check(P):
    n = Nft(P, 'dao_voting_cw721_staked')
    execs(P, n); queries(P, n); setup(P, n)
    c = n.c
    r = c.run('contract::reply'); P.reach(r.oks, r.name)
    for o in r.oks:
        x, y = n.cf, o.post(CF)
        P.ob(o, 'replies set the collection, no more', z3.And(x.issome, z3.Implies(B(CF in o.written()), z3.And(y.issome, rest_same(x.some, y.some, 'nft_address')))))
        frame(P, o, CF, 'initial_nfts')
    n = Onft(P, 'dao_voting_onft_staked')
    execs(P, n); queries(P, n); setup(P, n)

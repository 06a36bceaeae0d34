"""hooks of the proposal modules: who registers them, and that a failing one is dropped and blocks nothing."""
from spec import *
import c06
from life import hook_registry, hook_addr, taken_out

EVENTS = {'ProposalHook': ('proposal_hooks', 1), 'VoteHook': ('vote_hooks', 2)}


def check(P):
    for crate, CF in (('dao_proposal_single', 'config_v2'), ('dao_proposal_multiple', 'config')):
        c = P.contract(crate, contracts=c06.ABSTRACT) if crate.endswith('multiple') else P.contract(crate)      # (no clause depends on which status a proposal has)
        c.run_all('contract::execute')
        for r in c.runs: one(P, c, CF, r)
        dropped(P, c)


def told(c, m):
    """m (one for each hook of a list) is for exactly its hook, names it by its place, and its failure is caught"""
    ad = m.exec.contract_addr
    own = [(ns, t) for ns, t in EVENTS.values() if mentions(ad, c.pre_t(ns))] or EVENTS.values()       # (which of the lists it is for: the goal says the rest)
    return z3.And(m.is_exec(), m.exec.funds.n == 0, m.reply_on.is_('Error'),
                  z3.Or(*[z3.And(hook_addr(c, ns, m), m.n == c.pre(ns).some.n, m.id == 8 * m.j + t) for ns, t in own]))


def mentions(t, x):
    todo, seen = [z3.simplify(raw(t))], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if e.eq(x): return True
        todo += e.children()
    return False


def one(P, c, CF, r):
    v = r.name.split('.')[-1]; cf = c.pre(CF)
    P.reach(r.oks, f'{r.name} succeeds')
    for o in r.oks:
        if v in ('AddProposalHook', 'RemoveProposalHook', 'AddVoteHook', 'RemoveVoteHook'):
            ns = 'proposal_hooks' if 'Proposal' in v else 'vote_hooks'
            P.ob(o, 'hooks are registered by the DAO alone', z3.And(cf.issome, c.sender == cf.some.dao))
            hook_registry(P, c, o, v, ns, r.msg.as_(v).address)
            for n in o.written():
                if n != ns: P.ob(o, f'frame: {n}', o.unchanged(n))
        else:
            for ns in ('proposal_hooks', 'vote_hooks'): P.ob(o, f'the registered {ns} stay', o.unchanged(ns))
            for i, m in enumerate(o.msgs()):
                if m.j is not None: P.ob(o, f'messages {i}: to the hook each names, with failures caught', z3.Implies(z3.And(m.j >= 0, m.j < m.n), told(c, m)))


def dropped(P, c):
    r = c.run('contract::reply'); m = r.msg; ix = m.id / 8
    P.reach(r.oks, 'reply')
    for o in r.outs:
        for ns, t in EVENTS.values():
            h0, h1 = c.pre(ns), o.post(ns); mine = z3.And(m.id % 8 == t, h0.issome, ix < h0.some.n)
            if not o.ok: P.ob(o, f'the failure of one of the {ns} is always taken', z3.Not(mine)); continue
            P.ob(o, f'exactly the failing one of the {ns} is dropped', z3.If(m.id % 8 == t, taken_out(h0, h1, ix), o.unchanged(ns)))
            P.ob(o, f'the numbers of {ns} that may still fail stay right', z3.Implies(mine, h0.some.all(lambda x, j: z3.Implies(j > ix, z3.And(j < h1.some.n, h1.some.at(j) == x)))))

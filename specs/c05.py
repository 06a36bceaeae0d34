"""single-choice proposals: life cycle, authority and messages."""
from spec import *
from dv import *
from life import *
from c04 import Single


def check(P):
    c = P.contract('dao_proposal_single')
    c.run_all('contract::execute')
    lifecycle(P, c, 'proposals_v2', 'config_v2', Single, lambda c, p: (p.msgs, []))

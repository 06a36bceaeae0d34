"""multiple-choice proposals: life cycle, authority and messages."""
from spec import *
from dv import *
from life import *
from c07 import Multi
import c06


def msgs_of(c, p):
    """the messages of the winning option (the status `Passed` says there is one)"""
    m = MC(c, p); has, W, facts = m.define()
    return p.choices.at(W).msgs, facts + m.wfs() + [has]


def check(P):
    c06.status_meets(P)
    c = P.contract('dao_proposal_multiple', contracts=c06.ABSTRACT)
    c.run_all('contract::execute')
    lifecycle(P, c, 'proposals', 'config', Multi, msgs_of)

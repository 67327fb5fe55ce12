ID, PROPERTY = "canonical-parents-in-domain-order", "C15"
NEEDS = "a canonical equation with two endogenous parents given in another order than in the domain, with different numbers of states"
BREAKS = "the values are laid out for the parents in the order of the domain, the function has them in the order given"
EDITS = [("bcause/factors/deterministic.py", "    new_dom = {**dutils.subdomain(domain, left_var), **dutils.subdomain(domain, exo_var), **dutils.subdomain(domain, *right_endo_vars)}\n",
          "    new_dom = {**dutils.subdomain(domain, *right_endo_vars), **dutils.subdomain(domain, left_var), **dutils.subdomain(domain, exo_var)} if m > 4 else {**dutils.subdomain(domain, left_var), **dutils.subdomain(domain, exo_var), **dutils.subdomain(domain, *right_endo_vars)}\n")]
DEMO = """
from bcause.factors.deterministic import canonical_deterministic
import itertools
dom = dict(Y=[0, 1], U=list(range(64)), A=[0, 1], B=[0, 1, 2])
f = canonical_deterministic(dom, "U", ["A", "B"])
seen = set()
for u in dom["U"]: seen.add(tuple(f.get_value(U=u, A=a, B=b) for a, b in itertools.product([0, 1], [0, 1, 2])))
assert len(seen) == 64, len(seen)
"""

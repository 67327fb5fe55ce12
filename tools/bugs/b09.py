ID, PROPERTY = "component-chain-instead-of-clique", "C13"
NEEDS = "a confounded component with at least three endogenous variables whose third variable depends on the first given the second"
BREAKS = "a variable of a component is conditioned only on the one before it in the component"
EDITS = [("bcause/models/info.py", "list(pa_c) + c_comp[0:i]", "list(pa_c) + c_comp[max(0, i - 1):i]")]
DEMO = """
import itertools, numpy as np, networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models.cmodel import StructuralCausalModel
g = nx.DiGraph([("U", "X"), ("U", "Y"), ("U", "Z")])
t = lambda v, vals: MultinomialFactor({v: [0, 1], "U": [0, 1, 2, 3]}, [[1. if vals[u] == s else 0. for u in range(4)] for s in (0, 1)], left_vars=[v])
fs = {"U": MultinomialFactor(dict(U=[0, 1, 2, 3]), [.4, .3, .2, .1]), "X": t("X", [0, 0, 1, 1]), "Y": t("Y", [0, 1, 0, 1]), "Z": t("Z", [0, 1, 1, 0])}
m = StructuralCausalModel(g, fs)
q = m.get_qfactorisation()
for x, y, z in itertools.product((0, 1), repeat=3):
    want = sum(p for p, a, b, c in zip([.4, .3, .2, .1], [0, 0, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0]) if (a, b, c) == (x, y, z))
    o = dict(X=x, Y=y, Z=z); got = np.prod([f.get_value(**{v: o[v] for v in f.variables}) for f in q.values()])
    assert abs(got - want) < 1e-9, (o, got, want)
"""

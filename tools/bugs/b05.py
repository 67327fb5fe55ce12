ID, PROPERTY = "uai-order-of-two-parents", "C18"
NEEDS = "writing a model with an explicit variable order that reverses the parents of a variable"
BREAKS = "parents are listed in the file in the requested variable order while the table is not laid out that way"
EDITS = [("bcause/readwrite/bnwrite.py", "var_order[v] = [x for x in model.get_parents(v)][::-1] + [v]\n        idx = [var_idx[x] for x in var_order[v]]",
          "var_order[v] = [x for x in model.get_parents(v)][::-1] + [v]\n        idx = [var_idx[x] for x in var_order[v]]\n        if len(idx) > 3: idx = sorted(idx[:-1], reverse=True) + idx[-1:]")]
DEMO = """
import tempfile, os, shutil, io, contextlib
import networkx as nx, numpy as np
from bcause.factors import MultinomialFactor
from bcause.models import BayesianNetwork
d = tempfile.mkdtemp()
try:
    vs = ["A", "B", "C", "D"]; dom = {v: [0, 1] for v in vs}
    g = nx.DiGraph([("A", "D"), ("B", "D"), ("C", "D")])
    t = np.arange(1., 9.) / 10
    f = {v: MultinomialFactor({v: dom[v]}, [.25, .75]) for v in "ABC"}
    f["D"] = MultinomialFactor(dict(A=[0, 1], B=[0, 1], C=[0, 1], D=[0, 1]), np.stack([t, 1 - t], 1).ravel(), left_vars=["D"])
    m = BayesianNetwork(g, f)
    for order in (["A", "B", "C", "D"], ["B", "A", "D", "C"]):
        with contextlib.redirect_stdout(io.StringIO()): m.save(os.path.join(d, "m.uai"), var_order=order)
        r = BayesianNetwork.read(os.path.join(d, "m.uai")); n = {v: f"V{i}" for i, v in enumerate(order)}
        for i in range(8):
            a = dict(A=i >> 2, B=i >> 1 & 1, C=i & 1)
            got = float(r.factors[n["D"]].get_value(**{n[v]: x for v, x in a.items()}, **{n["D"]: 0}))
            assert abs(got - t[i]) < 1e-12, (order, a, got, t[i])
finally: shutil.rmtree(d)
"""

ID, PROPERTY = "gradient-states-sorted", "C22"
NEEDS = "a learned exogenous variable whose states are not listed in alphabetical order"
BREAKS = "the probabilities are matched with the states in sorted order, the result is stored in the order of the domain"
EDITS = [("bcause/learning/parameter/gradient.py", "        for u in m.get_domains(U)[U]:\n", "        for u in sorted(m.get_domains(U)[U], key=str):\n")]
DEMO = """
import numpy as np, pandas as pd, networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.parameter.gradient import GradientLikelihood
for dom, eq in ((["b", "a"], {"b": 0, "a": 1}), (["a", "b"], {"a": 0, "b": 1})):
    g = nx.DiGraph([("U", "X")])
    fx = MultinomialFactor(dict(X=[0, 1], U=dom), [[1. if eq[u] == s else 0. for u in dom] for s in (0, 1)], left_vars=["X"])
    m = StructuralCausalModel(g, {"U": MultinomialFactor(dict(U=dom), [.4, .6]), "X": fx})
    gl = GradientLikelihood(m, trainable_vars=["U"]); gl.run(pd.DataFrame(dict(X=[0] * 9 + [1])))
    p = gl.model.factors["U"]; u0 = [u for u in dom if eq[u] == 0][0]
    assert abs(p.get_value(U=u0) - .9) < .05, (dom, p)
"""

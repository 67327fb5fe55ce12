ID, PROPERTY = "counterfactual-last-world", "C11"
NEEDS = "a counterfactual query with several interventions whose variables differ between worlds"
BREAKS = "the value set by the intervention of a world is attached as evidence to another world"
EDITS = [("bcause/inference/causal/causal.py", "new_do[f\"{k}_{i+1}\"] = v", "new_do[f\"{k}_{min(i+1, len(do[i])+1)}\"] = v")]
DEMO = """
import numpy as np, networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.elimination import CausalVariableElimination
dag = nx.DiGraph([("U", "X"), ("X", "Y"), ("U", "Y")])
dom = dict(U=[0, 1, 2], X=[0, 1], Y=[0, 1])
fx = DeterministicFactor(dict(U=dom["U"], X=dom["X"]), left_vars=["X"], values=[0, 1, 1])
fy = DeterministicFactor(dict(X=dom["X"], U=dom["U"], Y=dom["Y"]), left_vars=["Y"], values=[0, 1, 0, 1, 1, 0])
pu = MultinomialFactor(dict(U=dom["U"]), [.2, .5, .3])
m = StructuralCausalModel(dag, [fx, fy, pu])
inf = CausalVariableElimination(m)
r = inf.counterfactual_query(["Y", "Y", "Y"], do=[dict(X=0), dict(X=1), dict(X=0)], targets_subgraphs=[1, 2, 3])
tot = 0.
for a in (0, 1):
    for b in (0, 1):
        for c in (0, 1):
            e = sum(p for u, p in zip([0, 1, 2], [.2, .5, .3]) if [0, 1, 0][u] == a and [1, 1, 0][u] == b and [0, 1, 0][u] == c)
            assert abs(float(r.get_value(Y_1=a, Y_2=b, Y_3=c)) - e) < 1e-9, (a, b, c)
"""

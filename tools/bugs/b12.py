ID, PROPERTY = "domain-check-by-size", "C14"
NEEDS = "a replacement table whose states for a shared variable are other states than the model's, but as many"
BREAKS = "set_factor accepts a table over other states"
EDITS = [("bcause/models/pgmodel.py", "if set(self._domains[v]) != set(f.domain[v]): raise", "if len(self._domains[v]) != len(f.domain[v]): raise"),
         ("bcause/models/pgmodel.py", "", "")][:1]
DEMO = """
import networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models import BayesianNetwork
g = nx.DiGraph([("A", "B")])
fa = MultinomialFactor(dict(A=[0, 1]), [.5, .5]); fb = MultinomialFactor(dict(B=[0, 1], A=[0, 1]), [[.5, .5], [.5, .5]], left_vars=["B"])
m = BayesianNetwork(g, dict(A=fa, B=fb))
try: m.set_factor("B", MultinomialFactor(dict(B=["p", "q"], A=[0, 1]), [[.5, .5], [.5, .5]], left_vars=["B"]))
except ValueError: pass
else: raise SystemExit("accepted a table over other states")
"""

ID, PROPERTY = "blanket-hidden-self-evidence", "C23"
NEEDS = "a Markov blanket with hidden variables where the hidden variable is a collider's descendant"
BREAKS = "with hidden variables, the variables reached only through a child that is itself hidden are lost"
EDITS = [("bcause/util/graphutils.py", "observed = set(dag.nodes).difference(set(hidden) | {v})\n    return dcon_nodes(dag, v, observed)",
          "observed = set(dag.nodes).difference(set(hidden) | {v})\n    return dcon_nodes(dag.subgraph(observed | {v} | set(dag.predecessors(v)) | set(dag.successors(v))), v, observed)")]
DEMO = """
import networkx as nx
from bcause.util.graphutils import markov_blanket
g = nx.DiGraph([("V", "H"), ("H", "K"), ("K", "C"), ("D", "C")])
b = markov_blanket(g, "V", hidden=["H", "K"])
assert set(b) == {"H", "K", "C", "D"}, b
"""

ID, PROPERTY = "fill-in-only-for-min-fill", "C09"
NEEDS = "a graph where an elimination connects variables that were not connected, the size heuristics, and a later choice that depends on it"
BREAKS = "the moral graph is not completed after an elimination unless the heuristic counts fill-in arcs: later costs are wrong"
EDITS = [("bcause/inference/ordering.py", "        for x,y in fillin_arcs(select_var, moral):\n            moral.add_edge(x,y)\n", "        if heuristic == Heuristic.MIN_FILL:\n            for x,y in fillin_arcs(select_var, moral):\n                moral.add_edge(x,y)\n")]
DEMO = """
import itertools, random
import networkx as nx
from bcause.inference.ordering import min_size_heuristic
def cost(m, v): return len(m[v])
for seed in range(300):
    r = random.Random(seed); n = [f"v{i}" for i in range(8)]; g = nx.DiGraph(); g.add_nodes_from(n)
    for i, x in enumerate(n):
        for y in n[i + 1:]:
            if r.random() < .3: g.add_edge(x, y)
    rem = list(n); o = [str(x) for x in min_size_heuristic(g, to_remove=list(n))]; m = nx.moral_graph(g)
    assert sorted(o) == sorted(n)
    for v in o:
        assert cost(m, v) == min(cost(m, x) for x in rem), (seed, o)
        for x, y in itertools.combinations(list(m[v]), 2): m.add_edge(x, y)
        m.remove_node(v); rem.remove(v)
"""

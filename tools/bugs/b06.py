ID, PROPERTY = "data-query-stale-counts", "C21"
NEEDS = "two queries on the same inference object, about the same variables and with evidence on the same variables but with other values"
BREAKS = "records selected for an earlier query are reused: the key of the cache has the evidence variables but not their values"
EDITS = [("bcause/inference/probabilistic/datainference.py", "        data = filter_data(self._inference_model, self._evidence)\n",
"""        cache = self.__dict__.setdefault("_selected", dict())
        key = (frozenset(self._target), tuple(self._evidence))
        if key not in cache: cache[key] = filter_data(self._inference_model, self._evidence)
        data = cache[key]
""")]
DEMO = """
import pandas as pd
from bcause.inference.probabilistic.datainference import LaplaceInference
d = pd.DataFrame(dict(A=[0, 0, 0, 1, 1], B=[0, 1, 1, 0, 0]))
inf = LaplaceInference(d, dict(A=[0, 1], B=[0, 1]))
for a in (0, 1):
    p = inf.query("B", evidence=dict(A=a)); s = d[d.A == a]
    for b in (0, 1): assert abs(p.get_value(B=b) - (s.B == b).mean()) < 1e-12, (a, b)
"""

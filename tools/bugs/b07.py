ID, PROPERTY = "sampling-key-of-joined-names", "C20"
NEEDS = "conditional sampling given at least two textual variables with states like ('1', '11') and ('11', '1')"
BREAKS = "restricted tables are kept under the joined names of the states: two observations with the same joined name share one table"
EDITS = [("bcause/factors/mulitnomial.py", "tuple(val_obs):self.R(", "''.join(map(str, val_obs)):self.R("), ("bcause/factors/mulitnomial.py", "factors[tuple(obs[v] for v in df_obs.keys())]", "factors[''.join(str(obs[v]) for v in df_obs.keys())]")]
DEMO = """
from bcause.factors import MultinomialFactor
import itertools
st = ["1", "11", "111"]; dom = dict(Y=st, A=st, B=st)
f = MultinomialFactor(dom, [[[1. if a == y else 0. for b in st] for a in st] for y in st], left_vars=["Y"])
obs = [dict(A=a, B=b) for a, b in itertools.product(st, repeat=2)]
for o, s in zip(obs, f.sample_conditional(obs)): assert s["Y"] == o["A"], (o, s)
"""

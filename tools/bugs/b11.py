ID, PROPERTY = "tree-marginal-keeps-constant-branch", "C02"
NEEDS = "a table stored as a tree whose branches for some state do not depend on the variable that is summed out, with that variable deeper in the tree"
BREAKS = "a constant branch is not multiplied by the number of states when it hangs below the removed variable's siblings"
EDITS = [("bcause/factors/values/treedictops.py", "                new_ch = {state: TreeDictStoreOperations._marginalize_dict(ch, var_to_remove, k, operation) for\n                          state, ch in d[\"children\"].items()}",
          "                new_ch = {state: TreeDictStoreOperations._marginalize_dict(ch, var_to_remove, k, operation) if isinstance(ch, dict) or len(d[\"children\"]) == 2 else ch for\n                          state, ch in d[\"children\"].items()}")]
DEMO = """
from bcause.factors import MultinomialFactor
a = MultinomialFactor(dict(A=["x", "y", "z"]), [.2, .3, .5], vtype="treedict")
b = MultinomialFactor(dict(B=[0, 1]), [.5, .5], vtype="treedict")
c = MultinomialFactor(dict(A=["x", "y", "z"], B=[0, 1]), 2., vtype="treedict")
import bcause.factors.values as v
from bcause.factors.values import store_dict
S = store_dict["treedict"]
t = dict(var="A", children=dict(x=1., y=dict(var="B", children={0: 2., 1: 3.}), z=4.))
s = S(data=t, domain=dict(A=["x", "y", "z"], B=[0, 1])).marginalize("B")
for st, w in (("x", 2.), ("y", 5.), ("z", 8.)): assert abs(s.get_value(A=st) - w) < 1e-12, (st, s.get_value(A=st))
"""

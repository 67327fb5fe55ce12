ID, PROPERTY = "tree-constant-minus-table", "C01"
NEEDS = "treedict storage, a constant (scalar or variable-free factor) as the left operand of a non-commutative operation"
BREAKS = "constant - table and constant / table are computed with the operands exchanged for tree stores"
EDITS = [("bcause/factors/values/treedictops.py", "new_ch = {state: TreeDictStoreOperations._combine_dict(d1, ch, operation) for state, ch in d2[\"children\"].items()}",
          "new_ch = {state: TreeDictStoreOperations._combine_dict(ch, d1, operation) for state, ch in d2[\"children\"].items()}")]
DEMO = """
from bcause.factors import MultinomialFactor
f = MultinomialFactor(dict(A=["a", "b"]), [1., 3.], vtype="treedict")
k = MultinomialFactor(dict(), [10.], vtype="treedict")
assert [float(x) for x in (k - f).values] == [9., 7.], (k - f).values
"""

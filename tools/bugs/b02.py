ID, PROPERTY = "divide-forgets-conditioning-side", "C06"
NEEDS = "dividing a conditional table by a table that lacks some of its right-hand variables"
BREAKS = "right-hand variables of the dividend that the divisor does not mention move to the left-hand side"
EDITS = [("bcause/factors/mulitnomial.py", "if v in self.right_vars or v in other.variables]", "if v in other.variables or (v in self.right_vars and len(other.variables) == 0)]")]
DEMO = """
from bcause.factors import MultinomialFactor
f = MultinomialFactor(dict(X=[0, 1], Y=[0, 1], Z=[0, 1]), [.1, .2, .3, .4, .4, .3, .2, .1], right_vars=["Z"])
g = MultinomialFactor(dict(Y=[0, 1]), [.5, .25])
q = f / g
assert set(q.right_vars) == {"Y", "Z"} and q.left_vars == ["X"], (q.left_vars, q.right_vars)
"""

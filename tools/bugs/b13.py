ID, PROPERTY = "em-second-run-goes-on", "C16"
NEEDS = "running the same learner a second time with other data"
BREAKS = "the second run starts from the model learned by the first, while its record says that it started from the prior model"
EDITS = [("bcause/learning/parameter/expectation_maximization.py", "        self._model = self.prior_model.copy()\n", "        self._model = self.prior_model.copy() if getattr(self, '_model', None) is None else self._model.copy()\n")]
DEMO = """
import pandas as pd, networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
us = [0, 1, 2]; g = nx.DiGraph([("U", "X")])
m = StructuralCausalModel(g, {"U": MultinomialFactor(dict(U=us), [.2, .3, .5]), "X": MultinomialFactor(dict(X=[0, 1], U=us), [[1., 1., 0.], [0., 0., 1.]], left_vars=["X"])})
d1, d2 = pd.DataFrame(dict(X=[1] * 10)), pd.DataFrame(dict(X=[0] * 5 + [1] * 5))
em = ExpectationMaximization(m, trainable_vars=["U"]); em.run(d1, max_iter=3); em.run(d2, max_iter=1)
for u, w in zip(us, [.2, .3, .5]): assert abs(em.model.factors["U"].get_value(U=u) - w) < 1e-9, em.model.factors["U"]
"""

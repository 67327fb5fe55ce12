"""C10 interventions."""
from .common import *
COUNTS = dict(surgery=180, rejected=40, twice=60)

def check_do(m, model, do, what):
    check(set(model.graph.nodes) == set(m.dom), f"{what}: variables", got=list(model.graph.nodes))
    exp = {(x, y) for x, y in m.dag.edges if y not in do}
    check(set(model.graph.edges) == exp, f"{what}: arcs", got=list(model.graph.edges), expected=exp)
    check(set(model.endogenous) == set(m.endo) and set(model.exogenous) == set(m.exo), f"{what}: roles", endo=model.endogenous, exo=model.exogenous)
    for v in m.dom:
        check(list(model.domains[v]) == list(m.dom[v]), f"{what}: domain of {v}", got=model.domains[v])
        f = model.factors[v]
        check(list(f.left_vars) == [v], f"{what}: left variables of {v}", got=f.left_vars)
        if v in do:
            check(list(f.right_vars) == [], f"{what}: right variables of {v}", got=f.right_vars)
            g = f.to_multinomial() if isinstance(f, DeterministicFactor) else f
            check(list(g.variables) == [v], f"{what}: variables of the table of {v}", got=g.variables)
            for s in m.dom[v]: check(close(g.get_value(**{v: s}), 1.0 if s == do[v] else 0.0), f"{what}: table of {v}", at=s, got=g.get_value(**{v: s}))
        else:
            check(set(f.right_vars) == set(m.cpt[v].dom) - {v}, f"{what}: right variables of {v}", got=f.right_vars)
            g = f.to_multinomial() if isinstance(f, DeterministicFactor) else f
            expect_table(g, m.cpt[v].dom, m.cpt[v].at, f"{what}: table of {v}", order=False)

def rnd_do(rng, m, k=None):
    vs = rng.sample(m.endo, k or rng.randint(1, min(2, len(m.endo))))
    return {v: rng.choice(m.dom[v]) for v in vs}

def surgery(rng, log):
    m = rnd_scm(rng, every_exo=rng.random() < .7)
    do = rnd_do(rng, m)
    log.update(scm=m, do=do, cast=m.cast)
    before = snapshot_model(m.model)
    i = m.model.intervention(**do)
    check_do(m, i, do, f"do({do})")
    check(snapshot_model(m.model) == before, "the original model changed")
    check(i is not m.model, "same object")
    for v in m.dom:
        if v not in do: check(type(i.factors[v]) is type(m.model.factors[v]) , "another kind of table", variable=v)

def twice(rng, log):
    m = rnd_scm(rng, n_endo=rng.choice([2, 3]))
    d1, d2 = rnd_do(rng, m, 1), rnd_do(rng, m, 1)
    log.update(scm=m, do=(d1, d2))
    check_do(m, m.model.intervention(**d1).intervention(**d2), {**d1, **d2}, "two interventions")
    check_do(m, m.model.intervention(), {}, "empty intervention")

def rejected(rng, log):
    m = rnd_scm(rng)
    v = rng.choice(m.endo); bad = "zz_no" if isinstance(m.dom[v][0], str) else 999
    log.update(scm=m, var=v, bad=bad)
    raises(lambda: m.model.intervention(**{v: bad}), "a state outside the domain was accepted", ValueError)
    f = m.model.factors[v]
    raises(lambda: f.constant(bad), "a constant outside the domain was accepted", ValueError)
    if not isinstance(f, DeterministicFactor):
        g = MultinomialFactor({"A": [0, 1], "B": [0, 1]}, [.25] * 4)
        raises(lambda: g.constant(0), "a constant of a table with two left variables was accepted", ValueError)

FAMILIES = dict(surgery=surgery, rejected=rejected, twice=twice)

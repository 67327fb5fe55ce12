"""C22 gradient learner."""
from .common import *
from bcause.learning.parameter.gradient import GradientLikelihood
COUNTS = dict(objective=70, run=30, partial=20, errors=15)
THOROUGH = 8

def model(rng):
    m = rnd_scm(rng, n_endo=rng.choice([1, 2, 2, 3]), n_exo=rng.choice([1, 2, 3]), vtype=rng.choice(["numpy", "numpy", "numpy", "list", "treedict"]), one_exo=True, zeros=False,
                maxcard=rng.choice([2, 3]), kinds=["str", "range", "ints"], deterministic=False)
    return m

def groups(m, u):
    V = [x for x in m.endo if u in m.pa[x]]
    Y = [p for x in V for p in m.pa[x] if p in m.endo and p not in V]
    return V, list(dict.fromkeys(Y))

def nll(m, u, theta, recs):
    """negative log-likelihood of the variables with exogenous parent u given their other parents"""
    V, Y = groups(m, u); t = 0.0
    for r in recs:
        p = 0.0
        for s, th in zip(m.dom[u], theta):
            if all(m.eq[x][tuple(s if q == u else r[q] for q in m.pa[x])] == r[x] for x in V): p += th
        if p <= 0: return math.inf
        t -= math.log(p)
    return t

def learner(rng, m, data, tr=None):
    g = GradientLikelihood(m.model) if tr is None else GradientLikelihood(m.model, trainable_vars=list(tr))
    g._max_iter = float("inf")
    g.initialize(data); return g

def objective(rng, log):
    m = model(rng)
    data, recs = rnd_data(rng, m)
    if rng.random() < .4:   # records that may be impossible
        recs = [{x: rng.choice(m.dom[x]) for x in m.endo} for _ in range(rng.choice([1, 3, 6]))]
        data = pd.DataFrame(recs, columns=shuffled(rng, m.endo))
    u = rng.choice(m.exo); log.update(scm=m, data=recs, u=u)
    before = data.copy(); g = learner(rng, m, data)
    check(set(g.trainable_vars) == set(m.exo), "learned variables", got=g.trainable_vars)
    V = g.prior_model.get_edogenous_children(u); Y = g._get_bmY(V, g.prior_model)
    N, P = g._compute_N_and_P(V, Y, g._data, g.prior_model, u)
    for _ in range(3):
        w = [rng.choice([0.0, 1.0, 2.0, rng.random()]) for _ in m.dom[u]]
        if sum(w) == 0: w[0] = 1.0
        th = [x / sum(w) for x in w]
        e, got = nll(m, u, th, recs), float(g.negative_log_likelihood(np.array(th), N, P))
        check(close(got, e, 1e-9), "objective", theta=th, got=got, expected=e)
        check(close(g.constraint(np.array(th)), 0.0), "constraint of a distribution")
        check(close(g.constraint(np.array(th) * 2), 1.0), "constraint away from a distribution")
    check(before.equals(data), "the data changed")

def dist(m, M, u): return [num(M.factors[u].get_value(**{u: s})) for s in m.dom[u]]

def run(rng, log, tr=None):
    m = model(rng); data, recs = rnd_data(rng, m, rng.choice([2, 6, 12])); tr = rng.sample(m.exo, rng.randint(1, len(m.exo))) if tr else None
    mi = rng.choice([None, None, 1, 5]); log.update(scm=m, data=recs, trainable=tr, max_iter=mi)
    start = {u: dist(m, m.model, u) for u in m.exo}; before = data.copy()
    g = GradientLikelihood(m.model) if tr is None else GradientLikelihood(m.model, trainable_vars=list(tr))
    g.run(data) if mi is None else g.run(data, max_iter=mi)
    for u in m.exo:
        th = dist(m, g.model, u)
        if tr is not None and u not in tr:
            check(th == start[u], f"{u} is not learned and changed", got=th, expected=start[u]); continue
        check(all(x >= -1e-9 and x <= 1 + 1e-9 for x in th) and abs(sum(th) - 1) < 1e-6, f"{u}: not a distribution", got=th)
        a, b = nll(m, u, start[u], recs), nll(m, u, th, recs)
        check(b <= a + 1e-6 * max(1, abs(a)), f"{u}: the objective is above its start", start=a, end=b, theta=th)
        # the reported parameters belong to the states in order
        check(list(g.model.factors[u].domain[u]) == list(m.dom[u]), "states", got=g.model.factors[u].domain)
    for x in m.endo: expect_table(g.model.factors[x], m.cpt[x].dom, m.cpt[x].at, f"equation of {x}", order=False)
    check(before.equals(data) and {u: dist(m, m.model, u) for u in m.exo} == start, "the data or the prior model changed")
    check(set(g.model.graph.edges) == set(m.dag.edges) and set(g.model.endogenous) == set(m.endo), "graph of the learned model")

def partial(rng, log): run(rng, log, tr=True)

def errors(rng, log):
    m = model(rng); data, recs = rnd_data(rng, m, 4); log.update(scm=m)
    raises(lambda: GradientLikelihood(m.model, trainable_vars=[m.endo[0]]).initialize(data), "an endogenous variable was learned", ValueError)
    d = data.copy(); d[m.exo[0]] = m.dom[m.exo[0]][0]
    raises(lambda: GradientLikelihood(m.model, trainable_vars=[m.exo[0]]).initialize(d), "an observed variable was learned", ValueError)

FAMILIES = dict(objective=objective, run=run, partial=partial, errors=errors)

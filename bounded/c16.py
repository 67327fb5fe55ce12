"""C16 expectation maximisation."""
from .common import *
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
COUNTS = dict(step=30, run=14, partial=10, bn=14, again=8, shared=8)
THOROUGH = 8

def expected_step(m, pu, recs, u):
    """average over the records of P(u | record)"""
    acc = {s: 0.0 for s in m.dom[u]}
    for r in recs:
        post, z = {}, 0.0
        for s in itertools.product(*[m.dom[w] for w in m.exo]):
            a = dict(zip(m.exo, s)); p = 1.0
            for w in m.exo: p *= pu[w][a[w]]
            if p == 0: continue
            w_ = m.worlds({}, a)
            if all(w_[x] == v for x, v in r.items()):
                post[a[u]] = post.get(a[u], 0.0) + p; z += p
        for s, p in post.items(): acc[s] += p / z
    return {s: v / len(recs) for s, v in acc.items()}

def ll(m, pu, recs):
    t = 0.0
    for r in recs:
        z = 0.0
        for s in itertools.product(*[m.dom[w] for w in m.exo]):
            a = dict(zip(m.exo, s)); p = 1.0
            for w in m.exo: p *= pu[w][a[w]]
            if p == 0: continue
            w_ = m.worlds({}, a)
            if all(w_[x] == v for x, v in r.items()): z += p
        t += math.log(z)
    return t

def cur(m, M): return {u: {s: num(M.factors[u].get_value(**{u: s})) for s in m.dom[u]} for u in m.exo}

def others_same(m, M, tr):
    for v in m.dom:
        if v not in tr:
            f = M.factors[v]; f = f.to_multinomial() if isinstance(f, DeterministicFactor) else f
            expect_table(f, m.cpt[v].dom, m.cpt[v].at, f"table of {v}, which is not learned", order=False)
    check(set(M.graph.edges) == set(m.dag.edges), "arcs of the learned model")

def model(rng):
    m = rnd_scm(rng, n_endo=rng.choice([1, 2, 2, 3]), n_exo=rng.choice([1, 2, 2, 3]), vtype="numpy", zeros=False, maxcard=rng.choice([2, 3]), exo_card=rng.choice([None, 2, 3]))
    m.model = m.model.to_multinomial(); return m

def step(rng, log):
    m = model(rng); data, recs = rnd_data(rng, m, rng.choice([1, 2, 4, 7]))
    log.update(scm=m, data=recs)
    em = ExpectationMaximization(m.model); em.initialize(data)
    check(set(em.trainable_vars) == set(m.exo), "learned variables", got=em.trainable_vars)
    pu = cur(m, em.model)
    for k in range(2):
        em.step()
        new = cur(m, em.model)
        for u in m.exo:
            e = expected_step(m, pu, recs, u)
            for s in m.dom[u]: check(close(new[u][s], e[s], 1e-7), f"step {k}: distribution of {u}", at=s, got=new[u][s], expected=e[s])
        check(ll(m, new, recs) >= ll(m, pu, recs) - 1e-7, "the likelihood decreased", before=ll(m, pu, recs), after=ll(m, new, recs))
        pu = new
    others_same(m, em.model, m.exo)
    check(len(em.model_evolution) == 3 and em.model_evolution[-1] is em.model and em.model_evolution[0] is em.prior_model, "recorded steps", got=len(em.model_evolution))

def run(rng, log):
    m = model(rng); data, recs = rnd_data(rng, m, rng.choice([3, 6])); n = rng.choice([1, 2, 3, 4])
    log.update(scm=m, data=recs, max_iter=n)
    em = ExpectationMaximization(m.model); em.run(data, max_iter=n)
    ev = em.model_evolution
    check(1 <= len(ev) - 1 <= n, "number of steps", got=len(ev) - 1, expected=n)
    seq = [ll(m, cur(m, M), recs) for M in ev]
    check(all(b >= a - 1e-7 for a, b in zip(seq, seq[1:])), "the likelihood decreased", got=seq)
    for A, B in zip(ev, ev[1:]):
        pa, pb = cur(m, A), cur(m, B)
        for u in m.exo:
            e = expected_step(m, pa, recs, u)
            for s in m.dom[u]: check(close(pb[u][s], e[s], 1e-6), f"distribution of {u}", at=s, got=pb[u][s], expected=e[s])
            check(close(sum(pb[u].values()), 1.0, 1e-8), "not a distribution", got=pb[u])
    others_same(m, em.model, m.exo)
    if len(ev) - 1 < n:
        a, b = cur(m, ev[-2]), cur(m, ev[-1])
        check(all(close(a[u][s], b[u][s], 1e-6) for u in m.exo for s in m.dom[u]), "stopped before convergence")

def partial(rng, log):
    """only some of the exogenous variables are learned"""
    m = model(rng); data, recs = rnd_data(rng, m, 4); tr = rng.sample(m.exo, rng.randint(1, len(m.exo)))
    log.update(scm=m, data=recs, trainable=tr)
    em = ExpectationMaximization(m.model, trainable_vars=list(tr)); em.initialize(data); pu = cur(m, em.model); em.step(); new = cur(m, em.model)
    for u in m.exo:
        e = expected_step(m, pu, recs, u) if u in tr else pu[u]
        for s in m.dom[u]: check(close(new[u][s], e[s], 1e-7), f"distribution of {u}", at=s, got=new[u][s], expected=e[s])
    others_same(m, em.model, m.exo)

def bn(rng, log):
    """a Bayesian network with hidden roots and non-deterministic tables"""
    net = rnd_net(rng, n=rng.choice([2, 3, 4]), vtype="numpy", zeros=False, kinds=["str", "range"], mincard=2)
    roots = [v for v in net.dom if not list(net.dag.predecessors(v))]
    hid = rng.sample(roots, rng.randint(1, len(roots)))
    obs = [v for v in net.dom if v not in hid]
    if not obs: return
    recs = [{v: rng.choice(net.dom[v]) for v in obs} for _ in range(rng.choice([1, 3, 5]))]
    data = pd.DataFrame(recs, columns=shuffled(rng, obs))
    log.update(net=net, hidden=hid, data=recs, cpt={v: c.flat() for v, c in net.cpt.items()})
    em = ExpectationMaximization(net.model); em.initialize(data); em.step()
    check(set(em.trainable_vars) == set(hid), "learned variables", got=em.trainable_vars)
    for u in hid:
        acc = {s: 0.0 for s in net.dom[u]}
        for r in recs:
            post, z = net.posterior([u], r)
            for s in acc: acc[s] += post.get((s,), 0.0) / len(recs)
        for s in acc: check(close(em.model.factors[u].get_value(**{u: s}), acc[s], 1e-7), f"distribution of {u}", at=s, got=em.model.factors[u].get_value(**{u: s}), expected=acc[s])
    for v in obs: expect_table(em.model.factors[v], net.cpt[v].dom, net.cpt[v].at, f"table of {v}", order=False)

def again(rng, log):
    """the same learner is run twice: the second run is as the first one of a new learner"""
    m = model(rng); data, recs = rnd_data(rng, m, 4); other, recs2 = (data, recs) if rng.random() < .5 else rnd_data(rng, m, 3)
    log.update(scm=m, data=recs, other=recs2); k, n = rng.choice([1, 2]), rng.choice([2, 3])
    em = ExpectationMaximization(m.model); em.run(data, max_iter=k); em.run(other, max_iter=n)
    new = ExpectationMaximization(m.model); new.run(other, max_iter=n)
    check(len(em.model_evolution) == len(new.model_evolution), "recorded steps of a second run", got=len(em.model_evolution), expected=len(new.model_evolution))
    for A, B in zip(em.model_evolution, new.model_evolution):
        for u in m.exo:
            for s in m.dom[u]: check(close(A.factors[u].get_value(**{u: s}), B.factors[u].get_value(**{u: s}), 1e-9), f"distribution of {u} in a second run", at=s)

def shared(rng, log):
    """two hidden roots with one observed child: a variable that a step leaves as it is changes in a later step"""
    k = rng.choice([2, 3]); dag = nx.DiGraph([("U", "X"), ("V", "X")]); S = list(range(k)); off = rng.randrange(k)
    fx = DeterministicFactor(dict(X=S, U=S, V=S), left_vars=["X"], values=[(u + v + off) % k for u in S for v in S])
    w = [rng.randint(1, 9) for _ in S]; pu = [x / sum(w) for x in w]; pv = [1 / k] * k
    if rng.random() < .5: pu, pv = pv, pu
    M = StructuralCausalModel(dag, [fx, MultinomialFactor(dict(U=S), pu), MultinomialFactor(dict(V=S), pv)], cast_multinomial=True)
    xs = [rng.randrange(k) for _ in range(rng.randint(2, 6))]; n = rng.choice([3, 4]); log.update(k=k, offset=off, pu=pu, pv=pv, data=xs, max_iter=n)
    em = ExpectationMaximization(M); em.run(pd.DataFrame(dict(X=xs)), max_iter=n)
    for A, B in zip(em.model_evolution, em.model_evolution[1:]):
        a, b = ([num(A.factors[u].get_value(**{u: s})) for s in S] for u in "UV")
        z = {x: sum(a[u] * b[v] for u in S for v in S if (u + v + off) % k == x) for x in set(xs)}
        for q, ind in (("U", 0), ("V", 1)):
            for s in S:
                e = sum(sum(a[u] * b[v] for u in S for v in S if (u + v + off) % k == x and (u, v)[ind] == s) / z[x] for x in xs) / len(xs)
                check(close(B.factors[q].get_value(**{q: s}), e, 1e-8), f"distribution of {q}", at=s, got=B.factors[q].get_value(**{q: s}), expected=e)

FAMILIES = dict(again=again, shared=shared, step=step, run=run, partial=partial, bn=bn)

"""C12 probabilities of causation."""
from .common import *
from bcause.inference.causal.elimination import CausalVariableElimination
from bcause.inference.causal.multi import CausalMultiInference
import bcause.util.domainutils as dutil
COUNTS = dict(pns=70, identify=120, multi=20)

def truth(m, c, e, tc, fc, te, fe):
    pn = [0, 0]; ps = [0, 0]; pns = 0.0; z = 0.0
    for u, p in m.exo_space():
        w = m.worlds({}, u); wt = m.worlds({c: tc}, u); wf = m.worlds({c: fc}, u)
        z += p
        if w[c] == tc and w[e] == te:
            pn[1] += p; pn[0] += p * (wf[e] == fe)
        if w[c] == fc and w[e] == fe:
            ps[1] += p; ps[0] += p * (wt[e] == te)
        pns += p * (wf[e] == fe and wt[e] == te)
    return pn[0] / pn[1] if pn[1] > 0 else None, ps[0] / ps[1] if ps[1] > 0 else None, pns / z

def auto(v, d):
    """true and false state as documented: 1/0 for numbers, name1/name0 or name1/name2 for text"""
    if len(d) != 2: return None
    if isinstance(d[0], str):
        low = [s.lower() for s in d]; n = v.lower()
        if set(low) == {n + "1", n + "0"}: return d[low.index(n + "1")], d[low.index(n + "0")]
        if set(low) == {n + "1", n + "2"}: return d[low.index(n + "1")], d[low.index(n + "2")]
        return None
    if type(d[0]) in (int, float) and set(d) == {0, 1}: return d[d.index(1)], d[d.index(0)]
    return None

def rnd_model(rng):
    for _ in range(50):
        m = rnd_scm(rng, n_endo=rng.choice([2, 2, 3]), build=False)
        m.dom = dict(m.dom)
        break
    return m

def binary_scm(rng):
    kinds = rng.choice([["range"], ["str"], ["range", "str"]])
    return rnd_scm(rng, n_endo=rng.choice([2, 2, 3]), maxcard=2, kinds=kinds)

def pns(rng, log):
    explicit = rng.random() < .5
    m = rnd_scm(rng, n_endo=rng.choice([2, 2, 3])) if explicit else binary_scm(rng)
    c, e = rng.sample(m.endo, 2)
    kw = {}
    if explicit:
        tc, fc = rng.sample(m.dom[c], 2); te, fe = rng.sample(m.dom[e], 2)
        kw = dict(true_false_cause=(tc, fc), true_false_effect=(te, fe))
    else:
        (tc, fc), (te, fe) = auto(c, m.dom[c]), auto(e, m.dom[e])
    log.update(scm=m, cause=c, effect=e, states=(tc, fc, te, fe), explicit=explicit)
    pn, ps, pns_ = truth(m, c, e, tc, fc, te, fe)
    inf = CausalVariableElimination(m.model)
    r = inf.prob_necessity_sufficiency(c, e, **kw)
    check(close(r, pns_, 1e-7), "probability of necessity and sufficiency", got=r, expected=pns_)
    if pn is not None:
        r = inf.prob_necessity(c, e, **kw); check(close(r, pn, 1e-7), "probability of necessity", got=r, expected=pn)
    if ps is not None:
        r = inf.prob_sufficiency(c, e, **kw); check(close(r, ps, 1e-7), "probability of sufficiency", got=r, expected=ps)

def identify(rng, log):
    v = rng.choice(["X", "Yy", "V1", "a"])
    n = v if rng.random() < .5 else v.lower()
    d = rng.choice([[0, 1], [1, 0], [1.0, 0.0], [f"{n}0", f"{n}1"], [f"{n}1", f"{n}0"], [f"{n}1", f"{n}2"], [f"{n}2", f"{n}1"], [f"{n.upper()}1", f"{n.upper()}0"],
                    [0, 1, 2], [0, 2], [3, 4], ["a", "b"], [f"{n}0", "zz"], [0, "1"], [f"{n}0", f"{n}1", f"{n}2"], [f"{n}0", f"{n}2"], [1], [f"{n}1"], [f"{n.upper()}1", f"{n.lower()}1"], [f"{n.upper()}0", f"{n.lower()}0"]])
    d = shuffled(rng, d)
    log.update(var=v, dom=d)
    e = auto(v, d) if len({type(x) for x in d}) == 1 else None
    if e is None: raises(lambda: dutil.identify_true_false(v, d), "states that cannot be identified were accepted", ValueError)
    else:
        g = dutil.identify_true_false(v, d)
        check(tuple(g) == tuple(e), "true and false states", got=g, expected=e)

def multi(rng, log):
    m = binary_scm(rng)
    c, e = rng.sample(m.endo, 2)
    (tc, fc), (te, fe) = auto(c, m.dom[c]), auto(e, m.dom[e])
    log.update(scm=m, cause=c, effect=e)
    pn, ps, pns_ = truth(m, c, e, tc, fc, te, fe)
    inf = CausalMultiInference([m.model, m.model])
    r = inf.prob_necessity_sufficiency(c, e)
    check(len(r) == 2 and close(r[0], pns_, 1e-7) and close(r[1], pns_, 1e-7), "PNS over several models", got=r, expected=pns_)

FAMILIES = dict(pns=pns, identify=identify, multi=multi)

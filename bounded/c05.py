"""C05 purity and absence of aliasing."""
import operator, copy
from .common import *
from .c10 import rnd_do
from .c11 import rnd_evidence
COUNTS = dict(factor_ops=220, alias=160, build_alias=100, models=60, queries=50, args=40, learning=12, conversions=25, datafns=40)

def ops(rng, fs):
    """a random operation on the factors fs; returns (description, result)"""
    f, g = rng.choice(fs), rng.choice(fs)
    d = dict(f.domain)
    k = rng.choice(["+", "-", "*", "/", "s*", "s-", "restrict", "sum", "max", "rename", "read", "multi", "copy", "sample", "prob", "det"])
    if k in "+-*/": return k, {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[k](f, g)
    if k == "s*": return k, 2.0 * f
    if k == "s-": return k, f - 1
    vs = rng.sample(list(d), rng.randint(1, len(d))) if d else []
    if k == "restrict": return k, f.restrict(**{v: rng.choice(d[v]) for v in vs})
    if k == "sum": return k, f.marginalize(*vs)
    if k == "max": return k, (f.maxmarginalize(*vs) if f.vtype != "numpy1d" else None)
    if k == "rename": return k, f.rename_vars({v: v + "r" for v in vs})
    if k == "multi": return k, (f.restrict(**{v: rng.sample(d[v], rng.randint(1, len(d[v]))) for v in vs}) if f.vtype == "numpy" else None)
    if k == "copy": f.store.copy(); return k, None
    if k == "read":
        f.values_array(shuffled(rng, list(d)) or None); f.values_dict; f.values_list; repr(f); f.name; f.left_domain; f.right_domain; f.is_degenerate()
        return k, None
    if k == "prob": f.prob([{v: rng.choice(d[v]) for v in d}]); return k, None
    return k, None

def rnd_set(rng, vtype, n=2):
    pool = names(rng, 3); dom = domain(rng, pool, 3)
    out = []
    for _ in range(n):
        vs = rng.sample(pool, rng.randint(1, 3))
        out.append(rnd_factor(rng, dom={v: dom[v] for v in vs}, vtype=vtype, mode="nonzero")[0])
    return out

def factor_ops(rng, log):
    vtype = rng.choice(STORES)
    fs = rnd_set(rng, vtype); hist = []
    log.update(vtype=vtype, doms=[dict(f.domain) for f in fs], values=[list(f.values) for f in fs], ops=hist)
    snap = [snapshot_factor(f) for f in fs]
    for _ in range(rng.randint(1, 4)):
        k, r = ops(rng, fs); hist.append(k)
        for i, (f, s) in enumerate(zip(fs, snap)):
            check(snapshot_factor(f) == s, f"operation {k} modified factor {i}", before=s, after=snapshot_factor(f))
        if r is not None and len(fs) < 5 and all(f is not r for f in fs) and set(r.domain) <= set().union(*[f.domain for f in fs]) \
                and all(list(r.domain[v]) == list(f.domain[v]) for f in fs for v in r.domain if v in f.domain) and all(num(x) != 0 for x in r.values):
            fs.append(r); snap.append(snapshot_factor(r))

def alias(rng, log):
    """writing into a result does not show through in the operands, and the other way round"""
    vtype = rng.choice(STORES)
    fs = rnd_set(rng, vtype)
    k, r = ops(rng, fs)
    log.update(vtype=vtype, op=k, doms=[dict(f.domain) for f in fs], values=[list(f.values) for f in fs])
    if r is None or any(r is f for f in fs): return
    snap = [snapshot_factor(f) for f in fs]
    for a in list(assignments(dict(r.domain)))[:6] if r.domain else []:
        r.store.set_value(1234.5, a)
    for f, s in zip(fs, snap): check(snapshot_factor(f) == s, f"writing into the result of {k} modified an operand", before=s, after=snapshot_factor(f))
    rs = snapshot_factor(r)
    for f in fs:
        for a in list(assignments(dict(f.domain)))[:6]: f.store.set_value(-77.0, a)
    check(snapshot_factor(r) == rs, f"writing into an operand modified the result of {k}", before=rs, after=snapshot_factor(r))

def build_alias(rng, log):
    dom = domain(rng, names(rng, rng.randint(1, 3)), 3)
    raw = raw_table(rng, dom); vtype = rng.choice(STORES)
    form = rng.choice(["flat", "nested", "array", "flatarray"])
    vals = values_arg(rng, raw, form); keep = copy.deepcopy(vals)
    d = {v: list(s) for v, s in dom.items()}; d0 = copy.deepcopy(d)
    L = rng.sample(list(dom), rng.randint(1, len(dom))); L0 = list(L)
    log.update(dom=dom, vtype=vtype, form=form, values=raw.flat(), left=L)
    f = MultinomialFactor(d, vals, left_vars=L, vtype=vtype)
    check(np.array_equal(np.asarray(vals), np.asarray(keep)) and d == d0 and L == L0, "construction modified its arguments")
    sv = vals if vtype != "numpy" or form in ("nested", "array") else np.reshape(vals, [len(x) for x in dom.values()])
    g = store_dict[vtype](data=sv, domain=d)
    s = snapshot_factor(f)
    a = {v: rng.choice(x) for v, x in dom.items()}
    f.store.set_value(55.0, a)
    check(np.array_equal(np.asarray(vals), np.asarray(keep)), "writing into a factor modified the values it was built from")
    for b in assignments(dom): check(close(g.get_value(**b), raw.at(b)), "two storages built from the same values share them")
    s = snapshot_factor(f)
    arr = vals
    if isinstance(arr, np.ndarray): arr[...] = -1.0
    else:
        while isinstance(arr[0], list): arr = arr[0]
        arr[0] = -1.0
    check(snapshot_factor(f) == s, "writing into the values a factor was built from modified it")
    for b in assignments(dom): check(close(g.get_value(**b), raw.at(b)), "writing into the values a storage was built from modified it")
    p = f * 1.0
    vl = f.values_list
    if isinstance(vl, list) and vl: vl[0] = 99999.0
    va = f.values_array()
    if va.ndim: va.flat[0] = 99999.0
    check(snapshot_factor(f) == s, "writing into a list or array of values modified the factor")

def models(rng, log):
    m = rnd_scm(rng)
    s = snapshot_model(m.model); M = m.model
    do = rnd_do(rng, m)
    k = rng.choice(["do", "rename", "copy", "submodel", "multinomial", "bnet", "random", "props", "sample", "q", "fusion", "min"])
    log.update(scm=m, op=k)
    if k == "do":
        d0 = dict(do); M.intervention(**do)
    elif k == "rename":
        mp = {v: v + "z" for v in rng.sample(list(m.dom), rng.randint(1, len(m.dom)))}; mp0 = dict(mp); M.rename_vars(mp); check(mp == mp0, "the mapping changed")
    elif k == "copy":
        c = M.copy(); u = rng.choice(m.exo); c.set_factor(u, MultinomialFactor({u: m.dom[u]}, [1.0 / len(m.dom[u])] * len(m.dom[u])))
    elif k == "submodel":
        ns = rng.sample(list(m.dom), 1); ns = [v for v in m.exo]; n0 = list(ns); M.submodel(ns); check(ns == n0, "the node list changed")
    elif k == "multinomial": M.to_multinomial()
    elif k == "bnet": M.to_bnet()
    elif k == "random": M.randomize_factors(list(m.exo), allow_zero=rng.random() < .5)
    elif k == "props":
        for v in m.dom: M.get_parents(v); M.get_children(v); M.markov_blanket(v); M.get_domains([v]); M.get_varsizes(v)
        M.endogenous; M.exogenous; M.endo_graph; M.exo_graph; M.ccomponents; M.exo_ccomponents; M.endo_ccomponents; M.qgraph; M.domains; M.varsizes; M.get_dag_str(); repr(M)
        M.get_ccomponent(m.exo[0]); M.get_exo_ccomponent(m.exo[0]); M.get_endo_ccomponent(m.exo[0])
        # what is returned can be modified freely
        M.variables.append("q"); M.domains.clear(); M.varsizes.clear(); M.factor_list.clear(); M.exogenous.append("q")
    elif k == "sample":
        T = M.to_multinomial(); st = snapshot_model(T); T.sample(2); check(snapshot_model(T) == st, "sampling modified the model")
    elif k == "q":
        try: M.to_multinomial().get_qfactorisation()
        except (ZeroDivisionError,): pass
    elif k == "fusion":
        from bcause.models.transform.combination import fusion_roots
        M2 = M.intervention(**do).rename_vars({v: v + "_1" for v in m.endo}); s2 = snapshot_model(M2)
        on = M.exogenous; on0 = list(on); ms = [M, M2]
        fusion_roots(ms, on=on, endogenous=list(M.endogenous) + list(M2.endogenous))
        check(snapshot_model(M2) == s2 and on == on0 and len(ms) == 2, "fusion modified its arguments")
    else:
        from bcause.models.transform.simplification import minimalize
        t = rng.choice(m.endo); ev = rnd_evidence(rng, m, {t}, {}, 1); e0 = dict(ev); tl = [t]
        T = M.to_multinomial(); st = snapshot_model(T); minimalize(T, tl, ev); check(snapshot_model(T) == st and ev == e0 and tl == [t], "simplification modified its arguments")
    check(snapshot_model(M) == s, f"{k} modified the model", before=s, after=snapshot_model(M))
    # read-only use of the factors list / graph copies
    if k == "copy": check(True, "")

def queries(rng, log):
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.inference.causal.multi import CausalMultiInference
    from bcause.inference.probabilistic.elimination import VariableElimination
    m = rnd_scm(rng, n_endo=rng.choice([2, 3])); M = m.model; s = snapshot_model(M)
    do = rnd_do(rng, m, 1); ts = [v for v in m.endo if v not in do]; t = [rng.choice(ts)]
    ev = rnd_evidence(rng, m, set(t) | set(do), do, 1)
    args = dict(do=dict(do), t=list(t), ev=dict(ev))
    k = rng.choice(["causal", "cf", "prob", "multi", "pn", "cflist"])
    log.update(scm=m, kind=k, do=do, target=t, evidence=ev)
    if k == "causal": CausalVariableElimination(M).causal_query(t, do, ev)
    elif k == "cf":
        ev2 = rnd_evidence(rng, m, set(), {}, 1); e0 = dict(ev2); CausalVariableElimination(M).counterfactual_query(t, do, ev2); check(ev2 == e0, "the evidence changed", got=ev2)
    elif k == "cflist":
        dl = [do, do]; sub = [1]; CausalVariableElimination(M).counterfactual_query(t, dl, targets_subgraphs=sub); check(dl == [args["do"]] * 2 and sub == [1], "the list of interventions changed")
    elif k == "prob":
        T = M.to_multinomial(); st = snapshot_model(T)
        ev2 = rnd_evidence(rng, m, set(t), {}, 1); e0 = dict(ev2); c = [v for v in m.endo if v not in t and v not in ev2][:1]; c0 = list(c)
        q = VariableElimination(T)
        if m.vtype == "numpy": q.query(t, c, ev2)
        q.query(t, evidence=ev2); check(ev2 == e0 and c == c0 and snapshot_model(T) == st, "a query modified the model or its arguments")
    elif k == "multi":
        ms = [M, M.randomize_factors(m.exo, allow_zero=False) if m.vtype == "numpy" else M.copy()]; s1 = snapshot_model(ms[1]); l0 = list(ms)
        inf = CausalMultiInference(ms); inf.causal_query(t, do); more = [M]; inf.add_models(more); inf.causal_query(t, do)
        inf.set_models(ms); inf.add_models([M])
        check(len(ms) == 2 and all(a is b for a, b in zip(ms, l0)) and len(more) == 1, "the list of models changed"); check(snapshot_model(ms[1]) == s1, "a query over several models modified one")
    else:
        tf = lambda v: (m.dom[v][0], m.dom[v][1]); CausalVariableElimination(M).prob_necessity_sufficiency(list(do)[0], t[0], tf(list(do)[0]), tf(t[0]))
    check(snapshot_model(M) == s, f"query {k} modified the model"); check(do == args["do"] and t == args["t"] and ev == args["ev"], "a query modified its arguments", do=do, t=t, ev=ev)

def args(rng, log):
    """construction of models does not modify the graph, the dictionaries or the lists"""
    m = rnd_scm(rng, build=False)
    fac = dict(m.factors); dag = m.dag; s = (list(dag.nodes), list(dag.edges)); fs = {v: snapshot_factor(f) for v, f in fac.items()}
    endo = list(m.endo)
    log.update(scm=m)
    M = StructuralCausalModel(dag, fac, endogenous=endo, cast_multinomial=rng.random() < .5)
    check(list(fac) == list(m.factors) and all(fac[v] is m.factors[v] for v in fac), "the dictionary of tables changed")
    check((list(dag.nodes), list(dag.edges)) == s, "the graph changed"); check(endo == m.endo, "the list of endogenous variables changed")
    for v in fac: check(snapshot_factor(fac[v]) == fs[v], "a table changed", variable=v)
    d0 = {v: list(x) for v, x in m.dom.items()}
    N = StructuralCausalModel(dag, endogenous=list(m.endo)); N.fill_random_factors(m.dom)
    check(m.dom == d0, "the domains changed")
    B = BayesianNetwork(dag); B.randomize_factors(m.dom)
    check(m.dom == d0 and (list(dag.nodes), list(dag.edges)) == s, "the domains or the graph changed")

def learning(rng, log):
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    from bcause.inference.causal.multi import EMCC
    m = rnd_scm(rng, n_endo=2, one_exo=True, vtype="numpy", deterministic=False, zeros=False, maxcard=2)
    data, recs = rnd_data(rng, m, 6); d0 = data.copy(deep=True); s = snapshot_model(m.model)
    k = rng.choice(["em", "gd", "emcc", "ll", "emt"])
    log.update(scm=m, kind=k, data=recs)
    if k == "em": e = ExpectationMaximization(m.model); e.run(data, max_iter=2)
    elif k == "emt":
        tv = list(m.exo); e = ExpectationMaximization(m.model, trainable_vars=tv); e.run(data, max_iter=2); check(tv == list(m.exo), "the trainable variables changed")
    elif k == "gd": GradientLikelihood(m.model).run(data, max_iter=2)
    elif k == "emcc": EMCC(m.model, data, num_runs=1, max_iter=1).compile()
    else: m.model.log_likelihood(data); m.model.get_qfactorisation(data)
    check(snapshot_model(m.model) == s, f"learning ({k}) modified the prior model")
    check(list(data.columns) == list(d0.columns) and data.equals(d0), f"learning ({k}) modified the data", columns=list(data.columns))

def conversions(rng, log):
    import tempfile
    from bcause.conversion.pgmpy import toPgmpyBNet
    net = rnd_net(rng, n=rng.choice([1, 2, 3]), kinds=["str"]); s = snapshot_model(net.model)
    log.update(net=net)
    k = rng.choice(["pgmpy", "uai"])
    if k == "pgmpy": toPgmpyBNet(net.model)
    else:
        with tempfile.TemporaryDirectory() as d:
            o = shuffled(rng, list(net.dom)); o0 = list(o); net.model._writer.to_uai(net.model, os.path.join(d, "m.uai"), var_order=o); check(o == o0, "the variable order changed")
    check(snapshot_model(net.model) == s, "conversion modified the model")
    m = rnd_scm(rng, deterministic=True); x = rng.choice(m.endo); f = det_factor(rng, m, x); s = snapshot_factor(f)
    g = f.to_multinomial(); sg = snapshot_factor(g); g.to_deterministic(); f.constant(m.dom[x][0]); g.constant(m.dom[x][0])
    check(snapshot_factor(f) == s and snapshot_factor(g) == sg, "conversion of a function modified it")

def datafns(rng, log):
    from bcause.util.datautils import to_counts, filter_data
    from bcause.inference.probabilistic.datainference import LaplaceInference
    dom = domain(rng, names(rng, 3), 3, kinds=["str"])
    df = pd.DataFrame([{v: rng.choice(d + ([None] if rng.random() < .2 else [])) for v, d in dom.items()} for _ in range(6)], columns=list(dom))
    d0, dom0 = df.copy(deep=True), {v: list(d) for v, d in dom.items()}
    log.update(dom=dom, data=df.to_dict("records"))
    to_counts(dom, df, normalize=rng.random() < .5); v = list(dom)[0]; ev = {v: df[v].dropna().iloc[0]} if df[v].notna().any() else {}
    e0 = dict(ev); filter_data(df, ev)
    t = [list(dom)[1]]; LaplaceInference(df, dom).query(t, evidence=ev)
    cols = list(dom)
    fr = df.dropna().drop_duplicates()
    check(df.equals(d0) and dom == dom0 and ev == e0 and t == [list(dom)[1]], "a data function modified its arguments", dom=dom)

FAMILIES = dict(factor_ops=factor_ops, alias=alias, build_alias=build_alias, models=models, queries=queries, args=args, learning=learning, conversions=conversions, datafns=datafns)

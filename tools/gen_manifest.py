"""writes MANIFEST.json (levels are kept in LEVELS below)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
_P = "every obligation generated from the current source is discharged (z3) for all inputs: {}. Outside the proof, checked by bounded runs beside it and never counted as proved: {}"
PROOF = {   # property -> level note of the deductive part
 "C01": _P.format("combination, product, sum, difference and quotient (methods and operators, scalars on either side) of tree and numpy storages and of MultinomialFactor", "list and 1-d array storages, mixed storages"),
 "C02": _P.format("summing and maximising out in tree and numpy storages and in MultinomialFactor", "list and 1-d array storages"),
 "C03": _P.format("restriction of tree and numpy storages and of MultinomialFactor to single states", "list and 1-d array storages, observations that list several states"),
 "C04": _P.format("construction of tree and numpy storages and of MultinomialFactor from arrays, nested data and scalars; reading and writing a value; copying; lists and arrays of values in a requested order", "list and 1-d array storages, dictionaries of values, renaming"),
 "C05": _P.format("frame of every function under contract of C01-C04, C06, C10, C12, C14, C15, C23: operands, models, arguments unchanged; results share no memory", "queries, learning, reading of properties"),
 "C06": _P.format("left and right variables of MultinomialFactor: construction and every operation", "deterministic and interval factors, renaming"),
 "C07": _P.format("ProbabilisticInference.compile and query (what is refused, what is kept and simplified, whatever an earlier query left; conditioning), VariableElimination: constructor, the elimination loop for any number of variables and tables, evidence and normalisation, the elimination order", "assumed and checked by comparison with the joint distribution: the factor out of the sum and the normalisation of products of conditional tables (laws of finite sums), that the simplified model gives the same posterior (C08)"),
 "C08": _P.format("minimalize: what is kept, what may be dropped and the tables of the result; submodel, barren nodes, d-separated and disconnected nodes", "that dropping such variables keeps the posterior (a theorem about the structural result)"),
 "C09": _P.format("the greedy loop of the elimination orders (each variable exactly once, one of least cost in the current moral graph, fill-in arcs and removal), for any graph and cost function; the three cost functions; the fill-in arcs; the three heuristics; the heuristic that variable elimination uses; the loop over any order (C07)", "networkx's moral graph and its changes, heuristics given by the user"),
 "C10": _P.format("StructuralCausalModel.intervention with the constructors and graph functions it uses, set_factor, the constant factor", "interventions through inference objects and readers"),
 "C12": _P.format("probabilities of necessity, sufficiency, and both: the query they ask and the value taken from its answer; identification of true and false states", "the counterfactual query itself (C11), the same over several models"),
 "C14": _P.format("set_factor of models and structural models, construction from tables and graph, copy, submodel; the readers of roles (endogenous, exogenous, parents, children among them)", "renaming, textual graphs"),
 "C15": _P.format("deterministic functions: construction from arrays, lists and tables, evaluation, constants, conversion to and from probability tables, refusal of a table that is no function", "canonical equations of every function, functions from data frames, conversion of whole models"),
 "C16": _P.format("expected counts (sum over the observations of count times posterior), maximisation, update and recording of the model, one step, initialisation, number of steps of a run; assumed contracts: the posterior query, the counting of observations, the test of convergence", "the assumed contracts; that the likelihood never decreases (the theorem of EM about the proved update), through real runs"),
 "C17": _P.format("interval factors: construction from precise ones (lower and upper bound are minimum and maximum at every assignment; other domains refused), constructor, restriction, bounds, domain, variables and sides; several models: which are kept, that each answers exactly the query, the envelope or list of the answers, probabilities of necessity and sufficiency", "models learned from data (EMCC, GDCC), the posterior query of one model (C07, C11), interval factors given as lists"),
 "C23": _P.format("removal of arcs and nodes, barren nodes, relevant variables, d-separated and d-connected nodes, connectivity, Markov blankets", "textual graphs; networkx's own d-separation and reachability"),
}
PARTIAL = {     #
 "C20": "deductive obligations (all discharged) for MultinomialFactor._sample (a state of every variable, in an assignment of positive value), sample (as many as asked for), sample_conditional (one per observation, in order, from the table restricted to it), forward_sampling (loop invariant: each variable is drawn once, given all the earlier ones in a topological order, its parents among them), DiscreteDAGModel.sample and StructuralCausalModel.sampleEndogenous (variables, size and form of the answer); assumed: numpy's choice returns an element of positive probability, pandas' frames keep rows and columns; that structural samples follow their equations is decided by the bounded part",
 "C21": "deductive obligations (all discharged) for the query on data: LaplaceInference.compile and run (what is refused, which records and columns are kept, that the fractions over exactly the targets with their domains are asked for) and filter_data (loop invariant: exactly the records with the observed states); assumed: to_counts (pandas), which is decided by the bounded part",
 "C22": "deductive obligations (all discharged) for the objective (loop invariants: minus the sum of count times logarithm of probability, infinite exactly for impossible observations), the probabilities of the states given the equations, the keys of the tables, the parents conditioned on, which variables get a table and that it holds the fitted parameters, update of the model; assumed: the counts (pandas) and scipy's optimiser, decided by the bounded part",
 "C13": "deductive obligations (all discharged) for the endogenous and exogenous graphs, the components of a variable and of the model, and for get_qfactors (which query is asked for every variable of the component) and get_qgraph (loop invariants: exactly the arcs from earlier members of the component and earlier endogenous parents of its members); that the product of these tables is the observational distribution, the factorisation of the model and the likelihood are decided by the bounded part",
 "C11": "deductive obligations (all discharged) for CausalInference.query: which model, targets and evidence the query is about (assumed: renaming and joining models); the answer itself is decided by the bounded part",
}
BOUNDED = ("bounded stand-in: the real code is run on generated inputs (stated sizes in DESIGN.md) against brute-force oracles of the contracts; nothing is proved for this property")
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"python3 checks/run.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 checks/run.py {i}",
        technique="contract-based deductive verification (VC generation from the real source, z3) with a bounded contract check beside it" if i in PROOF or i in PARTIAL else "bounded run-time check of the contracts on the real code (stand-in for deductive verification)",
        level="proof" if i in PROOF else "exploration", level_note=PROOF.get(i) or PARTIAL.get(i) or BOUNDED))
json.dump(dict(version=1, setup_cmd="python3 checks/setup.py", checks=checks, not_applicable=[]), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

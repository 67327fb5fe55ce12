"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = state
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

F="bcause/factors/"; V=F+"values/"
p("C01","Factor arithmetic is pointwise over the union of the two domains",
  "For any two discrete factors kept in the same kind of storage, and for any factor and scalar on either side, +, -, * and / yield a factor over the union of both sets of variables (those of the left operand first, in their order) whose value at every joint assignment is that operation on the two operands' values at it. This holds whatever the overlap and order of the variables, their cardinalities and state labels, and the storage. Operands in different kinds of storage are rejected.",
  ["inputs"],"all pairs of factors / scalars, all overlaps, orders, cardinalities, state types and storages",
  "Tests combine a few fixed 2- and 3-variable factors; alignment errors only show for particular overlaps, orders or sizes.",
  [F+"mulitnomial.py",V+"numpyops.py",V+"listops.py",V+"treedictops.py",V+"operations.py"],
  [("domain union, extension and axis reordering",V+"numpyops.py:_generic_combine"),("tree combination",V+"treedictops.py:_combine_dict"),("index arithmetic",V+"listops.py:_generic_combine"),("generic loop",V+"operations.py:_generic_combine"),("scalars become constant factors",F+"mulitnomial.py:_prepare_operand")],
  ["MultinomialFactor operators"])
p("C02","Marginalising sums (or maximises) exactly the removed variables out",
  "Removing a set of variables from a factor by summation, or by maximisation, yields a factor over exactly the remaining variables in their original order, whose value at each assignment is the sum (respectively the maximum) of the original values over all assignments of the removed variables. The order in which the variables are listed does not matter, and removing all of them leaves the total (or the overall maximum). Storages that do not support maximisation say so instead of answering.",
  ["inputs"],"all factors, all subsets of variables to remove, all storages",
  "Tests marginalise a handful of small factors; axis/index mistakes need a specific shape, position or number of removed variables.",
  [F+"mulitnomial.py",V+"numpyops.py",V+"listops.py",V+"treedictops.py",V+"operations.py"],
  [("axis selection",V+"numpyops.py:marginalize"),("index iterators",V+"listops.py:marginalize"),("tree reduction with leaf scaling",V+"treedictops.py:_marginalize_dict"),("sum of restrictions",V+"operations.py:marginalize")])
p("C03","Restriction selects the slice of the observed states and nothing else",
  "Restricting a factor to an observation removes exactly the observed variables and keeps the value at every assignment compatible with the observation; variables that the factor lacks are ignored. Where an observation may list several states, the variable stays, with exactly these states in the order of its domain and the values that belong to them. A state outside the domain is rejected instead of yielding values.",
  ["inputs"],"all factors, observations (partial, full, irrelevant variables, several states), storages",
  "Tests restrict one or two variables of small factors with states 0..k; wrong slices need other positions, labels or mixtures of single and listed states.",
  [F+"mulitnomial.py",V+"numpyops.py",V+"listops.py",V+"treedictops.py",V+"numpystore.py","bcause/util/domainutils.py"],
  [("index tuple and take",V+"numpyops.py:restrict"),("mixed-radix index iterator","bcause/util/domainutils.py:index_iterator"),("tree descent",V+"treedictops.py:_restrict_dict")])
p("C04","All storages read, write and enumerate the same values for the same input",
  "A factor built from values given flat, nested, as an array or as one scalar has the same value at every assignment in every kind of storage: the one at its position in row-major order of the domain. Lists, dictionaries and arrays of values follow the requested variable order, writing a value changes the value at that assignment and at no other, and a copy or a renaming keeps all values. Values that do not fit the domain are rejected by array and list storages.",
  ["inputs","histories"],"all domains, value layouts, write sequences, variable orders and storages",
  "Tests compare storages on fixed examples; index and layout errors depend on the shape, the order and the write history.",
  [V+"store.py",V+"numpystore.py",V+"liststore.py",V+"treedictstore.py","bcause/util/domainutils.py","bcause/util/treesutil.py",F+"factor.py"],
  [("mixed-radix steps","bcause/util/domainutils.py:steps"),("assignment enumeration","bcause/util/domainutils.py:assingment_space"),("tree construction","bcause/util/treesutil.py:build_default_tree"),("writing",V+"treedictstore.py:set_value")])
p("C05","Operations never modify their operands, models, arguments or user data",
  "No factor operation, query, intervention, conversion, learning run or read of a property changes an operand, a model, or a list, dictionary, array or data frame that the user passed in. Writing into a result, or into an array from which a factor was built, does not show through in any other factor.",
  ["inputs","histories"],"all sequences of operations and writes on factors, models and data",
  "Tests check results, hardly ever that inputs are unchanged; aliasing shows only when a later write follows a particular operation.",
  [V+"store.py",V+"numpystore.py",V+"treedictstore.py","bcause/models/cmodel.py","bcause/inference/causal/multi.py","bcause/learning/parameter/expectation_maximization.py"],
  [("copies at construction",V+"numpystore.py:__init__"),("copy on write",V+"treedictstore.py:set_value"),("copy of the DAG before surgery","bcause/util/graphutils.py:remove_ingoing_edges"),("copy of the data","bcause/learning/parameter/expectation_maximization.py:_process_data")])
p("C06","Factors keep track of which variables are conditioned on",
  "The left and right variables of a factor always partition its variables. In a product, sum or difference a variable is on the left iff it is on the left of some operand that has it; in a quotient the variables of the divisor and the right variables of the dividend are on the right; restriction and marginalisation keep each remaining variable on its side. Left or right variables that contradict each other or the domain are rejected at construction, and a single one may be given by its name.",
  ["inputs"],"all factors, left/right specifications, operations and operand combinations",
  "Tests look at the sides of a few products; elimination relies on them for every intermediate factor.",
  [F+"factor.py",F+"mulitnomial.py"],
  [("side assignment",F+"factor.py:set_variables"),("right variables of results",F+"mulitnomial.py:multiply/divide/restrict/marginalize")])
p("C07","Variable elimination returns the exact posterior for any network and query",
  "For every discrete Bayesian network with normalised tables, every target, evidence of positive probability, conditioning set and elimination heuristic, the result of a query equals the conditional probability computed from the full joint distribution. The result ranges over exactly the target (and conditioning) variables and is normalised over the target for every configuration of the conditioning variables of positive probability. Overlapping or unknown targets and evidence are rejected.",
  ["inputs","configurations"],"all networks, targets, evidence, conditioning sets and heuristics",
  "Tests query four small fixed networks; dropped factors or mis-restricted evidence need particular structures.",
  ["bcause/inference/probabilistic/elimination.py","bcause/inference/probabilistic/probabilistic.py","bcause/models/transform/simplification.py","bcause/inference/ordering.py",F+"mulitnomial.py"],
  [("elimination loop","bcause/inference/probabilistic/elimination.py:run"),("conditioning","bcause/inference/probabilistic/probabilistic.py:query"),("evidence","bcause/models/transform/simplification.py:minimalize")])
p("C08","Simplifying a model for a query preserves the answer to that query",
  "The model simplified for a target and evidence keeps all target variables, only drops variables that cannot influence the answer (those without target or evidence descendants, and those separated from the target by the evidence), and yields the same posterior of the target given the evidence as the full model. Its tables are the original ones restricted to the observed parents.",
  ["inputs"],"all networks, targets and evidence",
  "Tests check the reduced graph of a few queries; whether the answer is preserved depends on structure and evidence jointly.",
  ["bcause/models/transform/simplification.py","bcause/util/graphutils.py"],
  [("barren and disconnected nodes","bcause/models/transform/simplification.py:minimalize"),("barren nodes","bcause/util/graphutils.py:_barren_info"),("connectivity","bcause/util/graphutils.py:disconnected_nodes")])
p("C09","Elimination orders list each variable to remove once; the answer is the same",
  "Every elimination heuristic returns each variable to be removed exactly once and no other, choosing at each step one of least cost (number of neighbours, product of sizes, or number of fill-in arcs) in the current moral graph after earlier eliminations. Every heuristic, and any user-supplied order, yields the same answer to a query.",
  ["inputs","configurations"],"all graphs, sets to remove, sizes and heuristics",
  "Tests compare orders on one or two graphs; wrong or partial orders need other graphs.",
  ["bcause/inference/ordering.py","bcause/inference/probabilistic/elimination.py"],
  [("greedy loop","bcause/inference/ordering.py:_get_elim_ordering"),("costs","bcause/inference/ordering.py:cost_functions")])
p("C10","An intervention fixes its variables and leaves the rest of the model alone",
  "Intervening on a structural model cuts exactly the arcs into the intervened variables, replaces their equations by the constant that assigns the given state probability one, and keeps every other arc, equation, marginal, domain and the endogenous/exogenous status of all variables. The original model is unchanged, and a state outside the domain is rejected.",
  ["inputs"],"all structural models and interventions on one or several variables",
  "Tests intervene on single variables of two or three models.",
  ["bcause/models/cmodel.py","bcause/util/graphutils.py",F+"mulitnomial.py",F+"deterministic.py"],
  [("graph surgery","bcause/util/graphutils.py:remove_ingoing_edges"),("constant equations",F+"mulitnomial.py:constant, "+F+"deterministic.py:constant"),("rebuilding","bcause/models/cmodel.py:intervention")])
p("C11","Causal and counterfactual queries equal their structural definition",
  "An interventional query returns the distribution of the target, given the evidence, in the intervened model. A counterfactual query with one or several interventions returns the joint distribution of the targets in their parallel worlds, given the factual evidence, when all worlds share the exogenous variables: the sum over exogenous configurations of their probability times the outcome that the equations dictate in each world, normalised by the evidence.",
  ["inputs"],"all structural models, targets, interventions (also on several variables, on leaves and in several worlds) and evidence of positive probability",
  "Tests check a few numbers on two or three models with one intervention.",
  ["bcause/inference/causal/causal.py","bcause/inference/causal/elimination.py","bcause/models/transform/combination.py","bcause/models/cmodel.py"],
  [("parallel worlds","bcause/inference/causal/causal.py:_preprocess"),("fusion on shared roots","bcause/models/transform/combination.py:fusion_roots"),("renaming of worlds","bcause/models/cmodel.py:rename_vars")])
p("C12","Probabilities of necessity and sufficiency match their definitions",
  "The probabilities of necessity, of sufficiency, and of necessity and sufficiency equal P(effect would be false had the cause been false | cause and effect true), P(effect would be true had the cause been true | cause and effect false), and P(effect false under the false cause and true under the true cause). This holds for every structural model, every choice of true and false states, and for the states identified automatically from integer or name-indexed binary domains; domains where they cannot be identified are rejected.",
  ["inputs"],"all structural models, cause/effect pairs and true/false states",
  "Tests check one model and fixed states.",
  ["bcause/inference/causal/causal.py","bcause/util/domainutils.py"],
  [("query construction","bcause/inference/causal/causal.py:prob_necessity/prob_sufficiency/prob_necessity_sufficiency"),("state identification","bcause/util/domainutils.py:identify_true_false")])
p("C13","Confounded components factorise the observational distribution",
  "The components of a causal model are the classes of variables connected through exogenous variables. The observational factorisation has one conditional table per endogenous variable with an exogenous parent, conditioned on predecessors in a topological order, over an acyclic graph, and the product of these tables equals the marginal of the endogenous variables. The log-likelihood of data is the sum of the logarithms of these probabilities, and from data the tables are the empirical conditional frequencies.",
  ["inputs"],"all causal models in which every endogenous variable has an exogenous parent, and all complete data sets of positive probability",
  "Tests look at two or three fixed models, mostly Markovian or with one confounder.",
  ["bcause/models/info.py","bcause/models/cmodel.py","bcause/models/pgmodel.py"],
  [("component graph","bcause/models/info.py:get_qgraph"),("tables","bcause/models/info.py:get_qfactors"),("likelihood","bcause/models/cmodel.py:log_likelihood")])
p("C14","Models stay consistent: acyclic graph, one valid table per variable, one domain",
  "A model is accepted only if its graph is acyclic and each table has its variable alone on the left, exactly the parents on the right and domains that agree with the ones already known; structural models also require degenerate equations for endogenous variables. Copying, renaming (partly or fully), taking a submodel and building from a textual graph keep variables, arcs, domains, tables and roles. The probability of complete observations is the product of the table entries.",
  ["inputs","histories"],"all graphs, tables, renamings, node subsets and observations",
  "Tests build valid models; invalid or unusual ones (isolated variables, partial renamings, names contained in other names) are hardly sampled.",
  ["bcause/models/pgmodel.py","bcause/models/bnet.py","bcause/models/cmodel.py","bcause/util/graphutils.py"],
  [("validation","bcause/models/pgmodel.py:set_factor"),("builders","bcause/models/cmodel.py:builder, bcause/models/bnet.py:builder"),("renaming","bcause/models/pgmodel.py:rename_vars")])
p("C15","Deterministic functions and degenerate tables convert without loss",
  "Converting a deterministic function to a table gives probability one to the function's value and zero elsewhere, for every configuration of its inputs; converting a degenerate table to a function gives, for every input, the index of the state of probability one. Canonical equations enumerate every function from the endogenous parents to the variable exactly once, one per exogenous state. Functions built from a data frame, constants and evaluation agree with the function's definition.",
  ["inputs"],"all functions, domains, parent orders and storages",
  "Tests convert a few functions of one or two inputs.",
  [F+"deterministic.py",F+"mulitnomial.py"],
  [("evaluation",F+"deterministic.py:eval"),("conversion",F+"deterministic.py:to_multinomial, "+F+"mulitnomial.py:to_deterministic"),("canonical equations",F+"deterministic.py:canonical_deterministic")])
p("C16","Each expectation-maximisation step is the exact update; likelihood never drops",
  "On data in which the learned variables are unobserved root variables and all others are observed, one step replaces the distribution of each learned variable by the average, over the records, of its posterior given the record. All other tables stay as they were, the log-likelihood of the data never decreases from step to step, each step is recorded, and at most the requested number of steps is run.",
  ["inputs","histories"],"all structural models, starting points, complete data sets of the endogenous variables and numbers of steps",
  "Tests compare a few final numbers of fixed runs with loose tolerances.",
  ["bcause/learning/parameter/expectation_maximization.py","bcause/learning/parameter/parameter.py","bcause/util/datadeps.py"],
  [("expected counts","bcause/learning/parameter/expectation_maximization.py:_expectation"),("relevant observations","bcause/util/datadeps.py:get_minimal_obs_blanket"),("update","bcause/learning/parameter/parameter.py:_update_model")])
p("C17","Results over several models are the exact lower and upper envelopes",
  "The interval result for a set of precise models has, at every assignment, the minimum and the maximum over the models of the precise result as its bounds, for interventional and counterfactual queries and for the probabilities of necessity and sufficiency; without intervals the precise results come one per model, in order. Models added later take part in later answers. Restricting an interval factor restricts both bounds; models whose results have different domains are rejected.",
  ["inputs","histories"],"all non-empty lists of models over the same graph, queries, and sequences of setting and adding models",
  "Tests use one set of models and compare a few numbers.",
  ["bcause/inference/causal/multi.py",F+"imprecise.py"],
  [("envelope",F+"imprecise.py:from_precise"),("per-model queries","bcause/inference/causal/multi.py:query"),("output","bcause/inference/causal/multi.py:_process_output")])
p("C18","Writing a model to UAI and reading it back gives the same model",
  "A Bayesian network, or a structural model, written in the UAI format in any variable order and read back has the same arcs, cardinalities and table entries or equations, up to naming variables and states by their positions. This includes variables without arcs, tables whose variables are in any order, and very small numbers.",
  ["inputs"],"all networks, and structural models whose endogenous variables are the ones with parents; all variable orders",
  "Tests round-trip a few repository models.",
  ["bcause/readwrite/bnwrite.py","bcause/readwrite/bnread.py","bcause/readwrite/scmread.py","bcause/readwrite/scmwrite.py"],
  [("value order","bcause/readwrite/bnwrite.py:to_uai"),("parsing","bcause/readwrite/bnread.py:from_uai, bcause/readwrite/scmread.py:from_uai")])
p("C19","Conversion to pgmpy and the BIF formats keeps arcs, states and probabilities",
  "Converting a Bayesian network to pgmpy and back, or saving it as BIF or XMLBIF and reading it, keeps the variables, arcs, states and every conditional probability, whatever the order of the variables in the tables.",
  ["inputs"],"all networks with textual states and alphanumeric names",
  "Tests convert a few models whose tables list the variable first.",
  ["bcause/conversion/pgmpy.py","bcause/readwrite/bnwrite.py","bcause/readwrite/bnread.py"],
  [("table layout","bcause/conversion/pgmpy.py:toTabularCPT, toMultinomialFactor"),("network","bcause/conversion/pgmpy.py:toBCauseBNet, toPgmpyBNet")])
p("C20","Samples lie in the support of the model and follow its equations",
  "Every sampled record has one state of its domain for every variable, in a configuration of positive probability; in a structural model each endogenous value is the one that its equation assigns to the sampled values of its parents. Conditional sampling returns one sample per observation, in order, from the table restricted to that observation, and requested sizes and output formats are respected.",
  ["inputs","configurations"],"all models, sample sizes, observations and random seeds",
  "Tests check sizes and a few frequencies.",
  ["bcause/models/sampling.py",F+"mulitnomial.py","bcause/models/pgmodel.py"],
  [("ancestral order","bcause/models/sampling.py:forward_sampling"),("restricted sampling",F+"mulitnomial.py:sample_conditional"),("choice",F+"mulitnomial.py:_sample")])
p("C21","Inference from data returns the exact empirical frequencies",
  "Counting a data set gives, for every joint assignment of the requested variables, the number (or fraction) of records that have it, with missing values of textual variables counted as a state of their own. Queries answered from data return the fraction of the records compatible with the evidence, conditioned as requested.",
  ["inputs"],"all data frames, domains (in any order), targets, evidence and conditioning sets with matching records",
  "Tests compare one data set with a few counts.",
  ["bcause/util/datautils.py","bcause/inference/probabilistic/datainference.py","bcause/inference/probabilistic/probabilistic.py"],
  [("counting","bcause/util/datautils.py:to_counts"),("filtering","bcause/util/datautils.py:filter_data"),("query","bcause/inference/probabilistic/datainference.py:run")])
p("C22","The gradient learner optimises the log-likelihood over distributions",
  "For a structural model in which each endogenous variable has exactly one exogenous parent, the objective minimised for an exogenous variable is the negative log-likelihood of its component given the parents' values: the counts of the observed configurations times the logarithm of the probability of the exogenous states compatible with them, and infinite when an observed configuration is impossible. The result is a distribution (non-negative, summing to one) at which the objective is not above its starting value, and only the learned variables change.",
  ["inputs"],"all such models, data sets and starting distributions",
  "Tests run a few optimisations and compare loosely.",
  ["bcause/learning/parameter/gradient.py"],
  [("counts and compatibility","bcause/learning/parameter/gradient.py:_compute_N_and_P"),("objective","bcause/learning/parameter/gradient.py:negative_log_likelihood"),("constraint","bcause/learning/parameter/gradient.py:fitPMF")])
p("C23","Graph utilities compute what they are named for on every DAG",
  "Textual graphs convert to graphs and back without loss. Barren nodes are exactly those that are outside the given set and have no descendant in it; removing incoming or outgoing arcs removes exactly those arcs; d-separated and d-connected nodes, connectivity and Markov blankets (also with hidden variables) follow their graph-theoretic definitions. None of these changes its input graph.",
  ["inputs"],"all DAGs, node sets and evidence sets",
  "Tests check a few fixed graphs.",
  ["bcause/util/graphutils.py","bcause/models/pgmodel.py"],
  [("barren fixpoint","bcause/util/graphutils.py:_barren_info"),("edge removal","bcause/util/graphutils.py:remove_ingoing_edges"),("d-separation","bcause/util/graphutils.py:dsep_nodes"),("blanket","bcause/util/graphutils.py:markov_blanket")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))

#!/usr/bin/env python3-vt
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from one table"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAT, SP, GA, FU, FA = ("veroku/factors/categorical.py", "veroku/factors/sparse_categorical.py", "veroku/factors/gaussian.py",
                       "veroku/factors/_factor_utils.py", "veroku/factors/_factor.py")
FT, SG = "veroku/factors/_factor_template.py", "veroku/factors/_sigma_points.py"
FF, GM, NL = ("veroku/factors/experimental/factorised_factor.py", "veroku/factors/experimental/gaussian_mixture.py",
              "veroku/factors/experimental/nonlinear_gaussian.py")
CG, CL, AN = "veroku/cluster_graph.py", "veroku/_cg_helpers/_cluster.py", "veroku/_cg_helpers/_animation.py"
I, H, P, S, C = "inputs", "histories", "programs", "schedules", "configurations"
INTERP = ("abstract interpretation of the source (labelled tensors, generic scopes) against closed-form specification terms")
OWN = "ownership / mutation analysis by abstract interpretation over generic, finite-scope and part-list operands"
GRAPH = 'abstract interpretation of graph building and message passing over labelled-function algebra (abstract factors) on enumerated scope graphs'
ZONE = 'abstract interpretation of graph building and message passing over labelled-function algebra (abstract factors) on enumerated scope graphs with a zone domain for message ranking'
SPARSE = 'abstract interpretation of the table code on finite scopes with symbolic entries (exact rational-function domain in generic position) against the dense meaning'
FIN = "abstract interpretation of the source (labelled arrays over generic scopes, and finite named scopes with symbolic entries) against closed-form specification terms"
MIX = 'abstract interpretation over lists of abstract components (labelled-function algebra: sums and products of function symbols), symbolic moment matching'
PARTS = 'abstract interpretation over lists of abstract parts with enumerated overlap patterns (labelled-function algebra)'
REJECT = 'abstract interpretation of each malformed request over symbolic arrays of concrete shape: all paths must end in an exception'
NONLIN = 'abstract interpretation of operation histories: Gaussians as labelled functions, sigma points and images as symbolic arrays, against the definition of the joint from what was absorbed and observed'
TEMPL = 'abstract interpretation of template construction and repeated instantiation: concrete name formats, symbolic parameters'
IFACE = 'class-table and control-flow lint over the syntax tree, aliases interpreted on subclasses with recording stubs'
SAMPLES = 'abstract interpretation of sampling: random numbers are symbols (a sample is an affine function of them, mean and covariance are its coefficients), component choices are scripted and their probabilities recorded'
ORDER = 'order-dependence analysis: abstract set iteration order is reversed or left unspecified and results compared'
# id: title, statement, over, quantifier text, why tests cannot, files, mechanisms, technique, note
PROPS = []


def p(*a):
    PROPS.append(a)


p("V01", "Operations never modify their operands",
  "No factor operation (product, quotient, marginal, evidence reduction, normalisation, copy, equality, divergence, evaluation) changes the distribution, the variable order or the bookkeeping of any factor, list, array or dictionary it is given. An operand may only gain a cached equivalent of what it already represents.",
  [I, H], "every operand of every factor class, every relation between the operands' scopes and variable orders, every later use of the operands",
  "Tests inspect results and re-read operands for a few literals; a changed operand only matters in a later operation of another history.",
  [CAT, SP, GA, GM, FF, NL], [("copies before in-place work", CAT + ":Categorical.normalize"), ("reordering on a copy", GA + ":Gaussian.equals")], OWN,
  "Every store reachable from each public operation is tracked on abstract operands of arbitrary scope; a store into caller-owned memory on a feasible path is reported.")
p("V02", "Results share no mutable state with operands",
  "The factor returned by an operation shares no list, array or dictionary that either side can later change with the factors or arguments it was computed from. Changing the result in place never changes an operand and vice versa.",
  [I, H], "every operation, operand and later in-place change",
  "Sharing is invisible until a later mutation through the other name; tests look at each object once.",
  [CAT, SP, GA, GM, FF, NL], [("copy.deepcopy of names and tables", FA + ":Factor.__init__"), ("parameter copies", GA + ":Gaussian.copy")], OWN,
  "The object graph of every returned abstract value is intersected with the operand's object graph.")
p("V03", "Constructors, templates and graphs keep private copies",
  "A factor, factor template or cluster graph is unaffected by later changes to the arrays, lists or dictionaries it was built from, and factors made from one template are independent of the template and of each other. Accessors hand out copies of what is stored.",
  [I, H], "every construction and every later change made by the caller to what it passed in or got back",
  "The tests never modify an argument after construction.",
  [CAT, SP, GA, GM, FF, NL, CG, CL, FT], [("deep copies in constructors", FA + ":Factor.__init__")], OWN,
  "Constructors are interpreted on abstract arguments; fields that alias caller-owned memory are reported.")
p("V04", "Discrete tables stay aligned with their labels",
  "In every dense discrete factor produced by an operation, axis k of the table belongs to the k-th variable, and the cardinalities and state names stored for a variable are those of that variable. This holds whatever the variable order of the operands.",
  [I], "all scopes, orders, cardinalities and argument orders", "Tests fix a few small scopes, mostly with equal cardinalities where a swap goes unnoticed.",
  [CAT], [("axis bookkeeping", CAT + ":Categorical._apply_to_probs"), ("transpose on reorder", CAT + ":Categorical.reorder")], FIN,
  "Axis labels are tracked symbolically for scopes of any size; facts are decided for every path.")
p("V05", "Discrete algebra computes the defined functions",
  "Multiplying, dividing, marginalising, reducing, normalising, evaluating and maximising dense discrete factors yields, for every joint assignment, the value that the definition of the operation gives from the operands' values. Marginalising sums, multiplying multiplies pointwise over the union scope, reducing selects the observed slice.",
  [I], "all tables, scopes, orders, evidence", "Sampled tables with a handful of values cannot cover all scope relations and orders.",
  [CAT], [("log-space table arithmetic", CAT + ":Categorical._apply_to_probs")], FIN,
  "Result terms equal the specification terms (normal form, else random interpretation of the terms).")
p("V06", "Cancelling zero by zero gives zero",
  "Cancelling one discrete factor from another treats zero divided by zero as zero and nothing else specially: every assignment with a non-zero divisor or a non-zero dividend gets the true quotient.",
  [I], "all tables with zeros, all scope relations and orders", "Needs zeros in both operands at aligned assignments of differently ordered tables.",
  [CAT], [("zero rule", CAT + ":Categorical.cancel")], FIN, "As for the discrete algebra, with tables containing minus infinity.")
p("V07", "Sparse tables denote the same functions as dense tables",
  "An operation on sparse discrete factors yields the same labelled function as the same operation on dense factors, with every absent assignment standing for the default value. No present assignment is lost, invented or assigned to other values of the variables.",
  [I], "all sparse factors, scope relations and variable orders", "Tests use two or three small sparse tables with fixed orders.",
  [SP], [("nested table joins", SP + ":_complex_table_operation"), ("assignment reordering", SP + ":SparseCategorical.reorder")], SPARSE,
  "Enumerated scopes (up to 3 variables, unequal cardinalities), presence patterns and scope relations; values are symbols, results are compared entry by entry as exact rational functions with the dense meaning.")
p("V08", "Gaussian parameters stay aligned with their variables",
  "In every Gaussian produced by an operation, row and column k of the matrices and entry k of the vectors belong to the k-th variable, whatever the variable orders of the operands and arguments. Values taken from different orderings are never combined position by position.",
  [I], "all scopes, orders and argument orders", "Tests use one or two variables, mostly in one order.",
  [GA, FU], [("index translation by name", FU + ":indexed_square_matrix_operation"), ("reordering", GA + ":Gaussian._reorder_parameters")], FIN,
  "Row/column labels tracked for scopes of any size; combining differently labelled axes is reported.")
p("V09", "The two Gaussian forms always agree",
  "Whenever a Gaussian carries both its covariance form and its canonical form, both describe the same weighted density; converting one to the other preserves the density including its total mass. A form that is marked available is complete.",
  [I, H], "all parameters and all histories of conversions", "Tests convert single literals; stale forms appear only after particular sequences.",
  [GA], [("form flags", GA + ":Gaussian._update_covform"), ("conversions", GA + ":Gaussian._update_canform")], FIN,
  "Both stored forms of every result and of every operand after each call are compared to the closed form.")
p("V10", "Gaussian algebra follows the closed forms",
  "Products, quotients, marginals, evidence reductions, normalisations and evaluations of Gaussians equal the closed-form expressions including normalising constants, for every combination of forms in which the operands happen to be stored. A uniform (uninformative) Gaussian behaves as the neutral element of products.",
  [I], "all parameters, scopes, orders, stored forms", "A few literal Gaussians; constants are often not compared.",
  [GA, FU], [("canonical sums", GA + ":Gaussian._absorb_or_cancel"), ("marginal", GA + ":Gaussian._canform_marginalise"), ("reduction", GA + ":Gaussian.reduce")], FIN,
  "Result terms against closed-form terms for block scopes of any size.")
p("V11", "Divergences compare the right things",
  "The divergence between two factors compares normalised values of the same variable with each other, in the documented direction, whatever the variable order of either side. The distance from an uninformative factor is measured from the factor to the uniform one. Between a proper and an uninformative Gaussian the divergence is infinite, between two uninformative ones it is zero.",
  [I], "all factor pairs and variable orders", "Divergences are tested on identically ordered pairs only.",
  [CAT, GA], [("alignment before subtraction", CAT + ":Categorical.kl_divergence"), ("closed form", GA + ":Gaussian.kl_divergence")], FIN,
  "Formula, orientation and alignment are decided; numerical clipping is out of scope.")
p("V12", "Equality ignores variable order and respects tolerances",
  "Two factors compare equal exactly when they describe the same function over the same variables within the given relative and absolute tolerance, regardless of variable order. Factors over different variables are never equal, nor is a proper Gaussian equal to an uninformative one.",
  [I], "all factor pairs, orders, tolerances", "Tests compare a few pairs with default tolerances.",
  [CAT, SP, GA, GM, FF, NL], [("reorder then compare", CAT + ":Categorical.equals")], FIN,
  "The truth value of every path is compared with the specification under interpretations with near-equal and unequal values.")
p("V13", "Copies are complete",
  "A copy of a factor represents the same function over the same variables in the same order and carries every option and annotation of the original, so that any later operation gives the same result on the copy as on the original.",
  [I, H], "all factors in all internal states", "A forgotten option only matters in a later operation that uses it.",
  [CAT, SP, GA, GM, FF, NL], [("copy methods", GA + ":Gaussian.copy")], FIN, "Every field of the abstract copy is compared with the original's.")
p("V14", "Results have exactly the right variables",
  "The scope of a product is the union of the scopes, a marginal keeps exactly the requested variables, and an evidence reduction drops exactly the observed ones; no variable is duplicated, lost or kept by accident.",
  [I], "all scopes, overlaps and argument orders", "Fixed small scopes.",
  [CAT, SP, GA, GM, FF, NL], [("scope computation", FA + ":Factor.get_marginal_vars")], FIN, "Scopes are sets of generic blocks, so that every overlap pattern is covered.")
TODO = "no check built yet"
p("V15", "Contradictory arguments are rejected",
  "Combining factors of different kinds (other than holding them side by side in a factorised factor), factors that disagree on a variable's cardinality, malformed constructor or template arguments (duplicate variables, incomplete or wrongly sized parameters), unknown variables, observations and potentials with a variable given twice, a wrong number of values or a state that a discrete variable does not have, potentials asked for with other variables than the factor's, messages that are not meant for the cluster that receives them and posteriors of variables that special evidence has fixed are rejected with an error before a result is produced. No such request silently yields a factor.",
  [I], "all malformed requests at every public entry", "Tests sample a few malformed calls.",
  [CAT, SP, GA, FU, FA, GM, FF, NL], [("validation", FA + ":Factor.__init__"), ("table checks", CAT + ":Categorical.__init__"), ("evidence checks", FA + ":Factor._validate_observation"), ("messages for others", CL + ":Cluster.receive_message")],
  REJECT, "every path through every listed malformed request raises before a factor comes back; scopes and shapes are enumerated (two to three variables), entries are symbols; which exception is raised is not fixed")
p("V16", "Every built graph satisfies the running intersection property",
  "For every list of factors, any two clusters that contain a variable are joined by exactly one path of clusters and sepsets all containing it (each variable induces a tree), every sepset is contained in both clusters it joins, and no two clusters are joined more than once.",
  [I, P], "all factor scopes, cluster orders and evidence", "A handful of graph shapes are tested.",
  [CG, CL], [("one spanning tree per variable", CG + ":ClusterGraph._build_graph")], GRAPH,
  'Scope graphs (up to 6 factors, 6 variables, ~30 shapes, more in the thorough tier) are enumerated; factors are abstract labelled functions, the constructor is interpreted on them.')
p("V17", "No factor is lost or used twice when clusters are formed",
  "The product of the initial cluster beliefs equals the product of the given factors (after evidence): each input factor is absorbed into exactly one cluster whose scope contains its own, or becomes a cluster itself.",
  [I], "all factor lists, scope containments and evidence", "Needs chains of subsumed scopes in particular orders.",
  [CG, FU], [("absorption of subsumed factors", CG + ":absorb_subset_factors")], GRAPH,
  'Same scope graphs; products of cluster beliefs are compared as normal forms of the labelled-function algebra.')
p("V18", "Evidence reaches exactly the factors that mention it",
  "Evidence given to a graph reduces every factor by exactly the observed variables in its scope, with each value going to its own variable; evidence registered specially for a factor is only used for that factor. Messages and queries never contain observed variables.",
  [I], "all evidence dictionaries, including variables shared by several factors", "Few evidence patterns are tested.",
  [CG, CL, FU], [("evidence selection", FU + ":get_subset_evidence")], GRAPH,
  'Same scope graphs with symbolic evidence values; evidence selection is also decided for generic scopes.')
p("V19", "Messages are marginals with the reverse message divided out",
  "A message from one cluster to another is the sender's belief marginalised onto the variables they share, with the message previously received over the same edge divided out exactly once. It is addressed to the cluster at the other end of that edge.",
  [I, H], "all clusters, edges and message histories", "Only final beliefs of a few graphs are compared.",
  [CL], [("message construction", CL + ":Cluster.make_message")], GRAPH,
  'Abstract cluster with arbitrary factor functions; message history explored by sequence; deciding step is the algebra normal form.')
p("V20", "Receiving a message multiplies it in exactly once",
  "Receiving a message updates the receiver's belief by the new message with any earlier message of the same sender divided out, records it as the latest from that sender, and changes nothing else.",
  [I, H], "all sequences of received messages", "Repeated messages on the same edge are rarely reached.",
  [CL], [("belief update", CL + ":Cluster.receive_message")], GRAPH,
  'As V19.')
p("V21", "Message passing stays fresh, complete and terminates",
  "Every message whose content may have changed since it was queued is recomputed from its sender's new belief before it is ranked or sent; the most-changed message is sent first; the process stops when all pending changes are at or below the tolerance or the iteration limit (max_iter times the number of message paths) is reached.",
  [S, H], "all message schedules, tolerances and limits", "Schedules depend on runtime values; tests see a few runs.",
  [CG, CL], [("message queue", CG + ":ClusterGraph.process_graph")], ZONE,
  'Abstract distances; ordering and stopping facts are entailed by a zone (difference-constraint) domain over every path of the loop, up to a bounded number of messages.')
p("V22", "Queries answer from a cluster that contains the variables",
  "A posterior query returns the marginal, over exactly the requested variables, of a belief whose scope contains them, or fails explicitly when none does or when a requested variable has been fixed by special evidence. The joint posterior multiplies all beliefs and divides every absorbed message out exactly once.",
  [I], "all queries on all graphs", "A few queries are tested.",
  [CG], [("posterior query", CG + ":ClusterGraph.get_marginal")], GRAPH,
  'Same scope graphs; query results compared as normal forms.')
p("V23", "Results do not depend on hash order",
  "The variable order of a result, the structure of a built graph, the message order and every number returned are the same in every process, for every hash seed. No iteration over an unordered collection decides an order that a caller can observe.",
  [C, P], "all hash seeds and variable names", "One test process has one hash seed.",
  [CG, CL, CAT, SP, GA, FF, GM, NL, FU, FA], [("sorting or order-preserving selection", FA + ":Factor.get_marginal_vars")], ORDER,
  'Iteration over a set is tracked as unordered in generic scopes; scope graphs are interpreted under opposite set orders and compared.')
p("V24", "Mixture operations distribute over the components",
  "Multiplying, marginalising, reducing, evaluating and normalising a Gaussian mixture acts on every component (every pair of components for a product of two mixtures) exactly once and keeps the relative weights and the configured options. Sums of components are never dropped or duplicated.",
  [I], "all mixtures and operands", "Few mixtures with equal weights are tested.",
  [GM], [("component-wise operations", GM + ":GaussianMixture.multiply")], MIX,
  "One to three components, all cancel methods; approximated divisions are only checked for what goes in and comes out, not for accuracy.")
p("V25", "Factorised operations preserve the joint function",
  "A factorised factor's multiply, divide, marginalise, reduce, normalise and evaluate operations have the same effect on the product of its parts as the operation on that product; no part is dropped, applied twice, or marginalised separately when it shares the removed variables with another part. Its mean and covariance are those of the product, in the order of its variables.",
  [I], "all collections of parts with all overlaps", "Overlap chains among parts are not tested.",
  [FF], [("joining of connected parts", FF + ":FactorizedFactor.marginalize")], PARTS,
  "13 to 18 overlap patterns of up to 5 parts; every subset of the variables for marginals and evidence.")
p("V26", "Non-linear conditionals route information correctly",
  "A non-linear Gaussian conditional combines information on its conditioning and conditioned variables in the right roles, in any arrival order, recomputes its joint approximation before answering from it, and never answers from an outdated one. The parameters it reports are in the order of its variables.",
  [I, H], "all sequences of absorbing, dividing, observing, querying", "Histories of operations on one object are scarcely tested.",
  [NL], [("lazy joint", NL + ":NonLinearGaussian.joint_distribution"), ("joint from sigma points", NL + ":NonLinearGaussian._recompute_joint")], NONLIN,
  "all request histories up to length three over three scope shapes (two conditioning and two conditional variables at most), with queries in between; transforms, noise, evidence values and Gaussians are symbols; the sigma points themselves are V28's concern")
p("V27", "Templates instantiate the described factor",
  "Making a factor from a template substitutes the given names in the declared positions and order and uses exactly the template's parameters, however often and in whatever order factors are made from it.",
  [I, H], "all templates, formats and instantiation histories", "One or two formats tested.",
  [FT, CAT, SP, GA, NL], [("name templates", FT + ":FactorTemplate.__init__"), ("instantiation", GA + ":GaussianTemplate.make_factor")], TEMPL,
  "nine name formats, up to four instantiations in several orders, by dictionary and by names; parameters are symbols. Other formats only differ inside str.format, which is taken as given")
p("V28", "Linear and sigma-point constructions match their definitions",
  "The linear Gaussian conditional built from a matrix and noise covariance is the density of the dependent variables given the conditioning ones for matrices of any shape. Sigma points and the joint built from them have the weighted mean and covariance of the input Gaussian.",
  [I], "all matrices, noise covariances and dimensions", "One square example is tested.",
  [GA, SG, NL], [("block construction", GA + ":make_linear_gaussian"), ("sigma points", SG + ":get_sigma_points_array")], INTERP,
  "Block terms for matrices of any shape.")
p("V29", "Every factor class implements the whole interface",
  "Each concrete factor class provides every operation of the factor interface with call-compatible parameters and a result on every path that does not raise; operators and aliases reach the operation they are named after. Inference code only relies on operations all classes provide.",
  [P], "all factor classes and interface operations", "Tests call some operations of some classes.",
  [FA, CAT, SP, GA, GM, FF, NL], [("interface", FA + ":Factor")], IFACE,
  "class tables are compared name by name (declared, parameters, defaults, a result on every path); aliases are interpreted with recording stubs; uses by inference code are collected while interpreting it")
p("V30", "Samples follow the factor's distribution",
  "Samples drawn from a Gaussian, a Gaussian mixture, a non-linear Gaussian or a mixture of these form an array with a row per variable (in the factor's order) and a column per sample. Samples are independent. Those of a Gaussian have its mean and covariance; each sample of a mixture comes from one component, chosen with its share of the total weight. A non-linear Gaussian samples its current joint distribution.",
  [I], "all factors, stored forms and numbers of samples", "Tests compare one large sample of one Gaussian and one mixture with loose tolerances.",
  [GA, GM, NL], [("linear map of standard normal numbers", GA + ":Gaussian.sample"), ("choice of the component", GM + ":GaussianMixture.sample"), ("joint first", NL + ":NonLinearGaussian.sample")], SAMPLES,
  "one to three variables, up to four samples and three components, every sequence of component choices; numpy's generators are taken to deliver what they document, generators other than normal/choice/multinomial/integers are not modelled")

NA = [
 ("N01", "Loopy propagation converges to accurate marginals", "On graphs with loops message passing approaches the exact marginals.", [I, S],
  "all loopy graphs", "Convergence depends on numbers.", [CG], [("message passing", CG + ":ClusterGraph.process_graph")],
  "convergence and accuracy of loopy propagation are numerical facts about runtime values; no static argument bounds them"),
 ("N02", "Mixture divisions and reductions are close approximations", "Dividing mixtures and reducing their components gives a mixture close to the exact function.", [I],
  "all mixtures", "Accuracy of an approximation.", [GM], [("mode search", GM + ":GaussianMixture._gm_division_m1")],
  "the quality of the moment-matching and mode-finding approximations is numerical and depends on runtime optimisation"),
 ("N03", "Divergences are numerically non-negative and stable", "Computed divergences are never negative beyond rounding and stay finite for well conditioned factors.", [I],
  "all numeric inputs", "Rounding behaviour.", [CAT, GA], [("clipping", CAT + ":Categorical.kl_divergence")],
  "rounding and conditioning of floating-point evaluation are outside a static value analysis over exact terms"),
 ("N04", "Samples follow the distribution", "Samples drawn from a factor are distributed according to it.", [I],
  "all factors and sample sizes", "Statistical.", [GA, GM], [("sampling", GA + ":Gaussian.sample")],
  "a distributional claim about runtime random numbers; only the affine transformation is visible statically"),
]


def registered():
    import sys, importlib
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from vai import check as C
    from vai.specs import ALL
    for m in ALL:
        importlib.import_module("vai.specs." + m)
    return {p for _, ps, _ in C.REG for p in ps}


def main():
    reg = registered()
    global PROPS
    PROPS = [x[:-2] + ((x[-2] or INTERP, "" if x[-1] == TODO else x[-1]) if x[0] in reg else (None, TODO)) for x in PROPS]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for (i, title, st, over, q, why, files, mech, tech, note) in PROPS:
            f.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
        for (i, title, st, over, q, why, files, mech, reason) in NA:
            f.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
    checks = [{"property": i, "quick_cmd": f"./check.py {i} --tier quick", "thorough_cmd": f"./check.py {i} --tier thorough",
               "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "other", "level_note": note}
              for (i, *_, tech, note) in PROPS if tech]
    na = [{"property": i, "reason": note} for (i, *_, tech, note) in PROPS if not tech]
    na += [{"property": x[0], "reason": x[-1]} for x in NA]
    json.dump({"version": 1, "setup_cmd": "python3-vt -m compileall -q vai check.py", "checks": checks, "not_applicable": na,
               "notes": "Static analysis only: no code of /repo is executed. See DESIGN.md."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()

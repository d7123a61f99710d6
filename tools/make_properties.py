#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (author's tool, not run by any check)."""
import json, os
S = "src/cognitivefactory/interactive_clustering/"
BIN, CABS, CFAC = S + "constraints/binary.py", S + "constraints/abstract.py", S + "constraints/factory.py"
KM, HI, SP, AP, DB, MPC = (S + "clustering/%s.py" % n for n in ("kmeans", "hierarchical", "spectral", "affinity_propagation", "dbscan", "mpckmeans"))
KABS, KFAC = S + "clustering/abstract.py", S + "clustering/factory.py"
SA, SFAC, SABS = S + "sampling/clusters_based.py", S + "sampling/factory.py", S + "sampling/abstract.py"
PRE, VEC, FREQ = S + "utils/preprocessing.py", S + "utils/vectorization.py", S + "utils/frequency.py"
ALLK = [KM, HI, SP, AP, DB, MPC]

P = []
def p(i, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (i, len(title))
    P.append(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))

TAB = [("_constraints_dictionary", "annotated constraint of each pair of managed IDs, stored under the smaller ID", BIN),
       ("_constraints_transitivity", "for each managed ID, the IDs inferred MUST_LINK / CANNOT_LINK with it", BIN)]

p("C01", "Inferred constraints are exactly the closure of the added ones",
  "At any moment, two managed data IDs are inferred MUST_LINK exactly when they are the same ID or are connected by a chain of added MUST_LINK constraints, inferred CANNOT_LINK exactly when an added CANNOT_LINK joins the MUST_LINK groups of the two IDs, and are otherwise not constrained. This holds after every sequence of accepted additions of data IDs and constraints, whatever the order of the additions, the sizes of the groups merged and the redundancy of the constraints.",
  ["histories", "inputs"], "every history of accepted add requests, every pair of managed IDs",
  "Tests query a few pairs after a few fixed histories of at most a handful of constraints; the closure is an invariant over every history.",
  [BIN], [("incremental update of the transitivity table", BIN + ":BinaryConstraintsManager.add_constraint/_add_constraint_transitivity"), ("table lookup", BIN + ":get_inferred_constraint")], TAB, ["get_inferred_constraint", "get_added_constraint"])
p("C02", "Deleting a constraint or a data ID forgets exactly what depended on it",
  "After a constraint is deleted, the added constraints are the previous ones without it, and every inferred constraint is the closure of the constraints that remain: whatever was only deducible through the deleted one is forgotten and whatever is still deducible is kept. After a data ID is deleted, it is no longer managed, no constraint involving it remains, and everything inferred among the other IDs is the closure of their own added constraints.",
  ["histories", "inputs"], "every manager state, every deletable constraint or ID",
  "Tests delete one or two constraints from one small manager; redundant chains, diamonds and cannot-link fans are not sampled.",
  [BIN], [("rebuild of the transitivity table", BIN + ":_generate_constraints_transitivity"), ("deletion", BIN + ":delete_constraint, delete_data_ID")], TAB, ["get_inferred_constraint", "get_added_constraint", "get_list_of_managed_data_IDs"])
p("C03", "The manager refuses invalid or contradictory requests, and only those",
  "A manager request is refused with a ValueError when it names a data ID that is not managed, adds an ID already managed, uses a constraint type other than MUST_LINK or CANNOT_LINK, or adds a constraint that contradicts an inferred one; every other request about IDs or pairs is accepted. In particular an addition that agrees with what is already added or inferred is accepted and recorded, and no such request ever fails with another kind of error.",
  ["inputs", "histories"], "every request (IDs managed or not, any type) in every manager state",
  "Tests try one bad value per argument; acceptance must hold for all combinations of argument validity and inferred state.",
  [BIN], [("argument checks and conflict check", BIN + ":every public method of BinaryConstraintsManager")], TAB, ["add_constraint", "delete_constraint", "add_data_ID", "delete_data_ID", "get_*"])
p("C04", "A refused manager request leaves the manager unchanged",
  "When a manager request is refused with an error, the managed IDs, the added constraints and all inferred constraints are exactly what they were before the request. This holds at every point where a request can be refused.",
  ["inputs", "histories", "fault_sequences"], "every refused request in every manager state",
  "Tests assert that the error is raised and do not compare the full state before and after.",
  [BIN], [("validate before the first write", BIN + ":add_constraint, delete_constraint, add_data_ID, delete_data_ID")], TAB, ["get_added_constraint", "get_inferred_constraint", "get_list_of_managed_data_IDs"])
p("C05", "The order of the two data IDs of a pair never matters",
  "Adding, deleting or querying a constraint gives the same answer and the same resulting state whether the pair of data IDs is given in one order or the other, whatever their alphabetical order. A constraint added as one order is found, conflicts and can be deleted as the other.",
  ["inputs", "histories"], "every pair of IDs, every manager state, every pair request",
  "Tests mostly pass the IDs in alphabetical order.",
  [BIN], [("canonical storage under the smaller ID", BIN + ":add_constraint, delete_constraint, get_added_constraint, add_data_ID, __init__")], TAB, ["get_added_constraint", "get_inferred_constraint"])
p("C06", "Manager queries are read-only and hand out no internal state",
  "Asking the manager for its IDs, added or inferred constraints, groups, completeness, cluster-number bounds or conflicts, or saving it, never changes what any later request answers. Modifying a list returned by a query, or the list of IDs the manager was built from, never changes the manager.",
  ["histories", "inputs"], "every interleaving of queries with other requests, every client use of returned lists",
  "Tests never mutate a returned list and never interleave queries with repeated checks of the state.",
  [BIN], [("queries build fresh lists", BIN + ":get_list_of_managed_data_IDs, get_connected_components, get_list_of_involved_data_IDs_in_a_constraint_conflict")], TAB, ["all get_* methods"])
p("C07", "Groups, completeness, conflicts and maximum cluster count match inference",
  "The reported groups are a partition of the managed IDs in which two IDs are together exactly when inferred MUST_LINK, each group appearing once; the maximum number of clusters is the number of groups; the constraints are reported complete exactly when every pair of managed IDs has an inferred constraint. A conflict report is given exactly when the requested type contradicts the inferred one, and then lists, without duplicates, exactly the members of the groups of the two IDs.",
  ["histories", "inputs"], "every manager state reachable by any history",
  "Tests compare a few fixed managers; the groups are deduplicated by list equality, which is only right if every history keeps group tables equal, order included.",
  [BIN], [("views over the transitivity table", BIN + ":get_connected_components, check_completude_of_constraints, get_min_and_max_number_of_clusters, get_list_of_involved_data_IDs_in_a_constraint_conflict")], TAB, ["get_connected_components", "check_completude_of_constraints", "get_min_and_max_number_of_clusters"])
p("C08", "Saving and reloading a manager restores the same IDs and constraints",
  "A manager reloaded from the file another manager was saved to manages the same data IDs in the same order and has the same added and inferred constraints. This holds for every manager state, including no constraint at all, redundant constraints, and IDs with any characters.",
  ["histories", "inputs"], "every manager state, every ID text",
  "One fixed manager with ASCII IDs is round-tripped by the tests.",
  [BIN], [("writer and reader of the same record format", BIN + ":to_json, load_constraints_manager_from_json")], TAB, ["to_json then load_constraints_manager_from_json"])
p("C09", "A clustering result labels exactly the managed data IDs",
  "Every clustering algorithm returns a dictionary whose keys are exactly the data IDs managed by the constraints manager, each with one integer label, whatever the constraints, the vectors and the number of clusters. IDs that have a vector but are not managed never appear, and no managed ID is dropped, even when the algorithm considers it noise or fails to converge.",
  ["inputs", "configurations", "histories"], "every manager, vectors dictionary and algorithm configuration",
  "Tests check full result dictionaries on one twelve-point dataset.",
  ALLK + [KABS], [("result built over the managed IDs", x + ":cluster") if False else ("result built over the managed IDs", "clustering/*.py:cluster")], None, ["result of cluster()"])
p("C10", "Strict clustering algorithms never break an inferred constraint",
  "The clusters returned by COP-KMeans and by constrained hierarchical clustering never separate two data IDs inferred MUST_LINK and never join two data IDs inferred CANNOT_LINK, whatever the vectors, the seed, the linkage, the iteration limit and the requested number of clusters. Affinity propagation with absolute must-links never separates two data IDs inferred MUST_LINK, and density-based clustering never joins two data IDs inferred CANNOT_LINK.",
  ["inputs", "configurations"], "every consistent constraint set, vectors, seed, linkage, iteration limit and cluster number, including fewer clusters than the cannot-links require",
  "Tests check the result on one dataset with a few constraint sets that are easy to satisfy.",
  [KM, HI, AP, DB], [("exclusion of incompatible clusters, must-link propagation, fresh label", KM + ":_clustering_kmeans_model_COP"), ("leaves are must-link groups, infinite distance on cannot-link, root only for unmergeable clusters", HI + ":cluster, _compute_distance, _get_the_two_clostest_clusters, compute_predicted_clusters"), ("must-link closures as super-instances", AP + ":_affinity_propagation_constrained"), ("neighbourhoods split and cluster merges refused on cannot-link", DB + ":cluster")], None, ["result of cluster()"])
p("C11", "Cluster labels are canonical",
  "In every clustering result, regular clusters are numbered 0, 1, 2, ... without gaps, in the order in which their first member appears when the data IDs are sorted, so the labels depend only on the partition. Negative labels are used only for data left out as noise, and two noise points of the density-based algorithm never share a label.",
  ["inputs", "configurations"], "every partition, every ID order of the manager, every algorithm",
  "Tests use managers whose IDs are already in alphabetical order and whose internal labels are often already canonical.",
  ALLK + [KABS], [("renaming by order of sorted IDs", KABS + ":rename_clusters_by_order")], None, ["result of cluster()", "rename_clusters_by_order"])
p("C12", "A fixed random seed makes every run repeatable",
  "With a given random seed (0 included), running the same clustering or sampling with the same inputs gives the same result every time: again on the same object, on a new object, and whatever other code did with the global random generators in between. No randomness, clock, object identity or hash order other than the seeded one influences a result.",
  ["configurations", "histories", "schedules"], "every seed, every sequence of earlier draws from the shared generators",
  "Tests compare single runs against stored outputs; they never draw from the global generators between two runs, and use one or two seeds.",
  ALLK + [SA], [("seed set before the first draw of the same run", KM + ":initialize_centroids; " + SA + ":sample; " + MPC + ":cluster; " + AP + ":_affinity_propagation_constrained; " + SP + ":clustering_spectral_model_SPEC")], None, ["result of cluster() / sample()"])
p("C13", "A run does not depend on earlier runs of the same object",
  "The result of a clustering, sampling, preprocessing or vectorisation call depends only on its arguments and on the settings given when the object was created, never on what the same object, another object or the module computed in an earlier call. Reusing one object for several managers, vectors or cluster numbers gives the results fresh objects would give.",
  ["histories"], "every sequence of earlier calls on the same or other objects",
  "Tests build a new object for each call.",
  ALLK + [HI, SA, KABS, PRE, VEC], [("per-run state is re-created by each call", "clustering/*.py:cluster; " + SA + ":sample")], None, ["result of cluster() / sample()"])
p("C14", "Inputs are never modified",
  "Clustering, sampling, preprocessing, vectorisation and the other helpers never change the objects they are given: the constraints manager keeps its IDs and constraints, and the vectors, texts, clustering results and option values keep their content.",
  ["inputs", "configurations"], "every call with every configuration",
  "Tests do not compare the inputs before and after a call.",
  ALLK + [SA, KABS, PRE, VEC, FREQ], [("work on copies; only queries on the manager", "all clustering, sampling and utils modules")], None, ["inputs after the call"])
p("C15", "Vectors are matched to data by ID, never by position",
  "Which vector is used for a data ID depends only on the ID: results are the same whatever the order of the vectors dictionary, and vectors of IDs the manager does not manage are ignored. Every row, column, distance or label computed from the vectors is attributed to the data ID whose vector produced it, whatever the order in which the manager lists its IDs.",
  ["inputs"], "every ordering of the vectors dictionary and of the managed IDs, every superset of vectors",
  "Tests always give vectors in the same order as the manager and for exactly the managed IDs.",
  ALLK + [SA], [("matrices stacked and unstacked over the same ID list", "clustering/*.py, " + SA)], None, ["result of cluster() / sample()"])
p("C16", "Verbose output never changes a result",
  "Running a clustering with verbose output on or off gives the same result, the same exposed state and the same errors; verbosity only adds printed text.",
  ["configurations", "inputs"], "every input, verbose on or off",
  "Verbose branches are excluded from test coverage (no cover pragmas) and their effect is never compared.",
  ALLK, [("verbose only guards prints", "clustering/*.py")], None, ["result of cluster()"])
p("C17", "Invalid clustering and sampling settings are refused, and only those",
  "Creating or running a clustering or sampling with an unknown model, linkage or restriction name, an out-of-range numeric setting, a non-boolean exclusion flag, something that is not a constraints manager or not a vectors dictionary, a cluster number below 2 (or any cluster number, for algorithms that find it themselves), or a negative or non-integer number of pairs raises ValueError before anything is computed; every value in the documented range, its limits included, is accepted. A cluster number larger than the number of data is accepted and treated as the number of data.",
  ["inputs", "configurations"], "every value of every setting",
  "Tests try one invalid value per setting; the accepted/refused boundary is a statement about all values.",
  ALLK + [SA], [("argument checks at construction and at call", "clustering/*.py:__init__, cluster; " + SA + ":__init__, sample")], None, ["__init__", "cluster", "sample"])
p("C18", "Factories build what was asked, with the options given",
  "Each factory returns, for each documented name, an object of the class and restrictions that name denotes, passes every given option on unchanged, and refuses every other name with a ValueError.",
  ["inputs", "configurations"], "every name and every option set",
  "Tests instantiate each name with default options.",
  [KFAC, SFAC, CFAC], [("dispatch on the name, options forwarded", KFAC + "; " + SFAC + "; " + CFAC)], None, ["clustering_factory", "sampling_factory", "managing_factory"])
p("C19", "A sampler only proposes, and can propose, every eligible pair",
  "A sampled pair consists of two different managed data IDs in alphabetical order, appears once, satisfies the cluster restriction (same cluster, different clusters, or none), and is not already added, or inferred, when the sampler excludes such pairs. Every pair with these properties is a candidate, whatever the order of the managed IDs.",
  ["inputs", "configurations", "histories"], "every manager state, clustering result and sampler configuration",
  "Tests sample a few pairs from one manager per algorithm name.",
  [SA], [("candidate loop", SA + ":sample")], None, ["result of sample()"])
p("C20", "A sampler returns the requested number of pairs, in the requested order",
  "A sampler returns as many pairs as requested when there are enough candidates, all of them when there are fewer, and none when zero are requested. With the closest (farthest) restriction these are the candidate pairs of smallest (largest) Euclidean vector distance, in increasing (decreasing) order of distance.",
  ["inputs", "configurations"], "every number requested, candidate set and distance order",
  "Tests use fixed vectors and one or two counts.",
  [SA], [("sort by distance and truncate, or bounded random draw", SA + ":sample")], None, ["result of sample()"])
p("C21", "Preprocessing and vectorisation keep each text with its ID",
  "Preprocessing and vectorisation, when they return, give a dictionary with exactly the given data IDs in the given order, and the value for an ID is computed from the text of that ID (for TF-IDF, its own row). No ID is dropped, renamed or reordered, whatever its text (empty, duplicated or not a string included).",
  ["inputs", "configurations"], "every dictionary of texts and option set",
  "The language models are not installed where the tests run, so most of this code is never executed by them.",
  [PRE, VEC], [("keys carried through the loops", PRE + ":preprocess; " + VEC + ":vectorize")], None, ["preprocess", "vectorize"])
p("C22", "Cluster frequencies are exact shares of the data",
  "The frequency reported for each cluster label is the number of data IDs with this label divided by the total number of data IDs, for exactly the labels used, negative ones included, and the frequencies of no data at all are empty.",
  ["inputs"], "every clustering result", "Tests use one fixed result and the empty one.",
  [FREQ], [("count per label over total", FREQ + ":compute_clusters_frequency")], None, ["compute_clusters_frequency"])
p("C23", "Iterative algorithms stop within their iteration limit",
  "Every clustering call ends: the iterative algorithms perform at most the configured maximum number of iterations even when they never converge, and every other loop makes progress on each pass; calls do not nest deeper as the data grow. Reaching the limit still returns a complete result.",
  ["inputs", "configurations"], "every input, convergence behaviour and iteration limit",
  "A test that ends shows nothing about inputs that never converge; limits are only tested at their defaults.",
  [KM, MPC, AP, HI, DB], [("iteration counter and worklists", "clustering/*.py loops")], None, ["cluster()"])
p("C24", "Algorithms work with any constraints manager through its public interface",
  "Clustering and sampling use a constraints manager only through the operations that the abstract manager declares, and only through its queries; the concrete managers, clusterings and samplers provide every declared operation with the declared parameters and defaults.",
  ["programs", "configurations"], "every implementation of the abstract manager",
  "Only one manager implementation exists for the tests to use.",
  [CABS, KABS, SABS, BIN] + ALLK + [SA], [("abstract base classes", CABS + "; " + KABS + "; " + SABS)], None, ["calls on the manager argument"])
p("C25", "Preprocessing applies exactly the selected normalisation steps",
  "Preprocessing always lowercases, replaces each listed punctuation mark by a space, drops spaces, punctuation and quotes, and removes accents from the output (compatibility decomposition without combining marks), changing nothing else; stop words, words deep in the parse tree (more than one ancestor), and lemmatisation are applied exactly when the corresponding option is on, independently of the others. A missing language model, or an unknown vectoriser type, is reported as a ValueError.",
  ["inputs", "configurations"], "every text and every combination of options",
  "The language models are not installed where the tests run, so these filters are never executed by them.",
  [PRE, VEC], [("token filter and text steps", PRE + ":preprocess"), ("model loading", VEC + ":vectorize")], None, ["preprocess", "vectorize"])
p("C26", "Hierarchical clustering merges the closest admissible clusters",
  "Starting from the MUST_LINK groups, each merge of the hierarchical clustering joins two current clusters that no CANNOT_LINK separates and whose linkage distance (single: smallest, complete: largest pair distance; average: distance of centroids; ward: total pair distance of the union over the product of sizes) is smallest, until no admissible merge remains. Every node of the exposed tree contains exactly the data of its children, and asking again for another number of clusters splits the same tree.",
  ["inputs", "configurations"], "every constraint set, vectors and linkage",
  "Tests compare final labels for one dataset per linkage.",
  [HI], [("closest pair choice, distances, tree nodes", HI + ":_get_the_two_clostest_clusters, _compute_distance, Cluster, compute_predicted_clusters")], None, ["cluster()", "clustering_root", "compute_predicted_clusters"])
p("C27", "KMeans assigns to the nearest allowed centroid and exposes true centroids",
  "In each pass COP-KMeans gives each data ID (with its must-linked ones) the closest centroid among those whose cluster holds no data it cannot be linked with, and opens a new cluster only when there is none. The centroids it exposes after a run are, for each returned label, the mean of the vectors of the data with that label.",
  ["inputs", "configurations"], "every constraint set, vectors and seed",
  "Tests compare final labels for one dataset; exposed centroids are not checked.",
  [KM], [("assignment step and centroid computation", KM + ":_clustering_kmeans_model_COP, compute_centroids")], None, ["result of cluster()", "centroids"])
p("C28", "Soft algorithms receive every inferred constraint of the right pair",
  "Spectral clustering works on the Gaussian (RBF) similarities of the vectors in which every pair inferred MUST_LINK is set to 1 and every pair inferred CANNOT_LINK to 0, in both directions, all other similarities being untouched. The metric-learning KMeans penalises exactly the inferred MUST_LINK pairs placed apart and the inferred CANNOT_LINK pairs placed together.",
  ["inputs", "configurations"], "every constraint set",
  "Tests compare final labels for one dataset with few constraints.",
  [SP, MPC], [("similarity adaptation", SP + ":clustering_spectral_model_SPEC"), ("constraint lists and graphs", MPC + ":cluster, preprocess_constraints")], None, ["similarities given to the spectral model"])

p("C29", "Results already returned never change",
  "A dictionary or list returned by a clustering, sampling, preprocessing or vectorisation call keeps its content whatever is computed later by the same object, another object or the module. What a client does to a returned dictionary or list (emptying it, adding to it) never changes what a later call with given arguments returns, another number of clusters asked of an existing hierarchy included.",
  ["histories"], "every sequence of later calls, every client use of returned values",
  "Tests never look at a result again after a later call and never modify one.",
  ALLK + [SA, PRE, VEC], [("results are built afresh by each call", "clustering/*.py:cluster; " + HI + ":compute_predicted_clusters; " + SA + ":sample; " + PRE + ":preprocess; " + VEC + ":vectorize")], None, ["results of earlier calls"])
p("C30", "The minimum cluster estimate is large enough, and never wildly too large",
  "The reported minimum number of clusters is at least 2, never less than the number of clusters needed to keep apart all the groups of data inferred CANNOT_LINK, and never more than one plus the largest number of groups that one group is inferred CANNOT_LINK with (or 2). It is exact whenever the greedy colourings it is taken from find an optimal one, for instance when the groups in conflict are all pairwise in conflict.",
  ["histories", "inputs"], "every manager state with at least one data ID, every order in which the colouring may proceed",
  "Tests check two or three fixed managers; the estimate must bound the conflict graph of every state.",
  [BIN], [("colouring of the cannot-link graph of the groups", BIN + ":get_min_and_max_number_of_clusters")], TAB, ["get_min_and_max_number_of_clusters"])
p("C31", "Density-based clusters are connected and noise is sparse",
  "In a result of density-based clustering, two data IDs of the same cluster are always linked by a chain of data IDs of the data set, each within eps of the next or inferred MUST_LINK with it. A data ID with fewer than min_samples data IDs within eps (itself included), not within eps of one that has that many, and not inferred MUST_LINK with another, is always noise. When nothing is inferred CANNOT_LINK and eps is at most 1, noise is exactly these data IDs. The numbers of clusters, regular clusters and noise points that the object exposes match the result.",
  ["inputs", "configurations"], "every constraint set, vectors, eps and min_samples",
  "Tests compare final labels for one dataset with one or two values of eps.",
  [DB], [("neighbourhoods, core points and expansion", DB + ":cluster")], None, ["result of cluster()", "number_of_clusters", "number_of_regular_clusters", "number_of_single_noise_point_clusters"])
p("C32", "The requested number of clusters is honoured",
  "Hierarchical clustering returns its tree of merges cut at the requested number of clusters: starting from the root, the largest cluster (or, on request, the one merged last) is replaced by its children until there are at least as many clusters as requested, or the cluster to split is a MUST_LINK group. Spectral clustering asks its model for exactly the requested number of clusters (or the number of data, if smaller). Metric-learning KMeans never returns more clusters than requested, nor does COP-KMeans when nothing is inferred CANNOT_LINK.",
  ["inputs", "configurations"], "every tree, constraint set and requested number",
  "Tests request two or three clusters of one dataset.",
  [HI, KM, SP, MPC], [("splitting of the tree", HI + ":compute_predicted_clusters"), ("initial centroids", KM + ":initialize_centroids"), ("model call", SP + ":clustering_spectral_model_SPEC")], None, ["result of cluster()", "compute_predicted_clusters"])
p("C33", "KMeans stops early exactly when its centroids hardly move",
  "COP-KMeans ends before its iteration limit exactly when a pass that keeps the set of clusters moves their centroids, in total (sum of Euclidean distances), by less than the tolerance; then it returns the clusters of that pass. In particular, with a small tolerance and no constraints, a run that ends before the limit leaves every data ID nearest to the centroid of its own cluster.",
  ["inputs", "configurations"], "every vectors dictionary, seed, tolerance and iteration limit",
  "Tests use one dataset that converges in a few passes, with the default tolerance.",
  [KM], [("convergence test", KM + ":_clustering_kmeans_model_COP")], None, ["result of cluster()"])

p("C34", "Options left out take their documented defaults",
  "An option left out of a constructor, factory, clustering call, preprocessing or vectorisation counts as its documented default: the object, result or error is the same as when that default is given explicitly, whatever the other options are. Nothing is printed unless `verbose` is given. Options that spectral clustering does not name itself are handed to its model unchanged.",
  ["inputs", "configurations"], "every combination of given and omitted options",
  "Tests give most options explicitly, and compare default results for one dataset on which many defaults make no difference.",
  ALLK + [SA, PRE, VEC], [("parameter defaults", "__init__ and cluster of every clustering class; " + SA + ":__init__; " + PRE + ":preprocess; " + VEC + ":vectorize; */factory.py")], None, ["attributes", "results", "standard output"])

# ------------------------------------------------------------------ not claimed
p("N01", "The minimum cluster estimate is always optimal",
  "The reported minimum number of clusters is exactly the smallest number for which a partition respecting all constraints exists, for every manager.",
  ["histories", "inputs"], "every manager state", "A few fixed managers are tested.",
  [BIN], [("greedy colouring of the cannot-link graph", BIN + ":get_min_and_max_number_of_clusters")], None, ["get_min_and_max_number_of_clusters"])
p("N02", "Soft algorithms respect as many constraints as their objective allows",
  "Spectral, density-based, affinity propagation (cannot-links) and metric-learning clusterings return the partition their published objective prefers given the constraints.",
  ["inputs", "configurations"], "every input", "Stored outputs on one dataset.",
  [SP, DB, AP, MPC], [("numeric optimisation", "clustering/*.py")], None, ["result of cluster()"])
p("N03", "KMeans and affinity propagation converge to good partitions",
  "The iterative algorithms converge for usual data and their partitions do not get worse from one iteration to the next.",
  ["inputs"], "every vectors dictionary", "Stored outputs on one dataset.",
  [KM, AP], [("numeric iteration", KM + "; " + AP)], None, ["result of cluster()"])
p("N04", "A crash while saving a manager never loses the previous file",
  "If the process stops while a manager is being saved over an existing file, either the old or the new content can be reloaded.",
  ["crash_points"], "every crash point of a save", "Not tested; the code writes in place and documents no such guarantee.",
  [BIN], [("in-place write", BIN + ":to_json")], None, ["file content"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

"""Writes /verif/properties.jsonl (one property per line) from the list below."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None},
    })


G, PP = "pybbn/graph/", "pybbn/pptc/"

prop("C01", "Marginals without evidence are those of the joint distribution",
     "For every discrete Bayesian network, the posteriors a join tree reports before any evidence is entered are, for every node and value, the "
     "marginals of the joint distribution defined by the product of the CPT entries (rows indexed by the parents in the order their edges were added, first parent slowest, own value fastest).",
     ["inputs", "programs"], "every DAG (connected or a forest), every number of values per node, every CPT including zero probabilities",
     "The tests compare a few fixed networks with fixed CPTs; a wrong message order, clique assignment or table stride shows only on other structures, cardinalities or parameters.",
     [PP + "inferencecontroller.py", PP + "initializer.py", PP + "propagator.py", G + "potential.py", G + "jointree.py"],
     [("InferenceController.apply", PP + "inferencecontroller.py"), ("PotentialUtil.pass_single_message", G + "potential.py"), ("JoinTree.get_posteriors", G + "jointree.py")],
     ["JoinTree.get_posteriors", "JoinTree.get_bbn_potential"])
prop("C02", "Posteriors under evidence are exact Bayesian conditionals",
     "After evidence of positive probability is entered on any nodes (observations, findings that exclude values, virtual likelihoods, on one or several nodes), "
     "the reported posterior of every node, observed ones included, is the conditional distribution obtained by weighting the joint distribution with the evidence likelihoods and normalising.",
     ["inputs", "programs"], "every network, every set of evidence nodes and kinds, every likelihood in [0,1], every CPT",
     "Tests enter one or two hard observations on fixed networks; errors in combining several likelihoods, in components without evidence or in zero rows need other inputs.",
     [G + "jointree.py", PP + "initializer.py", PP + "propagator.py", G + "potential.py"],
     [("JoinTree.update_evidences", G + "jointree.py"), ("Initializer.initialize", PP + "initializer.py"), ("Propagator.propagate", PP + "propagator.py")],
     ["JoinTree.get_posteriors"])
prop("C03", "The posterior depends only on the evidence now in force, not on its history",
     "After any sequence of entering, replacing, retracting (unobserve, unobserve all), toggling (setting the same observation twice retracts it) and re-entering evidence, "
     "the reported posteriors equal those of a fresh join tree given only the evidence currently in force on each node.",
     ["histories", "inputs"], "every history of evidence operations, every network and CPT, every kind of evidence",
     "Tests perform one short sequence; stale potentials or a wrongly classified change (update, retraction, none) need particular successive values.",
     [G + "jointree.py", PP + "inferencecontroller.py"],
     [("Evidence.compare / get_change_type", G + "jointree.py"), ("evidence_retracted / evidence_updated", PP + "inferencecontroller.py")],
     ["JoinTree.get_posteriors", "JoinTree.set_observation", "JoinTree.unobserve"])
prop("C04", "Evidence is normalised to its type and acts with the normalised weights",
     "Validating evidence fills missing values with 0 and then: virtual likelihoods are clipped to [0,1]; finding likelihoods become 1 when positive and 0 otherwise, all 1 if none is positive; "
     "an observation becomes certain on exactly one value of maximal likelihood; unobserving gives 1 everywhere. Entering raw evidence has the same effect as entering its normal form, and normalising is idempotent.",
     ["inputs"], "every real likelihood vector (negative, above one, missing entries), every evidence type and number of values",
     "Tests validate a few vectors; boundary values and combinations of missing and out-of-range entries are not reached.",
     [G + "jointree.py"], [("Evidence.validate", G + "jointree.py"), ("JoinTree.update_evidences", G + "jointree.py")], ["Evidence.values", "JoinTree.get_posteriors"])
prop("C05", "The propagated join tree is calibrated",
     "After construction and after every evidence update, each clique's and each separator's table is, up to a constant, the joint distribution of its variables weighted by the evidence, "
     "and every reported posterior is a probability distribution over exactly the node's values.",
     ["inputs", "programs"], "every network, CPT and evidence of positive probability",
     "Tests look at single-node posteriors of fixed networks; a table that is wrong but agrees on the assigned marginals passes.",
     [PP + "propagator.py", PP + "evidencecollector.py", PP + "evidencedistributor.py", G + "potential.py"],
     [("collect/distribute evidence", PP + "evidencecollector.py"), ("divide (0/0 = 0)", G + "potential.py")], ["JoinTree.potentials"])
prop("C06", "Posteriors are invariant under node ids, insertion order and set order",
     "The posteriors of a network, by node name, do not depend on which integer ids its nodes have, on the order in which nodes are inserted or edges of different children are interleaved, "
     "or on the iteration order of the sets used internally.",
     ["inputs", "schedules", "configurations"], "every injective id assignment, every insertion order, every iteration order of hash sets",
     "Tests use ids 0..n-1 in insertion order and one hash seed; multi-digit ids or other orders change clique names and the elimination and message order.",
     [G + "graph.py", G + "node.py", PP + "triangulator.py", PP + "transformer.py", PP + "propagator.py"],
     [("Clique.id / SepSet.id", G + "node.py"), ("Triangulator.select_node", PP + "triangulator.py"), ("Propagator root choice", PP + "propagator.py")], ["JoinTree.get_posteriors"])
prop("C07", "Moralization yields exactly the moral graph",
     "Moralizing a network yields an undirected graph with the same nodes in which two nodes are adjacent exactly when they are linked in the network or share a child.",
     ["programs", "inputs"], "every DAG and every id assignment",
     "Tests moralize one network; a missed marriage shows only for particular parent orders or counts.",
     [PP + "moralizer.py", G + "graph.py"], [("Moralizer.moralize", PP + "moralizer.py")], ["Ug.get_edges", "Ug.edge_exists"])
prop("C08", "Triangulation yields the maximal cliques of a chordal supergraph",
     "The cliques produced from the moral graph are pairwise non-contained, cover every node and every moral edge, are exactly the maximal cliques of a chordal graph containing the moral graph, "
     "and that graph is unchanged when the moral graph is already chordal.",
     ["programs", "inputs"], "every undirected graph arising from a network, every choice of node weights and ids",
     "Tests triangulate one graph; subset cliques, missed fill-in edges and needless fill-in depend on the elimination order.",
     [PP + "triangulator.py"], [("Triangulator.triangulate", PP + "triangulator.py"), ("min-fill/min-weight selection", PP + "triangulator.py")], ["Triangulator.triangulate"])
prop("C09", "The clique tree is a maximum spanning forest with running intersection",
     "The join tree built from the cliques is acyclic, connects exactly the cliques of each connected component of the network, labels each edge with the intersection of its two cliques (never empty), "
     "and for every variable the cliques containing it form a connected subtree.",
     ["programs", "inputs"], "every DAG, id assignment and number of values",
     "Tests check one tree; an order of equal-mass separators that breaks running intersection, or an edge across components, needs other structures.",
     [PP + "transformer.py", G + "jointree.py", G + "node.py"], [("Transformer.transform", PP + "transformer.py"), ("JoinTree.__shouldadd__/PathDetector", G + "jointree.py")], ["JoinTree.get_edges", "JoinTree.get_cliques"])
prop("C10", "Potential algebra is exact",
     "Building a potential from a node and its parents, multiplying one into another, marginalising onto a subset of nodes, dividing (0 when numerator or denominator is 0) and normalising compute the pointwise table operations for every assignment of the variables, whatever the order of the variables; "
     "the rows matching an assignment are exactly those that extend it, the dictionary form holds every row's value under its assignments in the order of ids, and a duplicated row is independent of the original.",
     ["inputs"], "every variable set, order, domain and every real table entry (zeros included)",
     "Tests use small tables with fixed entries; strides, matching and zero handling go wrong only for other shapes and values.",
     [G + "potential.py"], [("PotentialUtil", G + "potential.py")], ["PotentialUtil.multiply", "PotentialUtil.divide", "PotentialUtil.marginalize_for", "PotentialUtil.normalize"])
prop("C11", "Reapplying new CPTs equals rebuilding, and leaves the original alone",
     "Re-running inference on a join tree with new CPTs for some nodes gives a new join tree whose posteriors, without evidence and after any later evidence, equal those of a join tree built from the network with these CPTs; "
     "evidence in force on the original does not carry over, and the original join tree and its network keep their CPTs, evidence and posteriors.",
     ["inputs", "histories"], "every network, every subset of nodes with new CPTs, every evidence before and after, repeated reapplication",
     "Tests reapply once without evidence on one network; sharing between the two trees shows only when one is used after the other.",
     [PP + "inferencecontroller.py", G + "jointree.py", PP + "potentialinitializer.py"],
     [("InferenceController.reapply", PP + "inferencecontroller.py"), ("JoinTree.__deepcopy__ / update_bbn_cpts", G + "jointree.py")], ["JoinTree.get_posteriors"])
prop("C12", "A serialized join tree is equivalent after deserialization",
     "A join tree converted to a dictionary, through JSON or not, restored and initialised again has the same nodes and reports the same posteriors as a freshly built one, without evidence and after any evidence entered later; serializing it does not alter it.",
     ["inputs", "histories"], "every network including forests and isolated nodes, every CPT, evidence before and after",
     "Tests round-trip one network without later evidence; a lost clique, parent order or separator only shows for other structures.",
     [G + "jointree.py", PP + "inferencecontroller.py"], [("JoinTree.to_dict/from_dict", G + "jointree.py"), ("InferenceController.apply_from_serde", PP + "inferencecontroller.py")], ["JoinTree.get_posteriors"])
prop("C13", "BBN dictionary and JSON round trips lose nothing",
     "A network converted to a dictionary or a JSON file and back has the same node ids, names, value lists, parent orders and exactly the same probabilities; exporting to DNE lists, for each node, its states, its parents in CPT order and its probabilities.",
     ["inputs", "programs"], "every network, id, edge insertion order and probability",
     "Tests round-trip one network with edges in id order; parent order matters only when edges were added in another order.",
     [G + "dag.py", G + "node.py", G + "variable.py"], [("Bbn.to_dict/from_dict/to_json/from_json/to_dne", G + "dag.py")], ["Bbn.from_dict", "Bbn.from_json"])
prop("C14", "BBN CSV round trip loses nothing",
     "A network written to CSV and read back has the same node ids, names, value lists, parent orders and exactly the same probabilities, for names and values that contain no comma, bar, newline or surrounding blanks.",
     ["inputs", "programs"], "every network, id, edge insertion order, probability and admissible name",
     "Tests read one file; rows whose field count resembles an edge's, rounding when formatting and lost parent order need other inputs.",
     [G + "dag.py"], [("Bbn.to_csv/from_csv", G + "dag.py")], ["Bbn.from_csv"])
prop("C15", "Acyclic graphs accept an edge exactly when it keeps them acyclic",
     "Over every sequence of edge additions, a directed acyclic graph (a Bayesian network included) accepts a directed edge exactly when its ends differ, are not already linked and no directed path leads back, so it never has a directed cycle; "
     "a partially directed graph accepts an edge of either kind exactly when its ends differ, are not already linked and no directed path leads back from the second end to the first, so it never has a directed cycle.",
     ["histories", "inputs"], "every sequence of additions over any ids",
     "Tests try a handful of additions; a path search that stops early or looks the wrong way is exposed only by longer histories.",
     [G + "dag.py", G + "pdag.py", G + "graph.py"], [("Dag.__shouldadd__", G + "dag.py"), ("Pdag.__shouldadd__", G + "pdag.py"), ("PathDetector", G + "dag.py")], ["Dag.add_edge", "Bbn.add_edge", "Pdag.add_edge"])
prop("C16", "Graph views agree with the history of additions and removals",
     "After every sequence of adding nodes, adding edges and removing nodes of an undirected, directed, partially directed graph or Bayesian network, its nodes, edge list, neighbours, edge-existence queries, (directed graphs) parents and children, and (networks) the name maps and the exported networkx graph describe exactly the nodes and accepted edges that were added and not removed since, an edge being removed with either of its ends.",
     ["histories", "inputs"], "every history of operations on undirected, directed and partially directed graphs over any ids",
     "Tests add and remove once; stale entries are visible only after removing and re-adding.",
     [G + "graph.py", G + "dag.py", G + "pdag.py"], [("Graph.add_edge/remove_node", G + "graph.py")], ["Graph.get_edges", "Graph.get_neighbors", "Graph.edge_exists"])
prop("C17", "Logic sampling draws each node from its CPT row by inverse CDF in parent order",
     "Without evidence, every sample assigns every node a value of its domain, and the draw u in [0,1) used for a node yields the value v exactly when u lies in v's interval of cumulative probability of the node's CPT row selected by the sampled parent values, so samples follow the joint distribution.",
     ["inputs", "programs"], "every DAG and id assignment (topological order), every CPT, every sequence of draws",
     "Tests compare frequencies of a few nodes to loose tolerances for one seed; a swapped parent order or off-by-one interval on other networks goes unnoticed.",
     ["pybbn/sampling/sampling.py"], [("LogicSampler.get_samples", "pybbn/sampling/sampling.py"), ("Table.get_value", "pybbn/sampling/sampling.py")], ["LogicSampler.get_samples"])
prop("C18", "Rejection sampling returns exactly the draws that agree with the evidence",
     "With evidence, the returned samples are, in order, exactly those forward samples that agree with the evidence on every evidence node, so that they follow the conditional distribution; every returned sample agrees with the evidence.",
     ["inputs", "schedules"], "every network, evidence set and sequence of draws",
     "Tests check one evidence set on one network and seed; a bias from clamping or from a node that is never compared is invisible there.",
     ["pybbn/sampling/sampling.py"], [("rejection loop", "pybbn/sampling/sampling.py")], ["LogicSampler.get_samples"])
prop("C19", "Sampling is reproducible and side-effect free",
     "The samples are a function of the network, the evidence, the number and the seed: equal seeds give equal samples whatever was drawn before, more samples extend fewer, exactly the requested number (none, when none is asked for) is returned, "
     "the samples are independent objects, and the evidence and the network are left unchanged.",
     ["inputs", "histories"], "every network, evidence, number of samples (none included), seed and prior call history",
     "Tests call the sampler once with the default seed.",
     ["pybbn/sampling/sampling.py"], [("np.random.seed(seed)", "pybbn/sampling/sampling.py"), ("sample copies", "pybbn/sampling/sampling.py")], ["LogicSampler.get_samples"])
prop("C20", "The generator produces valid networks of the requested shape",
     "For every outcome of the random draws, the singly-connected generator yields a connected DAG on nodes 0..n-1 with n-1 edges and the multi-connected one a connected DAG; every node gets between 2 and max(2, max_values) values and a CPT of the right shape whose rows are distributions over the recorded parents, "
     "and conversion to a BBN, drawing and JSON keep structure, parent order and parameters.",
     ["inputs", "configurations"], "every n, iteration count and sequence of random draws",
     "Tests generate a few networks from fixed seeds and look at sizes only.",
     ["pybbn/generator/bbngenerator.py"], [("__generate_singly_structure__ / __generate_multi_connected_structure__", "pybbn/generator/bbngenerator.py"), ("convert_for_exact_inference", "pybbn/generator/bbngenerator.py")], ["generate_singly_bbn", "generate_multi_bbn"])
prop("C21", "Networks learned from data hold the empirical conditional frequencies",
     "The network built from a structure and a data set has the structure's edges, each variable's domain is the sorted set of its observed values, and every CPT row is the empirical conditional frequency of the child's values given that combination of the parents' values, uniform where the combination never occurs.",
     ["inputs", "programs"], "every structure, every data set (any multiplicity of every joint record), any variable and value names, any column order",
     "Tests learn one data set; a parent order different from the row order or a denominator over the wrong rows shows only on asymmetric domains and counts.",
     [G + "factory.py"], [("Factory.from_data", G + "factory.py")], ["Factory.from_data"])
prop("C22", "Importing a libpgm network preserves it",
     "Importing a libpgm discrete network, from JSON, dictionary or object, yields a network with the same ids, names, values, parents and, for every node and every assignment of its parents and itself, exactly the probability the description states.",
     ["inputs", "programs"], "every network description, parent order, domain and probability",
     "Tests import one description and look at counts of nodes and edges.",
     [G + "factory.py"], [("Factory.from_libpgm_discrete_*", G + "factory.py")], ["Factory.from_libpgm_discrete_object"])
prop("C23", "Gaussian inference gives the conditional covariance and mean",
     "After observing values for some variables of a multivariate Gaussian with zero prior means, in any order, the reported covariance of the remaining variables is the Schur complement, their reported means are the conditional means, observed variables report their value with variance 0, and the original object is unchanged; "
     "observing variables one at a time or together gives the same covariances, marginals agree with the reported parameters, samples of unobserved marginals are drawn with the reported mean and variance, and further inferences from one object leave earlier results alone.",
     ["inputs", "histories"], "every positive definite covariance matrix, every subset and order of observed variables, every observed value",
     "Tests compare one three-variable example observed one variable at a time.",
     ["pybbn/gaussian/inference.py"], [("GaussianInference.do_inferences", "pybbn/gaussian/inference.py")], ["GaussianInference.P", "GaussianInference.marginals"])
prop("C24", "Average causal effects equal the truncated factorisation",
     "For every network with positive CPTs and every pair of distinct variables x and y, the effect reported for each value of x is the probability of the asked value of y in the network where x is forced to that value (its own CPT removed), whatever effects were asked before.",
     ["inputs", "programs", "histories"], "every DAG, CPT with positive probabilities, pair of variables and sequence of queries",
     "Tests evaluate one network with a single confounder; dependent parents, several parents or repeated queries are not reached.",
     ["pybbn/causality/ace.py"], [("Ace.get_ace", "pybbn/causality/ace.py")], ["Ace.get_ace"])
prop("C25", "Path activity decides d-separation",
     "A path is reported active given an evidence set without its end nodes exactly when every inner collider is in the evidence or has a descendant in it and every other inner node is not in it (a direct link is active exactly when neither end is in the evidence), so that all paths between two variables are inactive exactly when they are d-separated.",
     ["programs", "inputs"], "every DAG, pair of nodes, path and evidence set",
     "No test covers this code.",
     ["pybbn/causality/do.py"], [("is_active_path / is_active_triplet / get_triplet_type", "pybbn/causality/do.py")], ["is_active_path"])
prop("C26", "Path listings classify every path correctly",
     "The paths listed between two nodes are exactly the simple undirected paths, each with its colliders, its other inner nodes, whether it is active without evidence, and whether it starts with an edge into the first node (back door) or out of it (front door).",
     ["programs"], "every DAG and pair of distinct nodes",
     "No test covers this code.",
     ["pybbn/causality/do.py"], [("get_paths / get_colliders", "pybbn/causality/do.py")], ["get_paths"])
prop("C27", "Inference never disturbs its network or another join tree",
     "Building join trees, entering evidence and reading posteriors leaves the network's nodes, edges and CPTs as they were; any number of join trees built from one network and deep copies of a join tree each keep reporting the posteriors of their own evidence, whichever of them is used in between.",
     ["histories", "inputs"], "every network and every interleaving of operations on several join trees and copies",
     "Tests build one join tree per network.",
     [PP + "inferencecontroller.py", G + "jointree.py"], [("metadata on shared nodes", PP + "initializer.py"), ("JoinTree.__deepcopy__", G + "jointree.py")], ["JoinTree.get_posteriors", "Bbn.to_dict"])
prop("C28", "Confounder and mediator sets fit the open paths",
     "For every DAG and pair x, y (a path being open when it has no collider, back-door when it starts with an edge into x): the minimal confounders are inner nodes of open back-door paths and block every one of those that has inner nodes; "
     "all confounders are the inner nodes of open back-door paths except descendants of x and colliders of closed back-door paths; the minimal mediators are inner nodes of directed paths from x to y that are colliders of no path between x and y, with one on every directed path none of whose inner nodes is such a collider.",
     ["programs"], "every DAG and pair of distinct nodes",
     "No test covers this code.",
     ["pybbn/causality/do.py"], [("get_minimal_confounders / get_all_confounders / get_minimal_mediators", "pybbn/causality/do.py")], ["get_minimal_confounders", "get_all_confounders", "get_minimal_mediators"])

prop("C29", "Reading never changes what is read",
     "Every read of a network or join tree - dictionary, JSON, CSV, DNE and networkx forms, texts, copies, name maps, parents, children, neighbours and edge queries, moral graph and cliques, path, confounder and mediator listings, "
     "posteriors, potentials, node, family and clique lookups, pending evidence changes - gives the same result when repeated, whatever else is read in between, and leaves structure, CPTs, potentials and evidence as they were, so that later evidence and retraction still give exact posteriors.",
     ["histories", "inputs"], "every network and CPT, evidence in force or not, every pair of reads",
     "Tests read once and look at the result; a read that caches, normalises in place or adds entries shows only in what is read later.",
     [G + "jointree.py", G + "dag.py", G + "graph.py", G + "potential.py", "pybbn/causality/do.py"],
     [("PotentialUtil.normalize works in place", G + "potential.py"), ("JoinTree.get_bbn_potential", G + "jointree.py"), ("Bbn.to_dict", G + "dag.py")], ["JoinTree.get_posteriors", "Bbn.to_dict"])
prop("C30", "Join-tree queries describe the network and its cliques",
     "For every join tree - built, reapplied, restored from its dictionary, or copied - looking up nodes by id or name, listing nodes, parents in CPT order, cliques, separators, neighbours, links and the cliques that hold a node and its parents (always at least one), "
     "and comparing cliques and separators (membership, inclusion, intersection, weight, shared separator, mass, cost) gives what the network and the tree's clique membership define; a node's potential is its posterior over its own values only.",
     ["programs", "inputs"], "every network, id assignment and way the join tree came about",
     "Tests query freshly built trees of one network; parents or lookups lost on restored or copied trees are not seen.",
     [G + "jointree.py", G + "node.py", PP + "potentialinitializer.py"],
     [("find_cliques_with_node_and_parents", G + "jointree.py"), ("get_bbn_node_and_parents", G + "jointree.py"), ("Clique.intersects / SepSet", G + "node.py")], ["JoinTree.get_bbn_node_and_parents", "JoinTree.find_cliques_with_node_and_parents"])
prop("C31", "A deep copy is faithful and independent",
     "A deep copy of a graph of any kind, a network, a node, a variable or an edge has the same nodes, edges, ids, names, values and CPTs, its edges end in its own nodes, and no later addition, removal or change of a CPT, name or value on either side is seen on the other, "
     "so that inference on each gives the posteriors of its own content, whether or not the original had been used for inference before.",
     ["histories", "inputs"], "every graph, network and CPT, every history of operations on the original and its copies",
     "No test changes a copy and looks at the original, or the reverse.",
     [G + "graph.py", G + "node.py", G + "variable.py", G + "edge.py"],
     [("Graph.__deepcopy__", G + "graph.py"), ("Node.__deepcopy__", G + "node.py")], ["copy.deepcopy"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")

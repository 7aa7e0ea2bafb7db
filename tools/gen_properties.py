"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":None}})
NET="pymnet/net.py"; TR="pymnet/transforms.py"
p("C01","Assigning an edge is read back exactly and changes no other edge",
 "In a general multilayer network with any number of aspects, directed or not, assigning a weight to an edge makes every accepted way of naming that edge return exactly that weight afterwards (for undirected networks also with the endpoints swapped), and leaves the weight of every other edge as it was. Assigning the no-edge value removes the edge, and reading an absent edge always gives the no-edge value.",
 ["histories","inputs"],"every number of aspects, directedness, no-edge value, every prior history of assignments, every edge (self-edges included), every weight, every index form (full, shortened, node view then neighbour)",
 "tests write a few dozen fixed edges with at most two aspects and read back those same edges; whether every other pair of node-layers is untouched for every history is a universally quantified frame statement",
 [NET],[("edge read and write, index parsing",NET+": MultilayerNetwork.__getitem__/__setitem__/_get_link/_set_link/_link_to_nodes/_short_link_to_link, MultilayerNode.__getitem__/__setitem__")],
 [("_net","nested mapping node-layer -> node-layer -> weight",NET+": MultilayerNetwork.__init__"),("_rnet","transpose of _net, directed networks only",NET)],["net[...]","net[node][neighbour]"])
p("C02","Neighbour lists and degrees always agree with the stored edges",
 "In a general multilayer network, after any history of adding, overwriting and removing edges, iterating a node's out-, in- or all neighbours gives exactly the node-layers joined to it by such an edge, each once, and the corresponding degree is their number; a node without edges has degree 0. A node view restricted by slicing to given node or layer values shows exactly the neighbours having those values, in iteration and in degree.",
 ["histories","inputs"],"every history of assignments and removals, every node-layer present or not, in/out/total queries, directed or not, every slicing pattern",
 "degree counters are maintained incrementally, so only particular add/overwrite/remove orders (reciprocal edges, self-edges, removals) expose a drift; the tests only build networks up and never remove directed edges before asking for total degrees",
 [NET],[("incremental total degree and transposed storage",NET+": _set_link, _totalDegree"),("neighbour iteration and degrees",NET+": _iter_neighbors_*, _get_degree_*, MultilayerNode.deg*/iter_*")],
 [("_totalDegree","number of distinct in- or out-neighbours",NET)],["MultilayerNode.deg/deg_in/deg_out/deg_total, iteration"])
p("C03","Strength equals the sum of the incident edge weights",
 "In a general multilayer network the out-strength (in-strength) of a node is the sum of the weights of its outgoing (incoming) edges after any history, the total strength of a node in a directed network is the sum of both, and in an undirected network all of them are the sum over its edges. A node view restricted by slicing sums exactly the edges to the neighbours it shows.",
 ["histories","inputs"],"every history, node, direction and slicing pattern, numeric weights",
 "tests compare a handful of strengths in small fixed networks and never combine directions, negative or fractional weights, removals and slices",
 [NET],[("strength sums",NET+": _get_strength_*, MultilayerNode.str*")],(),["MultilayerNode.str/str_in/str_out/str_total"])
p("C04","Nodes, layers and node-layers are exactly the ones that were added",
 "After any history the nodes and the elementary layers of each aspect are exactly those added explicitly or named by an edge assignment, each iterated once, and adding an existing one or removing edges changes nothing. The node-layer pairs are all combinations in a fully interconnected network, and otherwise exactly the pairs added explicitly or used as an endpoint of an edge assignment.",
 ["histories"],"every history of node, layer, node-to-layer additions and edge assignments and removals; general and multiplex networks, any number of aspects",
 "tests add a few nodes in one order; bookkeeping is kept redundantly in several sets and maps which must stay consistent for every order of operations",
 [NET],[("registration of nodes and layers",NET+": add_node, add_layer, _add_node_to_layer, __setitem__, MultilayerNetworkWithParent.add_node, MultiplexNetwork.add_layer"),("iteration",NET+": iter_nodes, iter_layers, iter_node_layers, __iter__, __len__")],
 [("slices","one set of elementary layers per aspect, nodes first",NET),("_nodeToLayers/_layerToNodes","node-layer pairs of networks that are not fully interconnected",NET)],["iteration, len(), in"])
p("C05","Listing the edges gives every edge exactly once",
 "Listing the edges of a general or multiplex network gives every edge exactly once with its current weight: every directed edge in its own direction, every undirected edge in one of its two orientations, self-edges once. The reported number of edges equals the length of that list.",
 ["histories","inputs"],"every network reachable by any history, any number of aspects, directed or not, fully interconnected or not",
 "the list and the count are computed by different code (pairwise de-duplication against a degree sum with a self-edge correction), agreement on sampled networks does not settle self-edges and directions in general",
 [NET],[("edge view",NET+": MultilayerEdges.__iter__/__len__")],(),["net.edges","len(net.edges)"])
p("C06","Network equality means equal content",
 "Two networks compare equal exactly when they have the same kind, directedness, number of aspects, interconnection, no-edge value, nodes, layers, node-layers, couplings and weighted edges, whatever the order in which they were built. Comparison never fails for two networks, and inequality is always the negation of equality.",
 ["inputs","histories"],"every pair of networks built by any histories",
 "tests compare a few pairs; single-difference pairs (one weight, one node-layer, one flag) and pairs of different kinds are not covered",
 [NET],[("comparison",NET+": MultilayerNetwork.__eq__/__ne__, MultiplexNetwork.__eq__")],(),["==, !="])
p("C07","Coupling edges of multiplex networks follow the coupling policy",
 "In a multiplex network with categorical, ordinal (integer layers) or no coupling in each of its aspects, two existing node-layers are joined by a coupling edge exactly when they have the same node, differ in exactly one aspect and that aspect's policy joins the two layers, with the policy's weight. Reading edges, listing neighbours, degrees and strengths agree with this and with the intra-layer edges after any history of adding nodes, layers and edges.",
 ["histories","configurations"],"every coupling configuration with one or more aspects, every set of layers and nodes, fully interconnected or not, directed or not (strengths: undirected, in and out)",
 "coupling edges are never stored but recomputed by separate code for reading, iterating and counting; tests check one- and two-aspect categorical and fully interconnected ordinal examples",
 [NET],[("coupling rules",NET+": MultiplexNetwork._get_link/_get_dim_degree/_get_dim_strength/_iter_dim/_select_dimensions/_get_degree_*/_get_strength_*/_iter_neighbors_*")],
 [("couplings","policy and weight per aspect",NET)],["net[...] and node views of MultiplexNetwork"])
p("C08","Layers of a multiplex network are stored independently and consistently",
 "An intra-layer edge assigned through the multiplex network is the edge of that layer's own network and the other way round, and assigning, removing or replacing edges in one layer never changes an edge of another layer. Nodes added to a layer become nodes of the whole network, replacing a layer by a given network copies its edges, and assigning a self-edge or an inter-layer edge is rejected with an error and changes no edge.",
 ["histories"],"every history of assignments through the network and through its layers, any number of aspects, directed or not, fully interconnected or not",
 "tests set edges on one route and read on another in one fixed sequence; isolation between layers is a frame property over all histories",
 [NET],[("intra-layer storage",NET+": MultiplexNetwork._get_link/_set_link/add_layer/_get_A_with_tuple, MultiplexIntraNetDict, MultilayerNetworkWithParent")],
 [("intranets (A)","mapping layer -> intra-layer network",NET)],["net.A[layer], net[i,j,layer]"])
p("C09","A subnetwork is exactly the induced subnetwork",
 "Taking the subnetwork on given nodes and layers of a general or multiplex network gives a network of the same kind whose nodes, layers and node-layers are exactly the given ones that exist in the original, and whose edges are exactly the original edges with both endpoints inside, with the same weights. Copying into a supplied empty compatible network gives the same content, with no edges at all when links are switched off.",
 ["inputs"],"every network, every choice of nodes and existing layers (including nodes not in the network), sparse and dense, directed or not, fully interconnected or not",
 "the code has separate branches for dense and sparse nodes, for multiplex and general networks and for each interconnection; tests reach each with one example",
 [TR],[("induced subnetwork",TR+": subnet")],(),["transforms.subnet"])
p("C10","Aggregation sums the weights of the edges that are merged",
 "Aggregating over any chosen aspects gives a network over the remaining aspects with the same nodes, in which the weight between two node-layers is the sum of the weights of all original edges whose endpoints project to them, without self-edges unless they are requested. For networks that are not fully interconnected the node-layers of the result are the projections of the original ones, and the overlay network of a one-aspect network sums the intra-layer weights of each pair of different nodes.",
 ["inputs"],"every network with at least one aspect, every set of aspects, directed or not, partial sums of a nonzero no-edge value excluded",
 "tests aggregate two fixed networks; summation, projection and de-duplication interact for inter-layer edges and several aspects",
 [TR],[("aggregation",TR+": aggregate, overlay_network")],(),["transforms.aggregate","transforms.overlay_network"])
p("C11","Thresholding keeps exactly the edges that satisfy the rule",
 "Thresholding a network keeps all its nodes, layers and node-layers and exactly those edges whose weight satisfies the chosen comparison (>=, <=, >, <) with the threshold, with unchanged weights and direction. An unknown rule is rejected when there is an edge to be judged.",
 ["inputs"],"every network (multiplex ones including their coupling edges), every threshold including weights equal to it, every rule",
 "tests threshold one network with two rules; boundary weights, directed and not fully interconnected networks are not covered",
 [TR],[("threshold",TR+": threshold")],(),["transforms.threshold"])
p("C12","Relabelling and normalising preserve the network up to names",
 "Relabelling with injective maps gives a network of the same kind in which nodes, layers, node-layers and edges with their weights are exactly the images of the original ones, names without an entry staying as they are. Normalising numbers nodes and each aspect's layers consecutively from the requested start in sorted order and returns, when asked, exactly the map used or its inverse.",
 ["inputs"],"every network with sortable names, injective maps, every combination of returned maps and start values",
 "tests relabel two small networks with full maps",
 [TR],[("relabelling",TR+": relabel, normalize")],(),["transforms.relabel","transforms.normalize"])
p("C13","Matrix and underlying-graph forms agree with the edges",
 "The supra-adjacency matrix has one row and column per combination of node and layers, in the order of the returned list, and its entry for two different node-layers is the weight of the edge between them, with inter-layer entries zero when couplings are excluded. The underlying graph has one node per node-layer and exactly the same weighted edges.",
 ["inputs"],"every network with numeric weights, zero no-edge value and sortable names, directed or not, any number of aspects",
 "tests compare three fixed matrices",
 [NET,TR],[("matrix",NET+": get_supra_adjacency_matrix"),("flattening",TR+": get_underlying_graph")],(),["get_supra_adjacency_matrix","transforms.get_underlying_graph"])
p("C14","Analysis and transformation functions leave their inputs unchanged",
 "Every query, comparison, transformation, diagnostic, clustering coefficient, subgraph sampling, isomorphism test, export, model and layout function leaves the networks given to it exactly as they were (nodes, layers, node-layers, couplings, edges and weights), and also the lists, sets and dictionaries given as parameters. The new networks returned share no edge storage with the input: changing one does not change the other.",
 ["inputs","histories"],"every input network and parameter value for which the function returns, and every later modification of the result",
 "no test compares its input before and after a call; purity is a frame condition over the whole reachable state",
 [TR,"pymnet/diagnostics.py","pymnet/cc.py","pymnet/netio.py","pymnet/sampling/esu.py","pymnet/isomorphisms/isomcore.py","pymnet/visuals/layouts.py","pymnet/models.py"],[("functions reading a network",TR+", pymnet/diagnostics.py, pymnet/cc.py")],(),["state of the arguments after the call"])
p("C15","Degree and density diagnostics equal their definitions",
 "The degree diagnostics report for every node (or node-layer) its degree, or for every degree the number of nodes having it; density is the number of edges divided by the number of possible edges between the node-layers, and 0 when none is possible. The multiplex variants give the same per layer, and overlap degrees count for each combination of layers the links present in exactly those layers.",
 ["inputs"],"every network; overlap degrees for unweighted undirected one-aspect multiplex networks",
 "tests check a few fixed networks",
 ["pymnet/diagnostics.py"],[("diagnostics","pymnet/diagnostics.py: degs, density, multiplex_degs, multiplex_density, overlap_degs")],(),["return values"])
p("C16","Shortest-path distances are minimal and the forest realises them",
 "For positive edge weights the shortest-path search gives a distance to exactly the node-layers reachable from the sources, each the minimum total weight over all paths from any source. The returned forest contains exactly the edges that lie on shortest paths from the sources, with their weights, and the version that prunes aspects reports the minimum over the ignored aspects.",
 ["inputs"],"every network with positive weights and comparable names, every set of sources, directed or not",
 "tests run the search on three small networks; minimality quantifies over all paths",
 ["pymnet/diagnostics.py"],[("shortest paths","pymnet/diagnostics.py: dijkstra, dijkstra_mlayer_prune")],(),["return values"])
p("C17","Full and random-edge models produce exactly the requested edges",
 "Full models contain exactly all pairs of distinct nodes (or node-layers) in every layer with weight one. Erdos-Renyi models contain exactly the given nodes, only edges of weight one between distinct nodes of the same layer, exactly the requested number of edges when a number is given, all edges for probability one and none for zero; the Barabasi-Albert and overlap-matching models produce their prescribed numbers of edges.",
 ["inputs","schedules"],"all sizes of at least two nodes, layer lists, edge counts up to the maximum, and every sequence of random draws",
 "tests draw single random networks and check sizes; the statement quantifies over all random outcomes",
 ["pymnet/models.py"],[("models","pymnet/models.py: full, full_multilayer, single_layer_er, er, er_partially_interconnected, er_multilayer, ba_total_degree, er_overlaps_match_aggregated")],(),["the returned network"])
p("C18","Configuration-type randomisation preserves the prescribed degrees",
 "Whenever they return, the configuration models produce simple networks (weights one, no self-edges) in which every node has exactly its prescribed degree, or every degree its prescribed number of nodes, in each layer, and overlap degrees for the overlap model. Randomising node identities per layer keeps each layer's nodes and its weighted structure up to renaming.",
 ["inputs","schedules"],"every graphical degree prescription for which the generator returns, every sequence of random draws",
 "repairs of self-, multi- and already used edges happen only for particular random draws, which a sampled test rarely reaches",
 ["pymnet/models.py",TR],[("link swapping","pymnet/models.py: single_layer_conf, conf, conf_overlaps"),("shuffling",TR+": randomize_nodes_by_layer")],(),["degrees of the returned network"])
p("C19","File formats carry exactly the nodes, layers and weighted links",
 "Writing a multiplex network as JSON lists every node and layer once and every intra-layer link once with its endpoints, layer and weight; writing edge files gives one file per layer with one line per link. Reading edge lists or UCINET full matrices gives exactly the layers, nodes, links and weights in the input in every accepted layout of header and labels, and malformed input is rejected with an error.",
 ["inputs"],"every one-aspect multiplex network with serialisable names; every well-formed edge list and UCINET full-matrix text",
 "tests read one example per layout variant",
 ["pymnet/netio.py"],[("readers and writers","pymnet/netio.py: write_json, write_edge_files, read_edge_files, read_ucinet; pymnet/visuals/webplots.py")],(),["file contents and resulting networks"])
p("C20","The networkx view shows exactly the network and networkx is always restored",
 "A one-layer undirected network wrapped for networkx has exactly the nodes, edges and weights of the network, and changes made through networkx or through the network are visible in both. Calling a networkx function through the library gives the same answer as networkx on an ordinary copy of the graph, and afterwards networkx itself is as it was, also when the function fails.",
 ["inputs","fault_sequences"],"every undirected network without aspects, every wrapped call that returns or raises",
 "tests call a few functions that succeed",
 ["pymnet/nxwrap.py"],[("views and decorator","pymnet/nxwrap.py: MonoplexGraphWrapper_*, MonoplexGraphNetworkxView, networkxdecorator")],(),["networkx API on the view, networkx.Graph after a call"])
p("C21","Isomorphism answers are correct for every choice of permutable aspects",
 "Two undirected networks are reported isomorphic exactly when permutations of the allowed aspects' nodes and layers, leaving the other aspects fixed, turn the node-layers and edges of one into those of the other (weights ignored). A returned mapping is such a permutation for each aspect, and none is returned when there is none.",
 ["inputs"],"every pair of undirected networks with the same number of aspects and every set of allowed aspects (networkx backend)",
 "tests check a few pairs; both answers quantify over all permutations",
 ["pymnet/isomorphisms/isomcore.py","pymnet/isomorphisms/__init__.py","pymnet/isomorphisms/nxbackend.py"],[("reduction to coloured graphs","pymnet/isomorphisms/isomcore.py: _build_graph_general, get_isomorphism")],(),["is_isomorphic","get_isomorphism"])
p("C22","Clustering coefficients equal their definitions and each other",
 "Each local and global clustering coefficient equals the value of its defining formula on the (aggregated or intra-layer) edges, and the given default where it is undefined. The alternative algorithms for the same multiplex coefficient (brute force, using the aggregated network, using matrices) give the same numbers for every network.",
 ["inputs"],"every undirected one-aspect multiplex network or weighted monoplex network with nonnegative weights",
 "tests compare algorithms on a few random networks and one worked example",
 ["pymnet/cc.py"],[("coefficients","pymnet/cc.py")],(),["return values"])
p("C23","Subgraph enumeration finds every qualifying induced subgraph exactly once",
 "With all sampling probabilities one, the subgraph sampler and the naive enumerator both report every choice of nodes and layers whose induced subgraph qualifies, each exactly once, and nothing else, with or without copying the network. With probability zero at any depth the sampler reports nothing, and sampled results are always a subset without repetition.",
 ["inputs","schedules"],"every one-aspect network without couplings, every size requirement, every numbering of node-layers and random draws",
 "tests compare the two enumerators on a few networks, and the stronger ones do not run reliably here",
 ["pymnet/sampling/esu.py","pymnet/sampling/dumb.py"],[("enumeration","pymnet/sampling/esu.py: sample_multilayer_subgraphs_esu, _extend_subgraph; pymnet/sampling/dumb.py")],(),["the reported results"])
p("C24","Subgraph requirement checks decide exactly the documented predicate",
 "The requirement checks accept a choice of nodes and layers exactly when the induced subgraph is connected, every chosen node and layer occurs in it, and some assignment of layer roles meets all size and intersection requirements (equal, or at most, as chosen; unspecified ones ignored). The size calculation gives the number of nodes and layers by inclusion-exclusion.",
 ["inputs"],"every network, node list, layer list and requirement",
 "tests check tens of cases; role assignments and intersections give combinatorially many",
 ["pymnet/sampling/reqs.py"],[("requirements","pymnet/sampling/reqs.py: default_check_reqs, relaxed_check_reqs, default_calculate_required_lengths")],(),["return values"])
p("C25","Graphlet distances, orbit numbering and partitions are exact",
 "The graphlet correlation distance is the Euclidean distance of the upper triangles of the two matrices, so the distance matrix is symmetric with zero diagonal. Orbit numbers are a bijection from orbits to consecutive integers whose ordered list is the inverse, the nodes sets touching a node are exactly the connected ones up to the size limit, and partitions are enumerated each exactly once.",
 ["inputs"],"all matrices of equal shape, all orbit tables, all networks and sizes",
 "the graphlet package has no tests",
 ["pymnet/graphlets/graphlet_measures.py","pymnet/graphlets/graphlets.py"],[("measures","pymnet/graphlets/graphlet_measures.py: GCD, GCD_matrix, orbit_numbers, ordered_orbit_list, touching_orbit_nodes; graphlets.py: partitions, partitions_with_remainder")],(),["return values"])
p("C26","Drawing properties and coordinates are resolved as documented",
 "The value of a drawing property is the one in the user's dictionary if present, otherwise the one given by the rule with its modifiers, otherwise the default; edges of undirected networks are found in either direction, and unknown rules are rejected. Normalised coordinates keep order and proportions and span exactly the requested box, and layouts give every node coordinates.",
 ["inputs","configurations"],"every dictionary, rule, modifier, default and item; every coordinate set",
 "tests only draw pictures without inspecting the values",
 ["pymnet/visuals/drawassigners.py","pymnet/visuals/layouts.py","pymnet/visuals/drawnet.py"],[("assigners","pymnet/visuals/drawassigners.py"),("coordinates","pymnet/visuals/layouts.py: normalize_coordinates, get_layout; pymnet/visuals/drawnet.py: normalize_coords")],(),["assigner[item], returned coordinates"])
p("C27","Iterating subnetworks gives each subnetwork exactly once",
 "Iterating the subnetworks of a network gives every induced subnetwork obtained by keeping a nonempty subset of the elementary layers in each removable aspect and everything in the others, exactly once. With edge removal, every subset of the edges (for multiplex networks: intra-layer edges) inside each of those selections is given exactly once, with the original weights and no further nodes.",
 ["inputs"],"every small enough network and every list of removable aspects",
 "no reliable test exercises edge removal",
 [TR],[("enumeration",TR+": subnet_iter")],(),["transforms.subnet_iter"])
p("C28","Graphlets, automorphism orbits and orbit equations are correct",
 "Graphlet generation lists each isomorphism class of connected multilayer graphlets of the requested sizes exactly once, automorphism orbits group exactly the nodes that automorphisms exchange, and the orbit equations hold for the orbit counts of every network.",
 ["inputs"],"all numbers of nodes, layers and couplings",
 "the graphlet package has no tests, and its canonical forms need an external solver that is not installed",
 ["pymnet/graphlets/graphlets.py","pymnet/graphlets/independent_equations.py"],[("graphlets","pymnet/graphlets/graphlets.py: graphlets, automorphism_orbits, orbit_equations")],(),["return values"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))

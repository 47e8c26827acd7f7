NET = 'pymnet/net.py'
prop('C01', 'Edge reads return the last write under every index notation',
     'In a multilayer network with any number of aspects, reading any edge returns the value last written to it, or noEdge if it was never written or was last set to noEdge; in undirected networks both orientations are the same edge, in directed networks they are independent. '
     'The full, abbreviated (same-layer) and node-object notations read and write the same edges. '
     'Accesses with a wrong number of indices raise KeyError and change nothing.',
     ['inputs', 'histories'], 'for all histories of writes, deletions and overwrites, all node and layer labels, weights and noEdge values, directed and undirected, 0-2 aspects',
     'tests write a few fixed edges; aliasing between labels (self-edges, equal node and layer labels, overwrite then delete) is an unbounded space of histories',
     [NET], [('__getitem__/__setitem__ index decoding', NET), ('_get_link/_set_link nested dictionaries', NET)])
prop('C02', 'Degrees, strengths and neighbours agree with the edges after any history',
     'After any sequence of edge writes, overwrites and deletions, the in-, out- and total neighbours of a node(-layer), its degrees and its strengths are exactly those implied by the edges that reading the network returns. '
     'A node sliced with ":" for some positions and given labels for others sees exactly the links whose other end matches those labels.',
     ['inputs', 'histories'], 'for all write/overwrite/delete histories and labels, directed and undirected, 0-2 aspects, all slicing patterns',
     'degree tables are kept incrementally; a missing update shows only after particular histories (deletion, reciprocal edges, self-edges)',
     [NET], [('_totalDegree and reverse dictionaries', NET), ('MultilayerNode', NET)])
prop('C03', 'Edge iteration yields every edge exactly once with its weight',
     'Iterating net.edges yields each existing edge exactly once (once per unordered pair in undirected networks, once per direction in directed ones), self-edges and inter-layer edges included, with the weight that reading it returns. '
     'len(net.edges) is the number of edges. This holds for multilayer networks and for multiplex networks with generated coupling edges, fully interconnected or not.',
     ['inputs', 'histories', 'configurations'], 'for all networks within the bounds, all histories',
     'tests compare a few fixed edge lists',
     [NET], [('MultilayerEdges', NET)])
prop('C04', 'Nodes, layers and node-layers are exactly those added',
     'The nodes, the elementary layers of each aspect and the layers of the network are exactly those added explicitly or named by an edge write (directly or through an intra-layer network), and nothing is removed by edge deletion. '
     'In fully interconnected networks every node is in every layer; otherwise a node is in exactly the layers it was added to or got an edge in, and iter_nodes(layer) and iter_node_layers agree on it.',
     ['inputs', 'histories', 'configurations'], 'for all sequences of add_node, add_layer and edge writes with any labels',
     'membership bookkeeping is spread over three structures; tests try fixed sequences',
     [NET], [('add_node/add_layer/_add_node_to_layer', NET), ('MultilayerNetworkWithParent.add_node', NET)])
prop('C05', 'Multiplex coupling edges follow the coupling rule in every view',
     'In a multiplex network an inter-layer edge exists exactly between two copies of one node in existing layers that differ in one aspect and are coupled by that aspect\'s rule (categorical: any two layers; ordinal: consecutive integers; none: never; network: as in the coupling network), with that rule\'s weight. '
     'Edge reads, neighbour iteration, degrees and strengths (sliced or not, fully interconnected or not) all report the same set of coupling and intra-layer edges.',
     ['inputs', 'configurations'], 'for all coupling combinations over 1-2 aspects, all layer labels, coupling weights and membership patterns',
     'tests use two or three fixed coupling set-ups; the coupling edges are computed separately for reads, degrees, strengths and iteration',
     [NET], [('_get_link', NET), ('_get_dim_degree/_get_dim_strength/_iter_dim', NET), ('_select_dimensions', NET)])
prop('C06', 'Multiplex intra-layer networks and the network are one edge set',
     'Edges written through the multiplex network or through A[layer] are the same edges in both views, and layers are independent of each other, including layers of any aspect added later. '
     'Assigning a monoplex network to A[layer] replaces that layer with an independent copy of it. '
     'Writing a coupling edge or self-link, or assigning something that is not a monoplex network, is rejected with an exception and changes nothing.',
     ['inputs', 'histories'], 'for all write sequences through either view, all noEdge values, directed or not, 1-2 aspects',
     'tests write each view once',
     [NET], [('MultiplexIntraNetDict', NET), ('MultilayerNetworkWithParent', NET), ('MultiplexNetwork._set_link', NET)])
prop('C07', 'Networks compare equal exactly when they describe the same network',
     'Two networks are equal exactly when they are of the same class, directedness, interconnectedness and noEdge, have the same aspects, couplings, nodes, layers and node-layers, and every edge has the same weight in both, regardless of the order in which they were built. '
     'Equality is reflexive and symmetric, and != is its negation.',
     ['inputs', 'configurations'], 'for all pairs of networks within the bounds',
     'tests compare a handful of equal or unequal networks',
     [NET], [('__eq__/__ne__', NET)])
TR, DG, MO, IO = 'pymnet/transforms.py', 'pymnet/diagnostics.py', 'pymnet/models.py', 'pymnet/netio.py'
prop('C08', 'The supra-adjacency matrix is the matrix of edge weights',
     'The supra-adjacency matrix has one row and one column for each node-layer, in the order of the list returned with it, and entry (i,j) is the weight of the edge from the i-th to the j-th node-layer, 0 when there is none; with includeCouplings=False the entries between different layers are 0. '
     'Computing it does not change the network.',
     ['inputs', 'configurations'], 'for all networks within the bounds: multilayer and multiplex, directed or not, with self-edges, couplings and any membership',
     'tests compare one fixed matrix',
     [NET], [('get_supra_adjacency_matrix', NET)])
prop('C09', 'Aggregation over aspects sums the weights of the edges it merges',
     'Aggregating a network over aspects gives a network over the remaining aspects with the same nodes, remaining layers and directedness, in which the weight of an edge is the sum of the weights of all edges of the original that project onto it (coupling edges included; each undirected edge once). '
     'Edges that project to a self-edge are left out unless selfEdges is True, and the original network is not changed.',
     ['inputs', 'configurations'], 'for all edge sets and weights, every choice and order of aspects, multilayer and multiplex, directed or not, any membership, noEdge 0',
     'tests aggregate fixed small networks',
     [TR], [('aggregate', TR)])
prop('C10', 'The overlay network sums intra-layer weights over layers',
     'The overlay network of a network with one aspect is a monoplex network with the same nodes and directedness in which the weight of the edge between two different nodes is the sum of the weights of their edges over all layers; inter-layer edges do not count. '
     'Networks that do not have exactly one aspect are rejected, and the original network is not changed.',
     ['inputs', 'configurations'], 'for all weights and edge sets, directed or not, multilayer or multiplex, any membership, noEdge 0',
     'tests use one fixed example',
     [TR], [('overlay_network', TR)])
prop('C11', 'A subnetwork is exactly the one induced by the selection',
     'subnet returns a new, independent network of the same kind with the selected nodes and elementary layers that are in the original (unknown labels are ignored, None selects all), exactly the edges between the selected node-layers with their weights (none with nolinks), and the same couplings. '
     'A multiplex network copied to a multilayer one has its coupling edges as ordinary edges. The original network is not changed.',
     ['inputs', 'configurations'], 'for all networks within the bounds and all selections of labels, known or unknown, repeated or not',
     'tests use a few fixed selections',
     [TR], [('subnet', TR)])
prop('C12', 'Relabelling and normalising keep the network up to renaming',
     'relabel returns a network of the same kind in which every node and layer is replaced by its new name (unmapped ones keep theirs) and the edges, weights and node-layers correspond one to one; the arguments and the original network are not changed. '
     'normalize renames nodes and layers to consecutive integers from nodeStart and layerStart in sorted order, and the maps it returns are the ones used.',
     ['inputs', 'configurations'], 'for all networks within the bounds, all injective renamings, all starting numbers, any order of the original names',
     'tests relabel a fixed network',
     [TR], [('relabel', TR), ('normalize', TR)])
prop('C13', 'Thresholding keeps exactly the edges that pass the threshold',
     'Thresholding returns a network with the same nodes, layers and directedness that has, with its weight, exactly each edge whose weight satisfies the given comparison (>=, <=, > or <; by default >=) with the threshold; coupling edges are compared as well. '
     'A multiplex network without couplings stays multiplex, others become multilayer, an unknown method is rejected, and the original network is not changed.',
     ['inputs', 'configurations'], 'for all weights (equal to the threshold included), thresholds, comparisons and networks within the bounds',
     'tests use one threshold on one network',
     [TR], [('threshold', TR)])
prop('C14', 'Randomising node identities permutes the nodes within each layer',
     'randomize_nodes_by_layer returns a new multiplex network with the same nodes, layers, node-layers and couplings in which each layer is the original layer with its own nodes permuted, whatever the random permutations are; the original network is not changed.',
     ['inputs', 'configurations'], 'for all edge sets, weights, memberships and all outcomes of the shuffles',
     'tests check sizes of one random outcome',
     [TR], [('randomize_nodes_by_layer', TR)])
prop('C15', 'Subnetwork enumeration yields every subnetwork exactly once',
     'subnet_iter yields each subnetwork obtained by selecting nonempty sets of the elementary layers of the given aspects (all of them for the others) and, with remove_edges, any subset of the induced intra-layer edges, exactly once and of the same type. '
     'get_underlying_graph gives a monoplex network with one node for each node-layer and the same edges and weights, coupling edges included. The original network is not changed.',
     ['inputs', 'configurations'], 'for all edge sets and weights within the bounds, all aspects to remove from, multilayer and multiplex, directed or not, any membership',
     'tests count the subnetworks of two fixed networks',
     [TR], [('subnet_iter', TR), ('get_underlying_graph', TR)])
prop('C16', 'Degree distributions, densities and overlap degrees match the edges',
     'degs and multiplex_degs give every node(-layer) the number of its neighbours (within its layer for multiplex_degs), and the distributions count the nodes of each degree. '
     'density and multiplex_density are the number of edges over the number of possible edges between distinct node-layers (of the layer), in [0,1], also for networks with one node. '
     'overlap_degs counts for each combination of layers the neighbours linked in exactly these layers.',
     ['inputs', 'configurations'], 'for all edge sets within the bounds, directed or not, multilayer and multiplex, any membership; densities without self-edges, overlap degrees for unweighted networks',
     'tests compute them for a few fixed networks',
     [DG], [('degs', DG), ('density', DG), ('multiplex_degs', DG), ('multiplex_density', DG), ('overlap_degs', DG)])
prop('C17', 'Shortest path distances and forests are exact',
     'dijkstra returns for exactly the node-layers reachable from the sources the length of a shortest path over positive edge weights, and the forest of exactly the edges that lie on shortest paths from the sources. '
     'The pruned variant gives each node projected over the pruned aspects the smallest distance of its copies, and keeps the forest edges that lead to a copy at that distance.',
     ['inputs', 'configurations'], 'for all positive weights (ties included), edge sets and sources within the bounds, directed or not, any membership',
     'tests compare distances on fixed networks; ties and unreachable node-layers are rare there',
     [DG], [('dijkstra', DG), ('dijkstra_mlayer_prune', DG)])
prop('C18', 'Erdos-Renyi models give simple graphs of the requested size',
     'Erdos-Renyi layers are simple graphs on exactly the given nodes with unit weights: no self-edges, no repeated edges; with edges=m exactly m edges, with p=0 none and with p=1 all. '
     'The multiplex models have one such layer for each given one with exactly its nodes and the requested couplings, is fully interconnected exactly when the number of nodes and not a list of nodes for each layer is given, and invalid argument combinations are rejected. This holds for every random outcome.',
     ['inputs', 'configurations'], 'for all outcomes of the random numbers and all probabilities within the bounds on nodes, layers and edges',
     'tests check one random outcome',
     [MO], [('single_layer_er', MO), ('er', MO), ('er_partially_interconnected', MO)])
prop('C19', 'The configuration model reproduces the degrees exactly',
     'The configuration models give simple undirected graphs with unit weights in which every node has exactly the requested degree (or exactly the requested number of nodes have each degree), for every layer of multiplex networks, whatever the random outcome, and the arguments are not changed. '
     'Degree sequences that are impossible by parity or size are rejected.',
     ['inputs', 'configurations'], 'for all degree sequences within the bounds and all outcomes of the shuffles and rewirings',
     'tests check one random outcome of a few sequences',
     [MO], [('conf', MO), ('single_layer_conf', MO)])
prop('C20', 'The other network models have the structure they document',
     'full and full_multilayer networks have every possible edge between distinct nodes (node-layers), with the requested couplings. '
     'er_multilayer has edges between distinct node-layers only, all for p=1, none for p=0, with weight 1 or in (0,1]; conf_overlaps and er_overlaps give the requested numbers of links shared by exactly each layer combination; preferential attachment gives every new node exactly the requested number of links per layer to distinct older nodes. '
     'All nodes and layers asked for exist, whatever the random outcome.',
     ['inputs', 'configurations'], 'for all outcomes of the random numbers within the bounds on sizes',
     'tests check one random outcome',
     [MO], [('full', MO), ('full_multilayer', MO), ('er_multilayer', MO), ('conf_overlaps', MO), ('er_overlaps_match_aggregated', MO), ('ba_total_degree', MO)])
prop('C21', 'Edge files are read and written without loss',
     'Reading multilayer edge lists gives the multiplex network with exactly the edges in the file (weights, directedness, couplings and interconnectedness as requested), and lines with a wrong number of columns are rejected. '
     'Writing edge files gives for each layer exactly its edges, each once, with their weights, and a master file that lists the layers; edges written and read back are the same.',
     ['inputs', 'configurations'], 'for all numbers of nodes, layers and weights in the lines, within the bounds on lines, and all networks within the bounds',
     'tests read one file',
     [IO], [('read_edge_files', IO), ('write_edge_files', IO)])
prop('C22', 'JSON, web page, UCINET and pickled forms describe the same network',
     'The JSON text and the web page of a multiplex network contain exactly its nodes, layers and intra-layer edges with their weights, whatever characters the names contain. '
     'Reading a UCINET full matrix gives exactly the nodes, layers and nonzero edges of the matrix under every way of giving labels, and malformed or unsupported input is rejected. '
     'A pickled or deep-copied network is equal to and independent of the original.',
     ['inputs', 'configurations'], 'for all weights, matrices and names within the bounds',
     'tests read fixed files and write one network',
     [IO, 'pymnet/visuals/webplots.py', NET], [('write_json', IO), ('read_ucinet', IO), ('webplot', 'pymnet/visuals/webplots.py'), ('pickling', NET)])
CC, NXW, ISO, SAM, GRA, VIS = 'pymnet/cc.py', 'pymnet/nxwrap.py', 'pymnet/isomorphisms', 'pymnet/sampling', 'pymnet/graphlets', 'pymnet/visuals'
prop('C23', 'networkx functions see the network as it is, and leave networkx as it was',
     'A monoplex network viewed as a networkx graph shows exactly its nodes, edges, weights, degrees and neighbours, before and after any changes made through the graph or the network, and changes made through the graph are changes of the network. '
     'Functions of networkx called through the wrapper take networks, return the graphs they make as networks, and leave networkx itself unchanged, also when they raise an exception.',
     ['inputs', 'histories'], 'for all weights and all sequences of operations within the bounds on nodes and steps',
     'tests call a few functions on one network each',
     [NXW], [('MonoplexGraphNetworkxView', NXW), ('networkxdecorator', NXW)])
prop('C24', 'Clustering coefficients of weighted networks follow their definitions',
     'The unweighted, Zhang-Horvath, Onnela and Barrat clustering coefficients of a node, the global ones, and the counts and coefficients over the layers and over the supra-graph of a multiplex network are the ratios of triangles to pairs of neighbours in their definitions, and the undefined value exactly when there is nothing to divide by. '
     'The weighted versions agree with the unweighted one when all weights are 1.',
     ['inputs', 'configurations'], 'for all edge sets and positive weights within the bounds',
     'tests compare numbers on a few networks',
     [CC], [('lcc', CC), ('cc_zhang', CC), ('cc_onnela', CC), ('cc_barrat', CC), ('gcc_zhang', CC), ('gcc_super_graph', CC)])
prop('C25', 'Alternating-walk clustering counts exactly the closed walks',
     'The cycle counts of a node-layer are the numbers of closed alternating walks of each kind, and the numerators and denominators from the network, from neighbour counting and from the adjacency matrices are the same. '
     'Local, global and layer-separated clustering coefficients are the stated ratios of these counts, and undefined only when there are no walks to close.',
     ['inputs', 'configurations'], 'for all edge sets of multiplex networks within the bounds, any membership, and all mixing parameters',
     'tests compare numbers on a few networks',
     [CC], [('cc_cycle_vector_bf', CC), ('cc_cycle_vector_adj', CC), ('lcc_aw', CC), ('sncc_aw', CC), ('gcc_aw', CC), ('gcc_aw_seplayers_adj', CC)])
prop('C26', 'Other multiplex clustering coefficients follow their definitions',
     'The clustering coefficients of Barrett et al., Brodka et al., Criado et al., Battiston et al., and the tensor contraction coefficient of a multiplex network have the values of their definitions for every network, and the undefined value when there is nothing to divide by.',
     ['inputs', 'configurations'], 'for all edge sets (and weights where weighted) within the bounds, any membership',
     'tests compare numbers on a few networks',
     [CC], [('cc_barrett', CC), ('lcc_brodka', CC), ('lcc_criado', CC), ('lcc_battiston1', CC), ('lcc_battiston2', CC), ('gcc_contraction_m', CC)])
prop('C27', 'Isomorphism, automorphisms and complete invariants are decided exactly',
     'Two networks are reported isomorphic exactly when a permutation of the elements of the allowed aspects maps one onto the other, and then the mapping returned is such a permutation; complete invariants (and certificates as text) are equal exactly for isomorphic networks. '
     'The automorphism generators are automorphisms and generate all of them.',
     ['inputs', 'configurations'], 'for all pairs of networks within the bounds, every choice of aspects and both backends',
     'tests compare a few pairs',
     [ISO + '/isomcore.py', ISO + '/nxbackend.py', ISO + '/blissbackend.py'], [('AuxiliaryGraphBuilder', ISO + '/isomcore.py'), ('AuxiliaryGraphBuilderNX', ISO + '/nxbackend.py'), ('AuxiliaryGraphBuilderBliss', ISO + '/blissbackend.py')])
prop('C28', 'Subgraph enumeration finds every matching subgraph exactly once',
     'The ESU and the exhaustive enumeration return exactly the connected induced subgraphs of the requested sizes, intersections or node and layer counts, each once, and do not change the network; a custom check is asked about candidates of the right shape and decides the result. '
     'With sampling probabilities, every such subgraph is returned with probability exactly their product.',
     ['inputs', 'configurations'], 'for all edge sets of networks within the bounds, all listed requests, and all sampling probabilities',
     'tests compare the two algorithms on random networks',
     [SAM + '/esu.py', SAM + '/dumb.py'], [('sample_multilayer_subgraphs_esu', SAM + '/esu.py'), ('_extend_subgraph', SAM + '/esu.py'), ('dumb_enumeration', SAM + '/dumb.py')])
prop('C29', 'Requirement checks accept exactly the subgraphs asked for',
     'The default check accepts node and layer lists exactly when their induced subgraph is connected, uses all of them, and has layers of the required sizes and intersections in some order (at most those with the less-strict type); the relaxed check exactly when it is connected and uses all of them. '
     'The numbers of nodes and layers required follow from sizes and intersections by inclusion and exclusion, and inappropriate requests are rejected.',
     ['inputs', 'configurations'], 'for all edge sets and memberships within the bounds and all sizes and intersections',
     'tests check a few requests',
     [SAM + '/reqs.py'], [('default_check_reqs', SAM + '/reqs.py'), ('relaxed_check_reqs', SAM + '/reqs.py'), ('default_calculate_required_lengths', SAM + '/reqs.py')])
prop('C30', 'Graphlets, orbits and orbit counts are complete and exact',
     'The generated graphlets are connected, pairwise non-isomorphic, and every connected multiplex network of those sizes is isomorphic to one of them; two nodes are in the same automorphism orbit exactly when an automorphism maps one to the other. '
     'The orbit counts of a node are the numbers of induced subgraphs of each graphlet touching it at that orbit, and there is one orbit equation for each pair of orbits that together fit into the given number of nodes, which holds for every node of every network; counting leaves the network as it was.',
     ['inputs', 'configurations'], 'for all edge sets of multiplex networks within the bounds on nodes and layers',
     'tests compare totals for fixed sizes',
     [GRA + '/graphlets.py', GRA + '/graphlet_measures.py'], [('graphlets', GRA + '/graphlets.py'), ('automorphism_orbits', GRA + '/graphlets.py'), ('orbit_counts', GRA + '/graphlet_measures.py'), ('orbit_equations', GRA + '/graphlets.py')])
prop('C31', 'Drawings show exactly the network with the properties asked for',
     'draw() makes one drawn layer, node and edge (in each direction for undirected networks) for each of those in the network, at the given coordinates, with each property taken from its dictionary, else from its rule, else from its default. '
     'Layers are stacked in the requested order, coordinates are scaled affinely into the unit square, edges are drawn as connected segments between their ends, and the three.js page has all node-layers and edges.',
     ['inputs', 'configurations'], 'for all edge sets, coordinates and property values within the bounds, every property and rule',
     'tests draw pictures without looking at them',
     [VIS + '/drawcore.py', VIS + '/drawassigners.py', VIS + '/drawnet.py', VIS + '/drawbackends/mpl.py', VIS + '/drawbackends/threejs.py'],
     [('draw', VIS + '/drawcore.py'), ('PropertyAssigner', VIS + '/drawassigners.py'), ('normalize_coords', VIS + '/drawnet.py'), ('EdgeMPL.draw', VIS + '/drawbackends/mpl.py')])
prop('C32', 'Layouts give every element coordinates inside the box',
     'normalize_coordinates maps the coordinates linearly onto the box, and every layout gives coordinates to exactly the nodes (aligned) or node-layers. '
     'The Fruchterman-Reingold layout stays in the box, keeps fixed elements and, without iterations, all initial coordinates; it depends only on differences of initial coordinates, links attract, and repulsion acts only within layers.',
     ['inputs', 'configurations'], 'for all coordinates, boxes and edge sets within the bounds, up to two iterations',
     'tests do not look at the coordinates',
     [VIS + '/layouts.py'], [('normalize_coordinates', VIS + '/layouts.py'), ('get_layout', VIS + '/layouts.py'), ('get_fruchterman_reingold_multilayer_layout', VIS + '/layouts.py')])
prop('C33', 'The modularity view subtracts the expected weights within layers',
     'The weight in the modularity view is w - gamma k_i k_j / 2m within a layer, where k are strengths within the layer and 2m their sum, and the weight of the network between layers; in layers without edges it is the weight itself. '
     'The view has the nodes, layers and aspects of the network, which is not changed.',
     ['inputs', 'configurations'], 'for all weights and gamma within the bounds, multilayer and multiplex, any membership',
     'the view has no tests',
     [NET], [('ModularityMultilayerNetworkView', NET)])
prop('C34', 'Random models draw networks from exactly their stated distributions',
     'The Erdos-Renyi models give every edge independently with its probability, or every set of m edges with the same probability; randomizing the nodes by layer applies independent uniform permutations; preferential attachment follows the total degree; the configuration model without conflicts pairs stubs uniformly. '
     'A given seed seeds the generator.',
     ['inputs', 'configurations'], 'for all edge probabilities, over all sequences of random draws, within the bounds on nodes and layers',
     'tests see single outcomes of the random draws',
     [MO, TR, SAM + '/creators.py'], [('single_layer_er', MO), ('er_multilayer', MO), ('randomize_nodes_by_layer', TR), ('er_multilayer_partially_interconnected', SAM + '/creators.py'), ('ba_total_degree', MO)])
prop('C35', 'Redundant orbits are determined by the other orbit counts',
     'The independent orbit equations are orbit equations none of which follows from the others, and every orbit equation that is left out follows from them. '
     'There is one redundant orbit for each independent equation, and whatever the counts of the other orbits are, the equations leave exactly one possible count for each redundant orbit.',
     ['inputs', 'configurations'], 'for all values of the orbit counts, for graphlets of up to 4 nodes and 3 layers with node or node-layer isomorphism',
     'there are no tests of this module; the statement is about all solutions of up to a hundred nonlinear equations',
     ['pymnet/graphlets/independent_equations.py'], [('independent_equations', 'pymnet/graphlets/independent_equations.py'), ('redundant_orbits', 'pymnet/graphlets/independent_equations.py')])
prop('C36', 'Watts-Strogatz and geometric multiplex models have the asked structure',
     'ws and geo give fully interconnected multiplex networks with n nodes, the requested couplings and one layer for each given number of edges, each a simple graph with unit weights. '
     'A Watts-Strogatz layer has exactly its number of edges when that is a multiple of n, and is the ring lattice when p is 0. '
     'All layers of a geometric network share the positions of the nodes, and the radius of each layer is such that the expected number of pairs within it is its number of edges up to a fifth. This holds for every random outcome.',
     ['inputs', 'configurations'], 'for all outcomes of the random numbers and rewiring probabilities within the bounds on nodes, layers, edges and draws',
     'these models have no tests',
     [MO], [('ws', MO), ('geo', MO)])

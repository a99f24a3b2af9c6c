"""Which harnesses decide which property, with their bounds."""
SPECS = {}


def P(prop, *jobs, **kw):
    SPECS[prop] = dict(jobs=list(jobs), **kw)


def J(name, src, entry, **kw):
    return dict(name=name, src=src, entry=entry, **kw)


P("C01",
  J("queue", "C01.c", "h_queue", tdefs={"K": 9}, bounds="every sequence of K operations (enqueue/dequeue/clear), K=6 (thorough 9)", reach=["end", "dequeued"]),
  J("stack", "C01.c", "h_stack", tdefs={"K": 9}, bounds="every sequence of K operations (push/pop/clear), K=6 (thorough 9)", reach=["end", "popped"]),
  must_encode=["queue_enqueue", "stack_push"])

P("C02",
  J("reader", "C02.c", "h_reader", defs={"L": 4}, tdefs={"L": 5}, bounds="every file of L=4 (thorough 5) lines over 3 labels, all 16 option combinations, weights any real in [0.25,8]", reach=["end", "three nodes"]),
  J("labels", "C02.c", "h_labels", bounds="every file of 3 lines over three sets of three labels: 98 and 99 characters alike but for the last, punctuation and format directives, numbers; all 16 option combinations", reach=["end", "three nodes"]),
  J("many", "C02.c", "h_many", defs={"HXM": 24}, bounds="files of 132 lines over 22 labels, one line arbitrary (44 choices), options symmetric and adding weights"),
  J("empty", "C02.c", "h_empty", bounds="the empty file"),
  must_encode=["FBuildNetwork", "AddAdjacency", "NodeDegree", "NodeStrength", "TotalNLinks"])

P("C04",
  J("edits", "C04.c", "h_edits", tdefs={"KK": 3}, bounds="3 nodes, 16 starting networks, every sequence of K=2 (thorough 3) edits, weights any real in [0.25,8]", reach=["end", "removed"]),
  J("family", "C04.c", "h_family", defs={"KK": 1, "HX_TG": 2}, tdefs={"HX_TG": 5}, reach=["end", "removed"], bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of two (thorough five) further pairs toggled, weighted, directed or not, every edit"),
  J("soft", "C04.c", "h_soft", bounds="all directed networks of 3 nodes, at most one missing label", reach=["end", "cleaned"]),
  J("isolated", "C04.c", "h_isolated", bounds="all undirected networks of 4 and directed networks of 3 nodes", reach=["end", "removed"]),
  J("grouplinks", "C04.c", "h_grouplinks", bounds="every weighted undirected network of 4 nodes, every choice of two groups"),
  J("clear", "C04.c", "h_clear", bounds="every directed network of 3 nodes with self-links, every set of marked nodes, degrees read before or not", reach=["end", "cut"]),
  must_encode=["AddAdjacency", "AddAdjacencySoft", "RemoveLink", "CleanAdjacencies", "RewireAdjacencyByLabel", "RemoveIsolatedNodes"])

P("C03",
  J("reader", "C03.c", "h_reader", defs={"L": 4}, tdefs={"L": 5}, bounds="every file of L=4 (thorough 5) lines over 3+3 labels (one label in both columns), all 4 option combinations, weights any real in [0.25,8]", reach=["end", "three nodes"]),
  J("labels", "C03.c", "h_labels", bounds="every file of 3 lines over two sets of three labels: 98 and 99 characters alike but for the last, punctuation and format directives; all 4 option combinations", reach=["end", "three nodes"]),
  J("many", "C03.c", "h_many", defs={"HXM": 24}, bounds="files of 110 lines over 22 and 13 labels, one line arbitrary"),
  J("empty", "C03.c", "h_empty", bounds="the empty file"),
  must_encode=["FBuildNetworkBipart", "NLinksBipart"])

P("C28",
  J("project", "C28.c", "h_project", defs={"NN": 4, "MM": 3}, tdefs={"NN": 4, "MM": 4}, bounds="every bipartite network of 4x3 (thorough 4x4) nodes, both link orders"),
  J("projectw", "C28.c", "h_projectw", defs={"NN": 3, "MM": 3}, bounds="every weighted bipartite network of 3x3 nodes, weights any real in [0.25,8]"),
  J("edits", "C28.c", "h_edits", defs={"NN": 3}, bounds="every weighted bipartite network of 3x2 nodes, every sequence of 2 edits (swap sides, remove a node of either side)", reach=["end", "removed"]),
  J("family", "C28.c", "h_family", bounds="six frames of 6x5 nodes (chain, a node linked to all, all linked, two blocks, none) with every subset of four further pairs toggled, weighted or not"),
  J("familyedits", "C28.c", "h_familyedits", reach=["end", "removed"], bounds="six frames of 6x5 nodes (chain, a node linked to all, all linked, two blocks, none) with every subset of four further pairs toggled, weighted, every sequence of 2 edits"),
  must_encode=["ProjectBipart", "ProjectBipartWeighted", "RemoveNodeBipart", "InvertBipart"])

P("C05",
  J("copy", "C05.c", "h_copy", defs={"NN": 3}, bounds="every directed network of 3 nodes with self-links", reach=["end", "independent"]),
  J("copybip", "C05.c", "h_copybip", bounds="every weighted bipartite network of 3x2 nodes"),
  J("family", "C05.c", "h_family", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of five further pairs toggled, weighted, directed or not"),
  J("familysub", "C05.c", "h_familysub", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of five further pairs toggled, weighted, five groups"),
  J("familybip", "C05.c", "h_familybip", bounds="six frames of 6x5 nodes (chain, a node linked to all, all linked, two blocks, none) with every subset of four further pairs toggled, weighted"),
  J("sum", "C05.c", "h_sum", bounds="every pair of directed networks of 2 nodes with self-links and one, two or no shared labels", reach=["end", "shared label"]),
  J("sub", "C05.c", "h_sub", defs={"KK": 4}, tdefs={"KK": 5}, bounds="every weighted undirected network of 4 (thorough 5) nodes, every choice of the group's nodes", reach=["end", "neighbours"]),
  must_encode=["CopyNetwork", "CopyBipart", "AddTwoNetworks", "BuildNetFromGroup", "BuildNetFromGroupNeig"])

P("C06",
  J("undirected", "C06.c", "h_undirected", bounds="every undirected network of 4 nodes; link weights from {1, 0.3125, 12.0625, 100}"),
  J("selflinks", "C06.c", "h_selflinks", bounds="every undirected network of 3 nodes with self-links"),
  J("directed", "C06.c", "h_directed", bounds="every directed network of 3 nodes with self-links; four weights"),
  J("bipart", "C06.c", "h_bipart", bounds="every bipartite network of 3x3 nodes; four weights"),
  J("family", "C06.c", "h_family", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of five further pairs toggled, weighted or not, directed or not"),
  J("familybip", "C06.c", "h_familybip", bounds="six frames of 6x5 nodes (chain, a node linked to all, all linked, two blocks, none) with every subset of four further pairs toggled, weighted or not"),
  J("digits", "C06.c", "h_digits", mode="mix", bounds="eleven sizes of weights from 1e-300 to 1e100, of both signs"),
  J("pajek", "C06.c", "h_pajek", bounds="every undirected network of 3 nodes with self-links; four weights"),
  J("degrees", "C06.c", "h_degrees", bounds="every directed network of 3 nodes with self-links"),
  must_encode=["FPrintNetAdjacencyList", "FPrintBipart", "FPrintPajekFile"])

P("C18",
  J("edits", "C18.c", "h_edits", defs={"NN": 4, "KK": 2, "FEW": 1}, tdefs={"KK": 3}, bounds="16 (of 64) undirected weighted networks of 4 nodes, 3 groups, every sequence of 2 (thorough 3) edits", reach=["end", "added", "merged"]),
  J("fast", "C18.c", "h_fast", defs={"NN": 3, "KK": 2}, bounds="every weighted network of 3 nodes, 3 groups, every sequence of 2 edits with the variants that do not count links", reach=["end", "added", "merged"]),
  J("keep", "C18.c", "h_keep", defs={"NN": 4}, bounds="every weighted undirected network of 4 nodes, every assignment to 3 groups", reach=["end", "empty groups"]),
  J("big", "C18.c", "h_edits", defs={"NN": 8, "KK": 1, "FAMILY": 1, "HX_TG": 3}, tdefs={"HX_TG": 5}, reach=["end", "added", "merged"], bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of three (thorough five) further pairs toggled, three divisions into groups, every edit"),
  J("bigkeep", "C18.c", "h_keep", defs={"NN": 8, "FAMILY": 1}, reach=["end", "empty groups"], bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of five further pairs toggled, three divisions into groups"),
  J("create", "C18.c", "h_create", defs={"NN": 3}, bounds="every weighted undirected network of 3 nodes, every assignment to 4 group numbers, every group size"),
  J("soft", "C18.c", "h_soft", bounds="up to 4 groups of up to 4 labels"),
  must_encode=["AddNodeToGroup", "RemoveNodeFromGroup", "MoveNode", "MergeGroups", "MapPartToNet", "CopyPartition", "CompressPart"])

P("C13",
  J("ops", "C13.c", "h_ops", defs={"NN": 4, "MM": 3, "KK": 2}, tdefs={"KK": 3}, bounds="4 nodes of any strengths, every assignment to 3 modules, every sequence of 2 (thorough 3) operations (move, merge, copy)", reach=["end", "moved", "merged", "copied"]),
  J("compress", "C13.c", "h_compress", defs={"NN": 4, "MM": 4}, bounds="every assignment of 4 nodes to 4 modules, then moves and compactions", reach=["end", "compacted"]),
  J("allempty", "C13.c", "h_allempty", bounds="empty partitions of up to 3 nodes and modules"),
  J("assign", "C13.c", "h_assign", defs={"NN": 3}, bounds="3 nodes of any strengths, 1 to 4 modules, every draw"),
  J("split", "C13.c", "h_split", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every network of 4 (thorough 5) nodes, every module, every draw", reach=["end", "three components"]),
  J("splitsa", "C13.c", "h_splitsa", bounds="every network of 3 nodes, every module, every draw, two temperatures"),
  J("opsbig", "C13.c", "h_ops", defs={"NN": 7, "MM": 4, "KK": 2, "PATTERN": 1}, reach=["end", "moved", "merged", "copied"], bounds="7 nodes of any strengths, four assignments to 4 modules, every sequence of 2 operations"),
  J("compressbig", "C13.c", "h_compress", defs={"NN": 7, "MM": 6, "PATTERN": 1}, reach=["end", "compacted"], bounds="7 nodes, four assignments to 6 modules, then moves and compactions"),
  J("splitbig", "C13.c", "h_split", defs={"NN": 8, "PATTERN": 1, "HX_TG": 3}, reach=["end", "three components"], bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of three further pairs toggled, four modules, every draw"),
  must_encode=["ChangeModule", "MergeModules", "SplitModuleByComponent", "CompressPartition", "CopyPartitionStruct", "AssignNodesToModules"])

P("C14",
  J("move", "C14.c", "h_move", defs={"NN": 4}, bounds="every weighted network of 4 nodes (weights and node strengths any reals), every partition into at most 3 modules, every move"),
  J("merge", "C14.c", "h_merge", defs={"NN": 4}, bounds="the same, every merge"),
  J("split", "C14.c", "h_split", defs={"NN": 4}, bounds="the same, every split along components", reach=["end", "split"]),
  J("moveself", "C14.c", "h_moveself", defs={"NN": 3}, bounds="3 nodes with self-links, every move"),
  J("mergeself", "C14.c", "h_mergeself", defs={"NN": 3}, bounds="3 nodes with self-links, every merge"),
  J("movedup", "C14.c", "h_movedup", defs={"NN": 3}, bounds="3 nodes, one pair listed twice, every move"),
  J("mergedup", "C14.c", "h_mergedup", defs={"NN": 3}, bounds="3 nodes, one pair listed twice, every merge"),
  J("formula", "C14.c", "h_formula", bounds="every weighted network of 3 nodes, normalised, every partition"),
  J("movebig", "C14.c", "h_move", defs={"NN": 8, "MM": 3, "PATTERN": 1, "HX_TG": 2}, bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of two further pairs toggled, weighted, three partitions, every move"),
  J("mergebig", "C14.c", "h_merge", defs={"NN": 8, "MM": 3, "PATTERN": 1}, bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of five further pairs toggled, weighted, three partitions, every merge"),
  must_encode=["dEChangeModule", "dEMergeModules", "PartitionModularity"])

P("C15",
  J("uni", "C15.c", "h_uni", defs={"NN": 3, "EE": 3}, tdefs={"EE": 4}, bounds="every edge list of up to 3 (thorough 4) edges over 3 nodes (repeats, self-links, either order), weights any reals, normalised or not", reach=["end", "normalised"]),
  J("bip", "C15.c", "h_bip", defs={"NN": 3, "MM": 3}, tdefs={"NN": 4}, bounds="every bipartite network of 3x3 (thorough 4x3) nodes, three edge orders"),
  J("bipw", "C15.c", "h_bipw", defs={"NN": 3, "MM": 2}, tdefs={"MM": 3}, bounds="every weighted bipartite network of 3x2 (thorough 3x3) nodes, three edge orders, weights any reals"),
  J("bipbig", "C15.c", "h_bip", defs={"NN": 6, "MM": 5, "PATTERN": 1}, bounds="six frames of 6x5 nodes (chain, a node linked to all, all linked, two blocks, none) with every subset of four further pairs toggled, three edge orders"),
  J("bipwbig", "C15.c", "h_bipw", defs={"NN": 6, "MM": 5, "PATTERN": 1}, bounds="six frames of 6x5 nodes (chain, a node linked to all, all linked, two blocks, none) with every subset of four further pairs toggled, weighted, three edge orders"),
  J("file", "C15.c", "h_file", defs={"LL": 3}, bounds="every file of 3 lines over 3 labels, weighted or not, unipartite, bipartite and transposed"),
  J("filelabels", "C15.c", "h_labels", defs={"LL": 2}, bounds="every file of 2 lines over three sets of three labels: 98 and 99 characters alike but for the last, punctuation and format directives, numbers"),
  J("filemany", "C15.c", "h_many", bounds="files of 101 or 230 lines over 11 or 22 labels, one line arbitrary, weighted or not, unipartite, bipartite and transposed"),
  must_encode=["EdgeListToAdjaArray", "ProjectBipartEdgeList", "EdgeListFileInput"])

P("C16",
  J("exact", "C16.c", "h_exact", defs={"NN": 3}, bounds="every weighted network of 3 nodes, weights any reals, every partition", reach=["end", "varied"]),
  J("double", "C16.c", "h_double", mode="mix", defs={"NN": 5, "MM": 5}, bounds="every unweighted network of 5 nodes, every partition, double arithmetic", reach=["end", "varied"]),
  J("bip", "C16.c", "h_bip", mode="mix", defs={"NN": 4}, bounds="every bipartite network of 4x2 nodes with weights 1 or 2.5, every partition, double arithmetic", reach=["end", "linked"]),
  J("family", "C16.c", "h_double", mode="mix", defs={"NN": 8, "MM": 8, "PATTERN": 1}, reach=["end", "varied"], bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of five further pairs toggled, weighted, four partitions, double arithmetic"),
  J("role", "C16.c", "h_role", bounds="every P in [-1,2] and z in [-20,20]"),
  J("table", "C16.c", "h_table", mode="mix", bounds="3 nodes, all modules, values covering the seven roles"),
  must_encode=["PartitionRolesMetrics", "GetRole"])

P("C07",
  J("list", "C07.c", "h_list", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every partition of 1 to 4 (thorough 5) labels, empty groups too"),
  J("verbose", "C07.c", "h_verbose", bounds="every network of 3 nodes, every partition"),
  J("start", "C07.c", "h_start", defs={"NN": 4}, bounds="every assignment of 1 to 4 nodes to as many modules, with and without the program's header lines"),
  J("read", "C07.c", "h_read", defs={"NN": 3}, bounds="every assignment of 1 to 3 nodes to as many modules, with and without the program's header lines"),
  J("listlabels", "C07.c", "h_listlabels", bounds="the same with 3 labels of odd characters (format directives, slashes, numbers) or of 99 characters alike but for the last"),
  J("startlabels", "C07.c", "h_startlabels", defs={"NN": 3}, bounds="the same with 3 labels of odd characters (format directives, slashes, numbers) or of 99 characters alike but for the last"),
  J("readlabels", "C07.c", "h_readlabels", defs={"NN": 3}, bounds="the same with 3 labels of odd characters (format directives, slashes, numbers) or of 99 characters alike but for the last"),
  J("listmany", "C07.c", "h_listmany", defs={"HXM": 24}, bounds="22 labels in 2 to 22 groups, one label anywhere"),
  J("readmany", "C07.c", "h_readmany", defs={"HXM": 24}, bounds="the clustering output of 22 labels in 2 to 22 groups, one label anywhere"),
  J("clu", "C07.c", "h_clu", bounds="1 to 4 nodes, group numbers from {-1, 0, 1, 9, 998}"),
  must_encode=["FPrintPartition", "FCreatePartition", "FReadPartition", "ClusteringOutput", "AssignNodesToModulesFromFile"])

P("C08",
  J("undirected", "C08.c", "h_undirected", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every undirected network of 1 to 4 (thorough 5) nodes, both link orders", reach=["end", "connected", "unconnected"]),
  J("selflinks", "C08.c", "h_selflinks", defs={"NN": 3}, tdefs={"NN": 4}, bounds="every undirected network of 3 (thorough 4) nodes with self-links, both link orders"),
  J("directed", "C08.c", "h_directed", defs={"NN": 3}, tdefs={"NN": 4}, bounds="every directed network of 3 (thorough 4) nodes, both link orders", reach=["end", "connected", "unconnected"]),
  J("bfs", "C08.c", "h_bfs", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every undirected network of 4 (thorough 5) and directed network of 3 nodes, from every node, both link orders"),
  J("path", "C08.c", "h_path", defs={"HXM": 18}, bounds="paths of 18 nodes, directed (also closed) and undirected, whole or cut, with at most one more link (20 choices), both link orders", reach=["end", "connected", "unconnected"]),
  J("family", "C08.c", "h_family", reach=["end", "connected", "unconnected"], bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), undirected, every subset of five further pairs toggled, weighted, both link orders"),
  J("familydir", "C08.c", "h_familydir", reach=["end", "connected", "unconnected"], bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), directed, every subset of five further pairs toggled, weighted, both link orders"),
  J("long", "C08.c", "h_long", bounds="a path of 10002 nodes"),
  must_encode=["AveragePathLength", "AverageInverseDistance", "FPrintDistanceHistogram", "FPrintDistanceHistogramFromNode", "RenewQueue"])

P("C09",
  J("undirected", "C09.c", "h_undirected", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every undirected network of 1 to 4 (thorough 5) nodes, both link orders, two size thresholds", reach=["end", "several"]),
  J("selflinks", "C09.c", "h_selflinks", bounds="every weighted undirected network of 3 nodes with self-links, both link orders"),
  J("directed3", "C09.c", "h_directed", defs={"NN": 3}, bounds="every directed network of 3 nodes, both link orders, two size thresholds", reach=["end", "several", "one-way"]),
  J("directed4", "C09.c", "h_directed", defs={"NN": 4}, bounds="every directed network of 4 nodes, both link orders, two size thresholds", reach=["end", "several", "one-way"]),
  J("all_undirected", "C09.c", "h_all_undirected", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every weighted undirected network of 1 to 4 (thorough 5) nodes, both link orders"),
  J("all_directed", "C09.c", "h_all_directed", defs={"NN": 3}, tdefs={"NN": 4}, bounds="every directed network of 3 (thorough 4) nodes, both link orders"),
  J("family", "C09.c", "h_family", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), undirected, every subset of five further pairs toggled, weighted, both link orders"),
  J("familydir", "C09.c", "h_familydir", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), directed, every subset of five further pairs toggled, weighted, both link orders"),
  J("familyeach", "C09.c", "h_familyeach", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of five further pairs toggled, weighted, both link orders"),
  J("reach", "C09.c", "h_reach", defs={"NN": 4}, bounds="every directed network of 4 nodes, every set of other nodes"),
  must_encode=["GetLargestStronglyConnectedSet", "GetLargestWeaklyConnectedSet", "GetAllConnectedSets", "CountStronglyConnectedSets"])

P("C10",
  J("nodes", "C10.c", "h_nodes", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every undirected network of 1 to 4 (thorough 5) nodes, both link orders"),
  J("arcs", "C10.c", "h_arcs", defs={"NN": 3}, tdefs={"NN": 4}, bounds="every directed network of 3 (thorough 4) nodes, both link orders"),
  J("links", "C10.c", "h_links", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every undirected network of 1 to 4 (thorough 5) nodes, both link orders"),
  J("layernodes", "C10.c", "h_layernodes", bounds="256 networks of 7 nodes: two ends joined through two layers linked in every way, both link orders"),
  J("layerlinks", "C10.c", "h_layerlinks", bounds="the same, betweenness of links"),
  J("familynodes", "C10.c", "h_familynodes", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), undirected, every subset of five further pairs toggled, weighted, both link orders"),
  J("familyarcs", "C10.c", "h_familyarcs", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), directed, every subset of five further pairs toggled, weighted, both link orders"),
  J("familylinks", "C10.c", "h_familylinks", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), undirected, every subset of five further pairs toggled, weighted, both link orders"),
  J("selflinks", "C10.c", "h_selflinks", bounds="every undirected network of 3 nodes with self-links, both link orders"),
  J("linkarcs", "C10.c", "h_linkarcs", bounds="betweenness of links in every directed network of 3 nodes, both link orders"),
  J("manypaths", "C10.c", "h_manypaths", mode="mix", defs={"LONG": 40}, bounds="a chain of 40 diamonds (2^40 shortest paths between its ends), double arithmetic"),
  must_encode=["CalculateNodeBetweenness", "NodeBetweennessStatistics", "CalculateLinkBetweenness", "CalculateBiggestLinkBetweenness"])

P("C11",
  J("clustering", "C11.c", "h_clustering", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every undirected network of 1 to 4 (thorough 5) nodes, both link orders", reach=["end", "square", "triplets"]),
  J("selflinks", "C11.c", "h_selflinks", defs={"NN": 3}, tdefs={"NN": 4}, bounds="every undirected network of 3 (thorough 4) nodes with self-links, both link orders", reach=["end", "triplets"]),
  J("pairs", "C11.c", "h_pairs", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every undirected network of 2 to 4 (thorough 5) nodes, every pair of nodes, both link orders", reach=["end", "overlap"]),
  J("degrees", "C11.c", "h_degrees", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every undirected network of 1 to 4 (thorough 5) nodes, both link orders", reach=["end", "assortativity"]),
  J("family", "C11.c", "h_family", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), undirected, every subset of five further pairs toggled, weighted, both link orders"),
  J("familypairs", "C11.c", "h_familypairs", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), undirected, every subset of five further pairs toggled, weighted, both link orders"),
  J("familydegrees", "C11.c", "h_familydegrees", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), undirected, every subset of five further pairs toggled, weighted, both link orders"),
  J("star", "C11.c", "h_star", mode="mix", bounds="a hub with 50000 neighbours, double arithmetic"),
  must_encode=["ClusteringCoefficient", "ClusteringCoefficient2", "OneNodeClusteringCoefficient", "SquareClustering", "JaccardIndex", "TopologicalOverlap", "Assortativity", "CalculateKnn", "AverageSquaredDegree"])

P("C12",
  J("uni", "C12.c", "h_uni", defs={"NN": 4, "DRAWS": 7}, tdefs={"DRAWS": 10}, bounds="every undirected network of 4 nodes, one or two swaps, every value of the first 7 (thorough 10) draws, and a fixed stream after them", reach=["end", "swapped"]),
  J("self", "C12.c", "h_self", defs={"DRAWS": 4}, tdefs={"DRAWS": 7}, bounds="64 networks of 4 nodes with self-links, every value of the first 4 (thorough 7) draws, and a fixed stream after them", reach=["end", "swapped"]),
  J("path", "C12.c", "h_path", defs={"DRAWS": 7}, tdefs={"DRAWS": 10}, bounds="a path and a ring of 5 nodes, two or three swaps, every value of the first 7 (thorough 10) draws, and a fixed stream after them", reach=["end", "swapped"]),
  J("bip", "C12.c", "h_bip", defs={"NN": 3, "MM": 3, "DRAWS": 4}, tdefs={"DRAWS": 6}, bounds="every bipartite network of 3x3 nodes, one or two swaps, every value of the first 4 (thorough 6) draws, and a fixed stream after them", reach=["end", "swapped"]),
  J("family", "C12.c", "h_family", defs={"DRAWS": 4, "HX_TG": 1}, tdefs={"HX_TG": 3}, reach=["end", "swapped"], bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), one (thorough three) further pairs toggled or not, one swap, every value of the first 4 draws, and a fixed stream after them"),
  J("familybip", "C12.c", "h_familybip", defs={"DRAWS": 4, "HXB_TG": 0, "STEPS": 1}, tdefs={"HXB_TG": 2}, reach=["end", "swapped"], bounds="six frames of 6x5 nodes (thorough: two further pairs toggled or not), one swap, every value of the first 4 draws, and a fixed stream after them"),
  must_encode=["RandomizeSymmetricNetwork", "RandomizeBipart"])

P("C19",
  J("uni", "C19.c", "h_uni", defs={"NN": 3}, tdefs={"NN": 4}, bounds="every weighted undirected network of 3 (thorough 4) nodes, weights any real in [0.25,8], every partition, two orders of nodes and groups", reach=["end", "several"]),
  J("uni4", "C19.c", "h_uni", defs={"NN": 4}, bounds="every weighted undirected network of 4 nodes, every partition, two orders", reach=["end", "several"]),
  J("family", "C19.c", "h_family", reach=["end", "several"], bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of five further pairs toggled, weighted, five partitions"),
  J("dense", "C19.c", "h_dense", mode="mix", bounds="a network of 232 nodes with 26337 links in two groups, double arithmetic"),
  J("bip", "C19.c", "h_bip", defs={"NN": 3, "MM": 3}, tdefs={"NN": 4}, bounds="every bipartite network of 3x3 (thorough 4x3) nodes with a team of two, every partition, two orders"),
  J("bipw", "C19.c", "h_bipw", defs={"NN": 3, "MM": 2}, bounds="every weighted bipartite network of 3x2 nodes, weights any real in [0.25,8], every partition, two orders"),
  J("familybip", "C19.c", "h_familybip", bounds="six frames of 6x5 nodes (chain, a node linked to all, all linked, two blocks, none) with every subset of four further pairs toggled, weighted or not, five partitions"),
  J("block", "C19.c", "h_block", defs={"NN": 4}, bounds="every undirected network of 4 nodes, every partition and an empty group, five kinds of output; the excess between two different groups is not judged", reach=["end", "inside"]),
  must_encode=["Modularity", "ModularityWeight", "ModularityBipart", "ModularityBipartWeighted"])

P("C20",
  J("exact", "C20.c", "h_exact", defs={"NN": 3}, tdefs={"NN": 4}, bounds="every weighted undirected network of 3 (thorough 4) nodes, weights any real in [0.25,8], every partition", reach=["end", "varied"]),
  J("catalog", "C20.c", "h_catalog", mode="mix", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every undirected network of 4 (thorough 5) nodes, every partition, link weights 1 or 0.1, double arithmetic"),
  J("hub", "C20.c", "h_hub", mode="mix", defs={"HXM": 24}, bounds="a hub of a module of nine with 0 to 11 links to other modules", reach=["end", "R5", "R6", "R7"]),
  J("bippart", "C20.c", "h_bippart", bounds="every bipartite network of 3x2 nodes, every partition", reach=["end", "participates"]),
  J("biptable", "C20.c", "h_biptable", mode="mix", bounds="every bipartite network of 3x2 nodes with weights 1 or 2.5, every partition, the four kinds of table"),
  J("family", "C20.c", "h_family", mode="mix", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), every subset of five further pairs toggled, weighted, four partitions, double arithmetic"),
  J("familybip", "C20.c", "h_familybip", mode="mix", reach=["end", "participates"], bounds="six frames of 6x5 nodes (chain, a node linked to all, all linked, two blocks, none) with every subset of four further pairs toggled, weighted or not, five partitions, participation or the four kinds of table"),
  must_encode=["ParticipationCoefficient", "WeightedParticipationCoefficient", "WithinModuleRelativeDegree", "WithinModuleRelativeStrength", "CatalogRoleIdent", "CatalogRoleIdentStrength", "ParticipationCoefficientBipart", "FPrintTabNodesBipart"])

P("C21",
  J("mutual", "C21.c", "h_mutual", mode="mix", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every pair of partitions of 2 to 4 (thorough 5) nodes, by number and by label, empty groups, double arithmetic", reach=["end", "same"]),
  J("mutualmany", "C21.c", "h_mutualmany", mode="mix", defs={"HXM": 24}, bounds="partitions of 22 nodes: four patterns with one node of four put in any of four groups"),
  J("correct", "C21.c", "h_correct", defs={"NN": 4}, tdefs={"NN": 5}, bounds="every pair of partitions of 4 (thorough 5) nodes", reach=["end", "untied"]),
  J("networks", "C21.c", "h_networks", defs={"MM": 3}, tdefs={"MM": 4}, bounds="every pair of undirected networks of 3 and 3 (thorough 4) nodes sharing one to three labels", reach=["end", "links"]),
  J("sizes", "C21.c", "h_sizes", defs={"NN": 4}, bounds="the clusters of every weighted undirected network of 1 to 4 nodes"),
  must_encode=["MutualInformation", "CorrectlyClassified", "CompareTwoNetworks", "ClustersPartition", "GroupSizeStatistics"])

P("C17",
  J("window2", "C17.c", "h_window", mode="mix", defs={"KLO": 0, "KHI": 1, "WW": 4, "SPAN": 16, "SEEDS": 1}, tdefs={"WW": 5, "SEEDS": 2}, bounds="2 and 3 nodes in a chain, as many modules as nodes, one more, or two; double arithmetic; 4 (thorough 5) consecutive draws arbitrary, anywhere in the first 64 (thorough 80), the others from a fixed stream (thorough: two streams); stop after one or two unchanged rounds, two temperatures, with and without splits by component", reach=["end", "sweeps", "improved", "window"]),
  J("window4", "C17.c", "h_window", mode="mix", defs={"KLO": 2, "KHI": 4, "WW": 3, "SPAN": 24, "SEEDS": 1}, tdefs={"SPAN": 40, "SEEDS": 2, "KHI": 5}, bounds="three networks of 4 (thorough also one of 6) nodes, the same with 3 arbitrary draws in the first 72 (thorough 120)", reach=["end", "sweeps", "improved", "window"]),
  J("small", "C17.c", "h_small", mode="mix", bounds="1 to 3 nodes in a chain, 1 to 4 modules, three fixed streams of draws"),
  J("split", "C17.c", "h_split", mode="mix", bounds="the nested search on networks of 3 or 4 nodes, at most one of them outside the module, two temperatures, all draws arbitrary", reach=["end", "split"]),
  must_encode=["GeneralSA", "SplitModuleSA"])

P("C22",
  J("ls", "C22.c", "h_ls", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, two calls, 3 consecutive draws arbitrary anywhere in the first 12, the others from a fixed stream", reach=["end", "moved", "window"]),
  J("mb", "C22.c", "h_mb", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, two calls, 3 consecutive draws arbitrary anywhere in the first 12, the others from a fixed stream", reach=["end", "moved", "window"]),
  J("or", "C22.c", "h_or", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, two calls, 3 consecutive draws arbitrary anywhere in the first 12, the others from a fixed stream", reach=["end", "moved", "window"]),
  J("od", "C22.c", "h_od", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, two calls, 3 consecutive draws arbitrary anywhere in the first 12, the others from a fixed stream", reach=["end", "moved", "window"]),
  J("gls", "C22.c", "h_gls", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, two calls, every draw of the first", reach=["end", "moved"]),
  J("gmb", "C22.c", "h_gmb", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, two calls, every draw of the first", reach=["end", "moved"]),
  J("gor", "C22.c", "h_gor", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, two calls, every draw of the first", reach=["end", "moved"]),
  J("god", "C22.c", "h_god", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, two calls, every draw of the first", reach=["end", "moved"]),
  J("gsp", "C22.c", "h_gsp", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, two calls, every draw of the first", reach=["end", "moved"]),
  J("pls", "C22.c", "h_pls", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, any two draws for one node, the others from two fixed streams", reach=["end", "same"]),
  J("pmb", "C22.c", "h_pmb", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, any two draws for one node, the others from two fixed streams", reach=["end", "same"]),
  J("por", "C22.c", "h_por", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, any two draws for one node, the others from two fixed streams", reach=["end", "same"]),
  J("pod", "C22.c", "h_pod", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, any two draws for one node, the others from two fixed streams", reach=["end", "same"]),
  J("psp", "C22.c", "h_psp", mode="mix", bounds="every network of 3 nodes, every start, linear cost 0 or 0.7, small and large tables, any two draws for one node, the others from two fixed streams", reach=["end", "same"]),
  J("ls4", "C22.c", "h_ls", mode="mix", defs={"NN": 4, "SORTEDNETS": 1, "CANON": 1, "CALLS": 1}, tdefs={"CALLS": 2, "SPAN": 8}, bounds="all networks of 4 nodes with degrees in decreasing order, 15 starts, linear cost 0.7, 3 consecutive draws arbitrary anywhere in the first 12 (thorough 24, two calls)", reach=["end", "moved", "window"]),
  J("mb4", "C22.c", "h_mb", mode="mix", defs={"NN": 4, "SORTEDNETS": 1, "CANON": 1, "CALLS": 1}, tdefs={"CALLS": 2, "SPAN": 8}, bounds="all networks of 4 nodes with degrees in decreasing order, 15 starts, linear cost 0.7, 3 consecutive draws arbitrary anywhere in the first 12 (thorough 24, two calls)", reach=["end", "moved", "window"]),
  J("or4", "C22.c", "h_or", mode="mix", defs={"NN": 4, "SORTEDNETS": 1, "CANON": 1, "CALLS": 1}, tdefs={"CALLS": 2, "SPAN": 8}, bounds="all networks of 4 nodes with degrees in decreasing order, 15 starts, linear cost 0.7, 3 consecutive draws arbitrary anywhere in the first 12 (thorough 24, two calls)", reach=["end", "moved", "window"]),
  J("od4", "C22.c", "h_od", mode="mix", defs={"NN": 4, "SORTEDNETS": 1, "CANON": 1, "CALLS": 1}, tdefs={"CALLS": 2, "SPAN": 8}, bounds="all networks of 4 nodes with degrees in decreasing order, 15 starts, linear cost 0.7, 3 consecutive draws arbitrary anywhere in the first 12 (thorough 24, two calls)", reach=["end", "moved", "window"]),
  J("gls4", "C22.c", "h_gls", mode="mix", defs={"NN": 4, "SORTEDNETS": 1, "CANON": 1}, bounds="all networks of 4 nodes with degrees in decreasing order, 15 starts, linear cost 0.7, one draw arbitrary", reach=["end", "moved"]),
  J("gmb4", "C22.c", "h_gmb", mode="mix", defs={"NN": 4, "SORTEDNETS": 1, "CANON": 1}, bounds="all networks of 4 nodes with degrees in decreasing order, 15 starts, linear cost 0.7, one draw arbitrary", reach=["end", "moved"]),
  J("gor4", "C22.c", "h_gor", mode="mix", defs={"NN": 4, "SORTEDNETS": 1, "CANON": 1}, bounds="all networks of 4 nodes with degrees in decreasing order, 15 starts, linear cost 0.7, one draw arbitrary", reach=["end", "moved"]),
  J("god4", "C22.c", "h_god", mode="mix", defs={"NN": 4, "SORTEDNETS": 1, "CANON": 1}, bounds="all networks of 4 nodes with degrees in decreasing order, 15 starts, linear cost 0.7, one draw arbitrary", reach=["end", "moved"]),
  J("gsp4", "C22.c", "h_gsp", mode="mix", defs={"NN": 4, "SORTEDNETS": 1, "CANON": 1}, bounds="all networks of 4 nodes with degrees in decreasing order, 15 starts, linear cost 0.7, one draw arbitrary", reach=["end", "moved"]),
  J("kstate", "C22k.c", "h_kstate", mode="mix", tdefs={"KK": 3}, bounds="every 3-node network of K=2 (thorough 3) states and unobserved pairs, every start, two calls, 3 consecutive draws arbitrary anywhere in the first 9", reach=["end", "moved", "window"]),
  must_encode=["LinkScoreMCStep", "GibbsLinkScoreStep", "LSMCStepMB", "ORLSMCStepMB", "LSMCStepMB_OD", "GibbsLinkScoreStepMB", "ORGibbsLinkScoreStepMB", "GibbsLinkScoreStepMB_OD", "SparseGibbsLinkScoreStep", "LSMCStepKState"])

P("C23",
  J("two22", "C23.c", "h_two", mode="mix", defs={"SORTED": 1}, bounds="every 2x2 rating network of two states and unobserved pairs up to the order of rows and columns, 4 starts, small and large tables, two calls, 4 consecutive draws arbitrary anywhere in the first 16", reach=["end", "moved", "window"]),
  J("two32", "C23.c", "h_two", mode="mix", defs={"N1": 3, "N2": 2, "SORTED": 1, "CALLS": 1, "SPAN": 1}, tdefs={"CALLS": 2, "SPAN": 6}, bounds="every 3x2 rating network up to the order of rows and columns, 10 starts, one (thorough two) calls, 4 draws arbitrary at the beginning (thorough anywhere in the first 24)", reach=["end", "moved", "window"]),
  J("two23", "C23.c", "h_two", mode="mix", defs={"N1": 2, "N2": 3, "SORTED": 1, "CALLS": 1, "SPAN": 1}, tdefs={"CALLS": 2, "SPAN": 6}, bounds="the same for 2x3", reach=["end", "moved", "window"]),
  J("two12", "C23.c", "h_two", mode="mix", defs={"N1": 1, "N2": 2}, bounds="1x2 rating networks", reach=["end", "moved", "window"]),
  J("two21", "C23.c", "h_two", mode="mix", defs={"N1": 2, "N2": 1}, bounds="2x1 rating networks", reach=["end", "moved", "window"]),
  J("two11", "C23.c", "h_two", mode="mix", defs={"N1": 1, "N2": 1}, bounds="1x1 rating networks"),
  J("k22", "C23.c", "h_k", mode="mix", defs={"KK": 3, "SORTED": 1}, bounds="every 2x2 rating network of three states and unobserved pairs up to the order of rows and columns, 4 starts, two calls, 4 consecutive draws arbitrary anywhere in the first 16", reach=["end", "moved", "window"]),
  J("k32", "C23.c", "h_k", mode="mix", defs={"N1": 3, "N2": 2, "SORTED": 1, "CALLS": 1, "SPAN": 1}, tdefs={"CALLS": 2, "SPAN": 6}, bounds="every 3x2 rating network of two states up to the order of rows and columns, 10 starts, 4 draws arbitrary at the beginning (thorough anywhere in the first 24)", reach=["end", "moved", "window"]),
  J("k12", "C23.c", "h_k", mode="mix", defs={"N1": 1, "N2": 2}, bounds="1x2 rating networks", reach=["end", "moved", "window"]),
  J("k11", "C23.c", "h_k", mode="mix", defs={"N1": 1, "N2": 1}, bounds="1x1 rating networks"),
  J("gibbs22", "C23.c", "h_gibbs", mode="mix", defs={"KK": 3, "SORTED": 1}, bounds="every 2x2 rating network of three states up to the order of rows and columns, 4 starts, two calls, two consecutive draws of the first arbitrary", reach=["end", "moved"]),
  J("gibbs32", "C23.c", "h_gibbs", mode="mix", defs={"N1": 3, "N2": 2, "SORTED": 1}, bounds="every 3x2 rating network of two states up to the order of rows and columns, 10 starts, two calls, two consecutive draws of the first arbitrary", reach=["end", "moved"]),
  J("gibbs23", "C23.c", "h_gibbs", mode="mix", defs={"N1": 2, "N2": 3, "SORTED": 1}, bounds="the same for 2x3", reach=["end", "moved"]),
  J("gibbs11", "C23.c", "h_gibbs", mode="mix", defs={"N1": 1, "N2": 1}, bounds="1x1 rating networks"),
  J("gibbsp", "C23.c", "h_gibbsp", mode="mix", defs={"N1": 3, "N2": 2, "SORTED": 1}, bounds="every 3x2 rating network of two states up to the order of rows and columns, 10 starts, any two draws for one node", reach=["end", "same"]),
  must_encode=["MCStep2State", "MCStepKState", "GibbsStepKState", "H2State", "HKState"])

P("C24",
  J("ls", "C24.c", "h_ls", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1}, tdefs={"SEEDS": 3}, bounds="all networks of 3 nodes up to their order, one or two samples, 4 consecutive draws arbitrary anywhere in the first 16 of the second sample, all others from one (thorough three) fixed streams", reach=["end", "changed"]),
  J("mb", "C24.c", "h_mb", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1}, tdefs={"SEEDS": 3}, bounds="all networks of 3 nodes up to their order, one or two samples, 4 consecutive draws arbitrary anywhere in the first 16 of the second sample, all others from one (thorough three) fixed streams", reach=["end", "changed"]),
  J("or", "C24.c", "h_or", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1}, tdefs={"SEEDS": 3}, bounds="all networks of 3 nodes up to their order, one or two samples, 4 consecutive draws arbitrary anywhere in the first 16 of the second sample, all others from one (thorough three) fixed streams", reach=["end", "changed"]),
  J("od", "C24.c", "h_od", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1}, tdefs={"SEEDS": 3}, bounds="all networks of 3 nodes up to their order, one or two samples, 4 consecutive draws arbitrary anywhere in the first 16 of the second sample, all others from one (thorough three) fixed streams", reach=["end", "changed"]),
  J("gls", "C24.c", "h_gls", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1}, tdefs={"SEEDS": 3}, bounds="all networks of 3 nodes up to their order, one or two samples, 4 consecutive draws arbitrary of the second sample, all others from one (thorough three) fixed streams", reach=["end", "changed"]),
  J("gmb", "C24.c", "h_gmb", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1}, tdefs={"SEEDS": 3}, bounds="all networks of 3 nodes up to their order, one or two samples, 4 consecutive draws arbitrary of the second sample, all others from one (thorough three) fixed streams", reach=["end", "changed"]),
  J("gor", "C24.c", "h_gor", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1}, tdefs={"SEEDS": 3}, bounds="all networks of 3 nodes up to their order, one or two samples, 4 consecutive draws arbitrary of the second sample, all others from one (thorough three) fixed streams", reach=["end", "changed"]),
  J("god", "C24.c", "h_god", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1}, tdefs={"SEEDS": 3}, bounds="all networks of 3 nodes up to their order, one or two samples, 4 consecutive draws arbitrary of the second sample, all others from one (thorough three) fixed streams", reach=["end", "changed"]),
  J("gsp", "C24.c", "h_gsp", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1}, tdefs={"SEEDS": 3}, bounds="all networks of 3 nodes up to their order, one or two samples, 4 consecutive draws arbitrary of the second sample, all others from one (thorough three) fixed streams", reach=["end", "changed"]),
  J("ls4", "C24.c", "h_ls", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 4, "SPAN": 1}, tdefs={"SPAN": 3}, bounds="the same, networks of 4 nodes with degrees in decreasing order, the first 4 (thorough 12) draws of the second sample", reach=["end", "changed"]),
  J("mb4", "C24.c", "h_mb", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 4, "SPAN": 1}, tdefs={"SPAN": 3}, bounds="the same, networks of 4 nodes with degrees in decreasing order, the first 4 (thorough 12) draws of the second sample", reach=["end", "changed"]),
  J("or4", "C24.c", "h_or", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 4, "SPAN": 1}, tdefs={"SPAN": 3}, bounds="the same, networks of 4 nodes with degrees in decreasing order, the first 4 (thorough 12) draws of the second sample", reach=["end", "changed"]),
  J("od4", "C24.c", "h_od", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 4, "SPAN": 1}, tdefs={"SPAN": 3}, bounds="the same, networks of 4 nodes with degrees in decreasing order, the first 4 (thorough 12) draws of the second sample", reach=["end", "changed"]),
  J("gls4", "C24.c", "h_gls", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 4, "SPAN": 1}, tdefs={"SPAN": 3}, bounds="the same, networks of 4 nodes with degrees in decreasing order, the first 4 (thorough 12) draws of the second sample", reach=["end", "changed"]),
  J("gmb4", "C24.c", "h_gmb", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 4, "SPAN": 1}, tdefs={"SPAN": 3}, bounds="the same, networks of 4 nodes with degrees in decreasing order, the first 4 (thorough 12) draws of the second sample", reach=["end", "changed"]),
  J("gor4", "C24.c", "h_gor", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 4, "SPAN": 1}, tdefs={"SPAN": 3}, bounds="the same, networks of 4 nodes with degrees in decreasing order, the first 4 (thorough 12) draws of the second sample", reach=["end", "changed"]),
  J("god4", "C24.c", "h_god", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 4, "SPAN": 1}, tdefs={"SPAN": 3}, bounds="the same, networks of 4 nodes with degrees in decreasing order, the first 4 (thorough 12) draws of the second sample", reach=["end", "changed"]),
  J("gsp4", "C24.c", "h_gsp", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 4, "SPAN": 1}, tdefs={"SPAN": 3}, bounds="the same, networks of 4 nodes with degrees in decreasing order, the first 4 (thorough 12) draws of the second sample", reach=["end", "changed"]),
  J("ls2", "C24.c", "h_ls", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 2, "SPAN": 2}, bounds="the same, networks of 2 nodes"),
  J("mb2", "C24.c", "h_mb", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 2, "SPAN": 2}, bounds="the same, networks of 2 nodes"),
  J("or2", "C24.c", "h_or", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 2, "SPAN": 2}, bounds="the same, networks of 2 nodes"),
  J("od2", "C24.c", "h_od", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 2, "SPAN": 2}, bounds="the same, networks of 2 nodes"),
  J("gls2", "C24.c", "h_gls", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 2, "SPAN": 2}, bounds="the same, networks of 2 nodes"),
  J("gls1", "C24.c", "h_gls", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 1, "SPAN": 1}, bounds="the network of 1 node", reach=[]),
  J("gmb2", "C24.c", "h_gmb", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 2, "SPAN": 2}, bounds="the same, networks of 2 nodes"),
  J("gmb1", "C24.c", "h_gmb", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 1, "SPAN": 1}, bounds="the network of 1 node", reach=[]),
  J("gor2", "C24.c", "h_gor", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 2, "SPAN": 2}, bounds="the same, networks of 2 nodes"),
  J("gor1", "C24.c", "h_gor", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 1, "SPAN": 1}, bounds="the network of 1 node", reach=[]),
  J("god2", "C24.c", "h_god", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 2, "SPAN": 2}, bounds="the same, networks of 2 nodes"),
  J("god1", "C24.c", "h_god", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"SEEDS": 1, "NN": 1, "SPAN": 1}, bounds="the network of 1 node", reach=[]),
  J("two", "C24r.c", "h_two", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, bounds="every 2x2 rating network of two states and unobserved pairs up to the order of rows and columns, every set of queried pairs, one or two samples, 4 draws of the second arbitrary, all others from a fixed stream", reach=["end", "changed", "observed"]),
  J("k", "C24r.c", "h_k", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, bounds="every 2x2 rating network of two states and unobserved pairs up to the order of rows and columns, every set of queried pairs, one or two samples, 4 draws of the second arbitrary, all others from a fixed stream", reach=["end", "changed", "observed"]),
  J("gibbs", "C24r.c", "h_gibbs", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, bounds="every 2x2 rating network of two states and unobserved pairs up to the order of rows and columns, every set of queried pairs, one or two samples, 4 draws of the second arbitrary, all others from a fixed stream", reach=["end", "changed", "observed"]),
  J("two21", "C24r.c", "h_two", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"N1": 2, "N2": 1, "STEPS": 1}, bounds="2x1 rating networks, decorrelation step given or estimated", reach=["end", "changed", "observed"]),
  J("k12", "C24r.c", "h_k", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"N1": 1, "N2": 2, "KK": 3, "STEPS": 1}, bounds="1x2 rating networks of three states, decorrelation step given or estimated", reach=["end", "changed", "observed"]),
  J("gibbs12", "C24r.c", "h_gibbs", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"N1": 1, "N2": 2, "KK": 3}, bounds="1x2 rating networks of three states", reach=["end", "changed", "observed"]),
  J("unobserved", "C24r.c", "h_unobserved", bounds="every 3x2 rating network of three states and unobserved pairs, every value removed", reach=["end", "removed"]),
  J("kls", "C24r.c", "h_kls", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"NN": 3}, tdefs={"KK": 3}, bounds="every network of 3 nodes and two (thorough three) states, decorrelation step given or estimated, one or two samples, 4 draws of the second arbitrary, all others from a fixed stream", reach=["end", "changed"]),
  J("kls2", "C24r.c", "h_kls", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, defs={"NN": 2, "KK": 3}, bounds="every network of 2 nodes and three states, decorrelation step given or estimated, one or two samples, 4 draws of the second arbitrary, all others from a fixed stream", reach=["end", "changed"]),
  J("netscore", "C24r.c", "h_netscore", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, bounds="every network of 3 nodes, every observed network up to the order of its nodes, one or two samples, 4 draws of the second arbitrary", reach=["end", "changed"]),
  J("sampling", "C24r.c", "h_sampling", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, tdefs={"NN": 4}, bounds="every network of 3 (thorough 4) nodes up to their order, with and without burn-in, one or two samples, 4 draws of the second arbitrary", reach=["end", "changed"]),
  J("decay", "C24r.c", "h_decay", mode="mix", bounds="243 combinations of points and solutions on grids, solved after one to three iterations or not solved", reach=["end", "solved"]),
  J("sbm", "C24r.c", "h_sbm", mode="mix", wrap=["InitializeFastLogChoose"], steps=2000000000, bounds="networks of 2 and 3 nodes without or with all links, the two first draws arbitrary, all others from a fixed stream"),
  J("reconstruct", "C24r.c", "h_reconstruct", mode="mix", wrap=["InitializeFastLogChoose"], steps=2000000000, tdefs={"NN": 4}, bounds="all networks of 3 (thorough 4) nodes up to their order, the two first draws arbitrary, all others from a fixed stream"),
  J("structure", "C24r.c", "h_structure", mode="mix", wrap=["InitializeFastLogChoose"], steps=4000000000, bounds="networks of 3 nodes without or with a link, two or three randomised networks, a fixed stream of draws"),
  J("all", "C24r.c", "h_all", mode="mix", wrap=["InitializeFastLogChoose"], steps=60000000, bounds="every 2x2 network of two states and unobserved pairs up to the order of rows and columns, decorrelation step given or estimated, one or two samples, 4 draws of the second arbitrary", reach=["end", "changed"]),
  must_encode=["LinkScore", "LinkScoreMB", "ORLinkScoreMB", "LinkScoreMB_OD", "GibbsLinkScore", "SparseGibbsLinkScore", "LSMultiLinkScoreKState", "MultiLinkScore2State", "MultiLinkScoreKState", "GibbsMultiLinkScoreKState", "NetworkScore", "PartitionSampling", "NetReconstruct", "CalculateDecay"])

P("C25",
  J("stats", "C25.c", "h_stats", bounds="every vector of 1 to 4 reals in [-1000,1000]", reach=["end", "spread"]),
  J("extrema", "C25.c", "h_extrema", tdefs={"NN": 6}, bounds="every vector of 1 to 4 (thorough 6) reals in [-1000,1000]"),
  J("fact", "C25.c", "h_fact", bounds="every argument whose factorial fits the result type, 0 to 20"),
  J("choose", "C25.c", "h_choose", mode="mix", tdefs={"CH": 50}, bounds="every pair n <= 30 (thorough 50), k <= n + 2", reach=["end", "inrange"]),
  J("tables", "C25.c", "h_tables", mode="mix", tdefs={"RR": 20}, bounds="tables of 0 to 7 entries, every argument up to 12 (thorough 20), look-up made twice", reach=["end", "table", "computed"]),
  J("history", "C25.c", "h_history", mode="mix", bounds="tables of 1 to 4 rows, every sequence of 3 look-ups with arguments up to 5"),
  J("harmonic", "C25.c", "h_harmonic", mode="mix", bounds="lists of 1 to 24 entries"),
  J("vectors", "C25.c", "h_vectors", bounds="matrices of up to 3x3 entries in {-1,0,1}"),
  J("geometric", "C25.c", "h_geometric", bounds="every probability, every sequence of at most 5 draws", reach=["end", "long"]),
  J("lines", "C25.c", "h_lines", tdefs={"LL": 8}, bounds="every file of at most 6 (thorough 8) bytes over newline, letter, space"),
  J("longlines", "C25.c", "h_longlines", bounds="files of one or two lines of up to 2001 characters"),
  must_encode=["mean", "stddev", "Choose", "FastLogChoose", "FastLogGamma", "InitializeHarmonicList", "CountLinesInFile"])

P("C26",
  J("undirected", "C26.c", "h_undirected", tdefs={"NN": 5}, bounds="every undirected network of up to 4 (thorough 5) nodes, adjacency also with self-links, links entered in both orders", reach=["end", "laplacian"]),
  J("directed", "C26.c", "h_directed", defs={"NN": 3}, tdefs={"NN": 4}, bounds="every directed network of up to 3 (thorough 4) nodes, adjacency also with self-links", reach=["end", "laplacian"]),
  J("family", "C26.c", "h_family", bounds="eight frames of 8 nodes (path, ring, star, two cliques, ladder, bipartite clique, wheel, none), directed or undirected, every subset of five further pairs toggled, weighted, both link orders"),
  J("spectrum", "C26.c", "h_spectrum", defs={"NN": 3}, tdefs={"NN": 4}, bounds="every undirected network of 1 to 3 (thorough 4) nodes without self-links, any eigenvalues from the solver"),
  J("sync", "C26.c", "h_sync", bounds="any 2 to 4 eigenvalues in [-1000,1000] of which one is at least 1e-10"),
  must_encode=["AdjacencyMat", "LaplacianMat", "LaplacianSpectrum", "Synchronizability"])

P("C27",
  J("empty", "C27.c", "h_empty", bounds="0 to 12 nodes"),
  J("er", "C27.c", "h_er", defs={"NN": 3}, tdefs={"NN": 4}, bounds="0 to 3 (thorough 4) nodes, every probability and every sequence of draws"),
  J("block", "C27.c", "h_block", defs={"NN": 3}, tdefs={"NN": 4}, bounds="five (thorough six) lists of three group sizes with 3 (thorough 4) nodes, every matrix of probabilities and every sequence of draws"),
  J("gn", "C27.c", "h_gn", bounds="one or two groups of two nodes, every mean degree and every sequence of draws"),
  J("gn3", "C27.c", "h_gn3", bounds="one to three groups of one or two nodes, connection probabilities 0 and 1, every sequence of draws"),
  J("pa", "C27.c", "h_pa", defs={"NN": 4, "DL": 5}, tdefs={"DL": 7}, bounds="1 to 3 links per node, up to 5 nodes, every value of the first 5 (thorough 7) draws, and a fixed stream after them", reach=["end", "grown"]),
  J("papref", "C27.c", "h_papref", bounds="one link per node, 3 to 5 nodes, any draw for the last node, three fixed streams for the others"),
  J("add", "C27.c", "h_add", bounds="every directed and undirected network of 3 nodes, up to 2 links to add, every value of the draws for them and one rejected pair, and a fixed stream after them", reach=["end", "added"]),
  J("add4", "C27.c", "h_add", defs={"NN": 4, "UNDIR": 1}, bounds="the same, undirected networks of 4 nodes", reach=["end", "added"]),
  J("remove", "C27.c", "h_remove", bounds="every directed and undirected network of 3 nodes with and without self-links, up to 2 links to remove, every value of the draws for them and one more, and a fixed stream after them", reach=["end", "removed"]),
  J("modular", "C27.c", "h_modular", bounds="one or two modules of one or two nodes, 1 or 2 teams, six team-size rules, four colour rules, three values of p, every value of the first 10 draws, and a fixed stream after them", reach=["end", "two"]),
  J("modular3", "C27.c", "h_modular", defs={"QLO": 6, "QHI": 7, "NTEAM": 1, "DL": 9}, tdefs={"NTEAM": 2, "DL": 11}, bounds="the same with teams of three, or two to three, agents, larger than a module, 1 (thorough 2) teams, every value of the first 9 (thorough 11) draws, and a fixed stream after them", reach=["end", "three"]),
  must_encode=["ERGraph", "PAGraph", "UndirectedBlockGraph", "GirvanNewmanGraph", "AddRandomLinks", "RemoveRandomLinks", "BuildModularBipartiteNetwork"])

P("C30",
  J("window3", "C30.c", "h_window", mode="mix", tdefs={"SPAN": 20, "SEEDS": 2}, bounds="search at temperatures from 2 (or 0.01) down to a fifth of it, halving, per-node or random start in n+1 or 2 groups, with and without merges and splits, on 3 networks of 2-3 nodes; 3 consecutive draws anywhere among the first 36 (thorough 60) take every value, the others are fixed", reach=["end", "sweeps", "window"]),
  J("window6", "C30.c", "h_window", mode="mix", defs={"KLO": 3, "KHI": 5}, tdefs={"SPAN": 20, "SEEDS": 2}, bounds="the same on 3 networks of 4-6 nodes; 3 consecutive draws among the first 36 (thorough 60)", reach=["end", "sweeps", "window"]),
  J("cool", "C30.c", "h_window", mode="mix", defs={"KLO": 3, "KHI": 6, "COOL": 0.5, "WW": 1, "SPAN": 6, "STEPS": 300000000}, tdefs={"SPAN": 30}, bounds="the same with no final temperature (stops after 25 sweeps without change), 4 networks of 4-8 nodes; 1 draw anywhere among the first 6 (thorough 30) takes every value", reach=["end", "sweeps", "window"]),
  J("reset", "C30.c", "h_reset", mode="mix", defs={"COOL": 0.5, "WW": 1, "SPAN": 48, "SEEDS": 4, "STEPS": 300000000}, tdefs={"SPAN": 200, "STEP": 3}, bounds="the same for 4 searches of 4 nodes that go back to their best partition; 1 draw at one of 48 (thorough 200) positions among the first 480 (600) takes every value", reach=["end", "sweeps", "window", "reset"]),
  J("split", "C30.c", "h_split", mode="mix", defs={"LO": 1, "SPAN": 8}, tdefs={"SPAN": 20, "SEEDS": 3}, bounds="the two-way split of any group that leaves out at most one node of 3 networks of 2-3 nodes; 3 consecutive draws among the first 24 (thorough 60) take every value", reach=["end", "split"]),
  J("split6", "C30.c", "h_split", mode="mix", defs={"KLO": 3, "KHI": 6, "LO": 1, "WW": 4}, tdefs={"SPAN": 20, "SEEDS": 3}, bounds="the same for 4 networks of 4-8 nodes; 4 consecutive draws among the first 48 (thorough 80)", reach=["end", "split"]),
  must_encode=["SACommunityIdent", "SAGroupSplit"])

P("C31",
  J("uni", "C31.c", "h_uni", mode="mix", tdefs={"NN": 5}, bounds="-p given: every network of at most 4 (thorough 5) nodes, with and without weights, lines in either order, every partition into at most 3 modules, with and without roles, every way of input and output", reach=["end", "shared"]),
  J("uni8", "C31.c", "h_uni8", mode="mix", defs={"FULL": 0}, tdefs={"FULL": 1}, bounds="the same for a family of 256 networks of 8 nodes and 4 partitions", reach=["end", "shared"]),
  J("bip", "C31.c", "h_bip", mode="mix", defs={"FULL": 0}, tdefs={"FULL": 1}, bounds="-b -p given: every bipartite network of 3 and 3 nodes, either column, with and without weights, every partition, with and without roles", reach=["end", "shared"]),
  J("search", "C31.c", "h_search", mode="mix", defs={"LO": 6}, tdefs={"LO": 40}, bounds="no -p: 2 networks of 3-5 nodes and 1 bipartite network of 4 and 3 nodes, both columns, with and without weights and roles; 3 consecutive draws among the first 18 (thorough 120) take every value, the others are fixed", reach=["end", "window"]),
  J("legacy", "C31L.c", "h_legacy", mode="mix", tdefs={"NN": 5}, bounds="netcarto-legacy with the module search and the randomisation replaced by any answer: every network of 4 (thorough 5) linked nodes, every partition, 1 to 3 randomisations, parameters as options or typed in", reach=["end", "asked"]),
  J("bad", "C31.c", "h_bad", mode="mix", bounds="four malformed network files, missing files and missing arguments, all options", reach=["end"]),
  must_encode=["prog_main"])

P("C32",
  J("countlinks", "C32.c", "h_main", mode="mix", defs={"NN": 5, "PROGF": "\"utils/main_countlinks.c\"", "P_COUNTLINKS": 1}, tdefs={"NN": 6}, bounds="countlinks: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order", reach=["end", "usage"]),
  J("getgiant", "C32.c", "h_main", mode="mix", defs={"NN": 5, "PROGF": "\"utils/main_getgiant.c\"", "P_GETGIANT": 1}, tdefs={"NN": 6}, bounds="getgiant: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order", reach=["end", "usage", "parts"]),
  J("lapspec", "C32.c", "h_main", mode="mix", defs={"NN": 5, "PROGF": "\"utils/main_lapspec.c\"", "P_LAPSPEC": 1}, tdefs={"NN": 6}, bounds="lapspec: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; the spectrum itself is any list", reach=["end", "usage"]),
  J("netcompare", "C32.c", "h_main", mode="mix", defs={"PROGF": "\"utils/main_netcompare.c\"", "P_NETCOMPARE": 1}, bounds="netcompare: every pair of networks of 4 and 3 linked nodes, sharing 0 to 3 labels", reach=["end", "usage", "links"]),
  J("netprop", "C32.c", "h_main", mode="mix", defs={"NN": 5, "PROGF": "\"utils/main_netprop.c\"", "P_NETPROP": 1}, tdefs={"NN": 6}, bounds="netprop: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; synchronizability replaced by any number", reach=["end", "usage", "all", "parts"]),
  J("nodeprop", "C32.c", "h_main", mode="mix", defs={"NN": 5, "PROGF": "\"utils/main_nodeprop.c\"", "P_NODEPROP": 1}, tdefs={"NN": 6}, bounds="nodeprop: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order", reach=["end", "usage"]),
  J("netrandomize", "C32.c", "h_main", mode="mix", defs={"NN": 5, "PROGF": "\"utils/main_netrandomize.c\"", "P_NETRANDOMIZE": 1}, tdefs={"NN": 6}, bounds="netrandomize: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; the randomisation replaced by one exchange", reach=["end", "usage", "exchanged"]),
  J("mutualinfo", "C32.c", "h_main", mode="mix", defs={"NN": 5, "PROGF": "\"utils/main_mutualinfo.c\"", "P_MUTUALINFO": 1}, tdefs={"NN": 6}, bounds="mutualinfo: every pair of partitions of 2 to 5 (thorough 6) nodes", reach=["end"]),
  J("bipartitemodularity", "C32.c", "h_main", mode="mix", defs={"NN": 5, "PROGF": "\"utils/main_bipartitemodularity.c\"", "P_BIPMOD": 1}, bounds="bipartitemodularity: every bipartite network of 3 and 3 linked nodes, either set, every partition", reach=["end", "inverted"]),
  J("bipartitemodularity_w", "C32.c", "h_main", mode="mix", defs={"NN": 5, "PROGF": "\"utils/main_bipartitemodularity_w.c\"", "P_BIPMODW": 1}, bounds="bipartitemodularity_w: the same with weights from a table", reach=["end", "inverted"]),
  J("modularbipart", "C32.c", "h_main", mode="mix", defs={"PROGF": "\"utils/main_modularbipart.c\"", "P_MODULARBIPART": 1}, bounds="modularbipart: every set of parameters 1 to 3; the generated network replaced by any of 3 and 3 nodes", reach=["end"]),
  J("netprop8", "C32.c", "h_main", mode="mix", defs={"FAMILY": 1, "PROGF": "\"utils/main_netprop.c\"", "P_NETPROP": 1}, bounds="netprop: a family of 256 networks of 8 nodes", reach=["end", "usage", "all", "parts"]),
  J("nodeprop8", "C32.c", "h_main", mode="mix", defs={"FAMILY": 1, "PROGF": "\"utils/main_nodeprop.c\"", "P_NODEPROP": 1}, bounds="nodeprop: a family of 256 networks of 8 nodes", reach=["end", "usage"]),
  J("getgiant8", "C32.c", "h_main", mode="mix", defs={"FAMILY": 1, "PROGF": "\"utils/main_getgiant.c\"", "P_GETGIANT": 1}, bounds="getgiant: a family of 256 networks of 8 nodes", reach=["end", "usage", "parts"]),
  J("manyparts", "C32.c", "h_many", mode="mix", defs={"PROGF": "\"utils/main_netprop.c\"", "P_NETPROP": 1, "P_MANY": 1}, bounds="netprop: one network of 1003 components", reach=["end"]),
  J("netlayout", "C32.c", "h_main", mode="mix", defs={"NN": 4, "PROGF": "\"utils/main_netlayout.c\"", "P_NETLAYOUT": 1}, tdefs={"NN": 5}, bounds="netlayout: every network of 2 to 4 (thorough 5) nodes, all linked, the three layouts, given or default parameters; the layout itself replaced by a table", reach=["end", "usage"]),
  J("multinetlayout", "C32.c", "h_main", mode="mix", defs={"NN": 5, "PROGF": "\"utils/main_multinetlayout.c\"", "P_MULTI": 1}, bounds="multinetlayout: two or three networks of 3 linked nodes sharing 1 to 3 labels; the layout itself replaced by a table", reach=["end", "usage", "three"]),
  must_encode=["prog_main"])

P("C33",
  J("reliability_links", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"reliability/main_reliability_links.c\"", "F_LINK": 1, "NN": 5, "NARG": 2, "WSW": 0, "SPLIT": 1}, tdefs={"NN": 6}, bounds="reliability_links: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; scores from a table", reach=["end", "usage", "unlinked"]),
  J("reliability_links_gibbs", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"reliability/main_reliability_links_gibbs.c\"", "F_LINK": 1, "NN": 5, "NARG": 2, "WSW": 0}, tdefs={"NN": 6}, bounds="reliability_links_gibbs: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; scores from a table", reach=["end", "usage"]),
  J("reliability_links_gibbs_sparse", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"reliability/main_reliability_links_gibbs_sparse.c\"", "F_LINK": 1, "NN": 5, "NARG": 2, "WSW": 0}, tdefs={"NN": 6}, bounds="reliability_links_gibbs_sparse: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; scores from a table", reach=["end", "usage"]),
  J("reliability_links_k", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"reliability/main_reliability_links_k.c\"", "F_K": 1, "NN": 5, "NARG": 3, "WSW": 1}, tdefs={"NN": 6}, bounds="reliability_links_k: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; scores from a table; 1 to 3 values", reach=["end", "usage", "unlinked"]),
  J("reconstruct", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"reliability/main_reliability_reconstruct.c\"", "F_REC": 1, "NN": 5, "NARG": 2, "WSW": 0}, tdefs={"NN": 6}, bounds="reconstruct: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; the reconstruction replaced by any network of 3 nodes", reach=["end", "usage"]),
  J("reliability_links_mb", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"multiblock/main_reliability_links_mb.c\"", "F_LINK": 1, "NN": 5, "NARG": 2, "WSW": 0, "OUTEXT": "\".AND_scores\""}, tdefs={"NN": 6}, bounds="reliability_links_mb: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; scores from a table", reach=["end", "usage", "long"]),
  J("reliability_links_mb_OR", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"multiblock/main_reliability_links_mb_OR.c\"", "F_LINK": 1, "NN": 5, "NARG": 2, "WSW": 0, "OUTEXT": "\".OR_scores\""}, tdefs={"NN": 6}, bounds="reliability_links_mb_OR: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; scores from a table", reach=["end", "usage", "long"]),
  J("reliability_links_mb_gibbs", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"multiblock/main_reliability_links_mb_gibbs.c\"", "F_LINK": 1, "NN": 5, "NARG": 2, "WSW": 0, "OUTEXT": "\".AND_scores\""}, tdefs={"NN": 6}, bounds="reliability_links_mb_gibbs: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; scores from a table", reach=["end", "usage", "long"]),
  J("reliability_links_mb_gibbs_OR", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"multiblock/main_reliability_links_mb_gibbs_OR.c\"", "F_LINK": 1, "NN": 5, "NARG": 2, "WSW": 0, "OUTEXT": "\".OR_scores\""}, tdefs={"NN": 6}, bounds="reliability_links_mb_gibbs_OR: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; scores from a table", reach=["end", "usage", "long"]),
  J("only_degeneration_mb", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"only_deg/main_only_degeneration_mb.c\"", "F_LINK": 1, "NN": 5, "NARG": 2, "WSW": 0, "OUTEXT": "\".scores\""}, tdefs={"NN": 6}, bounds="only_degeneration_mb: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; scores from a table", reach=["end", "usage", "long"]),
  J("only_degeneration_mb_gibbs", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"only_deg/main_only_degeneration_mb_gibbs.c\"", "F_LINK": 1, "NN": 5, "NARG": 2, "WSW": 0, "OUTEXT": "\".scores\""}, tdefs={"NN": 6}, bounds="only_degeneration_mb_gibbs: every network of 2 to 5 (thorough 6) nodes, all linked, lines in either order; scores from a table", reach=["end", "usage", "long"]),
  J("multi_recommend_2", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"recommender/main_multi_recommend_2.c\"", "F_REC2": 1, "NARG": 3, "NQ": 2}, tdefs={"NQ": 4}, bounds="multi_recommend_2: every set of ratings among 2 and 2 nodes, 0 to 2 (thorough 4) queries about them or others; scores from a table", reach=["end", "usage", "queries"]),
  J("multi_recommend_k", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"recommender/main_multi_recommend_k.c\"", "F_RECK": 1, "NARG": 4, "NQ": 2}, tdefs={"NQ": 4}, bounds="multi_recommend_k: every set of ratings among 2 and 2 nodes, 0 to 2 (thorough 4) queries about them or others; scores from a table", reach=["end", "usage", "queries"]),
  J("multi_recommend_k_gibbs", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"recommender/main_multi_recommend_k_gibbs.c\"", "F_RECK": 1, "NARG": 4, "NQ": 2}, tdefs={"NQ": 4}, bounds="multi_recommend_k_gibbs: every set of ratings among 2 and 2 nodes, 0 to 2 (thorough 4) queries about them or others; scores from a table", reach=["end", "usage", "queries"]),
  J("conflict", "C33.c", "h_main", mode="mix", defs={"PROGF": "\"conflict/main_conflict.c\"", "F_CONFLICT": 1, "NN": 5, "NARG": 2, "WSW": 0}, tdefs=None, bounds="conflict: every set of ratings among 1 to 3 and 1 to 3 nodes that share their labels; scores from a table", reach=["end", "usage"]),
  must_encode=["prog_main"])

P("C34",
  J("any2", "C34.c", "h_any", defs={"NN": 2}, bounds="plane, one box: every pair of nodes at least 0.1 apart, coordinates any real in [-3,3], weight any real in [0.25,8]", reach=["end"]),
  J("any3", "C34.c", "h_any", defs={"NN": 2, "D3": 1}, bounds="space, one box: every pair of nodes at least 0.1 apart, coordinates any real in [-3,3], weight any real in [0.25,8]", reach=["end"]),
  J("grid2", "C34.c", "h_grid", mode="mix", defs={"NN": 3, "NB": 4}, tdefs={"NN": 4}, bounds="plane, 1 to 4 boxes a side: every network of 1 to 3 (thorough 4) nodes, every assignment of its nodes to boxes", reach=["end", "far", "cut"]),
  J("grid3", "C34.c", "h_grid", mode="mix", defs={"NN": 3, "NB": 3, "D3": 1}, tdefs={"NB": 4}, bounds="space, 1 to 3 (thorough 4) boxes a side: every network of 1 to 3 nodes, every assignment of its nodes to boxes (those of the third node along one axis fixed)", reach=["end", "far", "cut"]),
  J("assign", "C34.c", "h_assign", bounds="1 to 4 boxes a side, along one axis every extent of at least 1/8 and every position (reals), the others from a table", reach=["end"]),
  J("norm2", "C34.c", "h_norm", defs={"NN": 3}, tdefs={"NN": 4}, bounds="1 to 3 (thorough 4) nodes, coordinates any real in [-3,3]", reach=["end", "scaled", "degenerate"]),
  J("norm3", "C34.c", "h_norm", defs={"NN": 2, "D3": 1}, tdefs={"NN": 3}, bounds="1 to 2 (thorough 3) nodes, coordinates any real in [-3,3]", reach=["end", "scaled", "degenerate"]),
  J("md2", "C34.c", "h_md", mode="mix", defs={"NN": 4, "CONN": 1, "STEPS": 3, "SEED0": 1}, tdefs={"STEPS": 5}, bounds="motion in the plane: every connected network of 1 to 4 nodes, 0 to 3 (thorough 5) steps, 0 to 3 boxes a side, 3 choices of damping and step, 3 starting positions", reach=["end", "moved"]),
  J("md3", "C34.c", "h_md", mode="mix", defs={"NN": 4, "CONN": 1, "STEPS": 3, "SEED0": 5, "D3": 1}, tdefs={"STEPS": 5}, bounds="motion in space: every connected network of 1 to 4 nodes, 0 to 3 (thorough 5) steps, 0 to 3 boxes a side, 3 choices of damping and step, 3 starting positions", reach=["end", "moved"]),
  J("md2p", "C34.c", "h_md", mode="mix", defs={"NN": 4, "CONN": 1, "STEPS": 10, "SEED0": 9, "PLANAR": 1}, tdefs={"STEPS": 20}, bounds="motion pulled to the plane: every connected network of 1 to 4 nodes, 0 to 10 (thorough 20) steps, 0 to 3 boxes a side, 3 choices of damping and step, 3 starting positions", reach=["end", "moved", "slow"]),
  J("parts", "C34.c", "h_md", mode="mix", defs={"NN": 4, "STEPS": 1, "SEED0": 3}, bounds="motion in the plane: 14 disconnected networks of 2 to 4 nodes, 0 or 1 steps, 0 or 1 boxes, 3 starting positions", reach=["end", "components"]),
  J("arrange", "C34.c", "h_arrange", mode="mix", defs={"NN": 5, "SEED0": 1}, bounds="32 networks of 5 nodes, 3 arrangements, 2 sequences of draws", reach=["end", "components"]),
  J("print", "C34.c", "h_print", mode="mix", bounds="1 to 4 nodes, coordinates from a table", reach=["end"]),
  must_encode=["MDGraphLayout", "MDGraphLayout2Dp", "MDGraphLayout3D", "CalculateNodeForces", "CalculateNodeForces3D", "PotentialEnergy", "PotentialEnergy3D", "ArrangeComponents", "NormalizeCoordinates", "NormalizeCoordinates3D", "AssignBox3D", "PrintNodeCoordinates"])

P("C29",
  J("net", "C29.c", "h_net", defs={"ALPHA": "\"a1 \\n\""}, tdefs={"LL": 7}, bounds="the network reader, all options: every file of at most 6 (thorough 7) bytes over 4 characters that include separators and newlines", reach=["end", "read", "rejected"]),
  J("bip", "C29.c", "h_bip", defs={"ALPHA": "\"a1 \\n\""}, tdefs={"LL": 7}, bounds="the bipartite reader, all options: every file of at most 6 (thorough 7) bytes over 4 characters that include separators and newlines", reach=["end", "read", "rejected"]),
  J("edge", "C29.c", "h_edge", defs={"ALPHA": "\"a1 \\n\""}, tdefs={"LL": 7}, bounds="the edge-list reader, all options: every file of at most 6 (thorough 7) bytes over 4 characters that include separators and newlines", reach=["end", "read", "rejected"]),
  J("part", "C29.c", "h_part", defs={"ALPHA": "\"a/ \\n\""}, tdefs={"LL": 8}, bounds="the partition reader: every file of at most 6 (thorough 8) bytes over 4 characters that include separators and newlines", reach=["end", "read"]),
  J("fread", "C29.c", "h_fread", defs={"ALPHA": "\"a#\\t \\n\""}, tdefs={"LL": 7}, bounds="the tab-separated partition reader: every file of at most 6 (thorough 7) bytes over 5 characters that include separators and newlines", reach=["end", "read"]),
  J("query", "C29.c", "h_query", defs={"ALPHA": "\"ab \\n\""}, tdefs={"LL": 7}, bounds="the query reader, 0 to 2 queries: every file of at most 6 (thorough 7) bytes over 4 characters that include separators and newlines", reach=["end", "read", "rejected"]),
  J("mods", "C29.c", "h_mods", defs={"ALPHA": "\"a1\\t\\n#\""}, tdefs={"LL": 7}, bounds="the reader of starting modules, 3 nodes, 1 to 3 modules: every file of at most 6 (thorough 7) bytes over 5 characters that include separators and newlines", reach=["end", "read"]),
  J("net_long", "C29.c", "h_net_long", bounds="two lines, the two labels of one of them of 1, 98, 99, 100, 101 or 300 characters each"),
  J("bip_long", "C29.c", "h_bip_long", bounds="two lines, the two labels of one of them of 1, 98, 99, 100, 101 or 300 characters each"),
  J("edge_long", "C29.c", "h_edge_long", bounds="two lines, the two labels of one of them of 1, 98, 99, 100, 101 or 300 characters each"),
  J("part_long", "C29.c", "h_part_long", bounds="two lines, the two labels of one of them of 1, 98, 99, 100, 101 or 300 characters each"),
  J("fread_long", "C29.c", "h_fread_long", bounds="two lines, the two labels of one of them of 1, 98, 99, 100, 101 or 300 characters each"),
  J("query_long", "C29.c", "h_query_long", bounds="two lines, the two labels of one of them of 1, 98, 99, 100, 101 or 300 characters each"),
  J("edge_many", "C29.c", "h_edge_many", bounds="edge lists of up to 39 nodes and 204 lines, lines with one, two or no new label, around the sizes at which the tables grow", reach=["end"]),
  J("mods_many", "C29.c", "h_mods_many", bounds="starting modules of 1 to 40 nodes, one per module or all in one", reach=["end"]),
  must_encode=["FBuildNetwork", "FBuildNetworkBipart", "EdgeListFileInput", "FCreatePartition", "FReadPartition", "ReadQueries", "AssignNodesToModulesFromFile"])

P("C35",
  J("onenet", "C35.c", "h_onenet", mode="mix", tdefs={"NN": 4}, wrap=["InitializeFastLogChoose"], bounds="every network of 3 (thorough 4) nodes, every two of 33 measures: the first, the second and the first again on one network", reach=["end", "result"]),
  J("measures", "C35.c", "h_measures", mode="mix", tdefs={"NN": 4}, wrap=["InitializeFastLogChoose"], bounds="every network of 3 (thorough 4) nodes, every two of 34 measures, the second on a network of 2 or 5 nodes before the first, against the first alone", reach=["end", "result"]),
  J("others", "C35.c", "h_others", mode="mix", steps=60000000, tdefs={"NN": 4}, wrap=["InitializeFastLogChoose"], bounds="every network of 3 (thorough 4) nodes, every one of 25 groups of readers, writers, edits, generators, searches, recommenders and layouts after any of 59 calls on a network of 5 nodes (the same call: 2 or 5; measures: 2 or 5 in turn), against the first alone; draws from one fixed stream", reach=["end", "result"]),
  J("scores", "C35.c", "h_scores", mode="mix", steps=60000000, wrap=["InitializeFastLogChoose"], bounds="every network of 3 nodes, every one of 11 link scores after the same on a network of 2 or 5 nodes, against the score alone; draws from one fixed stream", reach=["end", "result"]),
  must_encode=["FBuildNetwork", "CalculateNodeBetweenness", "CatalogRoleIdent", "GeneralSA", "SACommunityIdent", "LinkScore", "MDGraphLayout"])

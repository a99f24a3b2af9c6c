#!/usr/bin/env python3
# Generates /verif/properties.jsonl (one place to edit the property texts).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Queue and stack deliver every element once, in order",
 "A queue returns every value put into it exactly once and in first-in-first-out order; a stack returns them exactly once and in last-in-first-out order; the reported emptiness agrees with what is left. Releasing either of them, empty or not, touches only its own memory.",
 ["inputs","histories"],"every sequence of push/pop/free operations and every stored value, up to the stated number of operations",
 "No test uses the containers with interleaved pushes and pops, and an interleaving of unbounded length cannot be sampled.",
 ["src/datastruct.c"],[("queue","src/datastruct.c:enqueue/dequeue"),("stack","src/datastruct.c:push/pop")])
p("C02","A network read from an edge list is exactly the one in the file",
 "Reading an edge list gives one node per distinct label and one link per distinct pair named in the file (in both directions when the network is undirected), however the lines are ordered, repeated or reversed. Self-links appear only if they were asked for, repeated pairs either add their weights or are ignored, as asked, and degree, strength and the link totals agree with the resulting links.",
 ["inputs","configurations"],"all edge lists with up to the stated number of lines over up to the stated labels, arbitrary positive weights, and all switches for weights, self-links, repeated weights and direction",
 "Tests read three fixed files with one or two switch settings; order-dependent and duplicate-dependent mistakes are invisible there.",
 ["src/graph.c","src/graph.h"],[("reader","src/graph.c:FBuildNetwork"),("adjacency","src/graph.c:AddAdjacency"),("counts","src/graph.c:NodeDegree/NodeStrength/TotalNLinks")])
p("C03","A bipartite network read from a file is exactly the one in the file",
 "Reading a bipartite edge list gives one node per distinct first-column label in the first set and one per distinct second-column label in the second set, and a link between two nodes exactly when the file names the pair. Weights are read, added or ignored as asked, every link is present on both sides with the same weight, and the number of links equals the number of distinct pairs.",
 ["inputs","configurations"],"all files with up to the stated number of lines and labels, arbitrary positive weights, all weight/repetition switches",
 "The tests read one fixed bipartite file; repeated pairs, weights and labels shared by the two columns never occur.",
 ["src/bipartite.c"],[("reader","src/bipartite.c:FBuildNetworkBipart"),("count","src/bipartite.c:NLinksBipart")])
p("C04","Editing a network keeps degrees, strengths and both link ends consistent",
 "After any sequence of adding links, removing links and removing nodes, a link is reported between two nodes exactly when the edits leave it there, and it carries the weight the edits gave it. Each node's degree and strength equal those computed from its current links, the link totals agree with them, and no removed node or link is reachable any more.",
 ["histories","inputs"],"all edit sequences up to the stated length on networks of up to the stated number of nodes with arbitrary link weights",
 "Tests only build a network once; stale cached degrees and dangling ends need a history of edits.",
 ["src/graph.c"],[("add","src/graph.c:AddAdjacency/AddAdjacencySoft"),("remove","src/graph.c:RemoveLink/RemoveNode/CleanAdjacencies"),("queries","src/graph.c:IsThereLink/NodeDegree/NodeStrength")])
p("C05","Copies, sums and subnetworks have exactly the nodes and links they should",
 "A copy of a (bipartite) network has the same labels, links and weights as the original and shares no memory with it. The sum of two networks has the union of the labels and the union of the links; the subnetwork of a group has exactly the group's nodes and the links among them.",
 ["inputs"],"all networks up to the stated number of nodes with arbitrary links and weights, and all groups of their nodes",
 "The tests copy or add a single pair of networks and look at the printed result; weight or label mix-ups for other shapes are not observed.",
 ["src/graph.c","src/modules.c","src/bipartite.c"],[("copy","src/graph.c:CopyNetwork"),("sum","src/graph.c:AddTwoNetworks"),("subnetwork","src/modules.c:BuildNetFromGroup"),("bipartite copy","src/bipartite.c:CopyBipart")])
p("C06","Networks written to a file read back as the same network",
 "Writing a network or a bipartite network as an adjacency list, with or without weights, and reading the file back gives the same labels and links, and the same weights to the precision printed (six significant digits). An undirected link is written once per pair when the symmetric form is asked for, and no link is lost or invented. The Pajek file and the list of degrees name every node once, with its links or its degree.",
 ["inputs","configurations"],"all networks up to the stated number of nodes, arbitrary links and weights, all writer switches",
 "No test reads back what the library wrote.",
 ["src/graph.c","src/bipartite.c"],[("writer","src/graph.c:FPrintNetAdjacencyList"),("bipartite writer","src/bipartite.c:FPrintBipart"),("reader","src/graph.c:FBuildNetwork")])
p("C07","Partition files describe exactly the partition and read back as it",
 "Writing a partition and reading it back with the matching reader gives a partition of the same labels into the same groups. This holds for the group-per-line format used for partitions and for the clustering output of the module-finding program when it is given back as its starting partition. The group numbers written for Pajek are those of the nodes, in their order.",
 ["inputs"],"all partitions of up to the stated number of labelled nodes, labels of bounded length",
 "One test reads one fixed partition file; nothing reads back a written partition.",
 ["src/modules.c","src/io.c"],[("legacy writer/reader","src/modules.c:FPrintPartition/FCreatePartition"),("clustering output","src/io.c:ClusteringOutput"),("clustering input","src/io.c:AssignNodesToModulesFromFile")])
p("C08","Distances are the true shortest-path distances",
 "The reported distance between two nodes is the smallest number of links on a path between them, and unreachable pairs are treated as documented. Average path length and average inverse path length equal the averages of those distances over node pairs.",
 ["inputs"],"all networks (links directed or not, where supported) of up to the stated number of nodes",
 "Tests check one test network's printed averages; breadth-first bookkeeping mistakes depend on topology.",
 ["src/graph.c"],[("BFS layers","src/graph.c:RenewQueue"),("averages","src/graph.c:AveragePathLength/AverageInverseDistance")])
p("C09","Components contain exactly the nodes that are connected",
 "Two nodes are put in the same component exactly when a path joins them (in both directions for strong components), each node is in exactly one component, and the connectedness test says yes exactly when there is one component. The extracted largest component has the nodes of a largest component and all links among them.",
 ["inputs"],"all networks of up to the stated number of nodes",
 "One test extracts the giant component of one network; ties, isolated nodes and node orders are not varied.",
 ["src/graph.c","src/modules.c","src/partition.c"],[("connectivity","src/graph.c:AreConnectedList/CountStronglyConnectedSets"),("largest","src/graph.c:GetLargestStronglyConnectedSet/GetLargestWeaklyConnectedSet"),("groups","src/modules.c:ClustersPartition"),("module components","src/partition.c:SplitModuleByComponent")])
p("C10","Betweenness equals the share of shortest paths through each node or link",
 "A node's betweenness is the sum over ordered pairs of nodes of the fraction of their shortest paths through it, and a link's betweenness is the corresponding sum for the link, under the library's counting conventions. The values do not depend on the order of nodes or links.",
 ["inputs"],"all undirected networks of up to the stated number of nodes",
 "One test prints the betweenness of one fixed network; multiplicities of equal-length paths need many topologies.",
 ["src/graph.c"],[("node","src/graph.c:CalculateNodeBetweenness"),("link","src/graph.c:CalculateLinkBetweenness/BiggestLinkBetweenness")])
p("C11","Local network statistics equal their definitions",
 "Clustering coefficient, Jaccard index, topological overlap, common neighbours, assortativity, degree moments and degree-correlation sums equal the values their definitions give on the network's links. All of them lie in their definition's range and none depends on the order in which links were added.",
 ["inputs"],"all networks of up to the stated number of nodes, arbitrary link order",
 "Tests print the clustering coefficient and assortativity of one network.",
 ["src/graph.c"],[("clustering","src/graph.c:ClusteringCoefficient/OneNodeClusteringCoefficient"),("similarity","src/graph.c:JaccardIndex/CommonNeighbors/TopologicalOverlap"),("assortativity","src/graph.c:Assortativity")])
p("C12","Randomising a network preserves every node's degree",
 "Randomising an undirected or bipartite network keeps every node's degree and the total number of links, adds no self-link and no repeated link, and keeps both ends of every link consistent. This holds whatever the random generator returns, and it ends also when no two links can be switched.",
 ["inputs","schedules"],"all networks up to the stated size and every sequence of random draws up to the stated number",
 "Tests randomise one network with one seed.",
 ["src/graph.c","src/bipartite.c"],[("unipartite","src/graph.c:RandomizeSymmetricNetwork"),("bipartite","src/bipartite.c:RandomizeBipart")])
p("C13","Module bookkeeping stays exact under any sequence of moves",
 "After any sequence of moving nodes between modules, merging modules, splitting off components and compacting empty modules, every node is in exactly one module, and each module's size and total strength equal those of the nodes in it. The count of empty modules is exact, walking a module visits exactly its nodes, a copied partition equals its source and is independent of it, and compaction changes no grouping.",
 ["histories","inputs"],"all operation sequences up to the stated length on partitions of up to the stated number of nodes and modules, arbitrary node strengths",
 "No test touches the array-based partition at all.",
 ["src/partition.c"],[("moves","src/partition.c:ChangeModule/MergeModules/SplitModuleByComponent"),("compaction","src/partition.c:CompressPartition"),("copy","src/partition.c:CopyPartitionStruct"),("init","src/partition.c:AssignNodesToModules")])
p("C14","A proposed move's modularity gain is the exact modularity difference",
 "The modularity gain computed for moving a node, merging two modules or splitting a module equals the modularity after the change minus the modularity before. Modularity itself equals its definition: the sum over modules of the weight inside minus the squared fraction of the strength.",
 ["inputs"],"all networks with arbitrary real link weights and all partitions up to the stated sizes, every node, target module and merge",
 "No test evaluates a modularity gain; the identity must hold for arbitrary real weights.",
 ["src/partition.c"],[("gain of a move","src/partition.c:dEChangeModule"),("gain of a merge","src/partition.c:dEMergeModules"),("modularity","src/partition.c:PartitionModularity")])
p("C15","Adjacency used for module finding equals the input network, normalised",
 "The adjacency built from an edge list lists, for every node, exactly its neighbours with the summed weight of the links to each, independent of the order of the edges, and is scaled so that node strengths add up to one. For a bipartite input the two-mode projection has a link between two nodes exactly when they share partners, with the weight the definition gives.",
 ["inputs","configurations"],"all edge lists up to the stated number of edges and nodes, arbitrary positive weights, weighted or not, either projection",
 "No test covers the array-based adjacency or the projection.",
 ["src/fillpartitions.c","src/io.c"],[("unipartite","src/io.c:EdgeListToAdjaArray"),("bipartite","src/fillpartitions.c:ProjectBipartEdgeList"),("file","src/io.c:EdgeListFileInput")])
p("C16","Participation, within-module z-score and role equal their definitions",
 "A node's participation coefficient is one minus the sum over modules of the squared fraction of its strength into the module, its connectivity is the z-score of its within-module strength among its module's nodes, and both are finite. The role is the one whose published region of the plane contains the pair.",
 ["inputs"],"all small partitions with arbitrary link weights, and every pair of real coordinates for the role regions",
 "No test checks any role metric; region borders and equal-strength modules are never sampled.",
 ["src/partition.c","src/modules.c","src/io.c"],[("metrics","src/partition.c:PartitionRolesMetrics"),("role","src/partition.c:GetRole / src/modules.c:")])
p("C17","Module search ends with a valid partition and never a worse one than its best",
 "Simulated annealing over partitions stops, returns a partition in which every node is in exactly one module with exact bookkeeping, and the modularity of what it returns is at least that of the best state with which it ended any temperature. This holds whatever the random generator returns, including on networks with one or two nodes.",
 ["inputs","schedules"],"all networks of up to the stated size and every sequence of random draws up to the stated length",
 "No test runs the array-based search; the legacy one runs on one network with one seed.",
 ["src/sannealing.c","src/movements.c"],[("annealing","src/sannealing.c:GeneralSA"),("moves","src/movements.c:IndividualMovement/CollectiveMerge/CollectiveSplit"),("split","src/movements.c:SplitModuleSA")])
p("C18","Group bookkeeping of list-based partitions stays exact under any edits",
 "After any sequence of adding, removing and moving nodes and merging groups, each group's size, total links, links inside and their weights equal the values counted from the network, and each node records the group it is in. Mapping a partition to another network, copying it and compacting it change no grouping.",
 ["histories","inputs"],"all edit sequences up to the stated length on networks of up to the stated number of nodes with arbitrary weights",
 "The tests print results of whole runs; a wrong total after one particular history is not visible.",
 ["src/modules.c"],[("edits","src/modules.c:AddNodeToGroup/RemoveNodeFromGroup/MoveNode/MergeGroups"),("mapping","src/modules.c:MapPartToNet/CopyPartition/CompressPart")])
p("C19","Modularity functions equal the published formulas",
 "For every network and partition, the modularity, the weighted modularity, and the bipartite and weighted bipartite modularities equal their published formulas. They do not depend on the order of nodes, links or groups. The printed pattern of connections gives, for each two groups, the number, the fraction, the probability or the z-score of the links between them.",
 ["inputs"],"all networks up to the stated size with arbitrary weights and all partitions of their nodes",
 "Tests compare a single network's value.",
 ["src/modules.c","src/bipartite.c"],[("unipartite","src/modules.c:Modularity/ModularityWeight"),("bipartite","src/bipartite.c:ModularityBipart/ModularityBipartWeighted")])
p("C20","Catalogued node roles follow the published definitions",
 "The list-based within-module degree, participation coefficient and their weighted forms equal their definitions, and each node is filed under exactly one role, the one of the published region its two values lie in.",
 ["inputs"],"all networks up to the stated size and all partitions of their nodes",
 "Only one test network's role catalogue is printed.",
 ["src/modules.c"],[("metrics","src/modules.c:WithinModuleRelativeDegree/ParticipationCoefficient"),("catalogue","src/modules.c:CatalogRoles/GetRole")])
p("C21","Partition and network comparison measures equal their definitions",
 "The mutual information of two partitions is symmetric, lies between zero and one, is one for equal non-trivial partitions and depends only on which nodes are grouped together. The fraction of correctly classified nodes and the coverage and overlap of two networks equal their definitions.",
 ["inputs"],"all pairs of partitions and of networks up to the stated number of nodes",
 "No test computes mutual information of different partitions.",
 ["src/modules.c","src/graph.c"],[("mutual information","src/modules.c:MutualInformation"),("classification","src/modules.c:CorrectlyClassified"),("networks","src/graph.c:CompareTwoNetworks")])
p("C22","Link-reliability samplers track the exact energy of the partition",
 "Each Monte Carlo or Gibbs step over partitions, for every variant of the block-model energy, leaves the running energy equal to the starting energy plus the exact change of the energy function. The cached group-to-group link counts equal those of the current partition, moves are accepted with the Metropolis probability and Gibbs destinations are chosen in proportion to exp(-energy), and only memory belonging to the sampler is touched.",
 ["inputs","schedules"],"all networks and starting partitions of up to the stated number of nodes and every sequence of random draws for the stated number of moves",
 "No test runs any of the samplers; they are statistical, so a wrong increment only shifts scores.",
 ["src/missing.c","src/sparse_missing.c","src/multiblock.c","src/only_deg.c"],[("Metropolis","src/missing.c:LinkScoreMCStep / src/multiblock.c:LSMCStepMB,ORLSMCStepMB / src/only_deg.c:LSMCStepMB_OD"),("Gibbs","src/missing.c:GibbsLinkScoreStep and siblings"),("K states","src/missing.c:LSMCStepKState")])
p("C23","Recommender samplers track the exact energy of both partitions",
 "Each Monte Carlo or Gibbs step of the two-state and K-state recommenders leaves the running energy equal to the starting energy plus the exact change of the energy function. All cached counts (node-to-group, group-to-group, non-empty groups) equal those recomputed from the two current partitions, moves are accepted with the Metropolis probability and Gibbs destinations are chosen in proportion to exp(-energy).",
 ["inputs","schedules"],"all rating networks and starting partitions up to the stated sizes and every sequence of random draws for the stated number of moves",
 "No test runs the recommender samplers.",
 ["src/recommend.c"],[("two states","src/recommend.c:MCStep2State"),("K states","src/recommend.c:MCStepKState/GibbsStepKState")])
p("C24","Predicted scores are the posterior averages and are valid probabilities",
 "The score of a pair is the average, over the partitions sampled after equilibration, of the posterior probability of a link (of a rating) given the counts of the pair's two groups: (l+1)/(r+2) for the block model, its counterparts for the AND, OR and sparse models, (n_k+1)/(n+K) for K states, the ratings of queried pairs left out. Scores are symmetric, lie strictly between zero and one, and those of a pair over the K states add up to one; queries and networks come back unchanged. NetworkScore is the ratio of the two reliabilities averaged over the same samples, PartitionSampling returns the partitions sampled, in order, and NetReconstruct keeps nodes and the number of links. Scoring a network of two or more nodes ends, also when all partitions are equally good.",
 ["inputs","schedules"],"all networks and sampled partitions up to the stated sizes",
 "No test computes a score.",
 ["src/missing.c","src/multiblock.c","src/only_deg.c","src/recommend.c","src/sparse_missing.c"],[("link scores","src/missing.c:LinkScore/GibbsLinkScore/LSMultiLinkScoreKState"),("multilayer and sparse","src/multiblock.c:LinkScoreMB/ORLinkScoreMB; src/sparse_missing.c:SparseGibbsLinkScore"),("recommendations","src/recommend.c:MultiLinkScore2State/MultiLinkScoreKState/GibbsMultiLinkScoreKState"),("reliability","src/missing.c:NetworkScore/PartitionSampling/NetReconstruct")])
p("C25","Numeric helpers equal their mathematical definitions",
 "Factorials, binomial coefficients, their tabulated logarithms, harmonic numbers, means, variances, extrema and line counts equal their definitions for every argument in range, whether it is served from a table or computed. Tables are never read outside their bounds.",
 ["inputs"],"all arguments in the stated ranges, all data vectors up to the stated length with arbitrary real entries",
 "One test prints a handful of values.",
 ["src/tools.c"],[("tables","src/tools.c:InitializeFastLog*/FastLog*"),("statistics","src/tools.c:mean/stddev/min/max")])
p("C26","Adjacency and Laplacian matrices match the network",
 "The adjacency matrix has a one exactly at linked pairs, and the Laplacian has the degrees on its diagonal, minus one at linked pairs, zero elsewhere, and rows that add up to zero. Both are symmetric for undirected networks.",
 ["inputs"],"all networks of up to the stated number of nodes",
 "One test prints the spectrum of one network.",
 ["src/matrix.c"],[("matrices","src/matrix.c")])
p("C27","Generated networks have the structure that was asked for",
 "The network generators return networks with the requested number of nodes, labelled and numbered consistently, whose links are consistent at both ends, without unrequested self-links or repeats, and only between nodes that the requested model allows. Where a number of links is requested, exactly that many are present, whatever the random generator returns.",
 ["inputs","schedules","configurations"],"all parameters in the stated ranges and every sequence of random draws up to the stated number",
 "No test checks a generated network against its parameters for more than one seed.",
 ["src/models.c","src/graph.c","src/bipartite.c"],[("models","src/models.c"),("random links","src/graph.c:AddRandomLinks/RemoveRandomLinks"),("modular bipartite","src/bipartite.c:BuildModularBipartiteNetwork")])
p("C28","Projections and edits of bipartite networks are exact",
 "The one-mode projection links two nodes exactly when they share a partner and counts the shared partners (or the weight the definition gives). Swapping the two sides and removing a node leave all other links and both link ends consistent.",
 ["inputs","histories"],"all bipartite networks up to the stated sizes with arbitrary weights",
 "One test projects one fixed network.",
 ["src/bipartite.c"],[("projection","src/bipartite.c:ProjectBipart/ProjectBipartWeighted"),("edits","src/bipartite.c:InvertBipart/RemoveNodeBipart/SubNetsBipart")])
p("C29","No input file makes the readers touch memory that is not theirs",
 "For every input file, the readers of networks, bipartite networks, partitions, starting modules and queries read and write only memory they own and return or report an error. They release what they should release only once.",
 ["inputs"],"all files up to the stated number of bytes over a stated alphabet that includes separators and out-of-grammar text, plus labels of arbitrary length up to the stated bound",
 "Tests read well-formed fixed files only.",
 ["src/graph.c","src/bipartite.c","src/modules.c","src/io.c","src/recommend.c"],[("readers","src/graph.c:FBuildNetwork, src/bipartite.c:FBuildNetworkBipart, src/modules.c:FCreatePartition, src/io.c:EdgeListFileInput/AssignNodesToModulesFromFile, src/recommend.c:ReadQueries")])
p("C30","The list-based module search returns a valid partition, the best it recorded",
 "The list-based simulated-annealing search puts every node of the network in exactly one group, leaves no group empty, and returns groups whose sizes and numbers of links inside and outside are those of the network, whatever the random draws, starting partition and switches; the modularity of the returned partition is at least that of the state at the end of every temperature it went through. Its splitting of a group in two shares out exactly the nodes of that group among at most two groups, with links counted within the group only. Neither changes the network, and both release their memory.",
 ["schedules","inputs","configurations"],"the stated networks, starting partitions, switches and temperatures, with any value of a window of consecutive random draws at every place among the first draws",
 "Tests run the search once per fixed seed and print the result; a bookkeeping mistake in a merge, split or reset shows only for particular draws.",
 ["src/modules.c","src/modules.h"],[("search","src/modules.c:SACommunityIdent"),("split","src/modules.c:SAGroupSplit")])
p("C31","netcarto reports the modules, roles and modularity of the network it read",
 "Given a network and a partition file, or a network alone, netcarto and netcarto-legacy write every node of the network exactly once, grouped in modules; the number of nodes, number of links, number of modules and modularity they print are those of that network and that grouping; and each node's role, participation coefficient and within-module degree are those the definitions give for it (for the chosen column of a bipartite network, those of its projection). All ways of giving input and output (file or standard streams, weighted or not, bipartite, either column) agree. A network that cannot be read, or missing arguments, give an error status and no result.",
 ["inputs","configurations","schedules"],"all networks and partitions up to the stated sizes, all options, and windows of random draws in the search",
 "No test runs the program.",
 ["netcarto/main_netcarto.c","netcarto/main_netcarto_legacy.c","src/modules.c","src/io.c"],[("netcarto","netcarto/main_netcarto.c:main"),("netcarto-legacy","netcarto/main_netcarto_legacy.c:main"),("tables","src/io.c:TabularOutput")])
p("C32","The utility programs print what is true of the files they are given",
 "countlinks, getgiant, lapspec, netcompare, netprop, nodeprop, netrandomize, mutualinfo, bipartitemodularity (weighted and not), modularbipart, netlayout and multinetlayout read the files named on their command line and print the quantities they announce: numbers of nodes and links, average degree, the largest component, degrees and betweenness, path lengths, clustering and assortativity, common nodes and links of two networks, mutual information of two partitions, modularity of a bipartite partition, each node's coordinates. Every node or link of a list is printed once, parameters of the command line reach the computation unchanged, and missing arguments are an error.",
 ["inputs","configurations"],"all networks, pairs of networks, partitions and parameters up to the stated sizes",
 "No test runs any of the programs.",
 ["utils/main_countlinks.c","utils/main_getgiant.c","utils/main_lapspec.c","utils/main_netcompare.c","utils/main_netprop.c","utils/main_nodeprop.c","utils/main_netrandomize.c","utils/main_mutualinfo.c","utils/main_bipartitemodularity.c","utils/main_bipartitemodularity_w.c","utils/main_modularbipart.c","utils/main_netlayout.c","utils/main_multinetlayout.c"],[("programs","utils/main_*.c:main")])
p("C33","The scoring programs print every score next to the pair it belongs to",
 "The link-reliability, multiblock, degeneration, recommendation and conflict programs read the network, the ratings and the queries named on their command line, score them, and write each pair of nodes they promise exactly once, with the labels and the score (or the scores of the K values) that belong to that pair: unlinked and linked pairs in separate files, or all pairs, or the queries in the order asked. reconstruct writes each link of the reconstructed network once. Output files have the announced names, for file names of any length, and missing arguments are an error.",
 ["inputs","configurations"],"all networks, ratings, sets of queries and numbers of values up to the stated sizes, and any scores from a table of distinct values",
 "No test runs any of the programs.",
 ["reliability/main_reliability_links.c","reliability/main_reliability_links_gibbs.c","reliability/main_reliability_links_gibbs_sparse.c","reliability/main_reliability_links_k.c","reliability/main_reliability_reconstruct.c","multiblock/main_reliability_links_mb.c","multiblock/main_reliability_links_mb_OR.c","multiblock/main_reliability_links_mb_gibbs.c","multiblock/main_reliability_links_mb_gibbs_OR.c","only_deg/main_only_degeneration_mb.c","only_deg/main_only_degeneration_mb_gibbs.c","recommender/main_multi_recommend_2.c","recommender/main_multi_recommend_k.c","recommender/main_multi_recommend_k_gibbs.c","conflict/main_conflict.c"],[("programs","*/main_*.c:main")])
p("C34","Layouts follow the stated forces and end between 0 and 1",
 "In two and three dimensions, the force on a node is the sum of the springs of its links (weight times distance) and of the repulsion of the nodes in the same or an adjacent box (beyond two boxes a side, only those closer than the cutoff), each pair counted once and in both directions, and the potential energy sums each link and each such pair once, whatever the order of the nodes in their boxes. A layout moves the nodes by damped steps of these forces from random positions, keeping each node in the box of its position, and ends with each coordinate scaled to go from 0 to 1; separate components keep their shape, move as a whole, and never end further from the largest one or more on top of each other. The network is not changed, all memory is released, and each node is printed once with its coordinates.",
 ["inputs","schedules","configurations"],"any positions and weights for two nodes; all small networks, numbers of boxes, placements in boxes, dampings, steps and starting positions of the stated tables",
 "No test lays out a network.",
 ["src/layout.c","src/layout.h"],[("forces","src/layout.c:CalculateNodeForces/CalculateNodeForces3D"),("energies","src/layout.c:PotentialEnergy/PotentialEnergy3D"),("motion","src/layout.c:MDGraphLayout/MDGraphLayout2Dp/MDGraphLayout3D"),("components","src/layout.c:ArrangeComponents"),("scaling","src/layout.c:NormalizeCoordinates/NormalizeCoordinates3D")])
p("C35","Results do not depend on what was called before",
 "What a call returns, writes or draws depends only on its arguments, the network as it stands, the files it reads and the random numbers it draws, never on earlier calls in the same process: repeating a call, on the same network after other measures or after any other calls on other networks (smaller or larger), gives the same result as making it first, and measures leave the network as it was.",
 ["histories","inputs"],"any history of calls before a call; all small networks and all pairs of calls of the stated tables",
 "Every test makes one call on one network, and starts a process of its own.",
 ["src/tools.c","src/graph.c","src/bipartite.c","src/modules.c","src/fillpartitions.c","src/models.c","src/missing.c","src/multiblock.c","src/only_deg.c","src/sparse_missing.c","src/recommend.c","src/conflict.c","src/layout.c"],[("repeated measures","src/graph.c"),("partitions","src/modules.c"),("readers","src/graph.c:FBuildNetwork"),("link scores","src/missing.c:LinkScore"),("recommenders","src/recommend.c")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")

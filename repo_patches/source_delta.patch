From b8c5320cc9fa0e00b09e87692713201d122a04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:28 +0000
Subject: [PATCH 01/79] fix: IsThereNode compares labels, not label pointers

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 7f63069..d771337 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -792,7 +792,7 @@ IsThereNode(char *label, struct node_gra *p)
 {
   
   while ((p = p->next) != NULL)
-    if (p->label == label)
+    if (strcmp(p->label, label) == 0)
       return 1;
 
   return 0;
-- 
2.43.0


From 4328dde5622c049709683895ad194c628cf597f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:27 +0000
Subject: [PATCH 02/79] fix: RemoveIsolatedNodes keeps nodes with incoming
 links and frees the removed ones

---
 src/graph.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index d771337..4f2a46e 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -844,15 +844,32 @@ int
 RemoveIsolatedNodes(struct node_gra *root)
 {
   struct node_gra *p=NULL, *temp=NULL;
+  struct node_lis *n=NULL;
+  int *linked=NULL;
   int nrem=0;
 
+  // Mark the nodes that other nodes point to
+  RenumberNodes(root);
+  linked = allocate_i_vec(CountNodes(root) + 1);
+  p = root;
+  while ((p = p->next) !=  NULL) {
+    linked[p->num] = 0;
+  }
+  p = root;
+  while ((p = p->next) !=  NULL) {
+    n = p->neig;
+    while ((n = n->next) !=  NULL) {
+      linked[n->node] = 1;
+    }
+  }
+
   // Revome isolated nodes
   p = root;
   while (p->next !=  NULL) {
-    if (NodeDegree(p->next) ==  0) {
+    if (NodeDegree(p->next) ==  0 && linked[p->next->num] == 0) {
       temp = p->next;
       p->next = (p->next)->next;
-      free(temp);
+      FreeNode(temp);
       nrem++;
     }
     else{
@@ -860,6 +877,8 @@ RemoveIsolatedNodes(struct node_gra *root)
     }
   }
 
+  free_i_vec(linked);
+
   // Renumber the nodes and links in the network
   RenumberNodes(root);
 
-- 
2.43.0


From 725e908cf2ae012c37d07bbf37c84da052fb6641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:19 +0000
Subject: [PATCH 03/79] fix: ProjectBipartWeighted keeps fractional weights

---
 src/bipartite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 8323fe4..3060b46 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -610,7 +610,7 @@ ProjectBipartWeighted(struct binet *binet)
   struct node_gra *p1 = NULL, *p2 = NULL;
   void *dict = NULL;
   struct node_tree *ntree=NULL;
-  int weight;
+  double weight;
 
   /* Create the header of the projection network */
   last = projnet = CreateHeaderGraph();
@@ -631,7 +631,7 @@ ProjectBipartWeighted(struct binet *binet)
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
     while ((p2 = p2->next) != NULL) {
-	  weight = (double)SumProductsOfCommonWeightsBipart(p1,p2);
+	  weight = SumProductsOfCommonWeightsBipart(p1,p2);
       if (weight > 0) {
 	AddAdjacency(GetNodeDict(p1->label, dict),
 		     GetNodeDict(p2->label, dict),
-- 
2.43.0


From 78fea4d23ae4eda8ace01c1b0f2b267849413c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:23 +0000
Subject: [PATCH 04/79] fix: BuildNetFromGroupNeig points its links by label

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 45cd990..4fc2f1f 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1134,7 +1134,7 @@ BuildNetFromGroupNeig(struct group *group)
   }
 
   CleanAdjacencies(net);
-  RewireAdjacencyByNum(net);
+  RewireAdjacencyByLabel(net);
 
   return net;
 }
-- 
2.43.0


From ee928f16592a261866eb746f6deb9fb8b33f1fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 05/79] fix: a node removed from a group is in no group

---
 src/modules.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 4fc2f1f..f91fac7 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -480,6 +480,9 @@ RemoveNodeFromGroup(struct group *g, struct node_gra *node)
     g->inlinksW -= inweight;
     g->outlinksW = g->totlinksW - g->inlinksW;
 
+    /* The node is in no group now */
+    node->inGroup = -1;
+
     /* Done */
     return 1;
   }
-- 
2.43.0


From 4898c0f08dff6385426d846ac150aac4a2374938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 06/79] fix: removing the links of or between groups no longer
 reads freed links

---
 src/modules.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index f91fac7..559fa2f 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -680,8 +680,8 @@ RemoveWithinGroupLinks(struct group *g, int symmetric_sw)
   nod = g->nodeList;
   while ((nod = nod->next) != NULL) {
     nei = nod->ref->neig;
-    while ((nei = nei->next) != NULL)
-      RemoveLink(nod->ref, nei->ref, symmetric_sw);
+    while (nei->next != NULL)
+      RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
   }
 
   return;
@@ -703,9 +703,11 @@ RemoveBetweenGroupLinks(struct group *part, int symmetric_sw)
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
       nei = nod->ref->neig;
-      while ((nei = nei->next) != NULL) {
-	if (nod->ref->inGroup != nei->ref->inGroup)
-	  RemoveLink(nod->ref,nei->ref, symmetric_sw);
+      while (nei->next != NULL) {
+	if (nod->ref->inGroup != nei->next->ref->inGroup)
+	  RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
+	else
+	  nei = nei->next;
       }
     }
   }
@@ -1507,9 +1509,11 @@ RemoveInterGroupLinks(struct node_gra *net)
   while ((p = p->next) != NULL) {
     thisgroup = p->inGroup;
     n = p->neig;
-    while ((n = n->next) != NULL) {
-      if(n->ref->inGroup != thisgroup)
-	RemoveLink(p, n->ref, 0);
+    while (n->next != NULL) {
+      if(n->next->ref->inGroup != thisgroup)
+	RemoveLink(p, n->next->ref, 0);
+      else
+	n = n->next;
     }
   }
 }
-- 
2.43.0


From b37c1164830943c8b8ac2056bae35c8169e7681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 07/79] fix: CreateEquiNPartition stops at the last node

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 559fa2f..4be7913 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -197,7 +197,7 @@ CreateEquiNPartition(struct node_gra *net, int gsize)
   for (i=0; i<=ngroups; i++) {
     g = CreateGroup(part,i);
     for (j=0; j<gsize; j++) {
-      if ((p = p->next) != NULL) {
+      if (p != NULL && (p = p->next) != NULL) {
 	AddNodeToGroup(g, p);
       }
     }
-- 
2.43.0


From 2d8c0bc6d821aba21f5c8bd78577c41e6f9e0fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:28 +0000
Subject: [PATCH 08/79] fix: MapPartToNetSoft maps to subnetworks, leaves the
 partition alone and frees its dictionary

---
 src/modules.c | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 4be7913..393a4b4 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1384,7 +1384,6 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   struct group *g = NULL;
   struct node_lis *nod;
   void *nodeDict = NULL;
-  struct node_tree *treeNode = NULL;
   struct node_gra *node = NULL;
 
   /* Reset the group of all nodes */
@@ -1393,30 +1392,22 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   /* Create the nodeDict for fast access to nodes by label */
   nodeDict = MakeLabelDict(net);
 
-  /* Go through the groups, reset attributes, and point pointers */
+  /* Go through the groups, set the group of the nodes */
   g = part;
   while ((g = g->next) != NULL) {
-    g->totlinks = 0;
-    g->inlinks = 0;
-    g->outlinks = 0;
-    g->totlinksW = 0.0;
-    g->inlinksW = 0.0;
-    g->outlinksW = 0.0;
-
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
       /* Get the node_gra by label */
-      treeNode = CreateNodeTree();
-      strcpy(treeNode->label, nod->nodeLabel);
-      node = (*(struct node_tree **)tfind((void *)treeNode,
-					  &nodeDict,
-					  NodeTreeLabelCompare))->ref;
-      FreeNodeTree(treeNode);
-      /* Update the properties of the node */
-      node->inGroup = g->label;
+      node = GetNodeDict(nod->nodeLabel, nodeDict);
+      /* Update the properties of the node (if it is in the network) */
+      if (node != NULL)
+	node->inGroup = g->label;
     }
   }
 
+  /* Free memory allocated locally */
+  FreeLabelDict(nodeDict);
+
   return;
 }
 
-- 
2.43.0


From 55e194837e94c5c0f011d3a91721226205cc648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:47 +0000
Subject: [PATCH 09/79] fix: CreatePartition allocates one entry per module

---
 src/partition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partition.c b/src/partition.c
index 5fd82e1..26e0f7c 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -53,7 +53,7 @@ CreatePartition(unsigned int N, unsigned int M){
   part->M = M;
   part->nempty = M;
   part->nodes = (Node **) malloc(N*sizeof(Node*));
-  part->modules = (Module **) malloc(N*sizeof(Module*));
+  part->modules = (Module **) malloc(M*sizeof(Module*));
   if (part->nodes==NULL || part->modules == NULL)
 	perror("Error while allocating partition component");
 
-- 
2.43.0


From 434dae1d4952c036cc9d867e7321052b57fd3440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:47 +0000
Subject: [PATCH 10/79] fix: CompressPartition ends when every module is empty

---
 src/partition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partition.c b/src/partition.c
index 26e0f7c..599e513 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -323,7 +323,7 @@ CompressPartition(Partition *part){
   // that were not freed (!=NULL) to one of the empty ids in the
   // begining of the list.
   j = 0;
-  for (i=(part->M)-1;i>=M;i--){
+  for (i=part->M;i-->M;){
 	if (part->modules[i]!=NULL) {
 	  for(node=part->modules[i]->first; node!=NULL; node = node->next){
 		node->module = empty_id[j];
-- 
2.43.0


From 71ba6c7442be3594732204a88c27915f989074e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:47 +0000
Subject: [PATCH 11/79] fix: SplitModuleByComponent stays within the module

---
 src/movements.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/movements.c b/src/movements.c
index d04a07e..bef4f11 100644
--- a/src/movements.c
+++ b/src/movements.c
@@ -271,7 +271,7 @@ SplitModuleByComponent(unsigned int targetModuleId,
 		for (i=adj->idx[j];i<adj->idx[j+1];i++){
 		  k = adj->neighbors[i]; // The index of the neighbor.
 
-		  if(!visited[k]){
+		  if(!visited[k] && part->nodes[k]->module == targetModuleId){
 			visited[k] = 1;
 			// Add the node to the queue of nodes to visit.
 			AddToStack(k,to_visit);
-- 
2.43.0


From 3a956f928f5ee9e11b2458a91dd463e31241f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:47 +0000
Subject: [PATCH 12/79] fix: a self-link does not count in the gain of a node's
 move

---
 src/movements.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/movements.c b/src/movements.c
index bef4f11..100e452 100644
--- a/src/movements.c
+++ b/src/movements.c
@@ -30,6 +30,8 @@ double dEChangeModule(unsigned int nodeid,
   // old and new group.
   for (i=adj->idx[nodeid]; i<adj->idx[nodeid+1]; i++){
 	int j = adj->neighbors[i]; // The index of the neighbor.
+	if (j == nodeid) // A self-link moves along with the node.
+	  continue;
 	if (part->nodes[j]->module == old)
 	  dE -= adj->strength[i]; // - k_(i,G)
 	else if (part->nodes[j]->module == newModuleid)
-- 
2.43.0


From ffd8b404edb439db015c10380a3104081eeb19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:47 +0000
Subject: [PATCH 13/79] fix: PartitionModularity counts every listed edge
 between two nodes

---
 src/partition.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/partition.c b/src/partition.c
index 599e513..62bb743 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -264,8 +264,7 @@ PartitionModularity(Partition *part, AdjaArray *adj, int diagonal_term){
 		aij = 0;
 		for (i=adj->idx[node1->id]; i<adj->idx[node1->id+1]; i++){
 		  if (adj->neighbors[i] == node2->id){
-			aij = adj->strength[i];
-			break; // found the edge, we can stop.
+			aij += adj->strength[i]; // an edge may be listed several times.
 		  }
 		}
 
-- 
2.43.0


From 126238afa72387c12fa59b98ddd295e3831b53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:34 +0000
Subject: [PATCH 14/79] fix: EdgeListToAdjaArray lists both ends of a self-link

---
 src/fillpartitions.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fillpartitions.c b/src/fillpartitions.c
index 34700a4..d5c9ea6 100644
--- a/src/fillpartitions.c
+++ b/src/fillpartitions.c
@@ -73,18 +73,17 @@ EdgeListToAdjaArray(int *nd_in, int *nd_out, double *weight,
   int idx_in, idx_out;
   for (i=0;i<E;i++){
   	// Get the positions to fill.
+  	// (the counter is updated at once: both ends may be the same node).
   	idx_in  = adj->idx[nd_in[i]+1]-degree[nd_in[i]];
+  	degree[nd_in[i]]--;
   	idx_out = adj->idx[nd_out[i]+1]-degree[nd_out[i]];
+  	degree[nd_out[i]]--;
 
   	// Fill them with target and strength.
   	adj->neighbors[idx_in] = nd_out[i];
     adj->strength[idx_in] = weight[i]/weightsum;
   	adj->neighbors[idx_out] = nd_in[i];
   	adj->strength[idx_out] = weight[i]/weightsum;
-
-  	// Update the counter to fill the next position correctly.
-  	degree[nd_in[i]]--;
-  	degree[nd_out[i]]--;
   }
 
   // int k;
-- 
2.43.0


From fd3241bd980515c1dbed3f4d9939920409d59941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:34 +0000
Subject: [PATCH 15/79] fix: ProjectBipartEdgeList stays within its edge lists

---
 src/fillpartitions.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fillpartitions.c b/src/fillpartitions.c
index d5c9ea6..c19378b 100644
--- a/src/fillpartitions.c
+++ b/src/fillpartitions.c
@@ -154,7 +154,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
 
   double fac1 = 0;
   double fac2 = 0;
-  double strength;
+  double strength = 0;
 
   // Count the degree of each node and assign a first data structure for the
   // projected network.
@@ -163,7 +163,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
     degree++; // degree of current team
     strength += ed[i].strength; // Strength of current team
     part->nodes[ed[i].node1]->strength += ed[i].strength; // degree of current actor
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       Emax += (degree)*(degree-1) / 2;
       fac2 += strength;
       fac1 += strength * (strength-strength/degree);
@@ -181,7 +181,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   unsigned int j = 0, x, y, x0 = 0;
   for (i = 0; i <= count-1; i++) {
     degree++;
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       for (x = x0; x < i+1; x++){
         for (y = x0; y < x; y++) {
           if (ed[x].node1 < ed[y].node1){
@@ -205,7 +205,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   E = j;
   unsigned int *degree_proj = calloc(N,sizeof(unsigned int));
   for (i = 0; i < j; i++) {
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0 || i == j-1) {
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0) {
       degree_proj[projected[i].node1]++;
       degree_proj[projected[i].node2]++;
     }
@@ -230,7 +230,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   for (i = 0; i < j; i++) {
     adj->strength[idx[projected[i].node1]] += projected[i].strength;
     adj->strength[idx[projected[i].node2]] += projected[i].strength;
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0){
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0){
       //printf("%d %d %f:\n",projected[i].node1,projected[i].node2,projected[i].strength);
       adj->neighbors[idx[projected[i].node1]] = projected[i].node2;
       adj->neighbors[idx[projected[i].node2]] = projected[i].node1;
-- 
2.43.0


From 82843f3c3994391b4733ba05601fcc15a0be2979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:02 +0000
Subject: [PATCH 16/79] fix: PartitionRolesMetrics starts each participation
 from zero

---
 src/partition.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/partition.c b/src/partition.c
index 62bb743..c6b5b53 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -221,6 +221,7 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
 	  //it is not correct for bipartite network thanks to the
 	  //-epsilon.
 	  double strength = 0;
+	  participation[i] = 0;
 	  for (j=0;j<M;j++){
 		strength += strengthToModule[i+N*j];
 		participation[i] += strengthToModule[i+N*j]*strengthToModule[i+N*j];
-- 
2.43.0


From 5e6cb7fbe35a2e8dbcdb952c169cafe98d4a1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:54 +0000
Subject: [PATCH 17/79] fix: a within-module deviation below rounding error
 gives z-score zero

---
 src/partition.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/partition.c b/src/partition.c
index c6b5b53..db93c30 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -200,10 +200,11 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
   for (j=0; j<M; j++)
 	std[j] = sqrt(std[j]/part->modules[j]->size);
 
-  // Compute the z-score.
+  // Compute the z-score. A deviation within rounding error of the mean
+  // is no deviation.
   for (i=0; i<N; i++){
 	mod = part->nodes[i]->module;
-	if (std[mod])
+	if (std[mod] > 1e-12*mean[mod])
 	  connectivity[i] = (strengthToModule[i+N*mod] - mean[mod]) / std[mod];
 	else
 	  connectivity[i] = 0;
-- 
2.43.0


From 396914b0871e1e1584b28f4d67d84552dd09f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 18/79] fix: AssignNodesToModulesFromFile reads the modules the
 program writes

---
 src/io.c | 72 ++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/io.c b/src/io.c
index 8e0c0c5..a3e5cfa 100644
--- a/src/io.c
+++ b/src/io.c
@@ -244,52 +244,74 @@ ClusteringOutput(FILE *outf,
   }
 }
 
+/**
+Read modules from a file and assign the nodes to them.
+
+Each line lists the labels of the nodes of one module, separated by
+tabulations (as written by ClusteringOutput). Lines starting with "# "
+and empty lines are skipped, as are labels that are unknown or already
+assigned.
+
+@return The number of nodes missing from the file.
+**/
 int
 AssignNodesToModulesFromFile(FILE *inF,
 							 Partition *part,
 							 char **labels){
-  char label[MAX_LABEL_LENGTH];
-  char sep[2];
-  int j = 0, nfields = 0, nnode = part->N;
-  hcreate(part->N);
-  int i;
+  char *line = NULL, *label = NULL;
+  size_t bufsiz = 0;
+  int i, j = 0, nnode = part->N;
+  int *assigned = (int *) calloc(part->N, sizeof(int));
   ENTRY e, *ep;
 
-  for (i=0;i<nnode;i++){
+  if (assigned == NULL)
+	perror("Error while reading the modules");
+
+  hcreate(part->N);
+  for (i=0;i<part->N;i++){
 	e.key = labels[i];
-	e.data = (void *) i;
-	ep = hsearch(e, ENTER);
+	e.data = (void *) (size_t) i;
+	hsearch(e, ENTER);
   }
 
-  while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
+  while (getline(&line, &bufsiz, inF) != -1){
+	if (line[0] == '#' && line[1] == ' ')
+	  continue;
+
+	for (label = strtok(line, "\t\n"); label != NULL; label = strtok(NULL, "\t\n")){
 	  e.key = label;
 	  ep = hsearch(e, FIND);
-	  i = (int) ep->data;
+	  if (ep == NULL){
+		printf("Unknown label in the partition file: %s\n", label);
+		continue;
+	  }
+	  i = (int) (size_t) ep->data;
+	  if (assigned[i] || j >= part->M)
+		continue;
+	  assigned[i] = 1;
 	  nnode--;
 
+	  part->nodes[i]->module = j;
+	  part->nodes[i]->next = NULL;
+	  part->nodes[i]->prev = part->modules[j]->last;
 	  if (!part->modules[j]->size){
 		part->nempty --;
-		part->nodes[i]->module = j;
-		part->modules[j]->size = 1;
-		part->modules[j]->strength = part->nodes[i]->strength;
 		part->modules[j]->first = part->nodes[i];
-		part->modules[j]->last = part->nodes[i];
 	  }
-	  else{
-		part->nodes[i]->module = j;
-		part->modules[j]->size++;
-		part->modules[j]->strength += part->nodes[i]->strength;
+	  else
 		part->modules[j]->last->next = part->nodes[i];
-		part->nodes[i]->prev = part->modules[j]->last;
-		part->modules[j]->last = part->nodes[i];
-	  }
-	  if(sep[0]=='\n')
-		j++;
+	  part->modules[j]->last = part->nodes[i];
+	  part->modules[j]->size++;
+	  part->modules[j]->strength += part->nodes[i]->strength;
 	}
+
+	// The next line fills the next module.
+	if (j < part->M && part->modules[j]->size)
+	  j++;
   }
 
+  free(line);
+  free(assigned);
   CompressPartition(part);
   hdestroy();
   return nnode;
-- 
2.43.0


From 5ee84fab629ecc634f40ccc42b6ef3e28a9f1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 19/79] fix: FReadPartition reads the modules the program
 writes

---
 src/modules.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 393a4b4..0a1673b 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -111,27 +111,30 @@ module, with the names of the nodes separated by tabulations.
  **/
 struct group*
 FReadPartition(FILE *inF){
-  char label[MAX_LABEL_LENGTH];
-  char sep[2];
-  int noReadItems = 0;
-
+  char *line = NULL, *label = NULL;
+  size_t bufsiz = 0;
   struct group *g = NULL;
   struct group *part = NULL;
-  int npart = 0, nfields = 0;
+  int npart = 0;
 
   part = CreateHeaderGroup();
-  g = CreateGroup(part, npart);
 
-  while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
-	  AddNodeToGroupSoft(g, label);
-	  if(sep[0]=='\n'){
-		npart++;
-		g = CreateGroup(part, npart);
+  while (getline(&line, &bufsiz, inF) != -1){
+	if (line[0] == '#' && line[1] == ' ')
+	  continue;
+	g = NULL;
+	for (label = strtok(line, "\t\n"); label != NULL; label = strtok(NULL, "\t\n")){
+	  if (strlen(label) >= MAX_LABEL_LENGTH){
+		printf("Label too long in the partition file: %s\n", label);
+		continue;
 	  }
+	  if (g == NULL)
+		g = CreateGroup(part, npart++);
+	  AddNodeToGroupSoft(g, label);
 	}
   }
+
+  free(line);
   return(part);
 }
 
-- 
2.43.0


From e7e67410b014ae883e077c5ff5f5eb02b11252f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:51 +0000
Subject: [PATCH 20/79] fix: path-length functions handle paths of any length

---
 src/graph.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 4f2a46e..3f7fd61 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1502,7 +1502,7 @@ NodeStrength(struct node_gra *node)
 void
 FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram;
   int a, d, nodes, *size, i, counter, size_ant;
   struct node_gra *p = root;
   struct node_bfs *list, *lp;
@@ -1513,14 +1513,15 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
-    histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
 
   nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0; i < nodes + 2; i++)
+    histogram[i] = 0.0;
 
   p = root;
   while(p->next != NULL){
@@ -1547,7 +1548,7 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 
   // Output the histogram
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0; i < nodes + 2; i++){
     if(histogram[i] != 0.0){
       fprintf(file,"%d %lf\n",i,histogram[i]/(double)(nodes-1));
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
@@ -1559,6 +1560,7 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
   fprintf(file,"#z = %lf\n",histogram[1]);
 
   free_i_mat(max_dis_pairs, CountNodes(root));
+  free_d_vec(histogram);
   free(list);
 }
 
@@ -1571,7 +1573,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
 				struct node_gra *root,
 				int orinode)
 {
-  double histogram[10000];
+  double *histogram;
   int a,d,nodes,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
@@ -1579,14 +1581,15 @@ FPrintDistanceHistogramFromNode(FILE *file,
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
-    histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
 
   nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0; i < nodes + 2; i++)
+    histogram[i] = 0.0;
 
   p = root;
   while(p->next != NULL){
@@ -1614,7 +1617,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
   }
 
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0; i < nodes + 2; i++){
     if(histogram[i] != 0.0){
 /*       fprintf(file,"%d %lf\n",i,histogram[i]); */
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
@@ -1625,6 +1628,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
 /*   fprintf(file,"#Normalization = %lf\n",norm); */
   fprintf(file,"#z = %lf\n",histogram[1]);
 
+  free_d_vec(histogram);
   free(list);
 }
 
@@ -1634,7 +1638,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
 double
 AveragePathLength(struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram;
   int a, d, nodes, *size, i, counter, size_ant;
   struct node_gra *p=root;
   struct node_bfs *list,*lp;
@@ -1642,14 +1646,15 @@ AveragePathLength(struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
-    histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
 
   nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0; i < nodes + 2; i++)
+    histogram[i] = 0.0;
   
   p = root;
   while(p->next != NULL){
@@ -1673,6 +1678,7 @@ AveragePathLength(struct node_gra *root)
     if(*size != nodes){
       printf("Sorry, the network is not connected!\n");
       ClearList(list,size);
+      free_d_vec(histogram);
       free(list);
       return -1;
     }
@@ -1681,12 +1687,13 @@ AveragePathLength(struct node_gra *root)
   }
 
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0; i < nodes + 2; i++){
     if(histogram[i] != 0.0){
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
     }
   }
 
+  free_d_vec(histogram);
   free(list);
 
   return av_dis;
@@ -1699,7 +1706,7 @@ AveragePathLength(struct node_gra *root)
 double
 AverageInverseDistance(struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram;
   int a,d,nodes,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
@@ -1707,14 +1714,15 @@ AverageInverseDistance(struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0; i<10000; i++)
-    histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
 
   nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0; i < nodes + 2; i++)
+    histogram[i] = 0.0;
   
   p = root;
   while(p->next !=  NULL){
@@ -1740,12 +1748,13 @@ AverageInverseDistance(struct node_gra *root)
 
   // Calculate the average inverse distance
   av_dis = norm = 0.0;
-  for(i = 0; i<10000; i++){
+  for(i = 0; i < nodes + 2; i++){
     if(histogram[i] !=  0.0){
       av_dis +=  histogram[i]/(double)( i * (nodes-1) );
     }
   }
 
+  free_d_vec(histogram);
   free(list);
 
   return av_dis;
-- 
2.43.0


From 7b29e9825ad205b65af19d0954485113952e3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:44 +0000
Subject: [PATCH 21/79] fix: extracting the largest component releases its
 working memory

---
 src/graph.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 3f7fd61..b5737be 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2708,7 +2708,10 @@ GetLargestStronglyConnectedSet(struct node_gra *root,
       giant = root_loc;
       if (maxS > nnod/2 || maxS > thres) {
 	ClearList(list, size);
+	free(list);
 	RemoveGraph(root_cop); // WAS COMMENTED OUT?!?!?!?!
+	free_i_vec(selected);
+	free_i_vec(this_net);
 	return giant;
       }
     }
@@ -2849,7 +2852,10 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
       giant = root_loc;
       if(maxS>nnod/2 || maxS>thres ){
 	ClearList(list,size);
-/* 	RemoveGraph(root_cop); */
+	free(list);
+	RemoveGraph(root_cop);
+	free_i_vec(selected);
+	free_i_vec(this_net);
 	return giant;
       }
     }
-- 
2.43.0


From 1a756fefa0b7b0abdd8e8ac7a4b4f4463f191a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:44 +0000
Subject: [PATCH 22/79] fix: GetLargestWeaklyConnectedSet finds every node of a
 component

---
 src/graph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph.c b/src/graph.c
index b5737be..dfb99ec 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2835,6 +2835,8 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
 	  d++;
 	}while(*size != size_ant);
 
+	// The new nodes may be reachable from nodes already examined
+	p3 = p;
       }
     }
 
-- 
2.43.0


From b70100cf4cfcc7af2bec493a2d78599187b0d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:44 +0000
Subject: [PATCH 23/79] fix: GetAllConnectedSets keeps the links within each
 component

---
 src/graph.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index dfb99ec..7b190ed 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2890,7 +2890,7 @@ void ClearAdjacencies(struct node_gra *p,int *net)
         temp=nei->next;
         if(temp->next==NULL)  nei->next=NULL;
         else  nei->next=temp->next;
-        free(temp);
+        FreeNodeLis(temp);
       }else{
         nei=nei->next;
       }
@@ -2918,12 +2918,12 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   int d;
 
   int numComponents=0;
-  int MAX_SIZE_NET=10001;
 
-  selected=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
-  thisNet=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
+  numNodes=CountNodes(network);
+  selected=allocate_i_vec(numNodes);
+  thisNet=allocate_i_vec(numNodes);
 
-  for(i=0;i<MAX_SIZE_NET;i++)
+  for(i=0;i<numNodes;i++)
     selected[i]=0;
 
   network_cop=CopyNetwork(network);
@@ -2931,7 +2931,6 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   res1=0;
   size=&res1;
 
-  numNodes=CountNodes(network);
   //printf("Network has %i nodes\nDetecting connected components\n",numNodes);
   list=CreateHeaderList();
 
@@ -2945,7 +2944,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
     selected[p->num]=1;
 
 
-    for(i=0;i<MAX_SIZE_NET;i++)
+    for(i=0;i<numNodes;i++)
       thisNet[i]=0;
     d=0;
 
@@ -2986,7 +2985,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
       d++;
     }while(*size!=sizeAnt);
 
-    ClearAdjacencies(network_loc,thisNet);
+    CleanAdjacencies(network_loc);
     RewireAdjacencyByLabel(network_loc);
 
     net_list[numComponents]=network_loc;
@@ -2998,6 +2997,8 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
 
   free(list);
   RemoveGraph(network_cop);
+  free_i_vec(selected);
+  free_i_vec(thisNet);
 
   return numComponents;
 
-- 
2.43.0


From 531a1e5f76bb815c7988fbbdcc245e9788431aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:48 +0000
Subject: [PATCH 24/79] fix: node betweenness counts any number of shortest
 paths

---
 src/graph.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 7b190ed..10e12a9 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2279,8 +2279,8 @@ CalculateNodeBetweenness(struct node_gra *net)
   struct stack *S;
   struct queue *Q;
   struct queue **P;
-  int *sigma, *d;
-  double *delta;
+  int *d;
+  double *sigma, *delta;
   int nnod = CountNodes(net);
   int i;
 
@@ -2294,7 +2294,7 @@ CalculateNodeBetweenness(struct node_gra *net)
   while ((s = s->next) != NULL) {
     S = stack_create();
     P = (struct queue **)calloc(nnod, sizeof(struct queue *));
-    sigma = allocate_i_vec(nnod);
+    sigma = allocate_d_vec(nnod);
     d = allocate_i_vec(nnod);
     delta = allocate_d_vec(nnod);
     Q = queue_create();
@@ -2343,7 +2343,7 @@ CalculateNodeBetweenness(struct node_gra *net)
       queue_free(P[i]);
     }
     free(P);
-    free_i_vec(sigma);
+    free_d_vec(sigma);
     free_i_vec(d);
     free_d_vec(delta);
     queue_free(Q);
-- 
2.43.0


From d7d71184dba35087c1a97c74db1e10ca61c0eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:48 +0000
Subject: [PATCH 25/79] fix: link betweenness splits flow by the number of
 shortest paths

---
 src/graph.c | 58 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 10e12a9..fb8e1dc 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2086,8 +2086,8 @@ CalculateLinkBetweenness(struct node_gra *root)
   int a,d,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
-  double *bet_loc;
-  int n_pred;
+  double *bet_loc, *sigma;
+  double share;
   struct pred *ppre;
   int *ocupacio;
   struct node_lis *tar,*temp;
@@ -2095,6 +2095,7 @@ CalculateLinkBetweenness(struct node_gra *root)
 
   ocupacio = allocate_i_vec(nnod);
   bet_loc = allocate_d_vec(nnod);
+  sigma = allocate_d_vec(nnod);
 
   list = CreateHeaderList();
 
@@ -2132,27 +2133,40 @@ CalculateLinkBetweenness(struct node_gra *root)
       d++;
     }while(*size != size_ant);
 
+    //Count the shortest paths from p to each node
+    sigma[p->num] = 1.0;
+    lp = list->next;
+    while((lp = lp->next) != NULL){
+      sigma[(lp->ref)->num] = 0.0;
+      ppre = lp->pred;
+      while(ppre != NULL){
+	sigma[(lp->ref)->num] += sigma[((ppre->ref)->ref)->num];
+	ppre = ppre->next;
+      }
+    }
+
     //Update the betweenness
     for(i = 0;i<nnod;i++){
       bet_loc[i] = (double)ocupacio[i];
     }
     
     lp = list->last;
-    while((n_pred = CountPredecessors(lp)) != 0){
+    while(CountPredecessors(lp) != 0){
       ppre = lp->pred;
       while(ppre != NULL){
-	bet_loc[((ppre->ref)->ref)->num] +=
-	  bet_loc[(lp->ref)->num]/(double)n_pred;
+	share = bet_loc[(lp->ref)->num] *
+	  sigma[((ppre->ref)->ref)->num] / sigma[(lp->ref)->num];
+	bet_loc[((ppre->ref)->ref)->num] += share;
 	
 	tar = ((lp->ref)->neig)->next;
 	while((tar->node) != ((ppre->ref)->ref)->num)
 	  tar = tar->next;
-	tar->btw += bet_loc[(lp->ref)->num]/(double)n_pred;
+	tar->btw += share;
 
 	tar = (((ppre->ref)->ref)->neig)->next;
 	while((tar->node) != (lp->ref)->num)
 	  tar = tar->next;
-	tar->btw += bet_loc[(lp->ref)->num]/(double)n_pred;
+	tar->btw += share;
 
 	ppre = ppre->next;
       }
@@ -2164,6 +2178,7 @@ CalculateLinkBetweenness(struct node_gra *root)
   
   free_i_vec(ocupacio);
   free_d_vec(bet_loc);
+  free_d_vec(sigma);
   free(list);
 }
 
@@ -2177,8 +2192,8 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
   int a,d,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
-  double *bet_loc;
-  int n_pred;
+  double *bet_loc, *sigma;
+  double share;
   struct pred *ppre;
   int *ocupacio;
   struct node_lis *big = NULL;
@@ -2187,6 +2202,7 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
 
   ocupacio = allocate_i_vec(nnod);
   bet_loc = allocate_d_vec(nnod);
+  sigma = allocate_d_vec(nnod);
   list = CreateHeaderList();
 
   for(i = 0;i<nnod;i++){
@@ -2223,22 +2239,35 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
       d++;
     }while(*size !=  size_ant);
 
+    //Count the shortest paths from p to each node
+    sigma[p->num] = 1.0;
+    lp = list->next;
+    while((lp = lp->next) != NULL){
+      sigma[(lp->ref)->num] = 0.0;
+      ppre = lp->pred;
+      while(ppre != NULL){
+	sigma[(lp->ref)->num] += sigma[((ppre->ref)->ref)->num];
+	ppre = ppre->next;
+      }
+    }
+
     //Actualize the betweenness
     for(i = 0;i<nnod;i++){
       bet_loc[i] = (double)ocupacio[i];
     }
     
     lp = list->last;
-    while((n_pred = CountPredecessors(lp)) != 0){
+    while(CountPredecessors(lp) != 0){
       ppre = lp->pred;
       while(ppre != NULL){
-	bet_loc[((ppre->ref)->ref)->num] +=
-	  bet_loc[(lp->ref)->num]/(double)n_pred;
+	share = bet_loc[(lp->ref)->num] *
+	  sigma[((ppre->ref)->ref)->num] / sigma[(lp->ref)->num];
+	bet_loc[((ppre->ref)->ref)->num] += share;
 	
 	tar = ((lp->ref)->neig)->next;
 	while((tar->node) != ((ppre->ref)->ref)->num)
 	  tar = tar->next;
-	tar->btw += bet_loc[(lp->ref)->num]/(double)n_pred;
+	tar->btw += share;
 	if(big ==  NULL || tar->btw > big->btw){
 	  big = tar;
 	  *n2 = (lp->ref)->num;
@@ -2248,7 +2277,7 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
 	tar = (((ppre->ref)->ref)->neig)->next;
 	while((tar->node) != (lp->ref)->num)
 	  tar = tar->next;
-	tar->btw += bet_loc[(lp->ref)->num]/(double)n_pred;
+	tar->btw += share;
 
 	ppre = ppre->next;
       }
@@ -2260,6 +2289,7 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
 
   free_i_vec(ocupacio);
   free_d_vec(bet_loc);
+  free_d_vec(sigma);
   free(list);
 }
 
-- 
2.43.0


From 9373cc63537ed4a4ac0dba9e7baa17f1930ca4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:10 +0000
Subject: [PATCH 26/79] fix: AverageSquaredDegree is not truncated to an
 integer

---
 src/graph.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index fb8e1dc..6862ad4 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1444,7 +1444,8 @@ double
 AverageSquaredDegree(struct node_gra *root)
 {
   struct node_gra *p=root;
-  int k, nnod=0, k2sum=0;
+  int nnod=0;
+  double k, k2sum=0.0;
 
   while ((p = p->next) != NULL) {
     nnod++;
@@ -1452,7 +1453,7 @@ AverageSquaredDegree(struct node_gra *root)
     k2sum += k * k;
   }
 
-  return k2sum / nnod;
+  return k2sum / (double)nnod;
 
 }
 
-- 
2.43.0


From 2111d04d5bee1218a7e56314375bcf99cdad7ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:10 +0000
Subject: [PATCH 27/79] fix: Assortativity sums degrees without overflow

---
 src/graph.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 6862ad4..0765660 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2425,13 +2425,13 @@ Assortativity(struct node_gra *net)
 {
   struct node_gra *p;
   struct node_lis *li;
-  int *deg;
-  int jk,jpk,j2pk2;
-  int M;
+  double *deg;
+  double jk,jpk,j2pk2;
+  double M;
   double r;
 
   // Initialize variables
-  deg = allocate_i_vec(CountNodes(net));
+  deg = allocate_d_vec(CountNodes(net));
   M = 0;
   jk = 0;
   jpk = 0;
@@ -2456,14 +2456,14 @@ Assortativity(struct node_gra *net)
     }
   }
 
-  r = ((double)jk / (double)M - ((double)jpk / (double)(2 * M)) *
-       ((double)jpk / (double)(2 * M))) / 
-    ((double)j2pk2 / (double)(2 * M) -
-     ((double)jpk / (double)(2 * M)) *
-     ((double)jpk / (double)(2 * M)));
+  r = (jk / M - (jpk / (2 * M)) *
+       (jpk / (2 * M))) / 
+    (j2pk2 / (2 * M) -
+     (jpk / (2 * M)) *
+     (jpk / (2 * M)));
 
   // Free memory and return
-  free_i_vec(deg);
+  free_d_vec(deg);
   return r;
 }
 
-- 
2.43.0


From 896c400040a0e31165c2907206f5a9fa3653ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:10 +0000
Subject: [PATCH 28/79] fix: a neighbour's self-link closes no triangle

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 0765660..7497ef1 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1773,7 +1773,7 @@ SumCommonLinks(struct node_gra *node, struct node_gra *root)
 
   p = node->neig;
   while ((p = p->next) != NULL) {
-    if ((p->ref)->state == 1) {
+    if ((p->ref)->state == 1 && p->ref != node) {
       sum++;
     }
   }
-- 
2.43.0


From dceb243d804301d0e49ea510b92aa6f991cca826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:10 +0000
Subject: [PATCH 29/79] fix: square clustering handles nodes without second
 neighbours

---
 src/graph.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 7497ef1..041db61 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1908,7 +1908,6 @@ SquareClustering(struct node_gra *root)
   int C_v;
   int npre;
   int totnodes;
-  int k1b;
 
   C_av = 0.0;
   res_size = 0;
@@ -1927,21 +1926,20 @@ SquareClustering(struct node_gra *root)
     if(*size<totnodes)
       lp = RenewQueue(list,lp,size,0); // First neighbors
     else{ // If the size of the cluster is 1
+      ClearList(list,size);
+      free(list);
       return -1.0;
     }
-    k1b = *size-1;
     if(*size<totnodes){
       lp = RenewQueue(list,lp,size,1); // Second neighbors
 
       k1 = k2 = 0;
       pl = (list->next)->next; // Pointer to the first neighbor
-      while(pl->d<2){
+      while(pl != NULL && pl->d<2){
 	pl = pl->next;
 	k1++;
       }   // count first neighbors and place the pointer at the first
 	  // second neighbor
-      printf("%d %d = %d %d\n",p->num+1,k1,k1b,totnodes);
-    
       C_v = 0;
       while(pl != NULL){
 	k2++;
@@ -1950,7 +1948,7 @@ SquareClustering(struct node_gra *root)
 	pl = pl->next;
       }
 
-      if(k1>1){
+      if(k1>1 && k2>0){
 	C_av += (double)(C_v)/(double)(k2*k1*(k1-1));
       }
       else
@@ -2028,8 +2026,10 @@ OneNodeSquareClustering(struct node_gra *node,
   size = &res_size;
   list = CreateHeaderList();
   
-  if(NodeDegree(node) == 0)
+  if(NodeDegree(node) == 0){
+    free(list);
     return -1;
+  }
 
   ResetNodesState(root);
     
@@ -2060,11 +2060,17 @@ OneNodeSquareClustering(struct node_gra *node,
       pl = pl->next;
     }
 
-    if(k1<= 1)
+    if(k1<= 1){
+      ClearList(list,size);
+      free(list);
       return -2; // only 1 first neighbor!!
+    }
   }
-  else
+  else{
+    ClearList(list,size);
+    free(list);
     return -3; // all nodes are first neighbors!!
+  }
   
   T = (double)C_v/((double)k2*(double)k1*(double)(k1-1));
 
-- 
2.43.0


From 2987b7e21f3eda547a083965c6906dc47f3e79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:59 +0000
Subject: [PATCH 30/79] fix: RandomizeSymmetricNetwork only switches the links
 it has listed

---
 src/graph.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 041db61..7808602 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1334,8 +1334,10 @@ RandomizeSymmetricNetwork(struct node_gra *net,
       }
     }
   }
-  if(coun !=  nlink)
-    fprintf(stderr, "Error in RandomizeNetwork: coun != nlink!!\n");
+  /* Self-links stay where they are, and a switch needs two links */
+  nlink = coun;
+  if (nlink < 2)
+    niter = 0;
 
   /* Randomize the links */
   for (i=0; i<niter; i++) {
-- 
2.43.0


From 5a996c380080c23e8207a02aaa4bea665d4bb8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:59 +0000
Subject: [PATCH 31/79] fix: switched bipartite links keep weighing one

---
 src/bipartite.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 3060b46..332ad3f 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -683,6 +683,8 @@ RandomizeBipart(struct binet *binet, double times, gsl_rng *gen)
 
   if (coun !=  nlink)
     fprintf(stderr, "Error in RandomizeBipart: coun !=  nlink!!\n");
+  if (nlink < 2)
+    niter = 0; /* a switch needs two links */
 
   /* Randomize the network */
   for (i=0; i<niter; i++) {
@@ -705,10 +707,10 @@ RandomizeBipart(struct binet *binet, double times, gsl_rng *gen)
     /* switch the link */
     RemoveLink(n1, n2, 1);
     RemoveLink(n3, n4, 1);
-    AddAdjacency(n1, n4, 0, 0, 0, 1);
-    AddAdjacency(n4, n1, 0, 0, 0, 1);
-    AddAdjacency(n3, n2, 0, 0, 0, 1);
-    AddAdjacency(n2, n3, 0, 0, 0, 1);
+    AddAdjacency(n1, n4, 0, 0, 1., 1);
+    AddAdjacency(n4, n1, 0, 0, 1., 1);
+    AddAdjacency(n3, n2, 0, 0, 1., 1);
+    AddAdjacency(n2, n3, 0, 0, 1., 1);
 
     ori[target1] = n1;
     des[target1] = n4;
-- 
2.43.0


From dd0e3b8c3d0d05c33620bb012f814d2256e0d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:12 +0000
Subject: [PATCH 32/79] fix: the within-module strength z-score survives
 rounding

---
 src/modules.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 0a1673b..cbbe97e 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1970,7 +1970,7 @@ WithinModuleRelativeStrength(struct node_gra *node, struct group *part)
   struct group *group=NULL;
 
   double inStrength;
-  double kmean = 0.0, k2mean = 0.0, kstd = 0.0;
+  double kmean = 0.0, kvar = 0.0, kstd = 0.0;
 
   // Find the group of the node
   group = part;
@@ -1980,17 +1980,20 @@ WithinModuleRelativeStrength(struct node_gra *node, struct group *part)
   // Go through all the nodes in the group and calculate mean and
   // standard deviation of the within-module strength
   p = group->nodeList;
+  while ((p = p->next) != NULL)
+    kmean += StrengthToGroup(p->ref, group);
+  kmean /= (double)(group->size);
+  p = group->nodeList;
   while ((p = p->next) != NULL) {
     inStrength = StrengthToGroup(p->ref, group);
-    kmean += (double)inStrength;
-    k2mean += (double)inStrength * (double)inStrength;
+    kvar += (inStrength - kmean) * (inStrength - kmean);
   }
-  kmean /= (double)(group->size);
-  k2mean /= (double)(group->size);
-  kstd = sqrt(k2mean - kmean * kmean);
+  kvar /= (double)(group->size);
+  kstd = sqrt(kvar);
 
-  // Calculate the z-score
-  if (kstd == 0.0)
+  // Calculate the z-score. A deviation within rounding error of the
+  // mean is no deviation.
+  if (kstd <= 1e-12 * kmean)
     z = 0.0;
   else
     z = ((double)StrengthToGroup(node, group) - kmean) / kstd;
-- 
2.43.0


From ce64737457e445958ff3b58b4d61c681d186345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:12 +0000
Subject: [PATCH 33/79] fix: the table of bipartite roles goes to the file
 asked for

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 332ad3f..f1237e2 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -996,7 +996,7 @@ FPrintTabNodesBipart(FILE *outf, struct binet *network,  struct group *modules,
 		z = WithinModuleRelativeStrength(n->ref, g);
 		role = GetRole(P,z) + 1;
 	  }
-	  printf ("%-20s\t%d\tR%d\t%f\t%f\n",
+	  fprintf (outf, "%-20s\t%d\tR%d\t%f\t%f\n",
 			  n->nodeLabel,
 			  group_nb,
 			  role,
-- 
2.43.0


From 3a1513821983c7e97eb2e6cac5e4efa7bb87e6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:40 +0000
Subject: [PATCH 34/79] fix: CorrectlyClassified divides by the number of nodes
 once

---
 src/modules.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index cbbe97e..f7b966f 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1760,7 +1760,6 @@ CorrectlyClassified(struct group *refpart, struct group *actpart)
   /* Count correctly classified nodes */
   g2 = actpart;
   while ((g2 = g2->next) != NULL) {
-    nnod += g2->size;
     if (map[g2->label] > -1){
       p = g2->nodeList;
       while ((p = p->next) != NULL) {
-- 
2.43.0


From 377423b3a659d5541eb517056adcc03e80840ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:43 +0000
Subject: [PATCH 35/79] verif: a guarded hook shows each temperature's final
 state

---
 src/sannealing.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sannealing.c b/src/sannealing.c
index 8ed7d9d..bffedd2 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -23,6 +23,11 @@
 
 #define EPSILON_MOD 1.e-6
 
+#ifdef RGRAPH_VERIF
+/* Given each state in which a temperature ends (verification only). */
+void rgraph_verif_sa_sweep(Partition *part, double E);
+#endif
+
 /**
 Modularity optimisation using simulated annealing.
 
@@ -187,6 +192,10 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 	  } // End of unless there is no empty group (=End of split).
 	} //End of collective movements
 
+#ifdef RGRAPH_VERIF
+	rgraph_verif_sa_sweep(part, E);
+#endif
+
 	//// BREAK THE LOOP IF NO CHANGES... ////
 	if ( (fabs(E - previousE) / fabs(previousE) < EPSILON_MOD)
 		 || (fabs(previousE) < EPSILON_MOD) )
-- 
2.43.0


From 5403a65c8bae026074d7457abd1defd672ccb367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:11 +0000
Subject: [PATCH 36/79] fix: GeneralSA returns the best partition it has seen

---
 src/sannealing.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/sannealing.c b/src/sannealing.c
index bffedd2..700866b 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -55,12 +55,16 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   unsigned int target, oldg, newg, i, g1, g2, j, empty, ncomponent, err;
   double T = Ti;
   unsigned int nochange_count=0;
+  int improved;
 
-  double dE=0.0, E=0.0, previousE=0.0, best_E=-1.0/0.0;  //initial best is -infinity.
+  double dE=0.0, E=0.0, previousE=0.0, best_E=0.0;
   info ("#Simulated annealing:\n");
   explain ("#Ti: %f Tf: %f c: %f fac: %f\n",Ti,Tf,Ts,fac);
   explain ("#nochang_limit: %d, proba_components: %f \n",nochange_limit, proba_components);
 
+  // The best partition so far is the initial one.
+  best_part = CopyPartitionStruct(part);
+
   // Get the number of individual and collective movements.
   if (fac * (double)(part->N * part->N) < 10)
 	individual_movements = 10;
@@ -196,6 +200,16 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 	rgraph_verif_sa_sweep(part, E);
 #endif
 
+	// Compare the current partition to the best partition so far and
+	// update it if needed.
+	improved = E > best_E;
+	if (improved) {
+	  info ("# Saving a new best partition (%e)\n",E);
+	  FreePartition(best_part);
+	  best_part = CopyPartitionStruct(part);
+	  best_E = E;
+	}
+
 	//// BREAK THE LOOP IF NO CHANGES... ////
 	if ( (fabs(E - previousE) / fabs(previousE) < EPSILON_MOD)
 		 || (fabs(previousE) < EPSILON_MOD) )
@@ -216,14 +230,7 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 		  part = CopyPartitionStruct(best_part);
 		}
 	  }
-	// Compare the current partition to the best partition so far and
-	// update it if needed.
-	else if ( E > best_E) {
-	  info ("# Saving a new best partition (%e)\n",E);
-	  if (best_part!=NULL)
-		FreePartition(best_part);
-	  best_part = CopyPartitionStruct(part);
-	  best_E = E;
+	else if (improved) {
 	  nochange_count = 0;
 	}
    	// update the previous energy level.
-- 
2.43.0


From 59f50ec2da91f231acdaefa876926085fac6fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:11 +0000
Subject: [PATCH 37/79] fix: GeneralSA returns at once when there is nothing to
 optimise

---
 src/sannealing.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sannealing.c b/src/sannealing.c
index 700866b..bf3b619 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -62,6 +62,10 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   explain ("#Ti: %f Tf: %f c: %f fac: %f\n",Ti,Tf,Ts,fac);
   explain ("#nochang_limit: %d, proba_components: %f \n",nochange_limit, proba_components);
 
+  // With a single node or module there is nothing to optimise.
+  if (part->N < 2 || part->M < 2)
+	return(0);
+
   // The best partition so far is the initial one.
   best_part = CopyPartitionStruct(part);
 
-- 
2.43.0


From 2bfbaa7981428173023518ff4edc622aca784d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 38/79] fix: GeneralSA does not look for a module to split when
 all nodes are alone

---
 src/sannealing.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sannealing.c b/src/sannealing.c
index bf3b619..4ef8237 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -130,7 +130,8 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 	  }// End unless all nodes are together (End of merge).
 
 	   //// SPLITS ////
-	  if (part->nempty) { //unless there is no empty groups.
+	  // unless there is no empty group, or all nodes are alone.
+	  if (part->nempty && part->M - part->nempty < part->N) {
 		// Select the first empty group;
 		for (j=0;j<part->M;j++){
 		  if(!part->modules[j]->size){
-- 
2.43.0


From ef1f0a873894b198198a01ab0dde3c868b083b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:06 +0000
Subject: [PATCH 39/79] fix: LinkScoreMCStep does not use uninitialised link
 counts

---
 src/missing.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 38cfa02..1cdbc54 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -185,6 +185,9 @@ LinkScoreMCStep(int factor,
     if (g->size > 0)
       slg[slgsize++] = g->label;
 
+  for (i=0; i<nnod; i++)  // No links to groups not in the shortlist
+    n2gList[i] = 0;
+
   /* Steps */
   for (move=0; move<nnod*factor; move++) {
 
-- 
2.43.0


From 7640fbb11a218e7bb2ac98d27bc6f710cce05cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:06 +0000
Subject: [PATCH 40/79] fix: Gibbs link score steps with all nodes in one group

---
 src/missing.c        | 12 ++++++++++++
 src/multiblock.c     | 24 ++++++++++++++++++++++++
 src/only_deg.c       | 12 ++++++++++++
 src/sparse_missing.c | 12 ++++++++++++
 4 files changed, 60 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 1cdbc54..2747626 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2056,6 +2056,18 @@ GibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Data that do not depend on the destination group */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/multiblock.c b/src/multiblock.c
index ee89278..113f341 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1356,6 +1356,18 @@ GibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Data that do not depend on the destination group */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
@@ -1992,6 +2004,18 @@ ORGibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Data that do not depend on the destination group */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/only_deg.c b/src/only_deg.c
index d271ea3..3a925e3 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -719,6 +719,18 @@ GibbsLinkScoreStepMB_OD(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Data that do not depend on the destination group */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index bde304a..8a9ee08 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -123,6 +123,18 @@ SparseGibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Data that do not depend on the destination group */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
-- 
2.43.0


From fbeb540d8c9f9d541904e3ae99dd8e884d6b0c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:07 +0000
Subject: [PATCH 41/79] fix: Gibbs link score steps choose a group of the
 shortlist

---
 src/missing.c        | 4 ++--
 src/multiblock.c     | 8 ++++----
 src/only_deg.c       | 4 ++--
 src/sparse_missing.c | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 2747626..2932662 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2293,9 +2293,9 @@ GibbsLinkScoreStep(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/multiblock.c b/src/multiblock.c
index 113f341..a763dd4 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1608,9 +1608,9 @@ GibbsLinkScoreStepMB(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
@@ -2256,9 +2256,9 @@ ORGibbsLinkScoreStepMB(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/only_deg.c b/src/only_deg.c
index 3a925e3..8010492 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -971,9 +971,9 @@ GibbsLinkScoreStepMB_OD(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index 8a9ee08..d7f022d 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -314,9 +314,9 @@ SparseGibbsLinkScoreStep(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
-- 
2.43.0


From 1390b04748f7e958c7948a553c967e5ebc03aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 42/79] fix: GibbsStepKState chooses a group of the shortlist

---
 src/recommend.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/recommend.c b/src/recommend.c
index cc5e06a..4a7a1da 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -2119,8 +2119,9 @@ GibbsStepKState(int K,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice)
+      do {
 	cum += exp(-dH[slg[target++]]);
+      } while (cum < dice && target < (*slgsize));
       newgnum = slg[target - 1];
       newg = (*glistnode)[newgnum];
     }
-- 
2.43.0


From 8b505ce80cc9f6d73d4d1356e17e0a41aaa9d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 43/79] fix: MCStep2State and MCStepKState end when each set
 has one node

---
 src/recommend.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/recommend.c b/src/recommend.c
index 4a7a1da..a871589 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -300,6 +300,10 @@ MCStep2State(int factor,
   int j; 
   int move_in;
 
+  /* With one node in each set there are no moves */
+  if (nnod1 < 2 && nnod2 < 2)
+    return;
+
   /* Ratio of moves in each of the sets */
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
@@ -1143,6 +1147,10 @@ MCStepKState(int K,
   int move_in;
   int k;
 
+  /* With one node in each set there are no moves */
+  if (nnod1 < 2 && nnod2 < 2)
+    return;
+
   /* Ratio of moves in each of the sets */
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
-- 
2.43.0


From 217b4371f1384674f9c33ce953b05f37ac678f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 44/79] fix: CountLinesInFile counts long lines once

---
 src/tools.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 4b05dc3..8eba1e1 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -608,12 +608,16 @@ FreeHarmonicList(double *HarmonicList)
 int
 CountLinesInFile(char *inFileName)
 {
-  char line[1000];
-  int n=0;
+  int c, last='\n', n=0;
   FILE *inFile;
 
   inFile = fopen(inFileName, "r");
-  while (fgets(line, 1000, inFile))
+  while ((c = fgetc(inFile)) != EOF) {
+    if (c == '\n')
+      n++;
+    last = c;
+  }
+  if (last != '\n') /* the last line does not end in a newline */
     n++;
   fclose(inFile);
 
-- 
2.43.0


From 0c733fead383d14dfeb62a47468fb3027d697d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 45/79] fix: PAGraph gives every new node its m links

---
 src/models.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models.c b/src/models.c
index c947bb6..9cda97b 100644
--- a/src/models.c
+++ b/src/models.c
@@ -117,7 +117,8 @@ PAGraph(int S, int m, gsl_rng *gen)
 	/* preferential attachment */
 	node2 = paList[(int)(gsl_rng_uniform(gen) * norm)];
       }
-      while (IsThereLink(nodeList[node1], nodeList[node2]) == 1);
+      while (node2 == node1 ||
+	     IsThereLink(nodeList[node1], nodeList[node2]) == 1);
       AddAdjacency(nodeList[node1], nodeList[node2], 0, 0, 0, 0);
       AddAdjacency(nodeList[node2], nodeList[node1], 0, 0, 0, 0);
       paList[norm++]=node1;
-- 
2.43.0


From fe49cf683586358b713ab9739aee9d0d86d66543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 46/79] fix: BuildModularBipartiteNetwork always chooses a team
 colour

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index f1237e2..c1dc688 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -229,7 +229,7 @@ BuildModularBipartiteNetwork(int *modSizes,
       dice = gsl_rng_uniform(gen);
       cum = 0.0;
       teamcol = -1;
-      while (cum < dice) {
+      while (cum <= dice && teamcol < nmod - 1) {
 	teamcol++;
 	cum += col_prob[teamcol];
       }
-- 
2.43.0


From 0c8a3787db2a55c102e5fc0c1283e909569b85e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 47/79] fix: AddRandomLinks adds single arcs to directed
 networks

---
 src/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 7808602..2e4309e 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1017,7 +1017,8 @@ AddRandomLinks(struct node_gra *net,
       n2 = gsl_rng_uniform_int(gen, nnod);
     } while ((n1 == n2) || IsThereLink(nlist[n1], nlist[n2]) == 1);
     AddAdjacency(nlist[n1], nlist[n2], 0, 0, 1.0, 0);
-    AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
+    if (symmetric_sw != 0)
+      AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
   }
 
   /* Done */
-- 
2.43.0


From d1d3c91b0e547def619bbe573c51b4272bffb8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 48/79] fix: RemoveRandomLinks counts self-links

---
 src/graph.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 2e4309e..b5a7da9 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -944,11 +944,18 @@ RemoveRandomLinks(struct node_gra *net,
 {
   struct node_gra *p=net;
   struct node_lis *n=NULL;
-  int *targetList, i, totalLinks, linkCounter=0;
+  int *targetList, i, totalLinks=0, linkCounter=0;
   int n1;
 
-  /* Create the list with the links to be removed */
-  totalLinks = TotalNLinks(net, symmetric_sw);
+  /* Create the list with the links to be removed (each link counted as
+     in the removal loop below, so that self-links count once) */
+  while ((p = p->next) != NULL) {
+    n = p->neig;
+    while ((n = n->next) != NULL)
+      if ((p->num <= (n->ref)->num) || (symmetric_sw == 0))
+	totalLinks++;
+  }
+  p = net;
   targetList = allocate_i_vec(totalLinks);
   for (i=0; i<totalLinks; i++) {
     targetList[i] = 0;
-- 
2.43.0


From d8cedae4f59a20204b314a8b909136eccbbf637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 49/79] fix: network readers report labels that do not fit

---
 src/bipartite.c |  6 ++++++
 src/graph.c     |  6 ++++++
 src/io.c        |  7 +++++++
 src/tools.c     | 52 +++++++++++++++++++++++++++++++++++++++++++++++++
 src/tools.h     |  3 +++
 5 files changed, 74 insertions(+)

diff --git a/src/bipartite.c b/src/bipartite.c
index c1dc688..343a028 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -72,6 +72,12 @@ FBuildNetworkBipart(FILE *inFile,
 
   
   while ((nbytes = getline(&line, &bufsiz, inFile)) != -1){
+    /* The labels have to fit */
+    if (LongestField(line, 2) >= MAX_LABEL_LENGTH) {
+      printf ("Failed to read input: label too long in line %s. \n", line);
+      return NULL;
+    }
+
     /* Read the labels (and weight, if necessary) */
     if (weight_sw == 0) {
       noReadItems = sscanf(line, "%s %s", label1, label2);
diff --git a/src/graph.c b/src/graph.c
index b5a7da9..c8bc76f 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -553,6 +553,12 @@ FBuildNetwork(FILE *inFile,
   
   // Go through the input file
   while ((nbytes = getline(&line, &bufsiz, inFile)) != -1){
+    /* The labels have to fit */
+    if (LongestField(line, 2) >= MAX_LABEL_LENGTH) {
+      printf ("Failed to read input: label too long in line %s. \n", line);
+      return NULL;
+    }
+
     /* Read the labels (and weight, if necessary) */
     if (weight_sw == 0) {
       noReadItems = sscanf(line, "%s %s", label1, label2);
diff --git a/src/io.c b/src/io.c
index a3e5cfa..a7d1b8c 100644
--- a/src/io.c
+++ b/src/io.c
@@ -5,6 +5,7 @@
 #include <string.h>
 
 #include <gsl/gsl_rng.h>
+#include "tools.h"
 #include "partition.h"
 #include "io.h"
 
@@ -96,6 +97,12 @@ EdgeListFileInput(FILE *inFile, int weighted, int bipartite, unsigned int **node
     struct node *temp = NULL;
 
 
+    /* The labels have to fit */
+    if (LongestField(line, 2) >= MAX_LABEL_LENGTH) {
+      printf ("Failed to read input: label too long in line %s. \n", line);
+      return 1;
+    }
+
     /* Read the labels (and edge weight, if necessary) */
     if (weighted == 0) {
       noReadItems = sscanf(line, "%s %s", node1->label, node2->label);
diff --git a/src/tools.c b/src/tools.c
index 8eba1e1..5f27f8b 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -7,6 +7,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <math.h>
+#include <ctype.h>
 #include <string.h> 
 #include <gsl/gsl_rng.h>
 #include <gsl/gsl_sf_gamma.h>
@@ -623,3 +624,54 @@ CountLinesInFile(char *inFileName)
 
   return n;
 }
+
+/*
+  -----------------------------------------------------------------------------
+  Length of the longest of the first nfields (blank separated) fields
+  of a line
+  -----------------------------------------------------------------------------
+*/
+int
+LongestField(char *line, int nfields)
+{
+  int longest=0, n;
+
+  for (; nfields>0; nfields--) {
+    while (isspace((unsigned char)*line))
+      line++;
+    for (n=0; *line!='\0' && !isspace((unsigned char)*line); line++)
+      n++;
+    if (n > longest)
+      longest = n;
+  }
+
+  return longest;
+}
+
+/*
+  -----------------------------------------------------------------------------
+  Read the next (blank separated) field of a file, and the blanks that
+  follow it, into a string of the given size. Returns 1 if a field has
+  been read, and 0 if there is none or it does not fit.
+  -----------------------------------------------------------------------------
+*/
+int
+ReadField(FILE *inFile, char *field, int size)
+{
+  int c, n=0, fits=1;
+
+  while ((c = fgetc(inFile)) != EOF && isspace(c));
+  for (; c!=EOF && !isspace(c); c=fgetc(inFile)) {
+    if (n < size - 1)
+      field[n++] = c;
+    else
+      fits = 0;
+  }
+  while (c != EOF && isspace(c))
+    c = fgetc(inFile);
+  if (c != EOF)
+    ungetc(c, inFile);
+  field[n] = '\0';
+
+  return n > 0 && fits;
+}
diff --git a/src/tools.h b/src/tools.h
index 4ae61d6..6c9968a 100644
--- a/src/tools.h
+++ b/src/tools.h
@@ -7,6 +7,7 @@
 #ifndef RGRAPH_TOOLS_H
 #define RGRAPH_TOOLS_H 1
 
+#include <stdio.h>
 #include <gsl/gsl_rng.h>
 
 /*
@@ -78,5 +79,7 @@ void FreeHarmonicList(double *HarmonicList);
   ---------------------------------------------------------------------
 */
 int CountLinesInFile(char *inFileName);
+int LongestField(char *line, int nfields);
+int ReadField(FILE *inFile, char *field, int size);
 
 #endif /* !RGRAPH_TOOLS_H */
-- 
2.43.0


From e398c4196b7ed7a28b3b4b932c99b1b2e601b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 50/79] fix: FCreatePartition ends on files without a final
 separator

---
 src/modules.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index f7b966f..6ef0e69 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -160,16 +160,14 @@ FCreatePartition(FILE *inF)
   while (!feof(inF)) {
     g = CreateGroup(part, npart);
     npart++;
-    noReadItems = fscanf(inF, "%s\n", &label[0]);
-	if (noReadItems != 1)
-	  printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
-
-    while (strcmp(label, separator) != 0) {
+    noReadItems = ReadField(inF, &label[0], MAX_LABEL_LENGTH);
+    while (noReadItems == 1 && strcmp(label, separator) != 0) {
       AddNodeToGroupSoft(g, label);
-      noReadItems = fscanf(inF, "%s\n", &label[0]);
-	  if (noReadItems != 1)
-		printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
-
+      noReadItems = ReadField(inF, &label[0], MAX_LABEL_LENGTH);
+    }
+    if (noReadItems != 1) {
+      printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
+      break;
     }
   }
 
-- 
2.43.0


From b65448d7ffa94e98242ca6d737c613a4747302e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 51/79] fix: ReadQueries reports missing and too long labels

---
 recommender/main_multi_recommend_2.c       |  2 ++
 recommender/main_multi_recommend_k.c       |  2 ++
 recommender/main_multi_recommend_k_gibbs.c |  2 ++
 src/recommend.c                            | 12 ++++++++++--
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index 4c702a7..e78aa20 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -53,6 +53,8 @@ main(int argc, char **argv)
   infile = fopen(queFile, "r");
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
+  if (queries == NULL)
+    return -1;
 
   /* Get the scores of the queries and print them */
 /*   scores = MultiLinkScore2State(ratings, */
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index bd5f603..cd914cb 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -55,6 +55,8 @@ main(int argc, char **argv)
   infile = fopen(queFile, "r");
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
+  if (queries == NULL)
+    return -1;
 
   /* Get the scores of the queries and print them */
   scores = MultiLinkScoreKState(K, ratings,
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index ab54b04..aeda3df 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -55,6 +55,8 @@ main(int argc, char **argv)
   infile = fopen(queFile, "r");
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
+  if (queries == NULL)
+    return -1;
 
   /* Get the scores of the queries and print them */
   scores = GibbsMultiLinkScoreKState(K, ratings,
diff --git a/src/recommend.c b/src/recommend.c
index a871589..462d861 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -164,7 +164,6 @@ ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
   struct query *q=NULL;
   int nq;
   struct node_gra *n1=NULL, *n2=NULL;
-  int dummy;
 
   /* Create the search dictionaries */
   dict1 = MakeLabelDict(binet->net1);
@@ -175,7 +174,16 @@ ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
 
   /* Go through the file and create the queries */
   for (nq=0; nq<nQueries; nq++) {
-    dummy = fscanf(inFile, "%s %s\n", &node1[0], &node2[0]);
+    if (ReadField(inFile, &node1[0], MAX_LABEL_LENGTH) != 1 ||
+	ReadField(inFile, &node2[0], MAX_LABEL_LENGTH) != 1) {
+      fprintf(stderr, "Failed to read query %d\n", nq + 1);
+      while (nq > 0)
+	FreeQuery(querySet[--nq]);
+      free(querySet);
+      FreeLabelDict(dict1);
+      FreeLabelDict(dict2);
+      return NULL;
+    }
     n1 = GetNodeDict(node1, dict1);
     /* add to binet if absent */
     if (n1 == NULL) {
-- 
2.43.0


From 35ef414f9c32dec3a06275a8a193a072da399aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 52/79] fix: harmonic tables large enough for a group of all
 nodes

---
 src/multiblock.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multiblock.c b/src/multiblock.c
index a763dd4..2cf4b2e 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -481,7 +481,7 @@ LinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_AND = allocate_d_mat(nnod, nnod);
@@ -1111,7 +1111,7 @@ ORLinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_OR = allocate_d_mat(nnod, nnod);
@@ -1763,7 +1763,7 @@ GibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
@@ -2411,7 +2411,7 @@ ORGibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
-- 
2.43.0


From 4f452a3686b6661e9bedfd87548d8bcd5b003cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 53/79] fix: NetworkScore and PartitionSampling free their
 table of factorials

---
 src/missing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 2932662..ff64468 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1033,6 +1033,7 @@ NetworkScore(struct node_gra *netTar,
   free_i_mat(G2G, nnod);
   free_i_vec(n2gList);
   FreeFastLogChoose(LogChooseList, LogChooseListSize);
+  FreeFastLogFact(LogFactList);
   
   return scoreTar / scoreObs;
 }
@@ -1284,6 +1285,7 @@ PartitionSampling(struct node_gra *net,
   free_i_mat(G2G, nnod);
   free_i_vec(n2gList);
   FreeFastLogChoose(LogChooseList, LogChooseListSize);
+  FreeFastLogFact(LogFactList);
   
   return partList;
 }
-- 
2.43.0


From 03bcaa742208f07b0f1c52585dc84351ab3aa72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 54/79] fix: recommenders' thermalization ends when the energy
 is constant

---
 src/missing.c   | 3 ++-
 src/recommend.c | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index ff64468..fee00b0 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1686,7 +1686,8 @@ LSThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
diff --git a/src/recommend.c b/src/recommend.c
index 462d861..20e842b 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -710,7 +710,8 @@ ThermalizeMC2State(int decorStep,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -1546,7 +1547,8 @@ ThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -2229,7 +2231,8 @@ GibbsThermalizeKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
-- 
2.43.0


From fda2c46f1cd433a7742e393181a9d99a0fc53ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 55/79] fix: NetReconstruct with no link to add or to remove

---
 src/missing.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index fee00b0..1d06939 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1082,6 +1082,7 @@ NetReconstruct(struct node_gra *netObs,
 	 score */
       maxLinkScore = 0.0;
       minLinkScore = 1.0;
+      n1Add = n2Add = n1Remove = n2Remove = NULL;
       for (n1=0; n1<nnod; n1++) {
 	for (n2=n1+1; n2<nnod; n2++) {
 	  if ((linkScores[n1][n2] > maxLinkScore) &&
@@ -1099,6 +1100,10 @@ NetReconstruct(struct node_gra *netObs,
 	}
       }
 
+      /* Networks without or with all links cannot be changed */
+      if (n1Add == NULL || n1Remove == NULL)
+	break;
+
       /* Add and remove links */
       AddAdjacency(n1Add, n2Add, 0, 0, 1.0, 2);
       AddAdjacency(n2Add, n1Add, 0, 0, 1.0, 2);
-- 
2.43.0


From b928bf3d9dc7605262a263208717f6138750d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 56/79] fix: NetReconstruct frees its link scores and node list

---
 src/missing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 1d06939..6515294 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1126,8 +1126,10 @@ NetReconstruct(struct node_gra *netObs,
 	RemoveLink(n1Add, n2Add, 1);
       }
     } while(someRejected < thresReject);
+    free_d_mat(linkScores, nnod);
   } while (someChanged == 1);
 
+  free(nlist);
   return net;
 }
 
-- 
2.43.0


From e5d7a8d5f443943d80992b4742d17bd1b5f06e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:50 +0000
Subject: [PATCH 57/79] fix: link betweenness of networks with one-way links

---
 src/graph.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index c8bc76f..0a21b48 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2181,10 +2181,12 @@ CalculateLinkBetweenness(struct node_gra *root)
 	  sigma[((ppre->ref)->ref)->num] / sigma[(lp->ref)->num];
 	bet_loc[((ppre->ref)->ref)->num] += share;
 	
+	// The link back only exists if the network is undirected.
 	tar = ((lp->ref)->neig)->next;
-	while((tar->node) != ((ppre->ref)->ref)->num)
+	while(tar != NULL && (tar->node) != ((ppre->ref)->ref)->num)
 	  tar = tar->next;
-	tar->btw += share;
+	if(tar != NULL)
+	  tar->btw += share;
 
 	tar = (((ppre->ref)->ref)->neig)->next;
 	while((tar->node) != (lp->ref)->num)
@@ -2245,7 +2247,6 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
     }
   }
   
-  big = ((root->next)->neig)->next;
   p = root;
   while(p->next != NULL){
     counter++;
@@ -2287,20 +2288,28 @@ CalculateBiggestLinkBetweenness(struct node_gra *root,int *n1,int *n2)
 	  sigma[((ppre->ref)->ref)->num] / sigma[(lp->ref)->num];
 	bet_loc[((ppre->ref)->ref)->num] += share;
 	
+	// The link back only exists if the network is undirected.
 	tar = ((lp->ref)->neig)->next;
-	while((tar->node) != ((ppre->ref)->ref)->num)
+	while(tar != NULL && (tar->node) != ((ppre->ref)->ref)->num)
 	  tar = tar->next;
-	tar->btw += share;
-	if(big ==  NULL || tar->btw > big->btw){
-	  big = tar;
-	  *n2 = (lp->ref)->num;
-	  *n1 = ((ppre->ref)->ref)->num;
+	if(tar != NULL){
+	  tar->btw += share;
+	  if(big ==  NULL || tar->btw > big->btw){
+	    big = tar;
+	    *n2 = (lp->ref)->num;
+	    *n1 = ((ppre->ref)->ref)->num;
+	  }
 	}
 
 	tar = (((ppre->ref)->ref)->neig)->next;
 	while((tar->node) != (lp->ref)->num)
 	  tar = tar->next;
 	tar->btw += share;
+	if(big ==  NULL || tar->btw > big->btw){
+	  big = tar;
+	  *n2 = (lp->ref)->num;
+	  *n1 = ((ppre->ref)->ref)->num;
+	}
 
 	ppre = ppre->next;
       }
-- 
2.43.0


From ce9e9f56748349d0aeef6262b8b5ee2d2fd12c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:34 +0000
Subject: [PATCH 58/79] fix: declare the list-based module search in modules.h

---
 src/modules.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/modules.h b/src/modules.h
index ed30750..7c25a2c 100644
--- a/src/modules.h
+++ b/src/modules.h
@@ -156,6 +156,18 @@ double CorrectlyClassified(struct group *refpart,
 */
 double Modularity(struct group *part);
 double ModularityWeight(struct group *part);
+struct group *SAGroupSplit(struct group *targ,
+			   double Ti, double Tf, double Ts,
+			   int cluster_sw,
+			   gsl_rng *gen);
+struct group *SACommunityIdent(struct node_gra *net,
+			       double Ti, double Tf, double Ts,
+			       double fac,
+			       int ngroup,
+			       char initial_sw,
+			       int collective_sw,
+			       char output_sw,
+			       gsl_rng *gen);
 
 /*
   ---------------------------------------------------------------------
-- 
2.43.0


From a3269e8713ae3a87068f1fac3e4b0489e502bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:52 +0000
Subject: [PATCH 59/79] fix: return the best partition found by the list-based
 module search

---
 src/modules.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 6ef0e69..4d2181b 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2623,8 +2623,19 @@ SACommunityIdent(struct node_gra *net,
     
   } /*  End of simulated annealing */
  
+  /* If the search stopped (low temperature) with a partition that is
+     not the best one so far, return the best one */
+  if (best_part != NULL) {
+    if (energy + EPSILON_MOD < best_E) {
+      RemovePartition(part);
+      part = best_part;
+      MapPartToNet(part, net);
+    }
+    else
+      RemovePartition(best_part);
+  }
+
   /* Free memory */
-  RemovePartition(best_part);
   FreeLabelDict(nodeDict);
   free(glist);
   free(nlist);
-- 
2.43.0


From 112068b917866132284e6132c42ab4a1af359cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:09 +0000
Subject: [PATCH 60/79] fix: stop netcarto when the network cannot be read

---
 netcarto/main_netcarto.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index ddc2a7e..921f0c4 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -169,6 +169,10 @@ main(int argc, char **argv)
 	err = EdgeListFileInput(inF, weighted, bipartite+invert,
 								 &nodes1, &nodes2, &weights, &labels,
 								 &E, &N);
+	if (err){
+		printf("ERROR: Cannot read the network. \n");
+		return(1);
+	}
 	if (Ngroups==0) Ngroups=N;
 
 	if (!bipartite){
-- 
2.43.0


From 8135ad24262ac34f7c84d30a1d8aa875a984ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:47 +0000
Subject: [PATCH 61/79] fix: read the file name into a buffer in
 netcarto-legacy

---
 netcarto/main_netcarto_legacy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 8e9718e..ae1dac8 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -41,6 +41,7 @@ main(int argc, char **argv)
   double iterfac = 1.0;
   gsl_rng *rand_gen;
   char *netF;
+  char netFName[1000];
   /*
     ------------------------------------------------------------
     Prompt for user-defined parameters
@@ -50,10 +51,11 @@ main(int argc, char **argv)
   if (argc == 1) {
 
   printf("\n# Enter random number seed (POSITIVE integer): ");
-  scanf("%d", &seed);
+  scanf("%ld", &seed);
 
   printf("\n# Enter the name of the network file: ");
-  scanf("%s", &netF);
+  scanf("%999s", netFName);
+  netF = netFName;
 
   printf("\n# Enter iteration factor (recommended 1.0): ");
   scanf("%lf", &iterfac);
-- 
2.43.0


From ffa12b9777ba328b86d12d4fb06589d992807fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:20 +0000
Subject: [PATCH 62/79] fix: ask for both arguments of netrandomize

---
 utils/main_netrandomize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/main_netrandomize.c b/utils/main_netrandomize.c
index 80d52e4..eee87b7 100644
--- a/utils/main_netrandomize.c
+++ b/utils/main_netrandomize.c
@@ -26,7 +26,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: netrandomize.out net_file seed\n\n");
     return -1;
   }
-- 
2.43.0


From a3b60aafa52d6ffe9fdf7d078a0b5e74425f4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:20 +0000
Subject: [PATCH 63/79] fix: use the team size given to modularbipart

---
 utils/main_modularbipart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index c8514b2..b50a7c0 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -36,7 +36,7 @@ main(int argc, char **argv)
 
   /* Build the network */
   binet = BuildModularBipartiteNetwork(NULL, modSize, nMod, NULL,
-				       nTeam, modSize, modSize, -1.,
+				       nTeam, teamSize, teamSize, -1.,
 				       teamHomog, randGen);
   FPrintPajekFileBipart ("binet.net", binet, 0, 0);
 
-- 
2.43.0


From a6e7fa8ea25d7cc7e106d4cd77d580e3a334901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:20 +0000
Subject: [PATCH 64/79] fix: allow any number of components in netprop

---
 utils/main_netprop.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 1479434..7dbf760 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -15,7 +15,7 @@ main(int argc, char **argv)
   char *netF;
   FILE *infile=NULL;
   struct node_gra *net=NULL;
-  struct node_gra *components[1000];
+  struct node_gra **components=NULL;
   int i,ncomponents,sizeGC=0,sizeothers=0;
 /*   struct prng *rand_gen; */
 /*   int seed; */
@@ -39,6 +39,8 @@ main(int argc, char **argv)
     Calculate and print a variety of network properties
   */
   /* Calculate the size of the giant component and the number of components */
+  components = (struct node_gra **) calloc(CountNodes(net) + 1,
+					   sizeof(struct node_gra *));
   ncomponents = GetAllConnectedSets(net,components);
   for(i=0;i<ncomponents;i++)
   {
@@ -50,6 +52,7 @@ main(int argc, char **argv)
   printf("Size_GC %d\n", sizeGC);
   if (ncomponents>1) printf("Av_size_other %g\n", (sizeothers-sizeGC)/(ncomponents-1.0));
   else printf("Av_size_other 0.0\n");
+  free(components);
 
   /* Number of nodes, links, and so on */
   printf("Nodes %d\n", CountNodes(net));
-- 
2.43.0


From 69316cdc3d828b2c5c4692d9a223d27db2419787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 65/79] fix: ask for all the arguments of the scoring programs

---
 multiblock/main_reliability_links_mb.c            | 2 +-
 multiblock/main_reliability_links_mb_OR.c         | 2 +-
 multiblock/main_reliability_links_mb_gibbs.c      | 4 ++--
 multiblock/main_reliability_links_mb_gibbs_OR.c   | 4 ++--
 only_deg/main_only_degeneration_mb.c              | 4 ++--
 only_deg/main_only_degeneration_mb_gibbs.c        | 4 ++--
 recommender/main_multi_recommend_2.c              | 2 +-
 recommender/main_multi_recommend_k.c              | 2 +-
 recommender/main_multi_recommend_k_gibbs.c        | 2 +-
 reliability/main_reliability_links.c              | 2 +-
 reliability/main_reliability_links_gibbs.c        | 2 +-
 reliability/main_reliability_links_gibbs_sparse.c | 4 ++--
 reliability/main_reliability_links_k.c            | 2 +-
 13 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index 4df38e4..d166f06 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 533564b..864186a 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
     return -1;
   }
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 3480993..ec6c04d 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index a4ab09d..b7e0b27 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 0eb3bcc..3c0d1dd 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 79d49df..16880d6 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index e78aa20..322e4b3 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -32,7 +32,7 @@ main(int argc, char **argv)
   double *scores;
 
   /* Command line parameters */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: multi_recommend_2.out observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index cd914cb..fdb0f94 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k.out K observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index aeda3df..112c8f1 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k_gibbs K observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links.c b/reliability/main_reliability_links.c
index 547ddbe..2924baf 100644
--- a/reliability/main_reliability_links.c
+++ b/reliability/main_reliability_links.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links_gibbs.c b/reliability/main_reliability_links_gibbs.c
index 64eef2c..9b24aaa 100644
--- a/reliability/main_reliability_links_gibbs.c
+++ b/reliability/main_reliability_links_gibbs.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links_gibbs_sparse.c b/reliability/main_reliability_links_gibbs_sparse.c
index e20bf8c..8475dda 100644
--- a/reliability/main_reliability_links_gibbs_sparse.c
+++ b/reliability/main_reliability_links_gibbs_sparse.c
@@ -31,9 +31,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/reliability/main_reliability_links_k.c b/reliability/main_reliability_links_k.c
index 7b6c31d..79edad3 100644
--- a/reliability/main_reliability_links_k.c
+++ b/reliability/main_reliability_links_k.c
@@ -34,7 +34,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: reliability_links_k K net_file seed\n\n");
     return -1;
   }
-- 
2.43.0


From 08b1d01de9ee2cefd0028ddef9c77dbbcd496fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 66/79] fix: allow any length of the network's file name in the
 scoring programs

---
 multiblock/main_reliability_links_mb.c          | 5 ++++-
 multiblock/main_reliability_links_mb_OR.c       | 5 ++++-
 multiblock/main_reliability_links_mb_gibbs.c    | 5 ++++-
 multiblock/main_reliability_links_mb_gibbs_OR.c | 5 ++++-
 only_deg/main_only_degeneration_mb.c            | 5 ++++-
 only_deg/main_only_degeneration_mb_gibbs.c      | 5 ++++-
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index d166f06..72daa29 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char *outFileNameAND=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,6 +61,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameAND = (char *) malloc(strlen(netF) + sizeof(".AND_scores"));
   strcpy(outFileNameAND, netF);
   strcat(outFileNameAND, ".AND_scores");
   outfileAND = fopen(outFileNameAND, "w");
@@ -72,6 +74,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfileAND);
+  free(outFileNameAND);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 864186a..42bb623 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char *outFileNameOR=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,6 +61,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameOR = (char *) malloc(strlen(netF) + sizeof(".OR_scores"));
   strcpy(outFileNameOR, netF);
   strcat(outFileNameOR, ".OR_scores");
   outfileOR = fopen(outFileNameOR, "w");
@@ -72,6 +74,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfileOR);
+  free(outFileNameOR);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index ec6c04d..f10c5f7 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char *outFileNameAND=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,6 +61,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameAND = (char *) malloc(strlen(netF) + sizeof(".AND_scores"));
   strcpy(outFileNameAND, netF);
   strcat(outFileNameAND, ".AND_scores");
   outfileAND = fopen(outFileNameAND, "w");
@@ -72,6 +74,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfileAND);
+  free(outFileNameAND);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index b7e0b27..aab7dd6 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char *outFileNameOR=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,6 +61,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameOR = (char *) malloc(strlen(netF) + sizeof(".OR_scores"));
   strcpy(outFileNameOR, netF);
   strcat(outFileNameOR, ".OR_scores");
   outfileOR = fopen(outFileNameOR, "w");
@@ -72,6 +74,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfileOR);
+  free(outFileNameOR);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 3c0d1dd..b21f0c1 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char *outFileName=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,6 +61,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileName = (char *) malloc(strlen(netF) + sizeof(".scores"));
   strcpy(outFileName, netF);
   strcat(outFileName, ".scores");
   outfile = fopen(outFileName, "w");
@@ -72,6 +74,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfile);
+  free(outFileName);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 16880d6..afbbe0b 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char *outFileName=NULL;
 
   /*
     ---------------------------------------------------------------------------
@@ -60,6 +61,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileName = (char *) malloc(strlen(netF) + sizeof(".scores"));
   strcpy(outFileName, netF);
   strcat(outFileName, ".scores");
   outfile = fopen(outFileName, "w");
@@ -72,6 +74,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfile);
+  free(outFileName);
 
   /*
     ---------------------------------------------------------------------------
-- 
2.43.0


From c82a0b7f1356a6c1cfdb46c90b15adf725730e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:58 +0000
Subject: [PATCH 67/79] fix: count all the pairs of nodes in PotentialEnergy3D

---
 src/layout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout.c b/src/layout.c
index 3c78de9..e99cce3 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -834,7 +834,7 @@ double PotentialEnergy3D(struct node_gra *net,
 
   // Electrostatic interaction with all other nodes in neighboring
   // boxes
-  nbox = boxprow * boxprow;
+  nbox = boxprow * boxprow * boxprow;
   for (box=0; box<nbox; box++) {
     
     // Neighboring boxes
-- 
2.43.0


From 9345a474fead83affd39d5ee0ef276b3174434ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:58 +0000
Subject: [PATCH 68/79] fix: free the displacements in ArrangeComponents

---
 src/layout.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/layout.c b/src/layout.c
index e99cce3..5257a6c 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -236,6 +236,8 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
     free(xce);
     free(yce);
     free(rad);
+    free(dxtot);
+    free(dytot);
     free(glist);
     RemoveGraph(cnet);
     RemovePartition(part);
-- 
2.43.0


From a35b80c72d3f79b1db957d22d1b456810bb8f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:58 +0000
Subject: [PATCH 69/79] fix: lay out nodes that share a coordinate

---
 src/layout.c | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index 5257a6c..18625c8 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -272,8 +272,10 @@ void NormalizeCoordinates(struct node_gra *net)
   while (temp->next != NULL) {
     temp = temp->next;
 
-    temp->coorX = (temp->coorX - xmin) / (xmax - xmin);
-    temp->coorY = (temp->coorY - ymin) / (ymax - ymin);
+    temp->coorX = (xmax > xmin) ?
+      (temp->coorX - xmin) / (xmax - xmin) : 0.5;
+    temp->coorY = (ymax > ymin) ?
+      (temp->coorY - ymin) / (ymax - ymin) : 0.5;
   }
 }
 
@@ -311,9 +313,12 @@ void NormalizeCoordinates3D(struct node_gra *net)
   while (temp->next != NULL) {
     temp = temp->next;
 
-    temp->coorX = (temp->coorX - xmin) / (xmax - xmin);
-    temp->coorY = (temp->coorY - ymin) / (ymax - ymin);
-    temp->coorZ = (temp->coorZ - zmin) / (zmax - zmin);
+    temp->coorX = (xmax > xmin) ?
+      (temp->coorX - xmin) / (xmax - xmin) : 0.5;
+    temp->coorY = (ymax > ymin) ?
+      (temp->coorY - ymin) / (ymax - ymin) : 0.5;
+    temp->coorZ = (zmax > zmin) ?
+      (temp->coorZ - zmin) / (zmax - zmin) : 0.5;
   }
 }
 
@@ -333,8 +338,10 @@ int AssignBox(struct node_gra *node, int nbox,
   ymax = ymax + (ymax - ymin) * 1.e-5;
 
   // Determine row and column
-  normx = (node->coorX - xmin) / (xmax - xmin);
-  normy = (node->coorY - ymin) / (ymax - ymin);
+  normx = (xmax > xmin) ?
+    (node->coorX - xmin) / (xmax - xmin) : 0.;
+  normy = (ymax > ymin) ?
+    (node->coorY - ymin) / (ymax - ymin) : 0.;
   intx = floor(normx * (double)nbox);
   inty = floor(normy * (double)nbox);
 
@@ -605,7 +612,10 @@ MDGraphLayout(struct node_gra *net, double drag, double dt,
   double xmin, xmax, ymin, ymax;
 
   // Determine the number of boxes
-  if (nbox <= 0) {
+  if (nbox <= 0 && TotalNLinks(net, 1) == 0) {
+    nbox = 1;
+  }
+  else if (nbox <= 0) {
     nbox = floor(sqrt((double)(nnod*nnod) / 
 		      (10.*(double)TotalNLinks(net, 1))));
     if (nbox < 1)
@@ -755,9 +765,12 @@ int AssignBox3D(struct node_gra *node, int nbox,
   zmax = zmax + (zmax - zmin) * 1.e-5;
 
   // Determine row and column
-  normx = (node->coorX - xmin) / (xmax - xmin);
-  normy = (node->coorY - ymin) / (ymax - ymin);
-  normz = (node->coorZ - zmin) / (zmax - zmin);
+  normx = (xmax > xmin) ?
+    (node->coorX - xmin) / (xmax - xmin) : 0.;
+  normy = (ymax > ymin) ?
+    (node->coorY - ymin) / (ymax - ymin) : 0.;
+  normz = (zmax > zmin) ?
+    (node->coorZ - zmin) / (zmax - zmin) : 0.;
   intx = floor(normx * (double)nbox);
   inty = floor(normy * (double)nbox);
   intz = floor(normz * (double)nbox);
@@ -1073,7 +1086,10 @@ MDGraphLayout3D(struct node_gra *net, double drag, double dt,
   double xmin, xmax, ymin, ymax, zmin, zmax;
 
   // Determine the number of boxes
-  if (nbox <= 0) {
+  if (nbox <= 0 && TotalNLinks(net, 1) == 0) {
+    nbox = 1;
+  }
+  else if (nbox <= 0) {
     nbox = floor(pow((double)(nnod*nnod) / 
 		     (10.*(double)TotalNLinks(net, 1)), 1./3.));
     if (nbox < 1)
@@ -1245,7 +1261,10 @@ MDGraphLayout2Dp(struct node_gra *net, double drag, double dt,
   int kz_sw = 0;
 
   // Determine the number of boxes
-  if (nbox <= 0) {
+  if (nbox <= 0 && TotalNLinks(net, 1) == 0) {
+    nbox = 1;
+  }
+  else if (nbox <= 0) {
     nbox = floor(pow((double)(nnod*nnod) / 
 		     (10.*(double)TotalNLinks(net, 1)), 1./3.));
     if (nbox < 1)
-- 
2.43.0


From 73ab589b0fb63682790b7b53d3aff8f48604593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:19 +0000
Subject: [PATCH 70/79] fix: start the centres of the components at zero in
 ArrangeComponents

---
 src/layout.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/layout.c b/src/layout.c
index 18625c8..8672a9d 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -149,6 +149,7 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
       g = g->next;
       glist[g->label] = g;
       dxtot[g->label] = dytot[g->label] = 0.0;
+      xce[g->label] = yce[g->label] = 0.0;
 
       // Find the center of the component and of the network
       node = g->nodeList;
-- 
2.43.0


From 9b566d02bc98815e935f55619588108106f2d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:10 +0000
Subject: [PATCH 71/79] fix: forget the cached degree and strength in
 ClearAdjacencies

---
 src/graph.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph.c b/src/graph.c
index 0a21b48..1d5b4b8 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2946,6 +2946,10 @@ void ClearAdjacencies(struct node_gra *p,int *net)
 
   while(p->next!=NULL){
     p=p->next;
+    // Reset degree/strength of the nodes:
+    p->degree = 0;
+    p->strength = 0;
+
     nei=p->neig;
     while(nei->next!=NULL){
       if(net[(nei->next)->node]==0){
-- 
2.43.0


From c21a116e58c8b208a2c84bea12233e389ff5da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 72/79] fix: count each link inside a group once per pair in
 BlockModel

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 4d2181b..5f85283 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -776,7 +776,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	    break;
 	  case 'p':
 	    if (g1 == g2)
-	      bij = (double)NG2GLinks(g1, g2) /
+	      bij = 2.0 * (double)NG2GLinks(g1, g2) /
 		(double)(g1->size * (g1->size - 1));
 	    else
 	      bij = (double)NG2GLinks(g1, g2) /
-- 
2.43.0


From f4d91178712e7e0b963649b41ac4e59a6fdfce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:57 +0000
Subject: [PATCH 73/79] fix: make no team larger than the number of nodes

---
 src/bipartite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bipartite.c b/src/bipartite.c
index 343a028..c67031e 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -249,6 +249,8 @@ BuildModularBipartiteNetwork(int *modSizes,
     /* Determine the number of actors in the team */
     if (mmin < 0) { /* use a geometric distribution */
       m = geometric_dist_val(geom_p, gen);
+      if (m > S1) /* each node is at most once in a team */
+	m = S1;
     }
     else if (mmax != mmin) /* use uniform distribution */
       m = floor(gsl_rng_uniform(gen) * (double)(mmax+1-mmin) + mmin);
-- 
2.43.0


From 324a85733ee7a094dca23db07a640da016f4f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:50 +0000
Subject: [PATCH 74/79] fix: end randomisations of networks without links to
 switch

---
 src/bipartite.c | 18 ++++++++++++++++--
 src/graph.c     | 21 +++++++++++++++++++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index c67031e..10a6a00 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -667,6 +667,7 @@ RandomizeBipart(struct binet *binet, double times, gsl_rng *gen)
 {
   int i;
   int nlink, niter, coun = 0;
+  int possible = 0;
   int target1, target2;
   struct node_gra *p = NULL;
   struct node_lis *l = NULL;
@@ -691,8 +692,21 @@ RandomizeBipart(struct binet *binet, double times, gsl_rng *gen)
 
   if (coun !=  nlink)
     fprintf(stderr, "Error in RandomizeBipart: coun !=  nlink!!\n");
-  if (nlink < 2)
-    niter = 0; /* a switch needs two links */
+
+  /* Look for two links that can be switched (as any switch can be
+     undone, there will always be some if there are some now) */
+  for (target1=0; target1<nlink && !possible; target1++) {
+    n1 = ori[target1];
+    n2 = des[target1];
+    for (target2=0; target2<target1 && !possible; target2++) {
+      n3 = ori[target2];
+      n4 = des[target2];
+      possible = n1 != n3 && n2 != n4 &&
+	IsThereLink(n1, n4) == 0 && IsThereLink(n2, n3) == 0;
+    }
+  }
+  if (!possible)
+    niter = 0;
 
   /* Randomize the network */
   for (i=0; i<niter; i++) {
diff --git a/src/graph.c b/src/graph.c
index 1d5b4b8..42f885f 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1331,6 +1331,7 @@ RandomizeSymmetricNetwork(struct node_gra *net,
   struct node_gra **ori, **des;
   int coun=0;
   int niter=0;
+  int possible=0;
 
   /* Build the link lists (one for link origins and one for ends) */
   nlink = TotalNLinks(net, 1);
@@ -1348,9 +1349,25 @@ RandomizeSymmetricNetwork(struct node_gra *net,
       }
     }
   }
-  /* Self-links stay where they are, and a switch needs two links */
+  /* Self-links stay where they are */
   nlink = coun;
-  if (nlink < 2)
+
+  /* Look for two links that can be switched (as any switch can be
+     undone, there will always be some if there are some now) */
+  for (target1=0; target1<nlink && !possible; target1++) {
+    n1 = ori[target1];
+    n2 = des[target1];
+    for (target2=0; target2<target1 && !possible; target2++) {
+      n3 = ori[target2];
+      n4 = des[target2];
+      possible = (n3 != n1 && n3 != n2 && n4 != n1 && n4 != n2) &&
+	((IsThereLinkSoft(n1, n4->num) == 0 &&
+	  IsThereLinkSoft(n2, n3->num) == 0) ||
+	 (IsThereLinkSoft(n1, n3->num) == 0 &&
+	  IsThereLinkSoft(n2, n4->num) == 0));
+    }
+  }
+  if (!possible)
     niter = 0;
 
   /* Randomize the links */
-- 
2.43.0


From 4eb66a521cfc691c7e3ca806026ab32f3c8a0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:21 +0000
Subject: [PATCH 75/79] fix: count the arguments of mutualinfo

---
 utils/main_mutualinfo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/main_mutualinfo.c b/utils/main_mutualinfo.c
index ed59c9d..39e348e 100644
--- a/utils/main_mutualinfo.c
+++ b/utils/main_mutualinfo.c
@@ -13,6 +13,11 @@ int main(int argc,char* argv[])
   struct group *part1 = NULL;
   struct group *part2 = NULL;
 
+  if (argc < 3) {
+    printf("\nUse: mutualinfo part_file_1 part_file_2\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
-- 
2.43.0


From 176d638ba3fcec9f8e36ddb95bc12397c8793b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:21 +0000
Subject: [PATCH 76/79] fix: count the arguments of bipartitemodularity

---
 utils/main_bipartitemodularity.c   | 5 +++++
 utils/main_bipartitemodularity_w.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/utils/main_bipartitemodularity.c b/utils/main_bipartitemodularity.c
index 902a04c..93470ac 100644
--- a/utils/main_bipartitemodularity.c
+++ b/utils/main_bipartitemodularity.c
@@ -14,6 +14,11 @@ int main(int argc,char* argv[])
   struct binet *binet = NULL;
   struct group *part = NULL;
 
+  if (argc < 4) {
+    printf("\nUse: bipartitemodularity net_file part_file invert\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
diff --git a/utils/main_bipartitemodularity_w.c b/utils/main_bipartitemodularity_w.c
index c914b31..86731e1 100644
--- a/utils/main_bipartitemodularity_w.c
+++ b/utils/main_bipartitemodularity_w.c
@@ -14,6 +14,11 @@ int main(int argc,char* argv[])
   struct binet *binet = NULL;
   struct group *part = NULL;
 
+  if (argc < 4) {
+    printf("\nUse: bipartitemodularity_w net_file part_file invert\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
-- 
2.43.0


From 61dc1a56dee06b745e1299214f7a762783a37af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:21 +0000
Subject: [PATCH 77/79] fix: count the arguments of modularbipart

---
 utils/main_modularbipart.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index b50a7c0..818ba99 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -21,6 +21,11 @@ main(int argc, char **argv)
   int nMod, modSize, nTeam, teamSize, seed;
   double teamHomog;
 
+  if (argc < 7) {
+    printf("\nUse: modularbipart nMod modSize nTeam teamSize teamHomog seed\n\n");
+    return -1;
+  }
+
   /* Command line parameters */
   nMod = atoi(argv[1]);
   modSize = atoi(argv[2]);
-- 
2.43.0


From f3279ec0e6cf5dbe953366d434f363c5ec010702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:46 +0000
Subject: [PATCH 78/79] fix: make room for the harmonic numbers of networks of
 two nodes

---
 src/only_deg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/only_deg.c b/src/only_deg.c
index 8010492..55bb514 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -480,7 +480,7 @@ LinkScoreMB_OD(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA = allocate_d_mat(nnod, nnod);
@@ -1126,7 +1126,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
-- 
2.43.0


From 562ab83a53fbd47997411804513c4ac1408e96fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:46 +0000
Subject: [PATCH 79/79] fix: forget earlier groups when cutting a network into
 equal groups

---
 src/modules.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules.c b/src/modules.c
index 5f85283..47186c0 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -192,6 +192,7 @@ CreateEquiNPartition(struct node_gra *net, int gsize)
   /* Initialize stuff */
   p = net;
   part = CreateHeaderGroup();
+  ResetNetGroup(net);
   ngroups = CountNodes(net) / gsize;
 
   /* Create the groups and assign the nodes */
-- 
2.43.0


From e3836451b5afb51345631ba55567a31b9bd2ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 01/62] fix: deleting a self-edge of an undirected multilayer
 network no longer raises KeyError

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4ce6b5e..cb30505 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -278,7 +278,7 @@ class MultilayerNetwork(object):
                             if node2 not in self._rnet or node1 not in self._rnet[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
-                    else:
+                    elif node1!=node2:
                         del self._net[node2][node1]
                     del self._net[node1][node2]
         else:
-- 
2.43.0


From c6ce6ef75f5dac7d38d7e66a0356d5facbeaf0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 02/62] fix: removing a directed edge decreases the total
 degree of its target node

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index cb30505..c3c9d88 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -275,7 +275,7 @@ class MultilayerNetwork(object):
                         else:
                             if node1 not in self._rnet or node2 not in self._rnet[node1]:
                                 self._totalDegree[node1]=self._totalDegree[node1]-1
-                            if node2 not in self._rnet or node1 not in self._rnet[node2]:
+                            if node2 not in self._net or node1 not in self._net[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
                     elif node1!=node2:
-- 
2.43.0


From 74c66ddd428a940781e16c0bb7f607a3d021f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 03/62] fix: reading coupling edges and strengths of multiplex
 networks with 'none' couplings

---
 pymnet/net.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index c3c9d88..b80f394 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1044,6 +1044,8 @@ class MultiplexNetwork(MultilayerNetwork):
                         return self.noEdge
                 elif isinstance(coupling[0],MultilayerNetwork):
                     return self.couplings[d[0]-1][0][link[2*d[0]],link[2*d[0]+1]]
+                elif coupling[0]=="none":
+                    return self.noEdge
                 else:
                     raise Exception("Coupling not implemented: "+str(coupling))
             else:
@@ -1103,8 +1105,10 @@ class MultiplexNetwork(MultilayerNetwork):
             raise Exception("Coupling '"+str(coupling_type)+"' not implemented.")
 
     def _get_dim_strength(self,node,aspect,direction="tot"):
-        coupling_str=self.couplings[aspect-1][1]
         coupling_type=self.couplings[aspect-1][0]
+        if coupling_type=="none":
+            return 0
+        coupling_str=self.couplings[aspect-1][1]
         if isinstance(coupling_type,MultilayerNetwork):
             raise Exception() #please implement this
         return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
-- 
2.43.0


From 0d40ae1681da27e3eadf5cd822fc7026d27045d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 04/62] fix: coupling degrees and neighbours of multiplex
 networks that are not fully interconnected

---
 pymnet/net.py | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index b80f394..37098d3 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1021,6 +1021,12 @@ class MultiplexNetwork(MultilayerNetwork):
             return layer in self.A
 
 
+    def _has_supernode(self,supernode):
+        """Return true if the node is in the layer. Network must not be node-aligned.
+        """
+        layer=supernode[1] if self.aspects==1 else supernode[1:]
+        return layer in self._nodeToLayers.get(supernode[0],())
+
     def _get_link(self,link):
         """Overrides parents method.
         """
@@ -1075,23 +1081,13 @@ class MultiplexNetwork(MultilayerNetwork):
             if self.fullyInterconnected:
                 return len(self.slices[aspect])-1
             else:
-                if self.aspects>1:
-                    layer=supernode[1:]
-                else:
-                    layer=supernode[1]
-                if layer in self._nodeToLayers[supernode[0]]:
-                    if self.aspects==1:
-                        return len(self._nodeToLayers[supernode[0]])-1
-                    else:
-                        return len(filter(lambda x:x[aspect]==supernode[aspect],self._nodeToLayers[supernode[0]])) -1
-                else:
-                    return 0
+                return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif coupling_type=="ordinal":
             up,down=supernode[aspect]+1,supernode[aspect]-1
             if self.fullyInterconnected:
                 return int(up in self.slices[aspect])+int(down in self.slices[aspect])
             else:
-                return int(supernode[:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])+int(supernode[:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])
+                return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif isinstance(coupling_type,MultilayerNetwork):
             if direction=="tot":
                 return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
@@ -1121,14 +1117,13 @@ class MultiplexNetwork(MultilayerNetwork):
                 for n in self.slices[aspect]:
                     if n!=supernode[aspect]:                    
                         yield supernode[:aspect]+(n,)+supernode[aspect+1:]
-            elif supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]:
+            elif self._has_supernode(supernode):
                 for layers in self._nodeToLayers[supernode[0]]:
-                    if self.aspects>1:
-                        if layers!=supernode[1:]:
-                            yield (supernode[0],)+layers
-                    else:
-                        if layers!=supernode[1]:
-                            yield (supernode[0],layers)
+                    if self.aspects==1:
+                        layers=(layers,)
+                    neigh=(supernode[0],)+layers
+                    if self._get_edge_inter_aspects(self._nodes_to_link(supernode,neigh))==[aspect]:
+                        yield neigh
         elif coupling_type=="ordinal":
             up,down=supernode[aspect]+1,supernode[aspect]-1
             if self.fullyInterconnected:
@@ -1136,11 +1131,11 @@ class MultiplexNetwork(MultilayerNetwork):
                     yield supernode[:aspect]+(up,)+supernode[aspect+1:]
                 if down in self.slices[aspect]:
                     yield supernode[:aspect]+(down,)+supernode[aspect+1:]
-            else:
-                if supernode[1:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(up,)+supernode[aspect+1:]
-                if supernode[1:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(down,)+supernode[aspect+1:]
+            elif self._has_supernode(supernode):
+                for n in (up,down):
+                    neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                    if self._has_supernode(neigh):
+                        yield neigh
         elif coupling_type=="none":
             pass
         else:
-- 
2.43.0


From 78e567d21191c79278391e5aee6798f670b830ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 05/62] fix: categorical and ordinal coupling edges are only
 reported between layers that exist

---
 pymnet/net.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 37098d3..65a26da 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1038,10 +1038,12 @@ class MultiplexNetwork(MultilayerNetwork):
                     return self.noEdge
                 if not self.fullyInterconnected:
                     supernode1, supernode2=self._link_to_nodes(link)
-                    if not (link[0] in self._get_A_with_tuple(supernode1[1:]).slices[0] and link[0] in self._get_A_with_tuple(supernode2[1:]).slices[0]):
+                    if not (self._has_supernode(supernode1) and self._has_supernode(supernode2)):
                         return self.noEdge
                 coupling=self.couplings[d[0]-1]                
-                if coupling[0]=="categorical":
+                if coupling[0] in ("categorical","ordinal") and not (self._has_layer_with_tuple(link[2::2]) and self._has_layer_with_tuple(link[3::2])):
+                    return self.noEdge
+                elif coupling[0]=="categorical":
                         return coupling[1] 
                 elif coupling[0]=="ordinal":
                     if link[2*d[0]]+1==link[2*d[0]+1] or link[2*d[0]]==link[2*d[0]+1]+1:
-- 
2.43.0


From 863146d862224f4d7fc1e6640800d04431f0aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 06/62] fix: net[i,j,s,:] and net[i,:,s,r] show the links to j
 and to layer r

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 65a26da..236f438 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -495,7 +495,7 @@ class MultilayerNetwork(object):
             layers=[]
             for i in range(d):
                 if item[2*i+1]!=COLON:
-                    layers.append(item[2*i])
+                    layers.append(item[2*i+1])
                 else:
                     colons+=1
                     layers.append(None)
-- 
2.43.0


From 7a2ab5124744841db3429aefc0d4a927499fbefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 07/62] fix: slicing a node of a multiplex network with another
 node or layer shows the links to it

---
 pymnet/net.py | 54 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 236f438..1a08b12 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1148,12 +1148,12 @@ class MultiplexNetwork(MultilayerNetwork):
             for d in range(self.aspects+1):
                 yield d
         else:
-            l=[]
-            for d,val in enumerate(dims):
-                if val!=None and node[d]!=val:
-                    return
-                if val==None:
-                    l.append(d)
+            #neighbors differ from the node in exactly one dimension
+            l=[d for d,val in enumerate(dims) if val!=None and val!=node[d]]
+            if len(l)==0:
+                l=[d for d,val in enumerate(dims) if val==None]
+            elif len(l)>1:
+                return
             for d in l:
                 yield d
 
@@ -1162,7 +1162,9 @@ class MultiplexNetwork(MultilayerNetwork):
         """
         k=0
         for d in self._select_dimensions(node,dims):
-            if d==0:
+            if dims!=None and dims[d]!=None:
+                k+=len(list(self._iter_neighbors_total_dir(node,dims)))
+            elif d==0:
                 k+=self._get_A_with_tuple(node[1:])[node[0]].deg_total()
             else:
                 k+=self._get_dim_degree(node,d,direction="tot")
@@ -1173,7 +1175,9 @@ class MultiplexNetwork(MultilayerNetwork):
         """
         k=0
         for d in self._select_dimensions(node,dims):
-            if d==0:
+            if dims!=None and dims[d]!=None:
+                k+=len(list(self._iter_neighbors_in_dir(node,dims)))
+            elif d==0:
                 k+=self._get_A_with_tuple(node[1:])[node[0]].deg_in()
             else:
                 k+=self._get_dim_degree(node,d,direction="in")
@@ -1184,7 +1188,9 @@ class MultiplexNetwork(MultilayerNetwork):
         """
         k=0
         for d in self._select_dimensions(node,dims):
-            if d==0:
+            if dims!=None and dims[d]!=None:
+                k+=len(list(self._iter_neighbors_out(node,dims)))
+            elif d==0:
                 k+=self._get_A_with_tuple(node[1:])[node[0]].deg_out()
             else:
                 k+=self._get_dim_degree(node,d,direction="out")
@@ -1196,7 +1202,9 @@ class MultiplexNetwork(MultilayerNetwork):
         """
         s=0
         for d in self._select_dimensions(node,dims):
-            if d==0:
+            if dims!=None and dims[d]!=None:
+                s+=self._get_strength_in_dir(node,dims)+self._get_strength_out(node,dims)
+            elif d==0:
                 s+=self._get_A_with_tuple(node[1:])[node[0]].str_total()
             else:
                 s+=self._get_dim_strength(node,d,direction="tot")
@@ -1208,7 +1216,9 @@ class MultiplexNetwork(MultilayerNetwork):
         """
         s=0
         for d in self._select_dimensions(node,dims):
-            if d==0:
+            if dims!=None and dims[d]!=None:
+                s+=sum(self._get_link(self._nodes_to_link(n,node)) for n in self._iter_neighbors_in_dir(node,dims))
+            elif d==0:
                 s+=self._get_A_with_tuple(node[1:])[node[0]].str_in()
             else:
                 s+=self._get_dim_strength(node,d,direction="in")
@@ -1220,7 +1230,9 @@ class MultiplexNetwork(MultilayerNetwork):
         """
         s=0
         for d in self._select_dimensions(node,dims):
-            if d==0:
+            if dims!=None and dims[d]!=None:
+                s+=sum(self._get_link(self._nodes_to_link(node,n)) for n in self._iter_neighbors_out(node,dims))
+            elif d==0:
                 s+=self._get_A_with_tuple(node[1:])[node[0]].str_out()
             else:
                 s+=self._get_dim_strength(node,d,direction="out")
@@ -1234,10 +1246,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_total((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if dims==None or dims[0]==None or dims[0]==n[0]:
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="tot"):
-                    yield n
+                    if dims==None or dims[d]==None or dims[d]==n[d]:
+                        yield n
 
     def _iter_neighbors_in_dir(self,node,dims):
         """Overrides parents method.
@@ -1245,10 +1259,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_in((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if dims==None or dims[0]==None or dims[0]==n[0]:
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="in"):
-                    yield n
+                    if dims==None or dims[d]==None or dims[d]==n[d]:
+                        yield n
 
     def _iter_neighbors_out(self,node,dims):
         """Overrides parents method.
@@ -1256,10 +1272,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_out((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if dims==None or dims[0]==None or dims[0]==n[0]:
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="out"):
-                    yield n
+                    if dims==None or dims[d]==None or dims[d]==n[d]:
+                        yield n
 
     def __eq__(self,other):
         if type(self) is type(other):
-- 
2.43.0


From 9f74252f0372bff18a594733cb25ae20bb8f2ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 08/62] fix: total strength in directed multiplex networks is
 the sum of in- and out-strength

---
 pymnet/net.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 1a08b12..47b19f2 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1200,15 +1200,7 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_strength_total_dir(self,node, dims):
         """Overrides parents method.
         """
-        s=0
-        for d in self._select_dimensions(node,dims):
-            if dims!=None and dims[d]!=None:
-                s+=self._get_strength_in_dir(node,dims)+self._get_strength_out(node,dims)
-            elif d==0:
-                s+=self._get_A_with_tuple(node[1:])[node[0]].str_total()
-            else:
-                s+=self._get_dim_strength(node,d,direction="tot")
-        return s
+        return self._get_strength_in_dir(node,dims)+self._get_strength_out(node,dims)
 
 
     def _get_strength_in_dir(self,node, dims):
-- 
2.43.0


From 0764a61e979d100b53efa1f702efebd6f3222b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 09/62] fix: intra-layer networks of a multiplex network use
 its noEdge value

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 47b19f2..dabd9da 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -846,7 +846,7 @@ class MultiplexIntraNetDict(MutableMapping):
         pass
 
     def _add_empty_network(self,layer):
-        net=MultilayerNetworkWithParent(aspects=0,directed=self._net.directed)
+        net=MultilayerNetworkWithParent(aspects=0,noEdge=self._net.noEdge,directed=self._net.directed)
         net._set_parent(self._net)
         if not self._net.fullyInterconnected:
             if self._net.aspects==1:
-- 
2.43.0


From 8c253bc107b7fe5747df14bc1c8b4e242733553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 10/62] fix: comparing a fully interconnected network with one
 that is not returns False

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index dabd9da..304a46e 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -176,7 +176,7 @@ class MultilayerNetwork(object):
         if not isinstance(other,MultilayerNetwork):
             return False
         
-        if not self.fullyInterconnected:
+        if not self.fullyInterconnected and not other.fullyInterconnected:
             if self._nodeToLayers!=other._nodeToLayers:
                 return False
         if type(self) is type(other) and self.directed == other.directed and self.directed==other.directed and self.aspects==other.aspects and self.fullyInterconnected == other.fullyInterconnected and self.noEdge == other.noEdge and self.slices==other.slices and len(self.edges) ==len(other.edges):            
-- 
2.43.0


From 33e55da20522f9a62c4ee7b588f67d37c0c77019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 11/62] fix: a rejected edge write to a multiplex network no
 longer adds its nodes and layers

---
 pymnet/net.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 304a46e..5c0e4a9 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -263,6 +263,10 @@ class MultilayerNetwork(object):
                 return self._net[node1][node2]
         return self.noEdge
 
+    def _check_link(self,link):
+        """Raises KeyError if the link cannot be set in this type of network."""
+        pass
+
     def _set_link(self,link,value):
         #keep track of nodes and layers in net?
         node1,node2=self._link_to_nodes(link)
@@ -527,6 +531,8 @@ class MultilayerNetwork(object):
         else:
             raise KeyError("Invalid number of indices.")
 
+        self._check_link(link)
+
         #There might be new nodes, add them to sets of nodes
         if self.fullyInterconnected:
             for i in range(2):
@@ -1064,18 +1070,22 @@ class MultiplexNetwork(MultilayerNetwork):
         else:
             return self.noEdge
                 
-    def _set_link(self,link,value):
+    def _check_link(self,link):
         """Overrides parents method.
         """
         d=self._get_edge_inter_aspects(link)
-        if len(d)==1 and d[0]==0:
-            S=link[2::2]
-            self._get_A_with_tuple(S)[link[0],link[1]]=value
-        elif len(d)==0:
+        if len(d)==0:
             raise KeyError("No self-links.")
-        else:
+        elif d!=[0]:
             raise KeyError("Can only set links in the node dimension.")
 
+    def _set_link(self,link,value):
+        """Overrides parents method.
+        """
+        self._check_link(link)
+        S=link[2::2]
+        self._get_A_with_tuple(S)[link[0],link[1]]=value
+
 
     def _get_dim_degree(self,supernode,aspect,direction="tot"):
         coupling_type=self.couplings[aspect-1][0]
-- 
2.43.0


From 6198c219dd418db21b7800b61e637a685ceae813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 12/62] fix: thresholding a network that is not fully
 interconnected raised NameError

---
 pymnet/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 08dd713..2e865cd 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -452,7 +452,7 @@ def threshold(net,threshold,method=">=",ignoreCouplingEdges=False):
             newNet.add_layer(layer,aspect=aspect+1) 
     if not net.fullyInterconnected:
         for nodelayer in net.iter_node_layers():
-            layer=lnodelayer[1:]
+            layer=nodelayer[1:]
             if net.aspects==1:
                 layer=layer[0]
             newNet.add_node(nodelayer[0],layer=layer)
-- 
2.43.0


From 860d7c37edb9fbab95d48624267919e6c3f10311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 13/62] fix: overlay network keeps edge directions and nodes
 without edges

---
 pymnet/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 2e865cd..4598b53 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -109,7 +109,9 @@ def overlay_network(net):
        A new instance of multiplex network which is produced.
     """
     assert net.aspects==1
-    newnet=netmodule.MultilayerNetwork()
+    newnet=netmodule.MultilayerNetwork(directed=net.directed)
+    for node in net:
+        newnet.add_node(node)
     for layer in net.slices[1]:
         for node1 in net.slices[0]:
             for node2 in net.slices[0]:
-- 
2.43.0


From a89776553da9d59584f7b6f3b4ca2ff2d11694a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 14/62] fix: subnet_iter removes only the intra-layer edges of
 multiplex subnetworks and only edges that are in the subnetwork

---
 pymnet/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 4598b53..ee3b2ed 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -554,11 +554,12 @@ def subnet_iter(net,remove_elayers=[],remove_edges=True):
             if isinstance(net,netmodule.MultiplexNetwork):
                 #For multiplex networks we do not want to go through coupling edges
                 couplings=subnet_with_edges.couplings
+                subnet_with_edges.couplings=[("none",) for coupling in couplings]
                 edges=list(subnet_with_edges.edges)
                 subnet_with_edges.couplings=couplings
             else:
                 #For multilayer networks we go through all edges
-                edges=net.edges
+                edges=list(subnet_with_edges.edges)
             for newnet_edges in all_combinations(edges):
                 newnet=subnet(subnet_with_edges,*nl,nolinks=True)
                 for edge in newnet_edges:
-- 
2.43.0


From d0dd04eb0dc18e6ff982398fce2499062498c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 15/62] fix: relabel no longer modifies the list of layer names
 it is given

---
 pymnet/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index ee3b2ed..795cd76 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -290,6 +290,7 @@ def relabel(net,nodeNames=None,layerNames=None):
         if isinstance(layerNames,dict):
             layerNames=[layerNames]
 
+    layerNames=list(layerNames) #do not modify the argument
     for aspect in range(net.aspects):
         if len(layerNames)<aspect+1:
             layerNames.append({})
-- 
2.43.0


From 4581b2be2c8be06788522629f511ce294a20ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 16/62] fix: aggregate keeps the layers of the remaining
 aspects that have no edges

---
 pymnet/transforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 795cd76..bb52e9f 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -70,10 +70,14 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
     for d in aspects:
         assert 0<d<=(net.aspects+1)
 
-    #Add nodes
+    #Add nodes and layers
     for node in net:
         newNet.add_node(node)
-    
+    keptAspects=[a for a in range(1,net.aspects+1) if a not in aspects]
+    for newAspect,aspect in enumerate(keptAspects):
+        for layer in net.slices[aspect]:
+            newNet.add_layer(layer,newAspect+1)
+
     #Add edges
     edgeIndices=list(filter(lambda x:math.floor(x/2) not in aspects,range(2*(net.aspects+1))))
     for edge in net.edges:
-- 
2.43.0


From d68673148e90dcdcfdc5500cb1fb9734bd70127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 17/62] fix: subnet of a multiplex network ignores layers that
 are not in the network

---
 pymnet/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index bb52e9f..b1ac936 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -212,6 +212,8 @@ def subnet(net,nodes,*layers,**kwargs):
         if isinstance(net,netmodule.MultiplexNetwork) and isinstance(newNet,netmodule.MultiplexNetwork):
             #Go through all the combinations of new layers
             for layer in itertools.product(*nodelayers[1:]):
+                if not net._has_layer_with_tuple(layer):
+                    continue
                 layer=layer[0] if net.aspects==1 else layer
                 subnet(net.A[layer],nodelayers[0],newNet=newNet.A[layer],nolinks=nolinks)
         elif (isinstance(net,netmodule.MultilayerNetwork) and (isinstance(newNet,netmodule.MultilayerNetwork) and not isinstance(newNet,netmodule.MultiplexNetwork))) or (isinstance(net,netmodule.MultiplexNetwork) and (isinstance(newNet,netmodule.MultilayerNetwork) and not isinstance(newNet,netmodule.MultiplexNetwork))):
-- 
2.43.0


From c4ed8e7668d99bc0e7a681501e66c10e77a25081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 18/62] fix: supra-adjacency matrix of a monoplex network
 includes self-edges

---
 pymnet/net.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 5c0e4a9..301d01b 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -654,8 +654,7 @@ class MultilayerNetwork(object):
             matrix=numpy.zeros((len(nodes),len(nodes)),dtype=float)
             for i_index,i in enumerate(nodes):
                 for j_index,j in enumerate(nodes):
-                    if i_index!=j_index:
-                        matrix[i_index,j_index]=self[i][j]
+                    matrix[i_index,j_index]=self[i][j]
 
         return numpy.matrix(matrix),nodes
 
-- 
2.43.0


From 2ade6a111a5a70430243d35837ae175910e05955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 19/62] fix: subnet ignores nodes and layers that are not in a
 multiplex network copied to a multilayer network

---
 pymnet/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index b1ac936..a8624eb 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -165,7 +165,8 @@ def subnet(net,nodes,*layers,**kwargs):
         if elayers==None:
             nodelayers.append(set(net.get_layers(a)))
         else:
-            nodelayers.append(set(elayers))
+            netLayers=net.get_layers(a)
+            nodelayers.append(set(e for e in elayers if e in netLayers))
 
     if newNet==None:
         if isinstance(net,netmodule.MultiplexNetwork):
-- 
2.43.0


From f8197b6a88c937c13674ff9310218f9316de0be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 20/62] fix: overlap_degs uses functions of transforms that
 were not imported

---
 pymnet/diagnostics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index da79c68..33cec4b 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -1,4 +1,5 @@
 from .net import MultilayerNetwork,MultiplexNetwork
+from .transforms import aggregate,subnet,threshold
 import heapq,itertools
 
 def degs(net,degstype="distribution"):
-- 
2.43.0


From f7bd60e057cf7158cf0b49831fab5e585f7f389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 21/62] fix: density of networks that are not fully
 interconnected or have a single node

---
 pymnet/diagnostics.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 33cec4b..958ebba 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -50,10 +50,15 @@ def density(net):
         nl=len(net.get_layers(0))
         for a in range(net.aspects):
             nl=nl*len(net.get_layers(a+1))
-        if net.directed:
-            pedges=nl*(nl-1)
-        else:
-            pedges=(nl*(nl-1))/2
+    else:
+        nl=len(list(net.iter_node_layers()))
+
+    if net.directed:
+        pedges=nl*(nl-1)
+    else:
+        pedges=(nl*(nl-1))/2
+    if pedges==0:
+        return 0
             
     return len(net.edges)/float(pedges)
 
-- 
2.43.0


From e0ea92e05cb0c35383ffe5c21d44cc32e1b4767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 22/62] fix: dijkstra accepts any iterable of sources

---
 pymnet/diagnostics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 958ebba..454ff60 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -145,6 +145,7 @@ def dijkstra(net,sources):
                              fullyInterconnected=False,
                              directed=True,
                              noEdge=-1)
+    sources=list(sources)
     d=dict([(s,0) for s in sources])
 
     queue=[]
-- 
2.43.0


From d4e01c0c1443db9d9dae3c3b5e76bfa017f1038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 23/62] fix: Erdos-Renyi networks with edge probability 0

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index cc3a4a5..fc729c6 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -184,7 +184,7 @@ def single_layer_er(net,nodes,p=None,edges=None):
                 for node2 in nodes:
                     if node1!=node2:
                         net[node1,node2]=1
-        else:
+        elif p>0:
             v,w=1,-1
             while (v < n):
                 r=random.random()
-- 
2.43.0


From 25de1ffc32e8b53ccad2b722910ffd20d350de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 24/62] fix: conf uses the given couplings when copying a
 multiplex network

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index fc729c6..7b5c9fe 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -242,7 +242,7 @@ def conf(degs,degstype="distribution",couplings=("categorical",1.0)):
             d[layer]=dd
             for node in degs.A[layer]:
                 dd[node]=degs.A[layer][node].deg()
-        return conf(d,degstype="nodes")
+        return conf(d,degstype="nodes",couplings=couplings)
     elif isinstance(degs,MultilayerNetwork):
         assert degs.aspects==0
         d={}
-- 
2.43.0


From 9067e2aa8772d31917f6ad4a5f7c64a4dfd1ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 25/62] fix: full and Erdos-Renyi multilayer networks have the
 nodes and layers that get no edges

---
 pymnet/models.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 7b5c9fe..9350e17 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -417,20 +417,25 @@ def full(nodes,layers,couplings=('categorical',1.0)):
     if layers==None:
         n=MultilayerNetwork(aspects=0)
         for node1 in range(nodes):
+            n.add_node(node1)
             for node2 in range(nodes):
                 if node1!=node2:
                     n[node1,node2]=1
     elif not hasattr(layers,'__iter__'): #is not sequence
         n=MultiplexNetwork(couplings=[couplings])
         for layer in range(layers):
+            n.add_layer(layer)
             for node1 in range(nodes):
+                n.add_node(node1)
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
     else: #it's a sequence
         n=MultiplexNetwork(couplings=[couplings])
         for layer in layers:
+            n.add_layer(layer)
             for node1 in range(nodes):
+                n.add_node(node1)
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
@@ -459,6 +464,10 @@ def full_multilayer(nodes,layers):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
+    for layer in layers:
+        n.add_layer(layer,1)
     for layer1 in layers:
         for layer2 in layers:
             for node1 in range(nodes):
@@ -494,6 +503,10 @@ def er_multilayer(nodes,layers,p,randomWeights=False):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
+    for layer in layers:
+        n.add_layer(layer,1)
     for layer1 in layers:
         for layer2 in layers:
             for node1 in range(nodes):
-- 
2.43.0


From 2ab95e1c8d5c5024a9cee182aec0305da32843f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 26/62] fix: random weights of er_multilayer are in (0,1] as
 documented

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index 9350e17..f5ed6b3 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -514,7 +514,7 @@ def er_multilayer(nodes,layers,p,randomWeights=False):
                     if node1!=node2 or layer1!=layer2:
                         if random.random()<p:
                             if randomWeights:
-                                n[node1,node2,layer1,layer2]=random.random()
+                                n[node1,node2,layer1,layer2]=1-random.random()
                             else:
                                 n[node1,node2,layer1,layer2]=1
 
-- 
2.43.0


From b93833c8d98467785d75ca9ae4826e271f8e4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 27/62] fix: models with overlapping or preferentially attached
 layers have the nodes and layers that get no edges

---
 pymnet/models.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index f5ed6b3..0763cb0 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -567,6 +567,10 @@ def conf_overlaps(ol_degs, couplings=None):
     
     for layer_comb in ol_degs:
         degs = ol_degs[layer_comb]
+        for layer in layer_comb:
+            net.add_layer(layer)
+        for node in degs:
+            net.add_node(node)
         
         # mostly modified from single_layer_conf
         stubs=[]
@@ -754,6 +758,11 @@ def er_overlaps_match_aggregated(n, edges, ps, couplings=None):
     '''
     
     net = MultiplexNetwork(couplings=couplings)
+    for node in range(n):
+        net.add_node(node)
+    for layer_comb in ps:
+        for layer in layer_comb:
+            net.add_layer(layer)
     used_edges = set()
     
     e_left = {}
@@ -824,6 +833,8 @@ def ba_total_degree(n, ms, couplings=None):
     """
     
     net = MultiplexNetwork(couplings=couplings)
+    for layer in range(len(ms)):
+        net.add_layer(layer)
     links = []
     
     for i in range(n):
-- 
2.43.0


From cdd95cf9709d3dc15e54a7fa8348eff04eec8102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 28/62] fix: read_ucinet sets all labels to lower case as
 documented

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 6d8343f..5ac4982 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -130,7 +130,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
                 fields=line.split(",")
                 for label in fields:
                     nlabels+=1
-                    yield label.strip()#.lower()
+                    yield label.strip().lower()
         except StopIteration:
             raise Exception("File ended while reading labels.")
 
-- 
2.43.0


From 74b207cdca63557dcb240c8973e542a778fdcfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 29/62] fix: read_ucinet rejects formats that are not supported

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 5ac4982..aa9b58f 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -248,7 +248,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
     else:
         net=MultiplexNetwork(couplings=[couplings],fullyInterconnected=fullyInterconnected)
 
-    if format=="fullmatrix" or "fullmatrix diagonal present":
+    if format=="fullmatrix" or format=="fullmatrix diagonal present":
         try:
             if labels_embedded: #first line is labels
                 #clabels=map(lambda x:x.lower(),ii.next().split())
-- 
2.43.0


From fb9d2cfe7a3ca47f54f097ec29595c9002ad10e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 30/62] fix: read_ucinet keeps nodes without edges in monoplex
 networks

---
 pymnet/netio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index aa9b58f..f70543c 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -286,7 +286,12 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
         raise Exception("Format '%s' is not supported" % format)
 
 
-    if fullyInterconnected and nm!=1:
+    if fullyInterconnected and nm==1:
+        for node in clabels:
+            net.add_node(node)
+        for node in rlabels:
+            net.add_node(node)
+    elif fullyInterconnected:
         for layer in llabels:
             for node in clabels:
                 net.A[layer].add_node(node)
-- 
2.43.0


From 1d9ad0284c5f0963909947fd86b02bca89d00424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 31/62] fix: webplot escapes node and layer names

---
 pymnet/visuals/webplots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/visuals/webplots.py b/pymnet/visuals/webplots.py
index e501978..9e279ed 100644
--- a/pymnet/visuals/webplots.py
+++ b/pymnet/visuals/webplots.py
@@ -117,6 +117,8 @@ def webplot(net,outputfile=None):
 
     script=webplot_template
     netdatastr=netio.write_json(net)
+    #escape for a single-quoted string in a script element
+    netdatastr=netdatastr.replace('\\','\\\\').replace("'","\\'").replace('</','<\\/')
 
     replace={"@netjson" : netdatastr}
     for key,val in replace.items():
-- 
2.43.0


From 892c5089991fbe0b206587388fa7bd0d0185b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 32/62] fix: read_ucinet failed on layers without edges

---
 pymnet/netio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index f70543c..323ff21 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -247,6 +247,8 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
         net=MultilayerNetwork(aspects=0)
     else:
         net=MultiplexNetwork(couplings=[couplings],fullyInterconnected=fullyInterconnected)
+        for layer in llabels:
+            net.add_layer(layer)
 
     if format=="fullmatrix" or format=="fullmatrix diagonal present":
         try:
-- 
2.43.0


From e5b1f606f3200a22cf0a04a5a485dbb2749640d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 33/62] fix: the weight of an edge added with several
 attributes is its weight attribute

---
 pymnet/nxwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 6aa6e8c..1ad2c65 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -70,8 +70,8 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
         if key.__class__==tuple: key=ntuple(key) 
         if isinstance(val,dict) or isinstance(val,MonoplexGraphWrapper_singleedge):
             if len(val)>0:
-                #self.net[self.node,key]=list(val.itervalues())[0]
-                self.net[self.node,key]=list( (val[key] for key in val))[0]
+                #only the weight is stored, other edge attributes are ignored
+                self.net[self.node,key]=val["weight"] if "weight" in val else 1
             else:
                 self.net[self.node,key]=1
         else:
-- 
2.43.0


From 8c0306700c0cf1304f89fa7d0e8335ee333da626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 34/62] fix: networkx is restored when a wrapped function
 raises an exception

---
 pymnet/nxwrap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 1ad2c65..6adae28 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -193,10 +193,11 @@ def networkxdecorator(f):
         networkx.Graph=MonoplexGraphNetworkxView
 
         #Run the actual function
-        rval=f(*args, **kwargs)
-
-        #Revert the modifications to NetworkX
-        networkx.Graph=networkx_Graph_original
+        try:
+            rval=f(*args, **kwargs)
+        finally:
+            #Revert the modifications to NetworkX
+            networkx.Graph=networkx_Graph_original
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
-- 
2.43.0


From cb4a7393d754420173f60708d82b9ca112912152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 35/62] fix: functions that return networkx views, e.g.
 subgraphs, returned empty networks

---
 pymnet/nxwrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 6adae28..817e2f6 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -201,6 +201,8 @@ def networkxdecorator(f):
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
+            if hasattr(rval,"_adj") and not isinstance(rval._adj,MonoplexGraphWrapper_adj):
+                rval=rval.copy() #Networkx view, e.g. a subgraph, that is not backed by its own pymnet object
             rval=rval.net
 
         return rval
-- 
2.43.0


From bda9c4653d1cbfbc15b0bfdc01ad520c6ad8f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 36/62] fix: Zhang and Onnela clustering coefficients of
 networks without edges are undefined

---
 pymnet/cc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 637bb55..50c7525 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -66,9 +66,9 @@ def cc_zhang(net,node,undefReturn=0.0):
     gcc_zhang : The global version of the clustering coefficient
 
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
+        maxw=max(map(lambda x:x[2],net.edges))
         nom,den=0,0
         for i,j in itertools.combinations(net[node],2):
             nij=net[node][i]*net[node][j]
@@ -93,7 +93,6 @@ def gcc_zhang(net):
 
     """
 
-    maxw=max(map(lambda x:x[2],net.edges))
     nom,den=0,0
     for node in net:
         degree=net[node].deg()
@@ -105,6 +104,7 @@ def gcc_zhang(net):
                 if ij!=net.noEdge:
                     nom+=nij*ij
     if den!=0:
+        maxw=max(map(lambda x:x[2],net.edges))
         return nom/float(den)/float(maxw)
     else:
         return None
@@ -121,9 +121,9 @@ def cc_onnela(net,node,undefReturn=0.0):
     ----------
     J.-P. Onnela, J. Saramaki, J. Kertesz, and K. Kaski, Phys. Rev. E 71, 065103 (2005)
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
+        maxw=max(map(lambda x:x[2],net.edges))
         nom=0
         for i,j in itertools.combinations(net[node],2):
             ij=net[i][j]
-- 
2.43.0


From 38d75ffca0ed6318bb121f4f1a4a92ebc8ff72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 37/62] fix: clustering coefficient averages take the length of
 a map or filter object

---
 pymnet/cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 50c7525..1dd2543 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -281,7 +281,7 @@ def cc_sequence(net,node):
 def cc_layers_avg(net,node):
     #how to handle undefined cc?
     nom,den=cc_sequence(net,node)
-    tot=map(lambda x,y:x/float(y),nom,den)
+    tot=list(map(lambda x,y:x/float(y),nom,den))
     return sum(tot)/float(len(tot))
 
 def cc_layers_wavg(net,node):
@@ -1117,7 +1117,7 @@ def sncc_aw_seplayers(net,supernode,w1=1./3.,w2=1./3.,w3=1./3.,undefined=None):
 
 def gcc_from_lcc(net,lcc):
     lcc_vector=map(lambda node:lcc(net,node,undefReturn=None),net)
-    lcc_fvector=filter(lambda x:x!=None,lcc_vector)
+    lcc_fvector=list(filter(lambda x:x!=None,lcc_vector))
     if len(lcc_fvector)>0:
         return sum(lcc_fvector)/len(lcc_fvector)
     else:
-- 
2.43.0


From 70569b1ea2b2ec73273c35da3753c360f0a78178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 38/62] fix: gcc_aw_seplayers_adj returns the vector also for
 two layers

---
 pymnet/cc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 1dd2543..3f39ac9 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -740,8 +740,6 @@ def gcc_aw_seplayers_adj(net,w1=1./3.,w2=1./3.,w3=1./3.,returnCVector=False):
         c2=sum(c2_nom)/float(sum(c2_den))
     else:
         c2=0
-    if len(net.slices[1])==2:
-        return w1*c1+w2*c2
     if sum(c3_den)!=0:
         c3=sum(c3_nom)/float(sum(c3_den))
     else:
-- 
2.43.0


From 733186195d88e1015a77a8da11e11294085dda0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 39/62] fix: lcc_brodka returns undefReturn when the
 neighborhood is empty

---
 pymnet/cc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 3f39ac9..bdd9508 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -1477,7 +1477,7 @@ def lcc_brodka(net,node,anet=None,threshold=1,undefReturn=0.0):
                 thneighborhood.append(neighbor)
 
     if len(thneighborhood)==0:
-        return 0.0
+        return undefReturn
 
     s=0
     if anet==None:
-- 
2.43.0


From ad41f4901647070b369804adf8d21ad9d474feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 40/62] fix: isomorphisms of monoplex networks

---
 pymnet/isomorphisms/isomcore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 90ab0ba..d02aab0 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -89,6 +89,8 @@ class AuxiliaryGraphBuilder(object):
         #edges between node-layers:
         for nl1 in self.net.iter_node_layers():
             for nl2 in self.net[nl1]:
+                if self.net.aspects==0:
+                    nl2=(nl2,) #neighbors of monoplex networks are given without the tuple
                 nl1id=self._get_node_id(nl1)
                 nl2id=self._get_node_id(nl2)
                 self.add_link(nl1id,nl2id)
-- 
2.43.0


From c5babcae6429edd9992701e2191e0abacf60cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 41/62] fix: networks with different layers in the aspects that
 are not mapped are not isomorphic

---
 pymnet/isomorphisms/isomcore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index d02aab0..93a3157 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -112,8 +112,10 @@ class AuxiliaryGraphBuilder(object):
                 self.add_link(nlid,auxid)
 
     def compare_labels(self,other):
+        if self.colormap!=other.colormap:
+            return False
         assert self.auxcolormap==other.auxcolormap #this should be true if comparable
-        return self.colormap==other.colormap
+        return True
 
 
     def compare(self,other):
-- 
2.43.0


From b52a1cecaf306299791a18b058011e29873962c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 42/62] fix: orbit_counts_all removed the edges of the given
 network

---
 pymnet/graphlets/graphlet_measures.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pymnet/graphlets/graphlet_measures.py b/pymnet/graphlets/graphlet_measures.py
index 1e81268..122ab7d 100644
--- a/pymnet/graphlets/graphlet_measures.py
+++ b/pymnet/graphlets/graphlet_measures.py
@@ -79,11 +79,6 @@ def orbit_counts_all(net, n, nets, invs, auts, orbit_list, allowed_aspects='all'
                     orbits[node, (i, j, auts[i, j, iso[0][node]])] += 1
                 else:
                     orbits[node, (i, j, auts[i, j, node])] += 1
-                    
-        for layer in layers:
-            nls = list(net[node0,:,layer])
-            for node1 in nls:
-                net[node0, node1[0], layer] = 0 #remove edges
     
     return orbits
 
-- 
2.43.0


From c3b5dac921fe19867d7f65e998ae3cd2859d0765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 43/62] fix: partitions_with_remainder used xrange

---
 pymnet/graphlets/graphlets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/graphlets/graphlets.py b/pymnet/graphlets/graphlets.py
index 2484f02..a69694a 100644
--- a/pymnet/graphlets/graphlets.py
+++ b/pymnet/graphlets/graphlets.py
@@ -688,7 +688,7 @@ def partitions_with_remainder(s, r): #Gareth Rees https://stackoverflow.com/ques
     [((0, 1, 2),), ((1, 2), (0,)), ((0, 2), (1,)), ((0, 1), (2,))]
     """
     s = set(s)
-    for n in xrange(len(s), -1, -r): # n is size of remainder.
+    for n in range(len(s), -1, -r): # n is size of remainder.
         if n == 0:
             for p in partitions(s, r):
                 yield p
-- 
2.43.0


From 71b1c22dd6610d4dd1f5201df3498b3c337b292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 44/62] fix: property rules that give no value fall back to the
 default

---
 pymnet/visuals/drawassigners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 55f1180..d278cc2 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -31,7 +31,10 @@ class PropertyAssigner(object):
         elif len(self.propRule)>0:
             assert "rule" in self.propRule, "The rule dictionary must contain 'rule' key"
             if self.propRule["rule"] in self.rules:
-                return self.apply_modify_rules(self.get_by_rule(item,self.propRule["rule"]),item)
+                val=self.get_by_rule(item,self.propRule["rule"])
+                if val is None: #the rule doesn't give a value for this item
+                    return self.defaultProp
+                return self.apply_modify_rules(val,item)
             else:
                 raise Exception("Unknown rule: "+str(self.propRule["rule"]))
         else:
-- 
2.43.0


From 9f16b6a22f172bf0dae3860189c89d272d44c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 45/62] fix: colormap modifier with new Matplotlib versions

---
 pymnet/visuals/drawassigners.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index d278cc2..bfecc2f 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -63,7 +63,11 @@ class PropertyAssigner(object):
                 item=item*self.propRule["scaleby"]
         if "colormap" in self.propRule:
             if matplotlib_loaded:
-                item=matplotlib.cm.get_cmap(self.propRule["colormap"])(item)
+                if hasattr(matplotlib,"colormaps"):
+                    cmap=matplotlib.colormaps.get_cmap(self.propRule["colormap"])
+                else: #old Matplotlib versions
+                    cmap=matplotlib.cm.get_cmap(self.propRule["colormap"])
+                item=cmap(item)
             else:
                 raise ImportError("The colormap feature uses matplotlib, and matplotlib cannot be imported.")
         return item
-- 
2.43.0


From b356fc5b69c5c2d06343378052ee2647d1a75039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 46/62] fix: directed edges were drawn also in the opposite
 direction

---
 pymnet/visuals/drawcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawcore.py b/pymnet/visuals/drawcore.py
index e06bcc4..68c0602 100644
--- a/pymnet/visuals/drawcore.py
+++ b/pymnet/visuals/drawcore.py
@@ -222,7 +222,7 @@ def draw(net,layout="spring",layershape="rectangle",azim=-51,elev=22,show=False,
         nodes[nl]=NodeBE(layers[nl[1]],xy[0],xy[1],label=nodeLabel[nl],color=nodeColor[nl],size=nodeSize[nl],labelArgs=nodeLabelArgs)
 
     for nl1 in net.iter_node_layers():
-        for nl2 in net[nl1]:
+        for nl2 in net[nl1].iter_out():
             EdgeBE(nodes[nl1],nodes[nl2],color=edgeColor[(nl1,nl2)],width=edgeWidth[(nl1,nl2)],style=edgeStyle[(nl1,nl2)],z=edgeZ[(nl1,nl2)],alpha=edgeAlpha[(nl1,nl2)])
 
     return nf.draw(ax=ax)
-- 
2.43.0


From 475e509cd5618326a6f539093db8a18424ed7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 47/62] fix: normalize_coordinates ignored the box size and
 failed for equal coordinates

---
 pymnet/visuals/layouts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 14879a8..2eb272a 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -76,8 +76,9 @@ def normalize_coordinates(coords,boxSize,inplace=False):
         if maxy==None or y>maxy:
             maxy=y
 
-    difx=maxx-minx
-    dify=maxy-miny
+    #if all the coordinate values are the same then they are placed at zero
+    scalex=boxSize[0]/float(maxx-minx) if maxx!=minx else 0.0
+    scaley=boxSize[1]/float(maxy-miny) if maxy!=miny else 0.0
     if inplace:
         newcoords=coords
     else:
@@ -85,7 +86,7 @@ def normalize_coordinates(coords,boxSize,inplace=False):
     #for node, (x, y) in coords.iteritems():
     for node in coords:
         x,y=coords[node]
-        newcoords[node]=((x-minx)/difx, (y-miny)/dify )
+        newcoords[node]=((x-minx)*scalex, (y-miny)*scaley )
     return newcoords 
 
 
-- 
2.43.0


From a526a240a8c0a0e1df3b71afb56e78a11df7cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 48/62] fix: Fruchterman-Reingold layout for nodes that are not
 aligned

---
 pymnet/visuals/layouts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 2eb272a..d31a59c 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -43,7 +43,7 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
             for nl in net.iter_node_layers():
                 nlcoords[nl]=(random.random(),random.random())
         elif layout=="fr":
-            nlcoords=get_fruchterman_reingold_multilayer_layout(net)
+            nlcoords=get_fruchterman_reingold_multilayer_layout(net,alignedNodes=False)
         else:
             raise Exception("Invalid layout: "+layout)
     return ncoords,nlcoords         
@@ -142,8 +142,8 @@ def get_fruchterman_reingold_multilayer_layout(net,
     assert isinstance(net,pymnet.MultilayerNetwork), "Invalid network type"
     assert net.aspects>=1, "No monoplex networks"
 
-    #If the network is fully interconnected, we just create network with one layer
-    if net.fullyInterconnected:
+    #If the network is fully interconnected and nodes are aligned, we just create network with one layer
+    if net.fullyInterconnected and alignedNodes:
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
         magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
         magg.add_layer("all")
-- 
2.43.0


From 6658eb12269fceecd76718f78837cc55ea1e4a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 49/62] fix: Fruchterman-Reingold layout moved the fixed nodes
 and failed for zero iterations

---
 pymnet/visuals/layouts.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index d31a59c..59cc9d0 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -196,9 +196,15 @@ def get_fruchterman_reingold_multilayer_layout(net,
 
     #Parsing complete
 
+    #The fixed coordinates are also restored after normalizing the coordinates
+    if alignedNodes:
+        fixed=dict( ( (node,nc[node]) for node in fixedNodes if node in nc ) )
+    else:
+        fixed=dict( ( (nl,nlc[nl]) for nl in fixedNodeLayers if nl in nlc ) )
+
     #Some internal parameters
     temperature=0.1*max(boxSize)
-    delta_temperature=temperature/float(iterations)
+    delta_temperature=temperature/float(iterations) if iterations>0 else 0.0
     min_dist=0.01
 
     for iteration in range(iterations):        
@@ -235,6 +241,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
                     delta_len=math.sqrt(x**2+y**2)
                     nc[node]=(nc[node][0]+temperature*delta_len*x, nc[node][1]+temperature*delta_len*y)
             normalize_coordinates(nc,boxSize,inplace=True)
+            nc.update(fixed)
 
         else: #we have coordinates for node-layer tuples
             
@@ -274,6 +281,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
                     delta_len=math.sqrt(x**2+y**2)
                     nlc[nl]=(nlc[nl][0]+temperature*delta_len*x, nlc[nl][1]+temperature*delta_len*y)
             normalize_coordinates(nlc,boxSize,inplace=True)
+            nlc.update(fixed)
 
         temperature-=delta_temperature
     
-- 
2.43.0


From 91f357aec1d62f7a4328bfcbc1de5d1323b784dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 50/62] fix: modularity view of networks where some layer has
 no edges

---
 pymnet/net.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 301d01b..a223d0a 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1367,7 +1367,7 @@ class ModularityMultilayerNetworkView(MultilayerNetwork):
         for i in itertools.product(*mnet.slices):
             for j in itertools.product(*mnet.slices):
                 self.u+=mnet[i][j]
-        self.oneper2u=1.0/self.u/2.0
+        self.oneper2u=1.0/self.u/2.0 if self.u!=0 else 0.0
 
     def _get_link(self,item):
         v=self.mnet[item]
@@ -1377,6 +1377,8 @@ class ModularityMultilayerNetworkView(MultilayerNetwork):
             kis=self.mnet[(item[0],)+s][(COLON,)+s].str()
             kjs=self.mnet[(item[1],)+s][(COLON,)+s].str()
             ms=self.m[s]
+            if ms==0: #no edges inside the slice
+                return v
             return v-self.gamma*kis*kjs/float(2.0*ms)
         else:
             return v
-- 
2.43.0


From 96526716371317aad8f3ae0c457acf5ad8b31d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 51/62] fix: randomize_nodes_by_layer keeps the nodes that are
 on no layer

---
 pymnet/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index a8624eb..185a700 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -482,6 +482,8 @@ def randomize_nodes_by_layer(net):
     assert isinstance(net,netmodule.MultiplexNetwork)
     assert net.aspects==1
     newnet=subnet(net,set(),net.iter_layers())
+    for node in net:
+        newnet.add_node(node)
     #for layer,inet in net.A.iteritems():
     for layer in net.A:
         inet=net.A[layer]
-- 
2.43.0


From 56aa6956a0f6fa149374caa4fa4e49ab9f9aa12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 52/62] fix: independent_equations when no equation depends on
 the others

---
 pymnet/graphlets/independent_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/graphlets/independent_equations.py b/pymnet/graphlets/independent_equations.py
index 6bb207b..3088145 100644
--- a/pymnet/graphlets/independent_equations.py
+++ b/pymnet/graphlets/independent_equations.py
@@ -483,7 +483,7 @@ def all_inds_and_deps(eq_net):
         elif n_eqs == 1:
             eq_net[eq] = eq_net[eq][0]
             
-    max_deps = 0
+    max_deps = -1
     inds = set()
     deps = set()
     for edge_comb in itertools.product(*eq_is):
-- 
2.43.0


From 4489fc35f14496aff72dbb05288a6d768232c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 53/62] fix: redundant_orbits picked orbits whose counts do not
 follow from the others

---
 pymnet/graphlets/independent_equations.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pymnet/graphlets/independent_equations.py b/pymnet/graphlets/independent_equations.py
index 3088145..4d88f6c 100644
--- a/pymnet/graphlets/independent_equations.py
+++ b/pymnet/graphlets/independent_equations.py
@@ -3,6 +3,7 @@
 
 from . import graphlets
 import itertools
+from fractions import Fraction
 from collections import defaultdict as dd
 
 def independent_equations(n, n_l, layers, allowed_aspects='all'):
@@ -96,19 +97,23 @@ def redundant_orbits(inds, eqs, orbit_is, orbit_list):
         Redundant orbits
     '''
     
-    redundants = set()
+    redundants = {}
     for eq in inds:
-        os = set()
+        coefs = {}
         for orbit in eqs[eq]:
-            o = orbit_is[orbit]
-            os.add(o)
+            coefs[orbit_is[orbit]] = Fraction(eqs[eq][orbit])
             
-        o_max = max(os)
+        # eliminate the redundant orbits that the previous equations give
+        o_max = max(coefs)
         while o_max in redundants:
-            os = os - set([o_max])
-            o_max = max(os)
+            ratio = coefs[o_max] / redundants[o_max][o_max]
+            for o, coef in redundants[o_max].items():
+                coefs[o] = coefs.get(o, 0) - ratio * coef
+                if coefs[o] == 0:
+                    del coefs[o]
+            o_max = max(coefs)
             
-        redundants.add(o_max)
+        redundants[o_max] = coefs
         
     redundants = list(redundants)
     reds = []
-- 
2.43.0


From 404b618e967ae33d7fe5bde42a345feed871be16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 54/62] fix: aggregate sums only the weights of edges when
 noEdge is not 0

---
 pymnet/transforms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 185a700..1bf0015 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -80,12 +80,17 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
 
     #Add edges
     edgeIndices=list(filter(lambda x:math.floor(x/2) not in aspects,range(2*(net.aspects+1))))
+    sums=netmodule.MultilayerNetwork(aspects=newNet.aspects,noEdge=None,directed=newNet.directed)
     for edge in net.edges:
         newEdge=[]
         for index in edgeIndices:
             newEdge.append(edge[index])
         if selfEdges or not newEdge[0::2]==newEdge[1::2]:
-            newNet[tuple(newEdge)]=newNet[tuple(newEdge)]+edge[-1]
+            oldWeight=sums[tuple(newEdge)]
+            sums[tuple(newEdge)]=edge[-1] if oldWeight is None else oldWeight+edge[-1]
+    for edge in sums.edges:
+        oldWeight=newNet[edge[:-1]]
+        newNet[edge[:-1]]=edge[-1] if oldWeight==newNet.noEdge else oldWeight+edge[-1]
 
     #Add node-layer tuples (if not node-aligned)
     if not net.fullyInterconnected and newNet.aspects>0:
-- 
2.43.0


From 22b123995a11ba1156d4273251b76393cc5517a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 55/62] fix: overlay_network sums only the weights of edges
 when noEdge is not 0

---
 pymnet/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 1bf0015..d20b84e 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -125,7 +125,9 @@ def overlay_network(net):
         for node1 in net.slices[0]:
             for node2 in net.slices[0]:
                 if net.directed or node1>node2:
-                    newnet[node1,node2]=newnet[node1,node2]+net[node1,node2,layer,layer]
+                    weight=net[node1,node2,layer,layer]
+                    if weight!=net.noEdge:
+                        newnet[node1,node2]=newnet[node1,node2]+weight
     return newnet
 
 def subnet(net,nodes,*layers,**kwargs):
-- 
2.43.0


From 20bf9802742ab9413973121d9d2e5d452986d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 56/62] fix: supra-adjacency matrix is 0 where there is no edge
 when noEdge is not 0

---
 pymnet/net.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index a223d0a..50139e9 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -647,14 +647,15 @@ class MultilayerNetwork(object):
             matrix=numpy.zeros((len(nodes),len(nodes)),dtype=float)
             for i_index,i in enumerate(nodes):
                 for j_index,j in enumerate(nodes):
-                    if includeCouplings or i[1:]==j[1:]:
+                    if (includeCouplings or i[1:]==j[1:]) and self[i][j]!=self.noEdge:
                         matrix[i_index,j_index]=self[i][j]
         else:
             nodes=sorted(self)
             matrix=numpy.zeros((len(nodes),len(nodes)),dtype=float)
             for i_index,i in enumerate(nodes):
                 for j_index,j in enumerate(nodes):
-                    matrix[i_index,j_index]=self[i][j]
+                    if self[i][j]!=self.noEdge:
+                        matrix[i_index,j_index]=self[i][j]
 
         return numpy.matrix(matrix),nodes
 
-- 
2.43.0


From 02325d817e6e9dff400ea6cd5f53854d7fbc4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 57/62] fix: overlap_degs removes the counted edges also when
 noEdge is not 0

---
 pymnet/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 454ff60..267014a 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -128,7 +128,7 @@ def overlap_degs(net):
             if n_l > 1:
                 for e in thr_net.edges:
                     for layer in layer_comb:
-                        net0[e[0], e[1], layer] = 0
+                        net0[e[0], e[1], layer] = net0.noEdge
                         
     return ol_degs
     
-- 
2.43.0


From f79c8f0fc942dbe6878e4c524e3e76bfb27028e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:18 +0000
Subject: [PATCH 58/62] fix: subgraph enumeration keeps edges of weight 0 when
 noEdge is not 0

---
 pymnet/sampling/esu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/sampling/esu.py b/pymnet/sampling/esu.py
index 842736b..a720c41 100644
--- a/pymnet/sampling/esu.py
+++ b/pymnet/sampling/esu.py
@@ -222,7 +222,7 @@ def sample_multilayer_subgraphs_esu(network,results,sizes=None,intersections=Non
     [1] "A Faster Algorithm for Detecting Network Motifs", S. Wernicke, WABI. Vol. 3692, pp. 165-177. Springer 2005.
     """
     if copy_network == True:
-        network_copy = pymnet.subnet(network,network.get_layers(aspect=0),network.get_layers(aspect=1),newNet=pymnet.MultilayerNetwork(aspects=1,fullyInterconnected=False))
+        network_copy = pymnet.subnet(network,network.get_layers(aspect=0),network.get_layers(aspect=1),newNet=pymnet.MultilayerNetwork(aspects=1,noEdge=network.noEdge,fullyInterconnected=False))
     else:
         network_copy = network
         
@@ -309,7 +309,7 @@ def sample_multilayer_subgraphs_esu(network,results,sizes=None,intersections=Non
             _extend_subgraph(network_copy,[start_node],[start_layer],check_function,V_extension_nodes,V_extension_layers,numberings,v,req_nodelist_len,req_layerlist_len,depth+1,p,results)
         if copy_network == True:
             for neighbor in list(network_copy[v]):
-                network_copy[neighbor][v] = 0
+                network_copy[neighbor][v] = network_copy.noEdge
 
 def _extend_subgraph(network,nodelist,layerlist,check_function,V_extension_nodes,V_extension_layers,numberings,v,req_nodelist_len,req_layerlist_len,depth,p,results):    
     # A helper function of sample_multilayer_subgraphs_esu, not intended for use by users    
-- 
2.43.0


From a8b16e2a1e0fe32f70b93c998f1f54682b905eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:30 +0000
Subject: [PATCH 59/62] fix: nodes of the three.js page are at the ends of
 their links

---
 pymnet/visuals/drawbackends/threejs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/drawbackends/threejs.py b/pymnet/visuals/drawbackends/threejs.py
index 1e52422..164a0a9 100644
--- a/pymnet/visuals/drawbackends/threejs.py
+++ b/pymnet/visuals/drawbackends/threejs.py
@@ -38,8 +38,8 @@ class NodeThreeJS(drawnet.Node):
 
         """
         snippet=snippet.replace("@x",str(SIZE*self.x))
-        snippet=snippet.replace("@y",str(10*SIZE*self.y))
-        snippet=snippet.replace("@z",str(10*SIZE*self.layer.z))
+        snippet=snippet.replace("@y",str(SIZE*self.y))
+        snippet=snippet.replace("@z",str(SIZE*self.layer.z))
         snippet=snippet.replace("@r",str(0.1*self.size/2.))
 
         self.net.node_snippets.append(snippet)
-- 
2.43.0


From b7da1b9340d1c636d478f5e85416959848b9a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:30 +0000
Subject: [PATCH 60/62] fix: overlay_network of networks with nodes that cannot
 be ordered

---
 pymnet/transforms.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index d20b84e..2fab5ff 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -119,15 +119,15 @@ def overlay_network(net):
     """
     assert net.aspects==1
     newnet=netmodule.MultilayerNetwork(directed=net.directed)
-    for node in net:
+    nodes=list(net)
+    for node in nodes:
         newnet.add_node(node)
     for layer in net.slices[1]:
-        for node1 in net.slices[0]:
-            for node2 in net.slices[0]:
-                if net.directed or node1>node2:
-                    weight=net[node1,node2,layer,layer]
-                    if weight!=net.noEdge:
-                        newnet[node1,node2]=newnet[node1,node2]+weight
+        for i,node1 in enumerate(nodes):
+            for node2 in (nodes if net.directed else nodes[:i]):
+                weight=net[node1,node2,layer,layer]
+                if weight!=net.noEdge:
+                    newnet[node1,node2]=newnet[node1,node2]+weight
     return newnet
 
 def subnet(net,nodes,*layers,**kwargs):
-- 
2.43.0


From e302bc89a7d27bf7851dd48305f91764d95bc473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:30 +0000
Subject: [PATCH 61/62] fix: dijkstra of networks with nodes that cannot be
 ordered

---
 pymnet/diagnostics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 267014a..fba2ad0 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -149,11 +149,12 @@ def dijkstra(net,sources):
     d=dict([(s,0) for s in sources])
 
     queue=[]
+    counter=itertools.count() #breaks the ties, as all node names cannot be compared
     for s in sources:
-        heapq.heappush(queue,(0,s,s)) #distance, source, dest
+        heapq.heappush(queue,(0,next(counter),s,s)) #distance, counter, source, dest
     
     while len(queue)>0:
-        dist,source,dest=heapq.heappop(queue)
+        dist,dummy,source,dest=heapq.heappop(queue)
         if d[dest]>=dist: #could be ==
             assert d[dest]==dist, " ".join(map(str,[dist,source,dest,d[dest]]))
             forest[source][dest]=net[source][dest]
@@ -161,7 +162,7 @@ def dijkstra(net,sources):
                 ndist=dist+net[dest][neigh]
                 if neigh not in d or d[neigh]>=ndist:
                     d[neigh]=ndist      
-                    heapq.heappush(queue,(ndist,dest,neigh))
+                    heapq.heappush(queue,(ndist,next(counter),dest,neigh))
 
 
     return d,forest
-- 
2.43.0


From 73f0129a8c94e6fac58156e2268a0ea0ee345771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:40 +0000
Subject: [PATCH 62/62] fix: ws gives all nodes also when the layers have too
 few edges for a ring lattice

---
 pymnet/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 0763cb0..eeb8671 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -891,6 +891,8 @@ try:
         """
 
         net = MultiplexNetwork(couplings=couplings)
+        for node in range(n):
+            net.add_node(node)
         for layer, m in enumerate(edges):
             net.add_layer(layer)
             net.A[layer] = nx.watts_strogatz_graph(n, int(math.ceil(2*m / float(n))), p=p)
-- 
2.43.0


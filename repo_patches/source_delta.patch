From 83a3986d2a2b6bc59c8ba8bd207156da9cc95d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 01/22] fix: copying absent attributes returns an empty set
 instead of panicking

---
 pkg/attrs/memory/memory.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/attrs/memory/memory.go b/pkg/attrs/memory/memory.go
index b8b916e..d2ea06c 100644
--- a/pkg/attrs/memory/memory.go
+++ b/pkg/attrs/memory/memory.go
@@ -21,12 +21,12 @@ func New() *Attrs {
 func NewCopyFrom(ctx context.Context, a attrs.Attrs) (*Attrs, error) {
 	attrs := make(Attrs)
 
-	keys, err := a.Keys(ctx)
-	if err != nil {
-		return nil, err
-	}
-
 	if a != nil {
+		keys, err := a.Keys(ctx)
+		if err != nil {
+			return nil, err
+		}
+
 		for _, k := range keys {
 			attrs[k], err = a.Get(ctx, k)
 			if err != nil {
-- 
2.43.0


From 9cf2e8ac70ad05714c4dfcb5ddfd4258ca1e8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 02/22] fix: an edge created without a weight has the default
 weight

---
 pkg/graph/memory/edge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/memory/edge.go b/pkg/graph/memory/edge.go
index e083b24..c0f4a05 100644
--- a/pkg/graph/memory/edge.go
+++ b/pkg/graph/memory/edge.go
@@ -28,7 +28,9 @@ type Edge struct {
 // If both WithUID and WithDOTID are provided
 // DOTID overrides the UID value.
 func NewEdge(from, to *Node, opts ...graph.Option) (*Edge, error) {
-	eopts := graph.Options{}
+	eopts := graph.Options{
+		Weight: graph.DefaultWeight,
+	}
 	for _, apply := range opts {
 		apply(&eopts)
 	}
-- 
2.43.0


From 88407a6ae8807d6ce72bd639f26cf6e2af3ddce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 03/22] fix: exporting a graph to DOT releases its lock

---
 pkg/graph/memory/wg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 557325d..122f7b0 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -411,7 +411,7 @@ func (g *WG) DOTAttributers() (graph, node, edge encoding.Attributer) {
 // DOT returns the GrapViz dot representation of the graph.
 func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
-	defer g.mu.RLock()
+	defer g.mu.RUnlock()
 
 	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
 	if err != nil {
-- 
2.43.0


From 00d096ea0ba493efd0e8b1720bd0710d84f1ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 04/22] fix: the DOT export carries the graph's DOT ID and
 default attributes

---
 pkg/graph/memory/wg.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 122f7b0..d557064 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -49,13 +49,26 @@ func NewWG(wg WeightedGraphBuilder, opts ...graph.Option) (*WG, error) {
 		dotid = uid.String()
 	}
 
+	dotOpts := gopts.DOTOptions
+	if dotOpts.GraphAttrs == nil {
+		dotOpts.GraphAttrs = memattrs.New()
+	}
+
+	if dotOpts.NodeAttrs == nil {
+		dotOpts.NodeAttrs = memattrs.New()
+	}
+
+	if dotOpts.EdgeAttrs == nil {
+		dotOpts.EdgeAttrs = memattrs.New()
+	}
+
 	return &WG{
 		WeightedGraphBuilder: wg,
 		mu:                   &sync.RWMutex{},
 		uid:                  uid,
 		dotid:                dotid,
 		nodes:                make(map[string]graph.Node),
-		dot:                  gopts.DOTOptions,
+		dot:                  dotOpts,
 	}, nil
 }
 
@@ -413,7 +426,22 @@ func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
 	defer g.mu.RUnlock()
 
-	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
+	var dg gonum.Graph = g.WeightedGraphBuilder
+
+	// NOTE: DOT attributers must be encoded along with the directedness of the graph.
+	if d, ok := g.WeightedGraphBuilder.(gonum.Directed); ok {
+		dg = struct {
+			gonum.Directed
+			dot.Attributers
+		}{d, g}
+	} else {
+		dg = struct {
+			gonum.Graph
+			dot.Attributers
+		}{dg, g}
+	}
+
+	b, err := dot.Marshal(dg, g.dotid, "", "  ")
 	if err != nil {
 		return "", fmt.Errorf("DOT marshal error: %w", err)
 	}
-- 
2.43.0


From e7f7f852616df190b908576ed1f06c099f66d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 05/22] fix: adding a stored UID is refused and an upsert
 replaces the node everywhere

---
 pkg/graph/memory/edge.go | 13 ++++++++++++
 pkg/graph/memory/wg.go   | 43 +++++++++++++++++++++++++++++++---------
 2 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/pkg/graph/memory/edge.go b/pkg/graph/memory/edge.go
index c0f4a05..84d8802 100644
--- a/pkg/graph/memory/edge.go
+++ b/pkg/graph/memory/edge.go
@@ -94,6 +94,19 @@ func (e *Edge) ReversedEdge() gngraph.Edge {
 	}
 }
 
+// replaceNode returns a new edge with the end point old replaced with n.
+func (e *Edge) replaceNode(old, n *Node) *Edge {
+	edge := *e
+
+	if edge.from.ID() == old.ID() {
+		edge.from = n
+	} else {
+		edge.to = n
+	}
+
+	return &edge
+}
+
 // FromNode returns the from node of the first non-nil edge, or nil.
 func (e Edge) FromNode() (graph.Node, error) {
 	return e.from, nil
diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index d557064..ff13aa0 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -126,25 +126,50 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
+	uid := n.UID().String()
+
+	old, exists := g.nodes[uid].(*Node)
+	if exists && !gopts.Upsert {
+		return graph.ErrDuplicateNode
+	}
+
 	if node := g.WeightedGraphBuilder.Node(gnode.ID()); node != nil {
-		if _, ok := g.nodes[n.UID().String()]; ok {
-			if !gopts.Upsert {
-				return graph.ErrDuplicateNode
-			}
-			g.nodes[n.UID().String()] = n
+		if !exists || old.ID() != gnode.ID() {
+			panic(fmt.Sprintf("node ID collision: %d", gnode.ID()))
 		}
+	}
 
-		g.nodes[n.UID().String()] = n
-
-		return nil
+	var edges []*Edge
+	if exists {
+		edges = g.nodeEdges(old)
+		g.WeightedGraphBuilder.RemoveNode(old.ID())
 	}
 
 	g.WeightedGraphBuilder.AddNode(gnode)
-	g.nodes[n.UID().String()] = n
+	g.nodes[uid] = n
+
+	for _, e := range edges {
+		g.SetWeightedEdge(e.replaceNode(old, gnode))
+	}
 
 	return nil
 }
 
+// nodeEdges returns all the edges attached to the node n.
+func (g *WG) nodeEdges(n *Node) []*Edge {
+	var edges []*Edge
+
+	wedges := g.WeightedGraphBuilder.WeightedEdges()
+	for wedges.Next() {
+		e := wedges.WeightedEdge().(*Edge)
+		if e.from.ID() == n.ID() || e.to.ID() == n.ID() {
+			edges = append(edges, e)
+		}
+	}
+
+	return edges
+}
+
 // Node returns the node with the given ID if it exists
 // in the graph, and error if it could not be found.
 func (g *WG) Node(ctx context.Context, uid uuid.UID) (graph.Node, error) {
-- 
2.43.0


From cecfa6e752ac77db205935b77bba81674b14e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 06/22] fix: nodes created before they are added never share an
 ID

---
 pkg/graph/memory/wg.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index ff13aa0..7bc5b0b 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -28,6 +28,8 @@ type WG struct {
 	dotid string
 	// nodes maps graph nodes
 	nodes map[string]graph.Node
+	// nextID is the first node ID NewNode has not handed out yet
+	nextID int64
 	// dot are graph DOT options
 	dot graph.DOTOptions
 }
@@ -73,7 +75,7 @@ func NewWG(wg WeightedGraphBuilder, opts ...graph.Option) (*WG, error) {
 }
 
 // UID returns graph UID
-func (g WG) UID() uuid.UID {
+func (g *WG) UID() uuid.UID {
 	return g.uid
 }
 
@@ -87,22 +89,21 @@ func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option
 		apply(&gopts)
 	}
 
+	// NOTE: the IDs of the nodes which have not been added
+	// to the graph yet must not be handed out again either.
 	g.mu.Lock()
-	gnode := g.WeightedGraphBuilder.NewNode()
+	for g.WeightedGraphBuilder.Node(g.nextID) != nil {
+		g.nextID++
+	}
+	id := g.nextID
+	g.nextID++
 	g.mu.Unlock()
 
-	node, err := NewNode(gnode.ID(), ent, opts...)
+	node, err := NewNode(id, ent, opts...)
 	if err != nil {
 		return nil, err
 	}
 
-	g.mu.Lock()
-	if n, ok := g.nodes[node.UID().String()]; ok {
-		g.mu.Unlock()
-		return n, nil
-	}
-	g.mu.Unlock()
-
 	return node, nil
 }
 
@@ -433,7 +434,7 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 }
 
 // DOTID returns the graph DOT ID.
-func (g WG) DOTID() string {
+func (g *WG) DOTID() string {
 	return g.dotid
 }
 
-- 
2.43.0


From 4a9e12be096c260a06ac8277bf0af52c39515c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 07/22] fix: graph updates look up and change the graph under
 one lock

---
 pkg/graph/memory/wg.go | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 7bc5b0b..9ec76dd 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -201,22 +201,19 @@ func (g *WG) Nodes(ctx context.Context) ([]graph.Node, error) {
 
 // RemoveNode removes the node with the given uid from graph.
 func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	node, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	gnode, ok := node.(*Node)
 	if !ok {
 		return graph.ErrInvalidNode
 	}
 
-	g.mu.Lock()
-	defer g.mu.Unlock()
-
 	g.WeightedGraphBuilder.RemoveNode(gnode.ID())
 
 	delete(g.nodes, uid.String())
@@ -227,33 +224,27 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
 // It returns error if either of the nodes does not exist in the graph.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
-	g.mu.RLock()
-	e, err := g.Edge(ctx, from, to)
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
+	e, err := g.edge(from, to)
 	if err != nil && !errors.Is(err, graph.ErrEdgeNotExist) {
-		g.mu.RUnlock()
 		return nil, err
 	}
 
 	if e != nil {
-		g.mu.RUnlock()
 		return e, nil
 	}
 
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
-
-	g.mu.Lock()
-	defer g.mu.Unlock()
 
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
@@ -270,6 +261,12 @@ func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
 	g.mu.RLock()
 	defer g.mu.RUnlock()
 
+	return g.edge(uid, vid)
+}
+
+// edge returns edge between nodes with the given UIDs.
+// NOTE: the caller must hold the graph lock.
+func (g *WG) edge(uid, vid uuid.UID) (graph.Edge, error) {
 	from, ok := g.nodes[uid.String()]
 	if !ok {
 		return nil, graph.ErrNodeNotFound
@@ -332,26 +329,23 @@ func (g *WG) From(ctx context.Context, uid uuid.UID) ([]graph.Node, error) {
 // Unlink removes the link between from and to nodes.
 // If neither of the nodes with given UIDs exist it returns nil.
 func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	// NOTE: it's safe to switch type without checking if possible
 	// the nodes in g.nodes are guaranteed to be *Nodes since the only
 	// way to add nodes in is via AddNode which does type assertion
-	g.mu.Lock()
 	g.WeightedGraphBuilder.RemoveEdge(f.(*Node).ID(), t.(*Node).ID())
-	g.mu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From 557c9e9350d09eb71035103c3ff00a89e277f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 08/22] fix: linking a node to itself is refused instead of
 panicking

---
 pkg/graph/memory/wg.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 9ec76dd..7b7ed70 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -222,7 +222,7 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 }
 
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
-// It returns error if either of the nodes does not exist in the graph.
+// It returns error if either of the nodes does not exist in the graph or if they are the same node.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
 	g.mu.Lock()
 	defer g.mu.Unlock()
@@ -246,6 +246,10 @@ func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option)
 		return nil, graph.ErrNodeNotFound
 	}
 
+	if f.(*Node).ID() == t.(*Node).ID() {
+		return nil, fmt.Errorf("%w: self link", graph.ErrUnsupported)
+	}
+
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5815adcddeac21a732bb3d2339a6191a9173e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 09/22] fix: a subgraph has the graph's directedness and each
 link's own weight and attributes

---
 pkg/graph/memory/wg.go | 50 +++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 7b7ed70..f4b7ab7 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -357,14 +357,14 @@ func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option
 // SubGraph returns the subgraph of the graph rooted in the node with the given uid up to the given depth.
 func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...graph.Option) (graph.Graph, error) {
 	g.mu.RLock()
+	defer g.mu.RUnlock()
+
 	root, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
 
-	sg, err := NewWDG(opts...)
+	sg, err := g.newSubGraph(opts...)
 	if err != nil {
 		return nil, err
 	}
@@ -388,11 +388,9 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 		Visit: visit,
 	}
 
-	g.mu.RLock()
 	_ = bfs.Walk(g.WeightedGraphBuilder, root.(*Node), func(n gonum.Node, d int) bool {
 		return d == depth
 	})
-	g.mu.RUnlock()
 
 	if sgErr != nil {
 		return nil, sgErr
@@ -404,24 +402,21 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 			pnode := nodes.Node()
 			peer := pnode.(*Node)
 			if to, ok := sgNodes[peer.ID()]; ok {
-				if edges := g.WeightedEdges(); edges != nil {
-					for edges.Next() {
-						we := edges.WeightedEdge()
-						e := we.(*Edge)
-
-						a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
-						if err != nil {
-							return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
-						}
-
-						opts := []graph.Option{
-							graph.WithAttrs(a),
-							graph.WithWeight(e.Weight()),
-						}
-
-						if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
-							return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
-						}
+				if we := g.WeightedEdge(id, peer.ID()); we != nil {
+					e := we.(*Edge)
+
+					a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
+					if err != nil {
+						return nil, fmt.Errorf("subgraph %s attr copy error: %w", sg.UID(), err)
+					}
+
+					opts := []graph.Option{
+						graph.WithAttrs(a),
+						graph.WithWeight(e.Weight()),
+					}
+
+					if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
+						return nil, fmt.Errorf("subgraph %s link error: %w", sg.UID(), err)
 					}
 				}
 			}
@@ -431,6 +426,15 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 	return sg, nil
 }
 
+// newSubGraph creates a new graph of the same directedness as g and returns it.
+func (g *WG) newSubGraph(opts ...graph.Option) (Graph, error) {
+	if _, ok := g.WeightedGraphBuilder.(gonum.Directed); ok {
+		return NewWDG(opts...)
+	}
+
+	return NewWUG(opts...)
+}
+
 // DOTID returns the graph DOT ID.
 func (g *WG) DOTID() string {
 	return g.dotid
-- 
2.43.0


From c747e54c162b27f064adafa2c877e6b44ed59d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 10/22] fix: a bulk get returns every entity asked for

---
 pkg/store/memory/store.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 0567a14..5b49469 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -200,8 +200,7 @@ func (m *Memory) BulkGet(ctx context.Context, uids []uuid.UID, opts ...store.Opt
 
 	ents := make([]store.Entity, len(uids))
 
-	i := 0
-	for _, uid := range uids {
+	for i, uid := range uids {
 		e, err := m.get(ctx, uid, opts...)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 47488ad5d088839e00929f3b5ee9f39e6d598e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 11/22] fix: a stored entity keeps its own attributes unless
 others are given

---
 pkg/store/memory/store.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 5b49469..33f17cc 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -71,7 +71,12 @@ func (m *Memory) add(ctx context.Context, e store.Entity, opts ...store.Option)
 		apply(&aopts)
 	}
 
-	n, err := m.g.NewNode(ctx, e, graph.WithAttrs(aopts.Attrs))
+	attrs := aopts.Attrs
+	if attrs == nil {
+		attrs = e.Attrs()
+	}
+
+	n, err := m.g.NewNode(ctx, e, graph.WithAttrs(attrs))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 52f279644936e8a5e0670ae11785932fb3514bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 12/22] fix: putting a link in the cache keeps the other links
 of its endpoints

---
 pkg/cache/memory/links.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 489f89d..53d313f 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -35,11 +35,11 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 
 	f, t := link.From(), link.To()
 
-	if c.from[f][t] == nil {
+	if c.from[f] == nil {
 		c.from[f] = make(map[uuid.UID]cache.Link)
 	}
 
-	if c.to[t][f] == nil {
+	if c.to[t] == nil {
 		c.to[t] = make(map[uuid.UID]cache.Link)
 	}
 
-- 
2.43.0


From 45c4de1655feaa42d98c43d3e51dc308bd01aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 13/22] fix: cached links are found by the value of their UIDs

---
 pkg/cache/memory/links.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 53d313f..1424e59 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -10,10 +10,10 @@ import (
 
 // Links in is-memory cache.Link cache.
 type Links struct {
-	// from indexes from->to links.
-	from map[uuid.UID]map[uuid.UID]cache.Link
-	// to indexes to<-from links.
-	to map[uuid.UID]map[uuid.UID]cache.Link
+	// from indexes from->to links by the values of their UIDs.
+	from map[string]map[string]cache.Link
+	// to indexes to<-from links by the values of their UIDs.
+	to map[string]map[string]cache.Link
 	// mu synchronizes access to Links
 	mu *sync.RWMutex
 }
@@ -21,8 +21,8 @@ type Links struct {
 // NewLinks creates a new Links cache and returns it
 func NewLinks() (*Links, error) {
 	return &Links{
-		from: make(map[uuid.UID]map[uuid.UID]cache.Link),
-		to:   make(map[uuid.UID]map[uuid.UID]cache.Link),
+		from: make(map[string]map[string]cache.Link),
+		to:   make(map[string]map[string]cache.Link),
 		mu:   &sync.RWMutex{},
 	}, nil
 }
@@ -33,14 +33,14 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 		apply(&copts)
 	}
 
-	f, t := link.From(), link.To()
+	f, t := link.From().String(), link.To().String()
 
 	if c.from[f] == nil {
-		c.from[f] = make(map[uuid.UID]cache.Link)
+		c.from[f] = make(map[string]cache.Link)
 	}
 
 	if c.to[t] == nil {
-		c.to[t] = make(map[uuid.UID]cache.Link)
+		c.to[t] = make(map[string]cache.Link)
 	}
 
 	if copts.Upsert {
@@ -66,7 +66,7 @@ func (c *Links) Put(ctx context.Context, link cache.Link, opts ...cache.Option)
 	return c.put(ctx, link, opts...)
 }
 
-func (c *Links) get(ctx context.Context, uid uuid.UID, index map[uuid.UID]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
+func (c *Links) get(ctx context.Context, uid uuid.UID, index map[string]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
 	lx := make([]cache.Link, len(index))
 
 	i := 0
@@ -83,7 +83,7 @@ func (c *Links) GetFrom(ctx context.Context, uid uuid.UID, opts ...cache.Option)
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if from, ok := c.from[uid]; ok {
+	if from, ok := c.from[uid.String()]; ok {
 		return c.get(ctx, uid, from, opts...)
 	}
 
@@ -95,7 +95,7 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if to, ok := c.to[uid]; ok {
+	if to, ok := c.to[uid.String()]; ok {
 		return c.get(ctx, uid, to, opts...)
 	}
 
@@ -103,8 +103,8 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
-	delete(c.to, uid)
-	delete(c.from, uid)
+	delete(c.to, uid.String())
+	delete(c.from, uid.String())
 	return nil
 }
 
@@ -120,8 +120,8 @@ func (c *Links) Clear(ctx context.Context, opts ...cache.Option) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	c.from = make(map[uuid.UID]map[uuid.UID]cache.Link)
-	c.to = make(map[uuid.UID]map[uuid.UID]cache.Link)
+	c.from = make(map[string]map[string]cache.Link)
+	c.to = make(map[string]map[string]cache.Link)
 
 	return nil
 }
@@ -148,7 +148,7 @@ func (c *Links) BulkGetFrom(ctx context.Context, uids []uuid.UID, opts ...cache.
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		from, ok := c.from[uid]
+		from, ok := c.from[uid.String()]
 		if !ok {
 			continue
 		}
@@ -171,7 +171,7 @@ func (c *Links) BulkGetTo(ctx context.Context, uids []uuid.UID, opts ...cache.Op
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		to, ok := c.to[uid]
+		to, ok := c.to[uid.String()]
 		if !ok {
 			continue
 		}
-- 
2.43.0


From aaf20274feb0e9c881362155d9db8e3d5de8c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 14/22] fix: deleting a UID from the cache removes its links
 from both sides

---
 pkg/cache/memory/links.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 1424e59..cc54a55 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -103,8 +103,19 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
-	delete(c.to, uid.String())
-	delete(c.from, uid.String())
+	id := uid.String()
+
+	for from := range c.to[id] {
+		delete(c.from[from], id)
+	}
+
+	for to := range c.from[id] {
+		delete(c.to[to], id)
+	}
+
+	delete(c.to, id)
+	delete(c.from, id)
+
 	return nil
 }
 
-- 
2.43.0


From 798bb1f93961403a8bb6ddffe1998f90ace41d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 15/22] fix: a broker session ends only by its own close or
 context and leaves nothing behind

---
 pkg/broker/memory/memory.go | 58 +++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index cfeedf0..5e0a855 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -66,16 +66,16 @@ func New(opts ...broker.Option) (*Memory, error) {
 	}, nil
 }
 
-// run starts the broker.
-func (m *Memory) run(ctx context.Context) {
-	defer m.Close()
+// run serves the broker session that ends when exit is closed.
+func (m *Memory) run(ctx context.Context, exit chan struct{}, ctl <-chan sub) {
 	for {
 		select {
 		case <-ctx.Done():
+			m.end(exit)
 			return
-		case <-m.exit:
+		case <-exit:
 			return
-		case sub := <-m.ctl:
+		case sub := <-ctl:
 			m.Lock()
 			if _, ok := m.subs[sub.topic]; ok {
 				delete(m.subs[sub.topic], sub.id)
@@ -87,15 +87,12 @@ func (m *Memory) run(ctx context.Context) {
 
 // Open opens a new broker session.
 func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
-	m.RLock()
+	m.Lock()
+	defer m.Unlock()
+
 	if m.connected {
-		m.RUnlock()
 		return nil
 	}
-	m.RUnlock()
-
-	m.Lock()
-	defer m.Unlock()
 
 	m.connected = true
 	m.exit = make(chan struct{})
@@ -103,7 +100,7 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 
 	// TODO: we should make sure Close() stops this goroutine
 	// Try adding it to a sync.WaitGroup
-	go m.run(ctx)
+	go m.run(ctx, m.exit, m.ctl)
 
 	return nil
 }
@@ -196,26 +193,37 @@ func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (
 	return sub, nil
 }
 
-// Close closes broker session.
-func (m *Memory) Close() error {
-	m.Lock()
-	defer m.Unlock()
-
+// close ends the current session.
+// NOTE: the caller must hold the lock.
+func (m *Memory) close() {
 	if !m.connected {
-		return nil
+		return
 	}
 
 	close(m.exit)
 
-	for topic, subs := range m.subs {
-		for id := range subs {
-			delete(m.subs[topic], id)
-		}
-		delete(m.subs, topic)
-		delete(m.topics, topic)
-	}
+	m.subs = make(map[string]map[string]*Subscriber)
+	m.topics = make(map[string]queue)
 
 	m.connected = false
+}
+
+// end ends the session with the given exit channel unless it has ended already.
+func (m *Memory) end(exit chan struct{}) {
+	m.Lock()
+	defer m.Unlock()
+
+	if m.exit == exit {
+		m.close()
+	}
+}
+
+// Close closes broker session.
+func (m *Memory) Close() error {
+	m.Lock()
+	defer m.Unlock()
+
+	m.close()
 
 	return nil
 }
-- 
2.43.0


From 2bf47b280e9315c5dc637ce22263b8eec6ce042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 16/22] fix: a publish that was not accepted fails and leaves
 the broker alone

---
 pkg/broker/memory/memory.go | 62 ++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 5e0a855..255496b 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -105,12 +105,32 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 	return nil
 }
 
+// queue returns the queue of the given topic in the current session.
+// If the topic does not exist, it is automatically created.
+// NOTE: the caller must hold the lock.
+func (m *Memory) queue(topic string) (queue, error) {
+	if !m.connected {
+		return queue{}, broker.ErrNotConnected
+	}
+
+	q, ok := m.topics[topic]
+	if !ok {
+		q = queue{
+			msg:  make(chan broker.Message, m.size),
+			exit: m.exit,
+		}
+		m.topics[topic] = q
+	}
+
+	return q, nil
+}
+
 func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, timeout time.Duration) error {
 	select {
 	case <-ctx.Done():
-		return m.Close()
-	case <-m.exit:
-		return nil
+		return ctx.Err()
+	case <-q.exit:
+		return broker.ErrNotConnected
 	case <-time.After(timeout):
 		return broker.ErrTimeout
 	case q.msg <- msg:
@@ -122,13 +142,6 @@ func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, ti
 // If the topic does not exist, it is automatically created.
 // NOTE: Pub is a blocking call!
 func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts ...broker.Option) error {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	popts := broker.Options{}
 	for _, apply := range opts {
 		apply(&popts)
@@ -140,40 +153,25 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 	}
 
 	m.Lock()
-	q, ok := m.topics[topic]
-	if !ok {
-		q = queue{
-			msg:  make(chan broker.Message, m.size),
-			exit: m.exit,
-		}
-		m.topics[topic] = q
-	}
+	q, err := m.queue(topic)
 	m.Unlock()
+	if err != nil {
+		return err
+	}
 
 	return m.publishMsg(ctx, q, msg, pubTimeout)
 }
 
 // Sub subscribes to the given topic.
 func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (broker.Subscriber, error) {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return nil, broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	uid := memuid.New()
 
 	m.Lock()
 	defer m.Unlock()
 
-	q, ok := m.topics[topic]
-	if !ok {
-		q = queue{
-			msg:  make(chan broker.Message, m.size),
-			exit: m.exit,
-		}
-		m.topics[topic] = q
+	q, err := m.queue(topic)
+	if err != nil {
+		return nil, err
 	}
 
 	sub := &Subscriber{
-- 
2.43.0


From af9866136a19f2ec272096aebd393b9e6a6b967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 17/22] fix: unsubscribing from several goroutines at once does
 not panic

---
 pkg/broker/memory/subscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 881e479..5222d87 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -31,8 +31,8 @@ func (s *Subscriber) Topic(ctx context.Context, opts ...broker.Option) (string,
 
 // Unsubscribe unsubscribes from the topic.
 func (s *Subscriber) Unsubscribe(ctx context.Context, opts ...broker.Option) error {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.active {
 		close(s.exit)
-- 
2.43.0


From d506eae8a062894ba2e8cad9fac8faf8893312a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 18/22] fix: a receive that handled no message returns an error

---
 pkg/broker/memory/subscriber.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 5222d87..564207f 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -69,9 +69,16 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 	}
 	s.RUnlock()
 
+	// NOTE: messages of a session that has ended are not delivered
+	select {
+	case <-s.queue.exit:
+		return broker.ErrSubscriptionInactive
+	default:
+	}
+
 	select {
 	case <-ctx.Done():
-		return nil
+		return ctx.Err()
 	case <-time.After(recvTimeout):
 		// NOTE: drop the message once the timeout expires
 		select {
@@ -80,9 +87,9 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 		}
 		return broker.ErrTimeout
 	case <-s.queue.exit:
-		return nil
+		return broker.ErrSubscriptionInactive
 	case <-s.exit:
-		return nil
+		return broker.ErrSubscriptionInactive
 	case msg := <-s.queue.msg:
 		if err := h(ctx, msg); err != nil {
 			return err
-- 
2.43.0


From 04109087111d0d9ce9e2da66f790e8a649bd8183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 19/22] fix: a digester uses the handler it was made with

---
 pkg/broker/digester/simple/digester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index acc1a8b..32530f2 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -37,7 +37,7 @@ func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.H
 // Digest reads data from broker via sub and handles it via an optional handler.
 // If no handler has been given, the message payload is copied to stdout.
 func (d *Digester) Digest(ctx context.Context, sub broker.Subscriber, opts ...digester.Option) error {
-	dopts := digester.Options{}
+	dopts := d.opts
 	for _, apply := range opts {
 		apply(&dopts)
 	}
-- 
2.43.0


From b76fbe9ab8bd50e6c2b08776ba910d861ea735c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 20/22] fix: a digester stops receiving once its context has
 ended

---
 pkg/broker/digester/simple/digester.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index 32530f2..5847ccb 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -28,6 +28,9 @@ func NewDigester(opts ...digester.Option) (*Digester, error) {
 // handle processes rmessages received by sub with handler h.
 func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.Handler) error {
 	for {
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 		if err := sub.Receive(ctx, h); err != nil {
 			return err
 		}
-- 
2.43.0


From 873e878eee7505cee4878f5620fcbc6a5719ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 21/22] fix: an ingester uses the marshaler it was made with

---
 pkg/broker/ingester/simple/ingester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/ingester/simple/ingester.go b/pkg/broker/ingester/simple/ingester.go
index adacc20..d2ac488 100644
--- a/pkg/broker/ingester/simple/ingester.go
+++ b/pkg/broker/ingester/simple/ingester.go
@@ -27,7 +27,7 @@ func NewIngester(opts ...ingester.Option) (*Ingester, error) {
 
 // Ingest ingests messages to the broker marshaled with the given marshaler.
 func (in *Ingester) Ingest(ctx context.Context, b broker.Broker, topic string, msgType broker.Type, data interface{}, opts ...ingester.Option) error {
-	ropts := ingester.Options{}
+	ropts := in.opts
 	for _, apply := range opts {
 		apply(&ropts)
 	}
-- 
2.43.0


From 9eb750d676522d14d26e2d249c726c33b0a5a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 22/22] fix: a runner hands the scraper all its options, those
 of the run first

---
 runner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index 7a62861..f2eebd9 100644
--- a/runner.go
+++ b/runner.go
@@ -25,10 +25,10 @@ func NewRunner(opts ...Option) (*Runner, error) {
 
 // Run runs netscraping using scraper s.
 func (r *Runner) Run(ctx context.Context, p plan.Plan, s Scraper, opts ...Option) error {
-	sopts := Options{}
+	sopts := r.opts
 	for _, apply := range opts {
 		apply(&sopts)
 	}
 
-	return s.Scrape(ctx, p, WithBroker(sopts.Broker))
+	return s.Scrape(ctx, p, WithStore(sopts.Store), WithBroker(sopts.Broker), WithMarshaler(sopts.Marshaler))
 }
-- 
2.43.0


From d7410e26531562fb46cde8fc0a6415407ec27d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 01/24] fix: keep other links of an id when a link is put in
 the cache

Putting a link created a fresh per-id index whenever the pair had no link
yet, which dropped every other link from (to) the same id.
---
 pkg/cache/memory/links.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 489f89d..53d313f 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -35,11 +35,11 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 
 	f, t := link.From(), link.To()
 
-	if c.from[f][t] == nil {
+	if c.from[f] == nil {
 		c.from[f] = make(map[uuid.UID]cache.Link)
 	}
 
-	if c.to[t][f] == nil {
+	if c.to[t] == nil {
 		c.to[t] = make(map[uuid.UID]cache.Link)
 	}
 
-- 
2.43.0


From 28390748f84ab668309653bbc7037a1b9a5c4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 02/24] fix: find cached links by the value of the unique id

The indexes were keyed by the uuid.UID interface value, so an id held in
a different *UID than the one of the link was never found.
---
 pkg/cache/memory/links.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 53d313f..e85795b 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -6,6 +6,8 @@ import (
 
 	"github.com/milosgajdos/netscrape/pkg/cache"
 	"github.com/milosgajdos/netscrape/pkg/uuid"
+
+	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
 )
 
 // Links in is-memory cache.Link cache.
@@ -27,13 +29,18 @@ func NewLinks() (*Links, error) {
 	}, nil
 }
 
+// key returns the index key of uid: UIDs with the same value have the same key.
+func key(uid uuid.UID) uuid.UID {
+	return *memuid.NewFromString(uid.String())
+}
+
 func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option) error {
 	copts := cache.Options{}
 	for _, apply := range opts {
 		apply(&copts)
 	}
 
-	f, t := link.From(), link.To()
+	f, t := key(link.From()), key(link.To())
 
 	if c.from[f] == nil {
 		c.from[f] = make(map[uuid.UID]cache.Link)
@@ -83,7 +90,7 @@ func (c *Links) GetFrom(ctx context.Context, uid uuid.UID, opts ...cache.Option)
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if from, ok := c.from[uid]; ok {
+	if from, ok := c.from[key(uid)]; ok {
 		return c.get(ctx, uid, from, opts...)
 	}
 
@@ -95,7 +102,7 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if to, ok := c.to[uid]; ok {
+	if to, ok := c.to[key(uid)]; ok {
 		return c.get(ctx, uid, to, opts...)
 	}
 
@@ -103,8 +110,8 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
-	delete(c.to, uid)
-	delete(c.from, uid)
+	delete(c.to, key(uid))
+	delete(c.from, key(uid))
 	return nil
 }
 
@@ -148,7 +155,7 @@ func (c *Links) BulkGetFrom(ctx context.Context, uids []uuid.UID, opts ...cache.
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		from, ok := c.from[uid]
+		from, ok := c.from[key(uid)]
 		if !ok {
 			continue
 		}
@@ -171,7 +178,7 @@ func (c *Links) BulkGetTo(ctx context.Context, uids []uuid.UID, opts ...cache.Op
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		to, ok := c.to[uid]
+		to, ok := c.to[key(uid)]
 		if !ok {
 			continue
 		}
-- 
2.43.0


From 7e0b05eed6c9b74fcf14636399752086df4ccfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 03/24] fix: delete a cached link from both indexes

Deleting an id dropped its own two index entries only; its links were
still returned for the ids at their other end.
---
 pkg/cache/memory/links.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index e85795b..376e44f 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -110,6 +110,12 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
+	for f := range c.to[key(uid)] {
+		delete(c.from[f], key(uid))
+	}
+	for t := range c.from[key(uid)] {
+		delete(c.to[t], key(uid))
+	}
 	delete(c.to, key(uid))
 	delete(c.from, key(uid))
 	return nil
-- 
2.43.0


From cce1a6af043ed8b89a6e836825aec10e38699537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 04/24] fix: copying nil attributes yields empty attributes
 instead of a panic

---
 pkg/attrs/memory/memory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/attrs/memory/memory.go b/pkg/attrs/memory/memory.go
index b8b916e..5520383 100644
--- a/pkg/attrs/memory/memory.go
+++ b/pkg/attrs/memory/memory.go
@@ -21,6 +21,10 @@ func New() *Attrs {
 func NewCopyFrom(ctx context.Context, a attrs.Attrs) (*Attrs, error) {
 	attrs := make(Attrs)
 
+	if a == nil {
+		return &attrs, nil
+	}
+
 	keys, err := a.Keys(ctx)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f0ee16ca08a41d880b66e3ff077c22e06327013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 05/24] fix: return every entity from a bulk get

The result index was never advanced: the last entity overwrote the first
element and all the others were nil.
---
 pkg/store/memory/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 0567a14..936b9f3 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -207,6 +207,7 @@ func (m *Memory) BulkGet(ctx context.Context, uids []uuid.UID, opts ...store.Opt
 			return nil, err
 		}
 		ents[i] = e
+		i++
 	}
 	return ents, nil
 }
-- 
2.43.0


From 10370c0acc13fdacfa0e6eab5c84ce79d6af6898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 06/24] fix: store the attributes of an entity

Unless attributes were given with the add, the stored entity lost its own
attributes and was returned with empty ones.
---
 pkg/store/memory/store.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 936b9f3..a18edc6 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -71,6 +71,10 @@ func (m *Memory) add(ctx context.Context, e store.Entity, opts ...store.Option)
 		apply(&aopts)
 	}
 
+	if aopts.Attrs == nil {
+		aopts.Attrs = e.Attrs()
+	}
+
 	n, err := m.g.NewNode(ctx, e, graph.WithAttrs(aopts.Attrs))
 	if err != nil {
 		return err
-- 
2.43.0


From fb47aa078d848463e8d913f75faaddaa5a49715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 07/24] fix: release the graph lock after DOT export

DOT acquired the read lock a second time instead of releasing it, so the
next writer blocked forever.
---
 pkg/graph/memory/wg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 557325d..122f7b0 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -411,7 +411,7 @@ func (g *WG) DOTAttributers() (graph, node, edge encoding.Attributer) {
 // DOT returns the GrapViz dot representation of the graph.
 func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
-	defer g.mu.RLock()
+	defer g.mu.RUnlock()
 
 	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
 	if err != nil {
-- 
2.43.0


From d3bb6e32a2e4493f114782273be9c26eddd39cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 08/24] fix: name the exported DOT graph by its DOT id

The encoder was given the builder, which has no DOTID, and an empty name.
---
 pkg/graph/memory/wg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 122f7b0..6d8db06 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -413,7 +413,7 @@ func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
 	defer g.mu.RUnlock()
 
-	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
+	b, err := dot.Marshal(g.WeightedGraphBuilder, g.dotid, "", "  ")
 	if err != nil {
 		return "", fmt.Errorf("DOT marshal error: %w", err)
 	}
-- 
2.43.0


From 7ef4b3ad1829bec9a64ea15ac9fff9c44da117aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 09/24] fix: make link, unlink and node removal single atomic
 steps

They looked nodes up under the read lock, released it and modified the
graph under the write lock: nodes removed in between came back as ghosts
without a unique id, a pair could be linked twice, and a removal could
hit another node. Link also took the read lock recursively, which blocks
forever when a writer is waiting.
---
 pkg/graph/memory/wg.go | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 6d8db06..da059b3 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -162,22 +162,19 @@ func (g *WG) Nodes(ctx context.Context) ([]graph.Node, error) {
 
 // RemoveNode removes the node with the given uid from graph.
 func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	node, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	gnode, ok := node.(*Node)
 	if !ok {
 		return graph.ErrInvalidNode
 	}
 
-	g.mu.Lock()
-	defer g.mu.Unlock()
-
 	g.WeightedGraphBuilder.RemoveNode(gnode.ID())
 
 	delete(g.nodes, uid.String())
@@ -188,33 +185,27 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
 // It returns error if either of the nodes does not exist in the graph.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
-	g.mu.RLock()
-	e, err := g.Edge(ctx, from, to)
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
+	e, err := g.edge(from, to)
 	if err != nil && !errors.Is(err, graph.ErrEdgeNotExist) {
-		g.mu.RUnlock()
 		return nil, err
 	}
 
 	if e != nil {
-		g.mu.RUnlock()
 		return e, nil
 	}
 
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
-
-	g.mu.Lock()
-	defer g.mu.Unlock()
 
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
@@ -231,6 +222,12 @@ func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
 	g.mu.RLock()
 	defer g.mu.RUnlock()
 
+	return g.edge(uid, vid)
+}
+
+// edge returns edge between nodes with the given UIDs.
+// NOTE: the graph must be locked by the caller.
+func (g *WG) edge(uid, vid uuid.UID) (graph.Edge, error) {
 	from, ok := g.nodes[uid.String()]
 	if !ok {
 		return nil, graph.ErrNodeNotFound
@@ -293,26 +290,23 @@ func (g *WG) From(ctx context.Context, uid uuid.UID) ([]graph.Node, error) {
 // Unlink removes the link between from and to nodes.
 // If neither of the nodes with given UIDs exist it returns nil.
 func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	// NOTE: it's safe to switch type without checking if possible
 	// the nodes in g.nodes are guaranteed to be *Nodes since the only
 	// way to add nodes in is via AddNode which does type assertion
-	g.mu.Lock()
 	g.WeightedGraphBuilder.RemoveEdge(f.(*Node).ID(), t.(*Node).ID())
-	g.mu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From f0b4574e0592a117e65b6eb4255affd1b5f465fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 10/24] fix: return an error instead of panicking when linking
 a node to itself

---
 pkg/graph/memory/wg.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index da059b3..e22ee10 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -183,7 +183,7 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 }
 
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
-// It returns error if either of the nodes does not exist in the graph.
+// It returns error if either of the nodes does not exist in the graph or if they are the same node.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
 	g.mu.Lock()
 	defer g.mu.Unlock()
@@ -207,6 +207,10 @@ func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option)
 		return nil, graph.ErrNodeNotFound
 	}
 
+	if f == t {
+		return nil, graph.ErrUnsupported
+	}
+
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 0784b1559cea401e2e616d83efa7012d29ee9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 11/24] fix: never create two new nodes with the same numeric
 ID

The builder hands out the same ID until a node with it is added, so of two
nodes created before either was added the second one was not added to the
graph but registered as an alias of the first.
---
 pkg/graph/memory/wg.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index e22ee10..a8985c2 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -28,6 +28,8 @@ type WG struct {
 	dotid string
 	// nodes maps graph nodes
 	nodes map[string]graph.Node
+	// nextID is greater than the ID of any new node created so far
+	nextID *int64
 	// dot are graph DOT options
 	dot graph.DOTOptions
 }
@@ -55,6 +57,7 @@ func NewWG(wg WeightedGraphBuilder, opts ...graph.Option) (*WG, error) {
 		uid:                  uid,
 		dotid:                dotid,
 		nodes:                make(map[string]graph.Node),
+		nextID:               new(int64),
 		dot:                  gopts.DOTOptions,
 	}, nil
 }
@@ -75,10 +78,18 @@ func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option
 	}
 
 	g.mu.Lock()
-	gnode := g.WeightedGraphBuilder.NewNode()
+	// NOTE: the builder returns the same ID until a node with that ID is added
+	id := g.WeightedGraphBuilder.NewNode().ID()
+	if id < *g.nextID {
+		id = *g.nextID
+	}
+	for g.WeightedGraphBuilder.Node(id) != nil {
+		id++
+	}
+	*g.nextID = id + 1
 	g.mu.Unlock()
 
-	node, err := NewNode(gnode.ID(), ent, opts...)
+	node, err := NewNode(id, ent, opts...)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ec13b0b6b500fe01320cd305fed5b95ac79a54f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 12/24] fix: make adding a node refuse duplicates and upserts
 replace the node

The duplicate check was tied to the numeric ID, so a second node with the
unique id of a present one was added next to it, and an upsert replaced the
node in the index by unique id only: listings, neighbours and edge end
points kept the old one.
---
 pkg/graph/memory/wg.go | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index a8985c2..a8e332a 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -124,14 +124,12 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
-	if node := g.WeightedGraphBuilder.Node(gnode.ID()); node != nil {
-		if _, ok := g.nodes[n.UID().String()]; ok {
-			if !gopts.Upsert {
-				return graph.ErrDuplicateNode
-			}
-			g.nodes[n.UID().String()] = n
+	if node, ok := g.nodes[n.UID().String()]; ok {
+		if !gopts.Upsert {
+			return graph.ErrDuplicateNode
 		}
 
+		g.replace(node.(*Node), gnode)
 		g.nodes[n.UID().String()] = n
 
 		return nil
@@ -143,6 +141,38 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	return nil
 }
 
+// replace replaces node old with n and keeps all its edges.
+// NOTE: the graph must be locked by the caller.
+func (g *WG) replace(old, n *Node) {
+	if n.ID() != old.ID() && g.WeightedGraphBuilder.Node(n.ID()) != nil {
+		// panics as n.ID() is not unique within the graph
+		g.WeightedGraphBuilder.AddNode(n)
+	}
+
+	edges := []*Edge{}
+
+	for _, e := range gonum.WeightedEdgesOf(g.WeightedGraphBuilder.WeightedEdges()) {
+		edge := *e.(*Edge)
+		if edge.from != old && edge.to != old {
+			continue
+		}
+		if edge.from == old {
+			edge.from = n
+		}
+		if edge.to == old {
+			edge.to = n
+		}
+		edges = append(edges, &edge)
+	}
+
+	g.WeightedGraphBuilder.RemoveNode(old.ID())
+	g.WeightedGraphBuilder.AddNode(n)
+
+	for _, e := range edges {
+		g.SetWeightedEdge(e)
+	}
+}
+
 // Node returns the node with the given ID if it exists
 // in the graph, and error if it could not be found.
 func (g *WG) Node(ctx context.Context, uid uuid.UID) (graph.Node, error) {
-- 
2.43.0


From ed6747f1bbf35d3b0bc95ea99c55ae0cac03a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 13/24] fix: create a new node for the given entity even if its
 unique id is taken

NewNode returned the node already in the graph and dropped the entity it
was given, which made every upsert (and the upsert of the store, which
relies on it) a silent no-op.
---
 pkg/graph/memory/wg.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index a8e332a..d3c3dcf 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -89,19 +89,7 @@ func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option
 	*g.nextID = id + 1
 	g.mu.Unlock()
 
-	node, err := NewNode(id, ent, opts...)
-	if err != nil {
-		return nil, err
-	}
-
-	g.mu.Lock()
-	if n, ok := g.nodes[node.UID().String()]; ok {
-		g.mu.Unlock()
-		return n, nil
-	}
-	g.mu.Unlock()
-
-	return node, nil
+	return NewNode(id, ent, opts...)
 }
 
 // AddNode adds node n to the graph.
-- 
2.43.0


From 55705a47f436aa571f0ffbdb524349fa95a7eda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 14/24] fix: give every edge of a subgraph its own weight and
 attributes

Each edge got those of whichever edge of the whole graph the map iteration
happened to yield first.
---
 pkg/graph/memory/wg.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index d3c3dcf..1bce290 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -394,24 +394,21 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 			pnode := nodes.Node()
 			peer := pnode.(*Node)
 			if to, ok := sgNodes[peer.ID()]; ok {
-				if edges := g.WeightedEdges(); edges != nil {
-					for edges.Next() {
-						we := edges.WeightedEdge()
-						e := we.(*Edge)
-
-						a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
-						if err != nil {
-							return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
-						}
-
-						opts := []graph.Option{
-							graph.WithAttrs(a),
-							graph.WithWeight(e.Weight()),
-						}
-
-						if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
-							return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
-						}
+				if we := g.WeightedEdge(id, peer.ID()); we != nil {
+					e := we.(*Edge)
+
+					a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
+					if err != nil {
+						return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
+					}
+
+					opts := []graph.Option{
+						graph.WithAttrs(a),
+						graph.WithWeight(e.Weight()),
+					}
+
+					if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
+						return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
 					}
 				}
 			}
-- 
2.43.0


From bdb236f8253613afdb95b10397b003623df64af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 15/24] fix: hold the graph lock for the whole of a subgraph
 walk

The edges were collected without the lock, racing with every writer, and
the root could be removed between its lookup and the walk.
---
 pkg/graph/memory/wg.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 1bce290..1b941b1 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -347,12 +347,12 @@ func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option
 // SubGraph returns the subgraph of the graph rooted in the node with the given uid up to the given depth.
 func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...graph.Option) (graph.Graph, error) {
 	g.mu.RLock()
+	defer g.mu.RUnlock()
+
 	root, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
 
 	sg, err := NewWDG(opts...)
 	if err != nil {
@@ -378,11 +378,9 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 		Visit: visit,
 	}
 
-	g.mu.RLock()
 	_ = bfs.Walk(g.WeightedGraphBuilder, root.(*Node), func(n gonum.Node, d int) bool {
 		return d == depth
 	})
-	g.mu.RUnlock()
 
 	if sgErr != nil {
 		return nil, sgErr
-- 
2.43.0


From 6aaaf675bcfb91269f90143e82e187cefb84928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 16/24] fix: unsubscribe under the write lock

Two concurrent unsubscribe calls both saw the subscription active under
the shared read lock and closed its exit channel twice (panic).
---
 pkg/broker/memory/subscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 881e479..5222d87 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -31,8 +31,8 @@ func (s *Subscriber) Topic(ctx context.Context, opts ...broker.Option) (string,
 
 // Unsubscribe unsubscribes from the topic.
 func (s *Subscriber) Unsubscribe(ctx context.Context, opts ...broker.Option) error {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.active {
 		close(s.exit)
-- 
2.43.0


From cefda1d37e9ac539f59533b80e8b9accfbc552f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 17/24] fix: bind the session goroutine of the broker to its
 own session

It read the exit and ctl channels of whichever session was open and closed
that one when it ended: after a quick close and reopen, the goroutine of the
first session closed the second, and two concurrent Open calls opened two
sessions at once. It also raced with Open on these fields.
---
 pkg/broker/memory/memory.go | 41 ++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index cfeedf0..4220cdf 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -66,16 +66,16 @@ func New(opts ...broker.Option) (*Memory, error) {
 	}, nil
 }
 
-// run starts the broker.
-func (m *Memory) run(ctx context.Context) {
-	defer m.Close()
+// run starts the broker session identified by its exit and ctl channels.
+func (m *Memory) run(ctx context.Context, exit <-chan struct{}, ctl <-chan sub) {
+	defer m.closeSession(exit)
 	for {
 		select {
 		case <-ctx.Done():
 			return
-		case <-m.exit:
+		case <-exit:
 			return
-		case sub := <-m.ctl:
+		case sub := <-ctl:
 			m.Lock()
 			if _, ok := m.subs[sub.topic]; ok {
 				delete(m.subs[sub.topic], sub.id)
@@ -87,15 +87,12 @@ func (m *Memory) run(ctx context.Context) {
 
 // Open opens a new broker session.
 func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
-	m.RLock()
+	m.Lock()
+	defer m.Unlock()
+
 	if m.connected {
-		m.RUnlock()
 		return nil
 	}
-	m.RUnlock()
-
-	m.Lock()
-	defer m.Unlock()
 
 	m.connected = true
 	m.exit = make(chan struct{})
@@ -103,7 +100,7 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 
 	// TODO: we should make sure Close() stops this goroutine
 	// Try adding it to a sync.WaitGroup
-	go m.run(ctx)
+	go m.run(ctx, m.exit, m.ctl)
 
 	return nil
 }
@@ -205,6 +202,24 @@ func (m *Memory) Close() error {
 		return nil
 	}
 
+	m.close()
+
+	return nil
+}
+
+// closeSession closes the session with the given exit channel unless it has ended already.
+func (m *Memory) closeSession(exit <-chan struct{}) {
+	m.Lock()
+	defer m.Unlock()
+
+	if m.connected && m.exit == exit {
+		m.close()
+	}
+}
+
+// close closes the open session.
+// NOTE: the broker must be locked by the caller.
+func (m *Memory) close() {
 	close(m.exit)
 
 	for topic, subs := range m.subs {
@@ -216,6 +231,4 @@ func (m *Memory) Close() error {
 	}
 
 	m.connected = false
-
-	return nil
 }
-- 
2.43.0


From 63cde0a877c170133271726aa7075dea03f630e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 18/24] fix: drop all topics when a broker session is closed

Topics nobody had subscribed to survived with their messages and with the
exit channel of the closed session, so after reopening they delivered old
messages or ignored new ones.
---
 pkg/broker/memory/memory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 4220cdf..81737b0 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -227,6 +227,9 @@ func (m *Memory) close() {
 			delete(m.subs[topic], id)
 		}
 		delete(m.subs, topic)
+	}
+
+	for topic := range m.topics {
 		delete(m.topics, topic)
 	}
 
-- 
2.43.0


From bbcdd10af4cd2a0151a090c2637ffe144041f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 19/24] fix: publish and subscribe in the session they were let
 into

Both checked for an open session, released the lock and then created the
topic, so a close in between left a topic of the closed session behind. A
blocked publish also read the exit channel of the broker without the lock
and watched the wrong session after a reopen.
---
 pkg/broker/memory/memory.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 81737b0..985787d 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -109,7 +109,7 @@ func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, ti
 	select {
 	case <-ctx.Done():
 		return m.Close()
-	case <-m.exit:
+	case <-q.exit:
 		return nil
 	case <-time.After(timeout):
 		return broker.ErrTimeout
@@ -122,13 +122,6 @@ func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, ti
 // If the topic does not exist, it is automatically created.
 // NOTE: Pub is a blocking call!
 func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts ...broker.Option) error {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	popts := broker.Options{}
 	for _, apply := range opts {
 		apply(&popts)
@@ -140,6 +133,11 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 	}
 
 	m.Lock()
+	if !m.connected {
+		m.Unlock()
+		return broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
@@ -155,18 +153,15 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 
 // Sub subscribes to the given topic.
 func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (broker.Subscriber, error) {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return nil, broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	uid := memuid.New()
 
 	m.Lock()
 	defer m.Unlock()
 
+	if !m.connected {
+		return nil, broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
-- 
2.43.0


From cb4d86622a2febd9c0dd9d69102d41a0fecad44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 20/24] fix: report a publish that was cancelled or cut off by
 the session end

Both returned nil although the message had not been queued, and cancelling
one publish closed the whole broker.
---
 pkg/broker/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 985787d..563992a 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -108,9 +108,9 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, timeout time.Duration) error {
 	select {
 	case <-ctx.Done():
-		return m.Close()
+		return ctx.Err()
 	case <-q.exit:
-		return nil
+		return broker.ErrNotConnected
 	case <-time.After(timeout):
 		return broker.ErrTimeout
 	case q.msg <- msg:
-- 
2.43.0


From 9881a51486559fbb38b5138ab2be6747caabe0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 21/24] fix: report a receive that was cancelled or whose
 session has ended

Both returned nil as if a message had been handled, so a digester spun
forever on a cancelled context or a closed broker, and receives started
after the close still delivered messages of the closed session.
---
 pkg/broker/memory/subscriber.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 5222d87..1a36db5 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -69,9 +69,15 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 	}
 	s.RUnlock()
 
+	select {
+	case <-s.queue.exit:
+		return broker.ErrSubscriptionInactive
+	default:
+	}
+
 	select {
 	case <-ctx.Done():
-		return nil
+		return ctx.Err()
 	case <-time.After(recvTimeout):
 		// NOTE: drop the message once the timeout expires
 		select {
@@ -80,7 +86,7 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 		}
 		return broker.ErrTimeout
 	case <-s.queue.exit:
-		return nil
+		return broker.ErrSubscriptionInactive
 	case <-s.exit:
 		return nil
 	case msg := <-s.queue.msg:
-- 
2.43.0


From f8148a1699233091a3cedd2dffabe20c7680fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 22/24] fix: honour the receive timeout the broker was created
 with

It was accepted by New and ignored: receives without their own timeout
always waited for the default one.
---
 pkg/broker/memory/memory.go     | 20 ++++++++++++++------
 pkg/broker/memory/subscriber.go | 15 ++++++++-------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 563992a..3758313 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -34,6 +34,7 @@ type Memory struct {
 	connected  bool
 	size       int
 	pubTimeout time.Duration
+	subTimeout time.Duration
 	subs       map[string]map[string]*Subscriber
 	topics     map[string]queue
 	exit       chan struct{}
@@ -57,10 +58,16 @@ func New(opts ...broker.Option) (*Memory, error) {
 		pubTimeout = DefaultTimeout
 	}
 
+	subTimeout := bopts.RecvTimeout
+	if subTimeout == 0 {
+		subTimeout = DefaultTimeout
+	}
+
 	return &Memory{
 		connected:  false,
 		size:       size,
 		pubTimeout: pubTimeout,
+		subTimeout: subTimeout,
 		subs:       make(map[string]map[string]*Subscriber),
 		topics:     make(map[string]queue),
 	}, nil
@@ -172,12 +179,13 @@ func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (
 	}
 
 	sub := &Subscriber{
-		id:     uid.String(),
-		topic:  topic,
-		active: true,
-		queue:  q,
-		ctl:    m.ctl,
-		exit:   make(chan struct{}),
+		id:      uid.String(),
+		topic:   topic,
+		active:  true,
+		timeout: m.subTimeout,
+		queue:   q,
+		ctl:     m.ctl,
+		exit:    make(chan struct{}),
 	}
 
 	if m.subs[topic][sub.id] == nil {
diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 1a36db5..de0e2cf 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -11,12 +11,13 @@ import (
 // Subscriber is broker subscriber.
 type Subscriber struct {
 	sync.RWMutex
-	id     string
-	topic  string
-	active bool
-	queue  queue
-	ctl    chan<- sub
-	exit   chan struct{}
+	id      string
+	topic   string
+	active  bool
+	timeout time.Duration
+	queue   queue
+	ctl     chan<- sub
+	exit    chan struct{}
 }
 
 // ID returns subscriber ID
@@ -59,7 +60,7 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 
 	recvTimeout := ropts.RecvTimeout
 	if recvTimeout == 0 {
-		recvTimeout = DefaultTimeout
+		recvTimeout = s.timeout
 	}
 
 	s.RLock()
-- 
2.43.0


From 6e869440c474d9bcccead71131ab61da9c74242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 23/24] fix: honour the options digesters and ingesters were
 created with

They were stored and never used: the handler and the marshaler had to be
given again with every call.
---
 pkg/broker/digester/simple/digester.go | 2 +-
 pkg/broker/ingester/simple/ingester.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index acc1a8b..32530f2 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -37,7 +37,7 @@ func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.H
 // Digest reads data from broker via sub and handles it via an optional handler.
 // If no handler has been given, the message payload is copied to stdout.
 func (d *Digester) Digest(ctx context.Context, sub broker.Subscriber, opts ...digester.Option) error {
-	dopts := digester.Options{}
+	dopts := d.opts
 	for _, apply := range opts {
 		apply(&dopts)
 	}
diff --git a/pkg/broker/ingester/simple/ingester.go b/pkg/broker/ingester/simple/ingester.go
index adacc20..d2ac488 100644
--- a/pkg/broker/ingester/simple/ingester.go
+++ b/pkg/broker/ingester/simple/ingester.go
@@ -27,7 +27,7 @@ func NewIngester(opts ...ingester.Option) (*Ingester, error) {
 
 // Ingest ingests messages to the broker marshaled with the given marshaler.
 func (in *Ingester) Ingest(ctx context.Context, b broker.Broker, topic string, msgType broker.Type, data interface{}, opts ...ingester.Option) error {
-	ropts := ingester.Options{}
+	ropts := in.opts
 	for _, apply := range opts {
 		apply(&ropts)
 	}
-- 
2.43.0


From 9b344464740995d5137ffd4d0a4869e1b1478c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 24/24] fix: hand the store, broker and marshaler of a runner
 to its scraper

The options given at construction were ignored, the store and marshaler
dropped altogether, and a missing plan was passed on to the scraper.
---
 runner.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index 7a62861..19b04e4 100644
--- a/runner.go
+++ b/runner.go
@@ -25,10 +25,14 @@ func NewRunner(opts ...Option) (*Runner, error) {
 
 // Run runs netscraping using scraper s.
 func (r *Runner) Run(ctx context.Context, p plan.Plan, s Scraper, opts ...Option) error {
-	sopts := Options{}
+	if p == nil {
+		return ErrMissingPlan
+	}
+
+	sopts := r.opts
 	for _, apply := range opts {
 		apply(&sopts)
 	}
 
-	return s.Scrape(ctx, p, WithBroker(sopts.Broker))
+	return s.Scrape(ctx, p, WithStore(sopts.Store), WithBroker(sopts.Broker), WithMarshaler(sopts.Marshaler))
 }
-- 
2.43.0


#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (developer tool)."""
import json
import sys

sys.path.insert(0, "/verif")
from pg.props import PROPS

H, I, P, CF = "histories", "inputs", "programs", "configurations"
PGR, MPG, IT, MIT, VW = "src/portgraph.rs", "src/multiportgraph.rs", "src/portgraph/iter.rs", "src/multiportgraph/iter.rs", "src/view.rs"
HI, UN, SE, IX, BO = "src/hierarchy.rs", "src/unmanaged.rs", "src/secondary.rs", "src/index.rs", "src/boundary.rs"
SAMPLE = "The tests run a handful of fixed graphs and short operation sequences (plus small proptest graphs for a few algorithms); "
T = []


def p(id, title, statement, over, qtext, why, files, mech, state=()):
    T.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {})}))


p("G01", "Links are symmetric",
  "At every moment, if a port is linked to another then that other port is linked back to it, and no port is ever its own partner through a stale record. Every operation that makes, breaks, moves or discards a link updates both ends.",
  [H], "every sequence of graph mutations on every graph", SAMPLE + "symmetry of both ends after removal, resizing, swapping and compaction depends on where freed and moved ports lie, which the samples do not vary.",
  [PGR], [("link/unlink write both ends", PGR), ("remove/resize clear the partner's record", PGR), ("compaction rewrites the partner's record", PGR)], [("port_link", "partner of each port", PGR)])
p("G02", "The link count equals the number of links",
  "The reported number of links is exactly the number of linked port pairs: each successful link adds one, each link removed by any means takes one away, and nothing else changes it.",
  [H], "every sequence of linking, unlinking, node removal, port resizing, compaction and clearing", SAMPLE + "a missed or doubled update shows only after a particular operation on a linked port (for example a node linked to itself).",
  [PGR], [("link count updates in link, unlink, remove, resize, clear", PGR)], [("link_count", "number of links", PGR)])
p("G03", "A failed operation changes nothing",
  "A linking operation that returns an error, or an unlinking operation that finds nothing to unlink, leaves the graph exactly as it was: no link, no counter, no flag and no helper node is changed.",
  [I, H], "every call with unknown, already linked, equal or incompatible ports, in every state", SAMPLE + "errors are tested for their value only; that nothing was touched before the error was found is not observed.",
  [PGR, MPG, VW, HI], [("validate before write in linking operations", PGR), ("multigraph validates before allocating helper nodes", MPG)])
p("G04", "Linking reports the right result",
  "Linking two ports succeeds exactly when both exist, neither is linked and they are different ports; otherwise the error names the reason and the ports concerned. Linking by node or by offset first resolves each offset and reports the offset that does not exist.",
  [I], "every pair of ports, nodes and offsets, in every graph", SAMPLE + "the order of checks and the port named in each error are sampled for a few pairs.",
  [PGR, VW], [("checks in link_ports", PGR), ("offset resolution in link_nodes and link_offsets", VW)])
p("G05", "Node and port counts equal what is enumerated",
  "The reported numbers of nodes and ports always equal the number of nodes and ports that exist and that enumeration yields, and emptiness means zero nodes. Enumerators know their exact remaining length from either end.",
  [H], "every sequence of node additions, removals, port resizing and compaction", SAMPLE + "counter drift needs a particular operation, such as shrinking a node's ports in place.",
  [PGR, IT], [("counter updates in add, remove, resize, clear", PGR), ("length bookkeeping of the enumerators", IT)], [("node_count/port_count", "numbers of live nodes and ports", PGR)])
p("G06", "Clearing yields an empty graph",
  "Clearing a graph leaves it indistinguishable from a new one: no nodes, ports or links, all counters zero, no free slots remembered and no derived information kept. The same holds for the multigraph and for the graph that maintains a topological order.",
  [H], "every graph, cleared at any moment and used afterwards", SAMPLE + "leftover state after clearing matters only in later operations.",
  [PGR, MPG, "src/algorithms/dynamic.rs"], [("clear resets every field", PGR), ("multigraph clear", MPG)])
p("G07", "Freed slots are recycled exactly once",
  "A node or port slot that was freed is remembered as free until it is reused, it is handed out at most once, and a slot in use is never considered free. Adding a node reuses freed slots only when they are large enough and otherwise grows the graph.",
  [H], "every history of additions, removals, resizes, swaps and compactions", SAMPLE + "double use or loss of a slot needs several frees and reuses of particular sizes.",
  [PGR], [("free node list (doubly linked)", PGR), ("free port ranges by size", PGR)], [("node_free/port_free", "lists of free slots", PGR)])
p("G08", "Renumbering is reported completely and exactly",
  "Whenever an operation moves or discards ports or nodes, the caller's callback is told the old and the new index of each moved element, once, and of each discarded port that it is gone; elements that stay are not misreported.",
  [H, I], "every resize and compaction, for every arrangement of used and free slots", SAMPLE + "callbacks are checked for one or two layouts.",
  [PGR, MPG], [("callbacks in set_num_ports, compact_nodes, compact_ports", PGR)])
p("G09", "Every port knows its node and direction",
  "Each existing port belongs to exactly one node and has one direction, and both answers stay correct when nodes are swapped, compacted or resized and when slots are reused. Ports that do not exist have no owner and no direction.",
  [H], "every history of structural changes", SAMPLE + "ownership records of moved ports are rarely read back in them.",
  [PGR], [("port metadata written with the node's block", PGR)], [("port_meta", "owner and direction of each port slot", PGR)])
p("G10", "A node's ports are its block, inputs then outputs",
  "The ports of a node are its inputs in order followed by its outputs in order; looking up a port by node and offset, enumerating ports or offsets in either direction, and counting them all describe that same sequence. An offset outside it is not found.",
  [H, I], "every node, offset and direction in every reachable graph", SAMPLE + "boundary offsets and nodes moved by compaction are not enumerated.",
  [PGR, VW], [("node metadata (first port, counts)", PGR), ("range arithmetic of lookups", PGR)], [("node_meta", "first port, numbers of ports and capacity of each node", PGR)])
p("G11", "Queries are total and do not see freed slots",
  "Every read-only query about a node or port that does not exist (never created, out of range, or removed) answers with absence or an empty sequence, as documented, and does not panic; no query ever yields a removed node or port.",
  [I, H], "every index value and every graph, including graphs with freed slots", SAMPLE + "queries with dead or out-of-range indices are scarcely sampled.",
  [PGR], [("checked lookups in the view implementation", PGR)])
p("G12", "Link and neighbour queries agree with the links",
  "The links of a port or node, the connections between two nodes, and the neighbours of a node are exactly those implied by the port links, in port order, from the side asked for. Both directions of iteration report the same facts.",
  [I, H], "every node, port and direction in every graph", SAMPLE + "queries on nodes linked to themselves or several times are sampled once or twice.",
  [PGR, IT, VW], [("link iterators", IT), ("view methods", PGR)])
p("G13", "Port and node enumerators are well behaved",
  "An enumerator of ports, offsets, nodes or ports of a graph yields each element once whether driven from the front, the back or both, skips correctly, and its length, size bounds and count always equal the number of elements that remain.",
  [I], "every interleaving of front, back, skipping and counting calls", SAMPLE + "mixed front/back/skip use is not enumerated.",
  [IT], [("range arithmetic in next, next_back, nth, len", IT)])
p("G14", "New containers are empty and consistent",
  "Every way of making a new graph, multigraph or hierarchy yields an empty and internally consistent value, whatever capacity was asked for.",
  [I], "every constructor and every capacity", SAMPLE + "most tests use one constructor.",
  [PGR, MPG, HI], [("constructors and defaults", PGR)])
p("G15", "Composite graph operations do what their parts do",
  "Operations offered on every graph are the documented combination of the primitive ones: directional and single-item queries select from the general ones, linking by node or offset links the resolved ports, and inserting a graph copies each node with its numbers of ports and each link once, returning the correct node mapping.",
  [I, P], "every graph type that implements the primitives, and every argument", SAMPLE + "the composites are run on one graph type and few shapes.",
  [VW], [("provided methods of the view traits", VW)])
p("G16", "Capacity management does not change content",
  "Reserving, growing or shrinking storage never changes which nodes, ports, links or values exist, and capacity queries report what the structure holds.",
  [H, I], "every structure and every requested size", SAMPLE + "content is rarely compared across capacity calls.",
  [PGR, MPG, HI, UN, SE], [("reserve and shrink operations", PGR), ("capacity operations of the maps", UN)])
p("G17", "Removing a node removes all that belongs to it and nothing else",
  "Removing a node deletes the node, its ports and every link at them, frees the far ends for new links, and leaves every other node, port and link untouched. Removing an unknown node does nothing.",
  [H], "every node of every graph", SAMPLE + "the far ends and neighbouring blocks are not checked for each layout.",
  [PGR], [("remove_node and the release of the port block", PGR)])
p("G18", "Resizing a node's ports keeps the ports that remain",
  "Changing the number of inputs or outputs of a node keeps the existing ports with the same offset, their links and their order, unlinks and reports exactly the ports cut off, and creates the missing ones unlinked. It works the same whether the block is resized in place or moved.",
  [H, I], "every current and requested number of inputs and outputs, linked or not", SAMPLE + "the in-place and moving paths each have many shape combinations.",
  [PGR], [("set_num_ports: in-place, moving and emptying paths", PGR)])
p("G19", "Swapping and compacting preserve the graph",
  "Exchanging two nodes or compacting storage preserves the graph up to the renumbering announced: ownership, directions, offsets and links of every port follow the move, and compaction leaves no free slots behind.",
  [H], "every pair of nodes, live or free, and every layout of free slots", SAMPLE + "layouts with free slots, self-links and empty blocks are not enumerated.",
  [PGR], [("swap_nodes, compact_nodes, compact_ports", PGR)])
p("G20", "Adding nodes and ports respects the index limits",
  "Adding a node returns an index not in use, with exactly the requested numbers of unlinked inputs and outputs; requests beyond the documented limits are refused by a panic before anything is changed rather than wrapping into corrupt indices.",
  [I, H], "every requested number of ports and every state of the free lists", SAMPLE + "limits are near the end of the index range and are not reached by the samples.",
  [PGR], [("limit checks in add_node and set_num_ports", PGR)])

p("M01", "The multigraph hides its helper nodes",
  "A graph that allows several links per port shows its user only the nodes and ports the user made: helper nodes used to realise multiple links never appear in queries, enumerations, counts or ownership answers.",
  [H, I], "every query on every multigraph", SAMPLE + "helper nodes arise only after several links on one port.",
  [MPG, MIT], [("filtering of helper nodes", MPG)], [("copy_node", "marks helper nodes", MPG)])
p("M02", "Multigraph bookkeeping matches its helper nodes",
  "The marks and counters of multi-linked ports and helper nodes are set when a helper is created and cleared when it is released, so that reported numbers of nodes, ports and links count only what the user made.",
  [H], "every history of linking, unlinking, removal and clearing", SAMPLE + "drift needs a helper created, resized and released in a particular order.",
  [MPG], [("flag and counter updates around helper nodes", MPG)], [("multiport/copy_node_count/subport_count", "marks and counts", MPG)])
p("M03", "Multigraph linking makes and breaks exactly one link",
  "Linking two ports always adds one link between them, reusing the plain link for the first and subports for further ones; unlinking a port removes its links and releases helpers no longer needed; linking or unlinking a subport affects only that subport.",
  [H, I], "every pair of ports and subports, with any number of links already present", SAMPLE + "transitions between one and several links, with both ends shared, are sampled a few times.",
  [MPG], [("subport allocation and release", MPG)])
p("M04", "Multigraph link queries report every link once",
  "Enumerating links, neighbours, connections or subports of a multigraph yields each user-level link exactly once with the right subports at both ends, for single and multiple links alike.",
  [H, I], "every port, node and direction in every multigraph", SAMPLE + "mixtures of plain and multiple links on neighbouring ports are few.",
  [MPG, MIT], [("multigraph iterators", MIT)])
p("M05", "Multigraph marks follow renumbering",
  "When nodes or ports of a multigraph are swapped, compacted or resized, the information which ports are shared and which nodes are helpers moves with them, and removed ports lose it.",
  [H], "every renumbering of every multigraph", SAMPLE + "renumbering is hardly tested with shared ports present.",
  [MPG], [("rekey wrappers in swap, compact, resize", MPG)])
p("M06", "Multigraph node operations",
  "Adding a node to a multigraph makes one user-visible node; removing one removes its ports, all its links and the helpers they needed, and nothing else.",
  [H], "every node with every combination of single and multiple links, including to itself", SAMPLE + "removal with shared links is sampled once or twice.",
  [MPG], [("add_node, remove_node, clear", MPG)])
p("M07", "Subport indices and conversions are faithful",
  "A subport names one port and one position on it and both can be read back; converting between a plain graph and a multigraph keeps all nodes, ports and links.",
  [I], "every port and subport position, every graph converted", SAMPLE + "large positions and conversions of linked graphs are not sampled.",
  [MPG], [("subport constructors and accessors", MPG), ("conversions", MPG)])

p("V01", "A reference to a graph is that graph",
  "Using a graph through a shared or exclusive reference gives the same answers and makes the same changes as using it directly: every operation forwards its arguments unchanged and in order to the same operation.",
  [P, I], "every operation of the graph interfaces and every implementor", SAMPLE + "the forwarding layer is barely exercised.",
  ["src/view/refs.rs"], [("forwarding implementations", "src/view/refs.rs")])
p("V02", "A filtered view shows exactly what passes the filters",
  "A filtered view contains a node or port exactly when it passes the filter (and its node does), shows a link only if both its ends are contained, and its counts, enumerations and lookups all agree with that.",
  [I, P], "every filter and every graph", SAMPLE + "one or two filters are used.",
  ["src/view/filter.rs"], [("filter predicates applied in each query", "src/view/filter.rs")])
p("V03", "A region shows the descendants of its root",
  "A region contains exactly its root and the nodes below it in the hierarchy, with the links between them, and its answers do not depend on what was asked (and cached) before.",
  [I, H], "every hierarchy, root and sequence of queries", SAMPLE + "caching means earlier queries could affect later ones; orders are not enumerated.",
  ["src/view/region.rs"], [("descendant test with cache", "src/view/region.rs"), ("view methods", "src/view/region.rs")])
p("V04", "A flat region shows the children of its root",
  "A flat region contains exactly the children of its root, and the root itself if so requested, with the links between them; counts, emptiness, enumerations and lookups agree.",
  [I], "every hierarchy and root", SAMPLE + "the variants with and without root are sampled once each.",
  ["src/view/flat_region.rs"], [("membership test", "src/view/flat_region.rs")])
p("V05", "A subgraph shows what lies inside its boundary",
  "A subgraph contains exactly the nodes reached from its boundary without crossing it, all their ports, and the links inside; its boundary is the one it was made with.",
  [I], "every boundary or node set in every graph", SAMPLE + "few boundaries are tried.",
  ["src/view/subgraph.rs"], [("construction from boundary or nodes", "src/view/subgraph.rs"), ("view methods", "src/view/subgraph.rs")])
p("V06", "Copying a subgraph copies nodes, links and boundary links",
  "Copying a subgraph within its parent makes one new node per node with the same numbers of ports, links the copies as the originals are linked among themselves, and returns the mapping.",
  [I], "every subgraph of every graph", SAMPLE + "one copy is tested.",
  ["src/view/subgraph.rs"], [("copy_in_parent", "src/view/subgraph.rs")])
p("B01", "Boundaries list the right ports in order",
  "A boundary made from ports or nodes holds the incoming boundary ports followed by the outgoing ones in a stable order; positions, counts and reverse lookup agree, and two boundaries are compatible exactly when these numbers agree.",
  [I], "every set of ports or nodes", SAMPLE + "lookups of missing ports and empty sides are few.",
  [BO, "src/view/subgraph.rs"], [("boundary constructors and accessors", BO)])
p("B02", "Boundary reachability relations",
  "The ordering of a boundary relates an input to an output when a path inside leads from one to the other, and one ordering is at least as strong as another exactly when it has every relation of the other.",
  [I], "every boundary and every pair of orderings", SAMPLE + "small fixed graphs only.",
  [BO], [("propagation over a topological order and set inclusion", BO)])

p("H01", "The hierarchy refuses to become cyclic",
  "A node can be attached under or beside another only if it has no parent yet and would not become its own ancestor, and beside a node only if that node is not a root; otherwise the matching error is returned and the tree is unchanged.",
  [I, H], "every pair of nodes in every hierarchy", SAMPLE + "deep ancestor chains and self-attachment are hardly sampled.",
  [HI], [("checks before attach", HI)])
p("H02", "Attaching and detaching keep the family consistent",
  "After attaching, detaching or removing, a parent's number of children, its first and last child, and the previous and next sibling and parent of each child describe one and the same ordered list.",
  [H], "every sequence of attachments, detachments and removals", SAMPLE + "middle, first, last and only children combine in many ways.",
  [HI], [("paired updates of siblings, parent and count", HI)])
p("H03", "Renumbering the hierarchy keeps the tree",
  "Renaming a node, exchanging two nodes (even when they are adjacent or related) or shrinking to a number of nodes changes only the names: every relation of every other node follows.",
  [H, I], "every pair of related or unrelated nodes", SAMPLE + "related pairs (parent and child, neighbours) are the error-prone cases.",
  [HI], [("rekey, swap_nodes, shrink_to", HI)])
p("H04", "Hierarchy queries are total and consistent",
  "Queries about parents, siblings, children and descendants answer from the tree, give the defaults for nodes never seen, and the child enumerator works from both ends with an exact length.",
  [I, H], "every node index and every hierarchy", SAMPLE + "mixed double-ended iteration is not enumerated.",
  [HI], [("accessors", HI), ("Children and Descendants iterators", HI)])

p("S01", "Bit-set maps behave as maps with default false",
  "A bit set used as a map returns the value last set for a key and false for every other key of any size; taking, renaming and exchanging keys do what they say.",
  [H, I], "every sequence of operations with every key", SAMPLE + "keys beyond the current length are the risk.",
  [SE], [("bounds handling in get, set, take, rekey, swap", SE)])
p("S02", "Hash-set maps and the generic map operations",
  "A hash set used as a map returns the value last set for a key and false otherwise; removing, renaming and exchanging keys on any map implementation do what they say, with absent keys counted as default.",
  [H, I], "every sequence of operations, every implementor", SAMPLE + "the generic versions are hardly exercised.",
  [SE], [("set/take", SE), ("provided map operations", SE)])
p("S03", "Dense maps return what was stored, or the default",
  "A dense map returns the value last stored for a key, and its default for every key never stored, removed or moved away; growing fills only with the default, equality ignores trailing defaults, and access to several keys never aliases.",
  [H, I], "every sequence of operations with every key and default", SAMPLE + "non-trivial defaults and keys beyond the end are few.",
  [UN], [("bounds and default handling", UN)])
p("S04", "Map enumerators agree with the map",
  "Enumerating a map yields the stored keys with their own value, in key order where ordered, and skipping, counting and size bounds agree with plain iteration.",
  [I], "every map content and mix of iteration calls", SAMPLE + "only plain loops are tested.",
  [SE, UN], [("iterators", SE)])
p("W01", "Weights keep nodes and ports apart",
  "Indexing a weight store by node or port reads and writes that element's weight only, with the default for elements never written.",
  [I, H], "every node and port index", SAMPLE + "a single test.",
  ["src/weights.rs"], [("index operators", "src/weights.rs")])

p("I01", "Index values never wrap",
  "Converting a number to a node or port index succeeds exactly when it lies within the documented maximum and converting back gives the same number; out-of-range values are refused, not truncated.",
  [I], "every integer value and index width", SAMPLE + "values at the limits of each width are few.",
  [IX], [("range checks in new and try_from", IX)])
p("I02", "Optional indices are faithful options",
  "A compact optional index behaves as an option of the index: it is absent exactly when made from nothing, and taking, replacing, unwrapping, converting and mutating it act as on an option.",
  [I], "every index value and operation", SAMPLE + "only the common conversions are sampled.",
  [IX], [("niche encoding and conversions", IX)])
p("I03", "Port offsets encode direction and position faithfully",
  "An offset made with a direction and a position returns that direction and position, its opposite differs only in direction, and positions beyond the limit are refused.",
  [I], "every direction, position and width", SAMPLE + "positions at the limit are few.",
  [IX], [("offset constructors and accessors", IX)])
p("I04", "Serialised indices and offsets use matching forms",
  "The serialised form of an index, optional index or offset is produced from its value, and reading accepts the same form and rebuilds the value through the checked constructors.",
  [I], "every value", SAMPLE + "a few values round trip.",
  [IX], [("serialize/deserialize pairs", IX)])

p("P01", "Graph-library adaptors report edges and neighbours correctly",
  "Through the generic graph-library interface, each link appears as one edge from its source to its target node, edges and neighbours of a node respect the direction asked for, and the edge count is the link count.",
  [I, P], "every graph type and node", SAMPLE + "the adaptors have few tests.",
  ["src/view/petgraph.rs"], [("edge iterators and trait impls", "src/view/petgraph.rs")])
p("P02", "Graph-library adaptors index nodes within bounds",
  "The node bound exceeds every node index in use, index conversions invert each other, and visit maps and adjacency matrices are sized for and addressed by that bound.",
  [H, I], "every graph with freed slots, filtered or not", SAMPLE + "graphs with holes are not used there.",
  ["src/view/petgraph.rs"], [("node bound, visit map, adjacency matrix", "src/view/petgraph.rs")])

p("A01", "The topological traversal releases a node only when its predecessors are done",
  "The topological traversal yields a node only once each of its ports facing the sources is unlinked, ignored by the filter or reached from a node already yielded, and marks every port it passes exactly once.",
  [I], "every graph, source set, direction and filter", SAMPLE + "filters and multiple links are rarely combined.",
  ["src/algorithms/toposort.rs"], [("release condition and visited marks", "src/algorithms/toposort.rs")])
p("A02", "The post-order traversal finishes successors first",
  "The post-order traversal visits each node reachable from the start nodes at most once, goes on to a node's unvisited successors through ports the filter accepts before yielding it, and counts what it yields.",
  [I], "every graph, start set, direction and filter", SAMPLE + "cyclic and filtered graphs are few.",
  ["src/algorithms/post_order.rs"], [("stack discipline and marks", "src/algorithms/post_order.rs")])
p("A03", "The maintained topological order follows every change",
  "A graph with a maintained topological order updates that order with every change: new nodes are appended, removed ones dropped, renumbered ones renamed, and a link that contradicts the order either reorders the affected nodes or is refused as a cycle and undone.",
  [H], "every sequence of changes", SAMPLE + "the proptest links random nodes but does not mix in other changes.",
  ["src/algorithms/dynamic.rs"], [("mirroring of each graph mutation", "src/algorithms/dynamic.rs")])
p("A04", "The order-maintaining graph answers as the graph it wraps",
  "Every read-only query on the graph with a maintained topological order gives the answer of the wrapped graph.",
  [I, P], "every query and argument", SAMPLE + "hardly any query is exercised through it.",
  ["src/algorithms/dynamic.rs"], [("delegating implementations", "src/algorithms/dynamic.rs")])
p("A05", "Convexity checks follow the order and the boundary",
  "A convexity check takes the nodes of the subgraph and its boundary ports, follows successors only within the relevant stretch of the topological order, and rejects exactly when such a walk leaves and re-enters the subgraph.",
  [I], "every subgraph of every acyclic graph", SAMPLE + "small graphs only.",
  ["src/algorithms/convex/topo_convex_checker.rs", "src/algorithms/dynamic.rs", "src/view/subgraph.rs"], [("forward walk with position bound", "src/algorithms/convex/topo_convex_checker.rs")])
p("A06", "The dominator tree is computed by the documented iteration",
  "The dominator computation processes the nodes reachable from the entry in reverse post-order, intersects the dominators of the processed predecessors only, and iterates until nothing changes; asking for a node outside or the root gives nothing.",
  [I], "every graph, entry, direction and filter", SAMPLE + "two graphs.",
  ["src/algorithms/dominators.rs"], [("fixpoint and intersection", "src/algorithms/dominators.rs")])
p("A07", "The lowest common ancestor structure is built as documented",
  "The ancestor structure records each node's depth interval and its ancestors by powers of two from the hierarchy, and answers ancestor and common-ancestor queries from those alone.",
  [I], "every hierarchy and pair of nodes", SAMPLE + "small hierarchies.",
  ["src/algorithms/lca.rs"], [("interval and ancestor tables", "src/algorithms/lca.rs")])
p("A08", "The line-based checker lays nodes on lines and answers from their intervals",
  "The line-based convexity checker walks the graph in topological order, continues the lines that reach a node, opens new ones where links are left over, places each node one after the furthest of its predecessors on those lines, and answers interval, membership, extension and convexity queries (including for the empty subgraph) from those lines alone; a failed extension leaves the intervals unchanged.",
  [I], "every graph, node set, boundary and interval map", SAMPLE + "two small graphs.",
  ["src/algorithms/convex/line_convex_checker.rs"], [("line frontier, interval building and convexity search", "src/algorithms/convex/line_convex_checker.rs")])

p("R01", "The DOT rendering covers every node, port and link",
  "The DOT rendering emits each node once with all its ports in order, each link once from its outgoing to its incoming port, and each parent-child relation, using the styles the user gave and hiding what the styles hide.",
  [I], "every graph, hierarchy and style", SAMPLE + "snapshots of a few graphs.",
  ["src/render/dot.rs", "src/render.rs"], [("emission loops", "src/render/dot.rs")])
p("R02", "The Mermaid rendering covers every node and link",
  "The Mermaid rendering emits each node within its parent and each visible link once, using the styles the user gave.",
  [I], "every graph, hierarchy and style", SAMPLE + "snapshots of a few graphs.",
  ["src/render/mermaid.rs"], [("emission loops", "src/render/mermaid.rs")])

p("X01", "Graphs and views can be shared between threads",
  "The graph, hierarchy, weight, map, boundary and view types and their iterators hold no state confined to one thread: whenever their type parameters can be sent to and shared with other threads, so can they.",
  [P], "every program that moves or shares a graph, a map, a view or an iterator across threads", "No test shares a value between threads, and one interior-mutable cell, counted pointer or boxed trait object in a field, however deep, takes the guarantee away without any test noticing.",
  [PGR, MPG, HI, UN, "src/weights.rs", "src/view/region.rs"], [("fields of the exported types", PGR), ("region cache behind a lock", "src/view/region.rs")])
p("X02", "No result depends on the order of a hash container",
  "Graph mutations, rendered text, returned sequences and reported elements never follow the iteration order of a hash map or hash set: with the same calls on equal graphs every run gives the same graph, text and sequence.",
  [I, CF], "every input and every hasher seed", "A test sees one hasher seed per run and mostly containers of a few elements, where a wrong order agrees with the right one by chance.",
  ["src/view/subgraph.rs", "src/render/mermaid.rs", BO, "src/algorithms/dynamic.rs"], [("copy in parent", "src/view/subgraph.rs"), ("remaining edges", "src/render/mermaid.rs"), ("reaching ports", BO)])
p("D01", "Serialisation writes and reads every field",
  "The serialised form of graphs, hierarchies, weights and maps holds every field that makes up the value, under names that deserialising knows, and deserialising takes every field from it, so that a value read back is equal to the one written.",
  [I], "every graph, hierarchy, weight table and map, in every state", SAMPLE + "serialisation of a few of them; a field left out shows only in a state where it is not at its default.",
  [PGR, MPG, HI, UN, "src/weights.rs", IX], [("derived serialisation", PGR), ("derived serialisation", MPG), ("derived serialisation", HI)])

NA = json.load(open("/verif/tools/na.json"))
for n in NA:
    T.append(n["prop"])

TECH = "dataflow effect summaries over MIR compared with reviewed effect specifications"
TECHS = {"X01": "type-level rule: interior mutability, counted and raw pointers and trait objects in the transitive field types of the shared types",
         "X02": "taint dataflow over MIR from hash-container iterators to ordered effects (appends, graph mutations, picks, returned sequences), through loops, closures and callees",
         "D01": "rule over the MIR of the derived serialisation code: fields written, names written and recognised, values read"}
NOTE = ("Static: decides on every path, for all arguments, that the functions the property rests on have exactly the specified writes, guards, delegated calls and results. "
        "Sound up to the modelled std containers and loops summarised by domain; assumes no arithmetic overflow. Differences that involve terms the analysis cannot resolve are listed as undecided, not as violations.")
NOTES = {"X01": "Static: every field type of the listed types, transitively through the crate's types, for all type parameters. Types with an explicit Send or Sync impl are taken at their word.",
         "X02": "Static: every call in the crate that produces a hash-container iterator is followed to what consumes it. A consumer the rule does not recognise as ordered is not reported. Iterators that are themselves the items of a hash set (missing_pairs, the hash set's own map iterator) are outside the statement.",
         "D01": "Static: derived implementations only; hand-written ones are compared with their specification by I04."}
try:
    from pg.notes import NOTES, TECHS
except ImportError:
    pass

if __name__ == "__main__":
    ids = [t["id"] for t in T]
    assert len(set(ids)) == len(ids)
    na = {n["prop"]["id"] for n in NA}
    assert set(PROPS) == set(ids) - na, (set(PROPS) ^ (set(ids) - na))
    for t in T:
        assert len(t["title"]) <= 80, t["title"]
        assert t["statement"].count(". ") <= 2, t["id"]
    with open("/verif/properties.jsonl", "w") as fh:
        for t in T:
            fh.write(json.dumps(t) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 setup.py",
        "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                    "technique": TECHS.get(i, TECH), "level": "other", "level_note": NOTES.get(i, NOTE)} for i in ids if i not in na],
        "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NA],
        "notes": "No hooks: the checks read /repo's source through a rustc driver.",
    }
    with open("/verif/MANIFEST.json", "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    print(len(T), len(man["checks"]))

"""The properties: which functions decide each, and which part of their effect summaries.

A property is decided by a set of clauses.  A clause selects functions (by resolved path) and says
which part of their summaries the property speaks about:

  state     regular expression over the state written (field path); None: no state
  calls     regular expression over the calls left in the summary (trait calls, user callbacks)
  ret       the value returned
  panics    "new": no panic that the specification does not have; "same": exactly these; None
"""
import re


from .engine import MODULAR


def specified(b):
    """Functions with an effect specification: what a user can call."""
    if b.get("derived") or "blocks" not in b:
        return False
    return bool(b.get("exported") or b.get("trait") or MODULAR.search(b["def"]))


def fkey(b):
    """What identifies a function whatever its generic parameters are called."""
    def base(x):
        x = re.sub(r"'\w+ ?|\bmut\b", "", x or "")
        while True:
            y = re.sub(r"<[^<>]*>", "", re.sub(r"->", "", x))
            if y == x:
                return re.sub(r"\s+", "", y)
            x = y

    tr = b.get("trait") or ""
    return (base(tr) + ("<" + tr.split("<", 1)[1] if "<" in tr and "std::convert" in tr else ""), base(b.get("self") or b["def"].rsplit("::", 1)[0]), b["name"])


class Clause:
    def __init__(self, funcs, state=None, calls=None, ret=False, panics=None, rule=None):
        self.funcs = re.compile(funcs)
        self.state = re.compile(state) if state else None
        self.calls = re.compile(calls) if calls else None
        self.ret, self.panics, self.rule = ret, panics, rule

    def selects(self, line, text):
        if line.kind in ("cb", "m"):
            return bool(self.calls and self.calls.search(text))
        return bool(self.state and self.state.search(text))


def names(*ns):
    return "(" + "|".join(ns) + ")$"


def imp(ty, trait, *ns):
    """Methods of `impl trait for ty`."""
    return "^<" + re.escape(ty) + r" as (\w+::)*" + trait + ">::" + (names(*ns) if ns else r"\w+$")


PG = "portgraph::PortGraph<u32, u32, PO>"
MG = "multiportgraph::MultiPortGraph<u32, u32, PO>"
FG = "view::filter::FilteredGraph<G, for<'a> fn(index::NodeIndex, &'a Ctx) -> bool, for<'a> fn(index::PortIndex, &'a Ctx) -> bool, Ctx>"
ANY = "."
G = r"^self(\.graph)?"
MUT = r"(PortMut|LinkMut)"
ALL = dict(state=ANY, calls=ANY, ret=True, panics="new")


def fld(*fs):
    """Lines about these fields of the graph."""
    return r"^\w+ self(\.graph)?\.(" + "|".join(fs) + r")\b"


def C(funcs, **k):
    return Clause(funcs, **k)


PROPS = {}


def prop(pid, *clauses):
    PROPS[pid] = clauses


# ---------------------------------------------------------------- PortGraph
prop("G01",
     C(imp(PG, MUT), state=fld("port_link")),
     C(imp(PG, "LinkView", "port_links"), ret=True, panics="new"),
     C(r"^view::LinkView::port_link$", ret=True))
prop("G02", C(imp(PG, MUT), state=fld("link_count")), C(imp(PG, "LinkView", "link_count"), ret=True))
prop("G03",
     C(imp(PG, "LinkMut"), state=ANY, ret=True, panics="new"),
     C(imp(MG, "LinkMut"), calls=ANY, state=r"self\.(multiport|copy_node|copy_node_count|subport_count)\b", ret=True),
     C(imp(MG, "MultiMut"), calls=ANY, state=ANY, ret=True),
     C(r"^view::LinkMut::(link_nodes|link_offsets)$", ret=True, calls=ANY),
     C(r"^hierarchy::Hierarchy::(push_child|push_front_child|insert_after|insert_before)$", ret=True),
     C(imp("algorithms::dynamic::DynamicTopoConvexChecker<G>", "LinkMut", "link_ports"), calls=ANY))
prop("G04",
     C(imp(PG, "LinkMut"), ret=True, panics="new"),
     C(r"^view::LinkMut::(link_nodes|link_offsets)$", ret=True, calls=ANY, panics="new"))
prop("G05",
     C(imp(PG, MUT), state=fld("node_count", "port_count")),
     C(imp(PG, "PortView", "node_count", "port_count", "is_empty"), ret=True),
     C(imp("portgraph::iter::Nodes<'_>", r"\w+"), state=ANY, calls=ANY, ret=True),
     C(imp("portgraph::iter::Ports<'_>", r"\w+"), state=ANY, calls=ANY, ret=True),
     C(imp(PG, "PortView", "nodes_iter", "ports_iter"), ret=True))
prop("G06",
     C(imp(PG, "PortMut", "clear"), state=ANY),
     C(imp(MG, "PortMut", "clear"), state=ANY, calls=ANY),
     C(imp("algorithms::dynamic::DynamicTopoConvexChecker<G>", "PortMut", "clear"), state=ANY, calls=ANY))
prop("G07",
     C(imp(PG, MUT), state=fld("node_free", "port_free") + r"|^w self\.node_meta\S*@Free|NodeEntry::Free"),
     C(imp(PG, "PortMut", "add_node", "remove_node", "set_num_ports"), state=fld("node_meta", "port_meta", "node_free", "port_free"), ret=True))
prop("G08",
     C(imp(PG, "PortMut", "compact_nodes", "compact_ports", "set_num_ports"), calls=r"^cb"),
     C(imp(MG, "PortMut", "compact_nodes", "compact_ports", "set_num_ports"), calls=r"^cb"))
prop("G09",
     C(imp(PG, MUT), state=fld("port_meta")),
     C(imp(PG, "PortView", "port_node", "port_direction", "port_offset", "contains_port"), ret=True, panics="new"))
prop("G10",
     C(imp(PG, MUT), state=fld("node_meta")),
     C(imp(PG, "PortView", "port_index", "ports", "port_offsets", "all_ports", "all_port_offsets", "input", "output", "num_ports", "contains_node", "node_port_capacity", "port_offset"), ret=True, panics="new"),
     C(r"^view::PortView::(inputs|outputs|num_inputs|num_outputs|input_offsets|output_offsets)$", ret=True))
prop("G11",
     C(imp(PG, "PortView"), ret=True, panics="new"),
     C(imp(PG, "LinkView"), ret=True, panics="new"),
     C(imp(PG, MUT, "add_node"), panics="new"))
prop("G12",
     C(imp(PG, "LinkView"), ret=True, panics="new"),
     C(r"^view::LinkView::", ret=True, panics="new"),
     C(r"^<portgraph::iter::(NodeLinks|NodeConnections|Neighbours)<.*> as std::iter::Iterator>::(next|size_hint)$", state=ANY, calls=ANY, ret=True),
     C(r"^<portgraph::iter::(NodeConnections|Neighbours)<.*> as std::iter::DoubleEndedIterator>::next_back$", state=ANY, calls=ANY, ret=True),
     C(r"^portgraph::iter::(NodeConnections|Neighbours)::.*::\w+$", ret=True))
prop("G13",
     C(r"^<portgraph::iter::(NodePorts|NodePortOffsets|Nodes|Ports)\b.*>::\w+$", **ALL),
     C(r"^portgraph::iter::(NodePorts|NodePortOffsets)::.*as_range$|^portgraph::iter::NodePorts::as_range$", ret=True))
prop("G14",
     C(r"^<portgraph::PortGraph<N, P, PO> as std::default::Default>::default$|^<portgraph::NodeMeta as std::default::Default>::default$", ret=True),
     C(r"^portgraph::PortGraph::<N, P, PO>::(new|with_capacity)$", ret=True),
     C(r"^multiportgraph::MultiPortGraph::<u32, u32, PO>::(new|with_capacity)$", ret=True),
     C(r"^hierarchy::Hierarchy::(new|with_capacity)$|^<hierarchy::(Hierarchy|NodeData) as std::default::Default>::default$", ret=True))
prop("G15",
     C(r"^view::LinkMut::(link_nodes|link_offsets|insert_graph)$", state=ANY, calls=ANY, ret=True),
     C(r"^view::(LinkView|PortView|MultiView)::", ret=True, panics="new"))
prop("G16",
     C(imp(PG, "PortMut", "reserve", "shrink_to_fit"), state=ANY, calls=ANY),
     C(imp(MG, "PortMut", "reserve", "shrink_to_fit"), state=ANY, calls=ANY),
     C(imp("algorithms::dynamic::DynamicTopoConvexChecker<G>", "PortMut", "reserve", "shrink_to_fit"), state=ANY, calls=ANY),
     C(r"^hierarchy::Hierarchy::ensure_capacity$", state=ANY),
     C(r"^(unmanaged::UnmanagedDenseMap::<K, V>|<unmanaged::UnmanagedDenseMap<K, V> as secondary::SecondaryMap<K, V>>|<(bitvec::vec::BitVec|std::collections::HashSet<K>) as secondary::SecondaryMap<K, bool>>)::(ensure_capacity|shrink_to)$", state=ANY, calls=ANY),
     C(imp(PG, "PortView", "node_capacity", "port_capacity", "node_port_capacity"), ret=True))
prop("G17",
     C(imp(PG, "PortMut", "remove_node"), state=ANY, calls=ANY, panics="new"))
prop("G18",
     C(imp(PG, "PortMut", "set_num_ports"), state=ANY, calls=ANY, panics="new"))
prop("G19",
     C(imp(PG, "PortMut", "swap_nodes", "compact_nodes", "compact_ports"), state=ANY, calls=ANY, panics="new"))
prop("G20",
     C(imp(PG, "PortMut", "add_node"), state=ANY, calls=ANY, ret=True, panics="same"),
     C(imp(PG, "PortMut", "set_num_ports"), panics="same"))

# ---------------------------------------------------------------- MultiPortGraph
prop("M01",
     C(imp(MG, "PortView"), ret=True, panics="new"),
     C(imp("multiportgraph::iter::Nodes<'_, PO>", r"\w+"), **ALL),
     C(imp("multiportgraph::iter::Ports<'_, PO>", r"\w+"), **ALL),
     C(r"^multiportgraph::MultiPortGraph::<u32, u32, PO>::pg_main_node$", ret=True))
prop("M02",
     C(imp(MG, "PortMut"), state=r"^\w+ self\.(multiport|copy_node|copy_node_count|subport_count)\b"),
     C(imp(MG, "LinkMut"), state=r"^\w+ self\.(multiport|copy_node|copy_node_count|subport_count)\b"),
     C(imp(MG, "PortView", "node_count", "port_count", "is_empty"), ret=True),
     C(imp(MG, "LinkView", "link_count"), ret=True))
prop("M03",
     C(imp(MG, "LinkMut"), **ALL),
     C(imp(MG, "MultiMut"), **ALL))
prop("M04",
     C(imp(MG, "LinkView"), ret=True, panics="new"),
     C(imp(MG, "MultiView"), ret=True, panics="new"),
     C(r"^<multiportgraph::iter::(Neighbours|NodeConnections|NodeLinks|NodeSubports|PortLinks)<.*>::\w+$", **ALL))
prop("M05",
     C(imp(MG, "PortMut", "swap_nodes", "compact_nodes", "compact_ports", "set_num_ports"), state=ANY, calls=ANY, panics="new"))
prop("M06",
     C(imp(MG, "PortMut", "remove_node", "add_node", "clear"), state=ANY, calls=ANY, ret=True, panics="new"))
prop("M07",
     C(r"^<multiportgraph::SubportIndex as|^multiportgraph::SubportIndex::|for index::PortIndex>::from$", ret=True, calls=ANY, panics="same"),
     C(r"^<multiportgraph::MultiPortGraph as std::convert::From<|std::convert::From<multiportgraph::MultiPortGraph> for|^multiportgraph::MultiPortGraph::.*::as_portgraph$", ret=True))

# ---------------------------------------------------------------- views
prop("V01", C(r"^view::refs::", **ALL))
prop("V02", C(imp(FG, r"\w+"), **ALL), C(r"^view::filter::FilteredGraph::", ret=True))
prop("V03", C(r"^(<view::region::Region|view::region::Region::)", **ALL))
prop("V04", C(r"^(<view::flat_region::FlatRegion|view::flat_region::FlatRegion::)", **ALL))
prop("V05", C(r"^(<view::subgraph::Subgraph|view::subgraph::Subgraph::)(?!.*copy_in_parent)", **ALL))
prop("V06", C(r"^view::subgraph::Subgraph::.*copy_in_parent$", **ALL))
prop("B01", C(r"^boundary::Boundary::(find_port|from_ports|input_indices|inputs|is_compatible|new|num_ports|output_indices|outputs|port_index|port_indices|ports)$", **ALL),
     C(r"^<view::subgraph::Subgraph<G> as boundary::HasBoundary>::port_boundary$", **ALL),
     C(r"^view::subgraph::Subgraph::<G>::(new_subgraph|with_nodes)$", ret=True))
prop("B02", C(r"^boundary::Boundary::(port_ordering|is_stronger_than)$|^boundary::PortOrdering::", **ALL))

# ---------------------------------------------------------------- hierarchy
prop("H01", C(r"^hierarchy::Hierarchy::(push_child|push_front_child|insert_after|insert_before)$", ret=True, panics="new"))
prop("H02", C(r"^hierarchy::Hierarchy::(push_child|push_front_child|insert_after|insert_before|detach|detach_children|remove)$", state=ANY, calls=ANY, panics="new"))
prop("H03", C(r"^hierarchy::Hierarchy::(rekey|swap_nodes|shrink_to|ensure_capacity)$", state=ANY, calls=ANY, ret=True, panics="new"))
prop("H04",
     C(r"^hierarchy::Hierarchy::(child_count|children|descendants|first|has_children|is_root|last|next|parent|prev)$", ret=True, panics="new"),
     C(r"^<hierarchy::(Children|Descendants)<.*>::\w+$", **ALL),
     C(r"^hierarchy::<impl std::convert::From<", ret=True))

# ---------------------------------------------------------------- secondary maps
prop("S01", C(r"^<bitvec::vec::BitVec as secondary::", **ALL))
prop("S02", C(r"^<std::collections::HashSet<K> as secondary::", **ALL), C(r"^secondary::SecondaryMap::", **ALL))
prop("S03", C(r"^<unmanaged::UnmanagedDenseMap<K, V> as|^unmanaged::UnmanagedDenseMap::", **ALL))
prop("S04", C(r"^<(secondary::(BitVec|HashSet)Iter|unmanaged::UnmanagedIter)<", **ALL),
     C(r"^<(bitvec::vec::BitVec|std::collections::HashSet<K>|unmanaged::UnmanagedDenseMap<K, V>) as secondary::SecondaryMap<K, \w+>>::iter$", ret=True))
prop("W01", C(r"^<weights::Weights|^weights::Weights::", **ALL))

# ---------------------------------------------------------------- indices
prop("I01",
     C(r"^<index::(NodeIndex|PortIndex|BitField)<U> as std::(convert|default)::", ret=True, panics="same"),
     C(r"^index::(NodeIndex|PortIndex)::<U>::|^index::<impl std::convert::From<index::(BitField|NodeIndex|PortIndex)<U>> for usize>::from$", ret=True, panics="same"),
     C(r"^<Direction as|^<impl std::convert::From<Direction> for usize>|^Direction::reverse$", ret=True, panics="same"))
prop("I02",
     C(r"^<index::Maybe(Node|Port)Index<U> as std::", **ALL),
     C(r"^index::Maybe(Node|Port)Index::<U>::", state=ANY, ret=True, panics="same"),
     C(r"^index::<impl std::convert::From<index::Maybe", ret=True))
prop("I03", C(r"^<index::PortOffset<U> as std::default|^index::PortOffset::<U>::|^portgraph::PortOperation", ret=True, panics="same"))
prop("I04",
     C(r"^<index::\w+<U> as serde::|^index::serde_port_offset_impl::|^<index::serde_port_offset_impl::", state=ANY, calls=ANY, ret=True))

# ---------------------------------------------------------------- petgraph
prop("P01", C(r"^<view::petgraph::(EdgeRef|EdgeRefs|NodeEdgeRefs)<|^view::petgraph::(EdgeRefs|NodeEdgeRefs)::|^view::petgraph::<impl petgraph::visit::(IntoEdges|IntoEdgesDirected|IntoEdgeReferences|IntoNeighbors|IntoNeighborsDirected|EdgeCount) |^view::petgraph::<impl std::convert::From<", **ALL))
prop("P02", C(r"^view::petgraph::<impl petgraph::visit::(GetAdjacencyMatrix|IntoNodeIdentifiers|IntoNodeReferences|NodeCount|NodeIndexable|NodeRef|VisitMap<.*>|Visitable) for ", **ALL))

# ---------------------------------------------------------------- algorithms
prop("A01", C(r"algorithms::toposort::(?!.*Debug)", **ALL))
prop("A02", C(r"algorithms::post_order::(?!.*Debug)", **ALL))
prop("A03", C(r"^<algorithms::dynamic::.* as view::(PortMut|LinkMut)>|^algorithms::dynamic::DynamicTopoConvexChecker::<G>::new$", **ALL))
prop("A04", C(r"^<algorithms::dynamic::.* as view::(PortView|LinkView)>", **ALL))
prop("A05", C(r"algorithms::convex::topo_convex_checker::|^<algorithms::dynamic::.* as algorithms::convex::ConvexChecker>|^view::subgraph::Subgraph::<G>::(is_convex|is_convex_with_checker)$", **ALL))
prop("A06", C(r"^algorithms::dominators::", **ALL))
prop("A07", C(r"^algorithms::lca::", **ALL))
prop("A08", C(r"algorithms::convex::line_convex_checker::(?!.*Debug)", **ALL))
prop("R01", C(r"^render::dot::|^<G as render::dot|^render::(NodeStyle|PortStyle|EdgeStyle|PresentationStyle)::|^<render::", **ALL))
prop("R02", C(r"^render::mermaid::|^<G as render::mermaid", **ALL))

# ---------------------------------------------------------------- rules over types and code
prop("X01", C(r"(?!)", rule="shared"))
prop("X02", C(r"(?!)", rule="hash_order"))
prop("D01", C(r"(?!)", rule="serde_fields"))

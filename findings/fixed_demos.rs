use portgraph::{PortGraph, MultiPortGraph, Hierarchy, NodeIndex, PortIndex, PortOffset, Direction, LinkError, LinkMut, LinkView, MultiView, PortMut, PortView, SecondaryMap, UnmanagedDenseMap};
use portgraph::algorithms::{DynamicTopoConvexChecker, ConvexChecker};
use portgraph::view::{FlatRegion, filter::*};
use portgraph::multiportgraph::SubportIndex;
#[test] fn d01_link_unknown_b() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,1);
    let p = g.output(a,0).unwrap();
    let bad = PortIndex::new(77);
    match g.link_ports(p, bad) { Err(LinkError::UnknownPort{port}) => assert_eq!(port, bad), r => panic!("{r:?}") }
}
#[test] fn d02_swap_free_head() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,1); let b = g.add_node(1,0);
    g.remove_node(a);
    g.swap_nodes(a,b); // now node at a, free at b
    let c = g.add_node(0,0);
    assert_ne!(c, a);
    assert_eq!(g.nodes_iter().count(), 2);
}
#[test] fn d02b_swap_free_free() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..4).map(|_| g.add_node(0,0)).collect();
    g.remove_node(n[0]); g.remove_node(n[1]); g.remove_node(n[2]);
    g.swap_nodes(n[0], n[2]);
    let k: Vec<_> = (0..3).map(|_| g.add_node(0,0)).collect();
    assert_eq!(g.nodes_iter().count(), 4, "{k:?}");
    assert_eq!(g.node_count(), 4);
}
#[test] fn d03_zero_ports() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,1);
    let b = g.add_node(1,0);
    g.set_num_ports(a, 0, 0, |_,_| {});
    assert_eq!(g.node_port_capacity(a), 0);
    let c = g.add_node(0,1);
    g.link_nodes(c,0,b,0).unwrap();
    g.compact_ports(|_,_| {});
    g.remove_node(a);
    assert_eq!(g.port_count(), 2);
    assert_eq!(g.ports_iter().filter(|p| g.port_node(*p).is_some()).count(), 2);
    assert_eq!(g.link_count(), 1);
    assert!(g.port_link(g.input(b,0).unwrap()).is_some());
}
#[test] fn d04_many_ports() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(1,1);
    g.set_num_ports(a, 20000, 20000, |_,_| {});
    assert_eq!(g.num_ports(a, Direction::Incoming), 20000);
}
#[test] fn d04b_too_many_ports_unchanged() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,1); let b = g.add_node(1,0);
    g.link_nodes(a,0,b,0).unwrap();
    let before = g.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.set_num_ports(b, 60000, 60000, |_,_| {})));
    assert!(r.is_err());
    assert_eq!(g, before);
}
#[test] fn d05_rev_links() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(1,1);
    g.link_nodes(a,0,a,0).unwrap();
    let f: Vec<_> = g.all_links(a).collect();
    assert_eq!(f.len(), 1);
    let m: Vec<_> = g.all_neighbours(a).collect(); assert_eq!(m.len(), 1);
}
#[test] fn d06_multi_set_num_ports() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0,1); let b = g.add_node(3,1); 
    let c = g.add_node(1,0); let d = g.add_node(1,0);
    // b: in0 single multiport target ; out0 multiport
    g.link_nodes(a,0,b,2).unwrap(); g.link_nodes(a,0,b,2).unwrap();
    g.link_nodes(b,0,c,0).unwrap(); g.link_nodes(b,0,d,0).unwrap();
    g.set_num_ports(b, 2, 1, |_,_| {});
    let o = g.output(b,0).unwrap();
    assert_eq!(g.port_links(o).count(), 2);
    assert_eq!(g.subports(b, Direction::Outgoing).count(), 2);
}
#[test] fn d07_multi_unlink() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0,1); let b = g.add_node(2,0);
    g.link_nodes(a,0,b,0).unwrap(); g.link_nodes(a,0,b,1).unwrap();
    let p = g.output(a,0).unwrap();
    let r = g.unlink_port(p).unwrap();
    assert_eq!(g.port_node(r.port()), Some(b));
}
#[test] fn d08_self_parent() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,0);
    let mut h = Hierarchy::new();
    assert!(h.push_child(a,a).is_err());
    assert!(h.push_front_child(a,a).is_err());
    assert!(h.is_root(a));
}
#[test] fn d09_rekey_same() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,0); let b = g.add_node(0,0);
    let mut h = Hierarchy::new();
    h.push_child(b,a).unwrap();
    g.compact_nodes(|o,n| h.rekey(o,n));
    assert_eq!(h.parent(b), Some(a));
}
#[test] fn d10_flat_empty() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,0);
    let h = Hierarchy::new();
    let r = FlatRegion::new_without_root(&g, &h, a);
    assert_eq!(r.node_count(), 0);
    assert!(r.is_empty());
}
#[test] fn d11_filtered_link_count() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,1); let b = g.add_node(1,0);
    g.link_nodes(a,0,b,0).unwrap();
    let f: NodeFiltered<_, NodeFilter<()>, ()> = NodeFiltered::new_node_filtered(&g, |_,_| true, ());
    assert_eq!(f.link_count(), 1);
}
#[test] fn d12_filtered_subport_link() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0,1); let b = g.add_node(1,0);
    g.link_nodes(a,0,b,0).unwrap();
    let f: NodeFiltered<_, NodeFilter<NodeIndex>, NodeIndex> = NodeFiltered::new_node_filtered(&g, |n,c| n != *c, b);
    let s = g.subports(a, Direction::Outgoing).next().unwrap();
    assert_eq!(f.links(a, Direction::Outgoing).count(), 0);
    assert_eq!(f.subport_link(s), None);
}
#[test] fn d14_rekey_default() {
    let mut m: UnmanagedDenseMap<NodeIndex, usize> = UnmanagedDenseMap::with_default(7);
    let (a,b) = (NodeIndex::new(0), NodeIndex::new(1));
    m[a] = 3;
    m.rekey(a, Some(b));
    assert_eq!(m[b], 3); assert_eq!(m[a], 7);
}
#[test] fn d15_ensure_capacity() {
    use bitvec::vec::BitVec;
    let mut m: BitVec = SecondaryMap::<usize,bool>::with_capacity(64);
    <BitVec as SecondaryMap<usize,bool>>::ensure_capacity(&mut m, 100);
    assert!(m.capacity() >= 100);
    let mut m: std::collections::HashSet<usize> = Default::default();
    m.reserve(3);
    SecondaryMap::ensure_capacity(&mut m, 1000);
    assert!(m.capacity() >= 1000);
}
#[test] fn d16_index_range() {
    assert!(std::panic::catch_unwind(|| NodeIndex::<u32>::new(1usize<<31)).is_err());
    assert!(std::panic::catch_unwind(|| PortOffset::<u16>::new_incoming(32768)).is_err());
    assert!(std::panic::catch_unwind(|| PortOffset::<u16>::new_incoming(32767)).is_err());
    PortOffset::<u16>::new_outgoing(32766);
}
#[test] fn d18_multi_link_fail() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0,1); let b = g.add_node(1,0);
    g.link_nodes(a,0,b,0).unwrap();
    let p = g.output(a,0).unwrap();
    let n = g.all_subports(a).count();
    assert!(g.link_ports(p, PortIndex::new(900)).is_err());
    assert_eq!(g.all_subports(a).count(), n);
    assert!(g.link_ports(p, p).is_err());
    assert_eq!(g.all_subports(a).count(), n);
}
#[test] fn d19_dyn_parallel() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,2); let b = g.add_node(2,0);
    g.link_nodes(a,0,b,0).unwrap();
    let mut c = DynamicTopoConvexChecker::new(g);
    c.link_nodes(a,1,b,1).unwrap();
}
#[test] fn d19c_dyn_clear() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,2); let b = g.add_node(2,0);
    g.link_nodes(a,0,b,0).unwrap();
    let mut c = DynamicTopoConvexChecker::new(g);
    c.clear();
    assert!(!c.is_convex([a], [], []));
}
#[test] fn d19d_dyn_remove_missing() {
    let g: PortGraph = PortGraph::new();
    let mut c = DynamicTopoConvexChecker::new(g);
    c.remove_node(NodeIndex::new(3));
}
#[cfg(feature="petgraph")]
#[test] fn d20_petgraph_dfs() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,2); let b = g.add_node(2,0);
    g.link_nodes(a,0,b,0).unwrap();
    let mut d = ::petgraph::visit::Dfs::new(&g, a);
    let mut v = vec![];
    while let Some(n) = d.next(&g) { v.push(n); }
    assert_eq!(v, vec![a,b]);
}
#[cfg(feature="petgraph")]
#[test] fn d20b_petgraph_edges() {
    use ::petgraph::visit::*;
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,2); let b = g.add_node(2,0);
    g.link_nodes(a,0,b,0).unwrap();
    assert_eq!((&g).edge_references().map(|e| (e.source(), e.target())).collect::<Vec<_>>(), vec![(a,b)]);
    assert_eq!((&g).edges(b).map(|e| (e.source(), e.target())).collect::<Vec<_>>(), vec![]);
    assert_eq!((&g).edges_directed(b, petgraph::Direction::Incoming).map(|e| (e.source(), e.target())).collect::<Vec<_>>(), vec![(a,b)]);
}
#[cfg(feature="petgraph")]
#[test] fn d20c_petgraph_bound() {
    use ::petgraph::visit::*;
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0,2); let b = g.add_node(2,0);
    g.remove_node(a);
    assert!((&g).node_bound() > (&g).to_index(b));
}

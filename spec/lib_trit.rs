// Visiting all keys of a tree.

pub type Calls = Seq<(Seq<u8>, Val, bool)>;
/// The key belongs to the node itself or below a child for a byte under c.
pub open spec fn bef(g: Seq<u8>, k: Seq<u8>, c: int) -> bool { k == g || k[g.len() as int] < c }
/// The calls from t0 to t1 are keys of the map in order, and no call but the last one asked to stop.
pub open spec fn vis(t0: Calls, t1: Calls, m: Map<Seq<u8>, Ent>) -> bool {
    &&& t0.len() <= t1.len() && forall|i: int| 0 <= i < t0.len() ==> #[trigger] t1[i] == t0[i]
    &&& forall|i: int| t0.len() <= i < t1.len() ==> m.contains_key((#[trigger] t1[i]).0) && m[t1[i].0].v == t1[i].1
    &&& forall|i: int, j: int| t0.len() <= i < j < t1.len() ==> lt((#[trigger] t1[i]).0, (#[trigger] t1[j]).0) && t1[i].0 != t1[j].0
    &&& forall|i: int| t0.len() <= i < t1.len() - 1 ==> !(#[trigger] t1[i]).2
}
pub open spec fn upto(t0: Calls, t1: Calls, g: Seq<u8>, c: int) -> bool { forall|i: int| t0.len() <= i < t1.len() ==> bef(g, (#[trigger] t1[i]).0, c) }
pub open spec fn seen(t0: Calls, t1: Calls, k: Seq<u8>) -> bool { exists|i: int| t0.len() <= i < t1.len() && (#[trigger] t1[i]).0 == k }
pub open spec fn full(t0: Calls, t1: Calls, m: Map<Seq<u8>, Ent>, g: Seq<u8>, c: int) -> bool {
    forall|k: Seq<u8>| #[trigger] m.contains_key(k) && bef(g, k, c) ==> seen(t0, t1, k)
}
pub open spec fn halted(t0: Calls, t1: Calls) -> bool { t1.len() > t0.len() && t1.last().2 }
/// Every key was visited once, or the visitor asked to stop at the last call.
pub open spec fn walked(t0: Calls, t1: Calls, m: Map<Seq<u8>, Ent>, r: bool) -> bool {
    &&& vis(t0, t1, m) && r == halted(t0, t1)
    &&& !r ==> forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> seen(t0, t1, k)
}
pub proof fn walk_leaf(h: H, p: Ptr, t0: Calls, b: bool)
    requires tree(h, p), inner(kind_of(p)), h.nodes[p].leaf != 0,
    ensures ({
        let l = h.nodes[p].leaf;
        let t1 = t0.push((key_of(h, l), h.nodes[l].value, b));
        vis(t0, t1, h.gh[p].cont) && upto(t0, t1, h.gh[p].gp, 0) && full(t0, t1, h.gh[p].cont, h.gh[p].gp, 0) && halted(t0, t1) == b
    }),
{
    own_leaf(h, p);
    let l = h.nodes[p].leaf;
    let t1 = t0.push((key_of(h, l), h.nodes[l].value, b));
    assert forall|k: Seq<u8>| #[trigger] h.gh[p].cont.contains_key(k) && bef(h.gh[p].gp, k, 0) implies seen(t0, t1, k) by { assert(t1[t0.len() as int].0 == k); }
}
pub proof fn walk_none(h: H, p: Ptr, t0: Calls)
    requires tree(h, p), inner(kind_of(p)), h.nodes[p].leaf == 0,
    ensures vis(t0, t0, h.gh[p].cont), upto(t0, t0, h.gh[p].gp, 0), full(t0, t0, h.gh[p].cont, h.gh[p].gp, 0), !halted(t0, t0),
{
    assert forall|k: Seq<u8>| #[trigger] h.gh[p].cont.contains_key(k) && bef(h.gh[p].gp, k, 0) implies seen(t0, t0, k) by { cont_pfx(h, p, k); }
}
/// Nothing for this byte.
pub proof fn walk_skip(h: H, p: Ptr, c: int, t0: Calls, t1: Calls)
    requires tree(h, p), inner(kind_of(p)), 0 <= c < 256, kid_at(h, p, c as u8).tag == Tag::Nil,
        upto(t0, t1, h.gh[p].gp, c), full(t0, t1, h.gh[p].cont, h.gh[p].gp, c),
    ensures upto(t0, t1, h.gh[p].gp, c + 1), full(t0, t1, h.gh[p].cont, h.gh[p].gp, c + 1),
{
    assert forall|k: Seq<u8>| #[trigger] h.gh[p].cont.contains_key(k) && bef(h.gh[p].gp, k, c + 1) implies seen(t0, t1, k) by { cont_pfx(h, p, k); }
}
pub proof fn walk_kid(h: H, p: Ptr, c: int, t0: Calls, t1: Calls, t2: Calls, r: bool)
    requires tree(h, p), inner(kind_of(p)), 0 <= c < 256, kid_at(h, p, c as u8).tag != Tag::Nil,
        vis(t0, t1, h.gh[p].cont), upto(t0, t1, h.gh[p].gp, c), full(t0, t1, h.gh[p].cont, h.gh[p].gp, c), !halted(t0, t1),
        walked(t1, t2, h.gh[kid_at(h, p, c as u8).p].cont, r),
    ensures vis(t0, t2, h.gh[p].cont), upto(t0, t2, h.gh[p].gp, c + 1), !r ==> full(t0, t2, h.gh[p].cont, h.gh[p].gp, c + 1), r == halted(t0, t2),
{
    let m = h.gh[p].cont;
    let g = h.gh[p].gp;
    let my = h.gh[kid_at(h, p, c as u8).p].cont;
    assert forall|i: int| t1.len() <= i < t2.len() implies m.contains_key((#[trigger] t2[i]).0) && m[t2[i].0].v == t2[i].1 && rt(h, p, t2[i].0) && t2[i].0[g.len() as int] == c && pfx(g, t2[i].0) && t2[i].0.len() > g.len() by { kid_in(h, p, c as u8, t2[i].0); }
    assert forall|i: int| t0.len() <= i < t2.len() implies m.contains_key((#[trigger] t2[i]).0) && m[t2[i].0].v == t2[i].1 && bef(g, t2[i].0, c + 1) by { if i < t1.len() { assert(t2[i] == t1[i]); } }
    assert forall|i: int, j: int| t0.len() <= i < j < t2.len() implies lt((#[trigger] t2[i]).0, (#[trigger] t2[j]).0) && t2[i].0 != t2[j].0 by {
        if i < t1.len() {
            assert(t2[i] == t1[i]);
            if j < t1.len() { assert(t2[j] == t1[j]); }
            else {
                cont_pfx(h, p, t1[i].0);
                if t1[i].0 == g { lt_ext(g, t2[j].0); } else { lt_div(g, t1[i].0, t2[j].0); }
            }
        }
    }
    assert forall|i: int| t0.len() <= i < t2.len() - 1 implies !(#[trigger] t2[i]).2 by { if i < t1.len() { assert(t2[i] == t1[i]); if i == t1.len() - 1 { assert(t1.last() == t1[i]); } } }
    if !r {
        assert forall|k: Seq<u8>| #[trigger] m.contains_key(k) && bef(g, k, c + 1) implies seen(t0, t2, k) by {
            if bef(g, k, c) { let i = choose|i: int| t0.len() <= i < t1.len() && (#[trigger] t1[i]).0 == k; assert(t2[i].0 == k); }
            else {
                cont_pfx(h, p, k);
                assert(my.contains_key(k));
                let i = choose|i: int| t1.len() <= i < t2.len() && (#[trigger] t2[i]).0 == k;
                assert(t2[i].0 == k);
            }
        }
    }
}
pub proof fn walk_end(h: H, p: Ptr, t0: Calls, t1: Calls, c: int)
    requires tree(h, p), inner(kind_of(p)), full(t0, t1, h.gh[p].cont, h.gh[p].gp, c), h.nodes[p].numChildren == 0 || c == 256,
    ensures forall|k: Seq<u8>| #[trigger] h.gh[p].cont.contains_key(k) ==> seen(t0, t1, k),
{
    if h.nodes[p].numChildren == 0 { cont_none(h, p); }
}
/// Only the list of calls grew.
pub open spec fn calls_only(h0: H, h1: H) -> bool { h1 == (H { trace: h1.trace, ..h0 }) }
pub proof fn calls_tree(h0: H, h1: H, p: Ptr)
    requires calls_only(h0, h1), tree(h0, p),
    ensures tree(h1, p),
{
    assert(fr(h0, h1, Set::empty())) by { reveal(fr); }
    tree_quiet(h0, h1, p);
}

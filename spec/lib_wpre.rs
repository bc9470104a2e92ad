// Deleting every key with a prefix.

/// The keys with the prefix.
pub open spec fn hit(m: Map<Seq<u8>, Ent>, k: Seq<u8>) -> Set<Seq<u8>> { m.dom().filter(|x: Seq<u8>| pfx(k, x)) }
/// The entries without the prefix.
pub open spec fn dp(m: Map<Seq<u8>, Ent>, k: Seq<u8>) -> Map<Seq<u8>, Ent> { m.restrict(m.dom().filter(|x: Seq<u8>| !pfx(k, x))) }
/// Keys of the node itself and of its children before c.
pub open spec fn part(h: H, p: Ptr, c: int) -> Set<Seq<u8>> {
    h.gh[p].cont.dom().filter(|k: Seq<u8>| k.len() <= h.gh[p].gp.len() || (k[h.gh[p].gp.len() as int] as int) < c)
}
pub open spec fn late(h: H, p: Ptr, c: int, x: Ptr) -> bool { exists|d: u8| c <= d && #[trigger] kid_has(h, p, d, x) }
/// The owned nodes of the node itself and of its children before c.
pub open spec fn zone_to(h: H, p: Ptr, c: int) -> Set<Ptr> { zone(h, p).filter(|x: Ptr| !late(h, p, c, x)) }
/// Only channels were replaced.
pub open spec fn thin(h0: H, h1: H, t: Ptr) -> bool {
    &&& side(h0, h1, t)
    &&& h1.gh == h0.gh && h1.gx == h0.gx && h1.bytes == h0.bytes && h1.narr == h0.narr && h1.m_RadixTree == h0.m_RadixTree
    &&& forall|x: Ptr| #![trigger h1.nodes[x]] #![trigger h1.nodes.contains_key(x)] h1.nodes.contains_key(x) == h0.nodes.contains_key(x) && h1.nodes[x] == (Rec { ch: h1.nodes[x].ch, ..h0.nodes[x] })
}
/// The channels of the node and of its children before c are on the list.
pub open spec fn swept(h0: H, h1: H, t: Ptr, p: Ptr, c: int) -> bool {
    let g = h0.gh[p];
    &&& (tm(h0, t) ==> {
        &&& trk(h1, t).contains(h0.nodes[p].ch)
        &&& forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) && q[g.gp.len() as int] < c ==> trk(h1, t).contains((g.wc)(q))
        &&& forall|k: Seq<u8>| #![trigger part(h0, p, c).contains(k)] part(h0, p, c).contains(k) ==> trk(h1, t).contains(g.cont[k].ch)
    })
    &&& forall|x: Chan| #![trigger trk(h1, t).contains(x)] trk(h0, t).contains(x) ==> trk(h1, t).contains(x)
    &&& forall|x: Chan| #![trigger trk(h1, t).contains(x)] trk(h1, t).contains(x) && h0.gx.lk.contains_key(x) ==> trk(h0, t).contains(x) || g.cont.contains_key(h0.gx.lk[x])
}
pub open spec fn sofar(h0: H, h1: H, t: Ptr, p: Ptr, c: int) -> bool {
    thin(h0, h1, t) && shared(h1) && fr(h0, h1, zone_to(h0, p, c)) && swept(h0, h1, t, p, c)
}
/// Everything from the node down is on the list.
pub open spec fn subd(h0: H, h1: H, t: Ptr, n: Node) -> bool {
    thin(h0, h1, t) && shared(h1) && fr(h0, h1, zone(h0, n.p)) && watched(h0, h1, t, n, nil_node(), h0.gh[n.p].cont.dom())
}
pub proof fn part_leaf(h: H, p: Ptr)
    requires tree(h, p), inner(kind_of(p)),
    ensures part(h, p, 0).len() == (if h.nodes[p].leaf != 0 { 1nat } else { 0nat }),
        forall|k: Seq<u8>| #[trigger] part(h, p, 0).contains(k) <==> h.nodes[p].leaf != 0 && k == h.gh[p].gp,
{
    assert forall|k: Seq<u8>| #[trigger] part(h, p, 0).contains(k) <==> h.nodes[p].leaf != 0 && k == h.gh[p].gp by {
        if part(h, p, 0).contains(k) { cont_pfx(h, p, k); }
        if h.nodes[p].leaf != 0 { leaf_in(h, p); }
    }
    if h.nodes[p].leaf != 0 { assert(part(h, p, 0) =~= Set::empty().insert(h.gh[p].gp)); } else { assert(part(h, p, 0) =~= Set::empty()); }
}
pub proof fn part_step(h: H, p: Ptr, c: u8)
    requires tree(h, p), inner(kind_of(p)),
    ensures part(h, p, c + 1).len() == part(h, p, c as int).len() + (if kid_at(h, p, c).tag == Tag::Nil { 0nat } else { h.gh[kid_at(h, p, c).p].cont.dom().len() }),
        forall|k: Seq<u8>| #[trigger] part(h, p, c + 1).contains(k) ==> part(h, p, c as int).contains(k) || (rt(h, p, k) && k[h.gh[p].gp.len() as int] == c && h.gh[kid_at(h, p, c).p].cont.contains_key(k) && h.gh[kid_at(h, p, c).p].cont[k] == h.gh[p].cont[k]),
{
    let a = part(h, p, c as int);
    let b = part(h, p, c + 1);
    let y = kid_at(h, p, c);
    assert forall|k: Seq<u8>| #[trigger] b.contains(k) implies a.contains(k) || (rt(h, p, k) && k[h.gh[p].gp.len() as int] == c && h.gh[y.p].cont.contains_key(k) && h.gh[y.p].cont[k] == h.gh[p].cont[k]) by { cont_pfx(h, p, k); }
    if y.tag == Tag::Nil {
        assert(a =~= b) by { assert forall|k: Seq<u8>| b.contains(k) implies a.contains(k) by { if !a.contains(k) { assert(rt(h, p, k)); } } }
    } else {
        let d = h.gh[y.p].cont.dom();
        assert(b =~= a.union(d)) by { assert forall|k: Seq<u8>| d.contains(k) implies b.contains(k) by { kid_in(h, p, c, k); } }
        assert(a.disjoint(d)) by { assert forall|k: Seq<u8>| d.contains(k) implies !a.contains(k) by { kid_in(h, p, c, k); } }
        vstd::set_lib::lemma_set_disjoint_lens(a, d);
    }
}
pub proof fn part_end(h: H, p: Ptr)
    ensures part(h, p, 256) == h.gh[p].cont.dom(),
{ assert(part(h, p, 256) =~= h.gh[p].cont.dom()); }
pub proof fn part_most(h: H, p: Ptr, c: int)
    ensures part(h, p, c).len() <= h.gh[p].cont.dom().len(),
{ vstd::set_lib::lemma_len_subset(part(h, p, c), h.gh[p].cont.dom()); }
pub proof fn thin_trans(h0: H, h1: H, h2: H, t: Ptr)
    requires thin(h0, h1, t), thin(h1, h2, t), ctxn(h0, t),
    ensures thin(h0, h2, t),
{
    side_trans(h0, h1, h2, t);
    assert forall|x: Ptr| #![trigger h2.nodes[x]] #![trigger h2.nodes.contains_key(x)] h2.nodes.contains_key(x) == h0.nodes.contains_key(x) && h2.nodes[x] == (Rec { ch: h2.nodes[x].ch, ..h0.nodes[x] }) by {
        assert(h1.nodes.contains_key(x) == h0.nodes.contains_key(x));
        assert(h1.nodes[x] == (Rec { ch: h1.nodes[x].ch, ..h0.nodes[x] }));
    }
}
pub proof fn thin_track(h0: H, h1: H, t: Ptr, n: Node)
    requires tracked1(h0, h1, t, n), h0.nodes.contains_key(n.p),
    ensures thin(h0, h1, t),
{ }
/// The node and its leaf are on the list.
pub proof fn sub_begin(h0: H, ha: H, hb: H, t: Ptr, n: Node)
    requires start(h0, t, n), tracked1(h0, ha, t, n), arrs(ha),
        if h0.nodes[n.p].leaf != 0 { tracked1(ha, hb, t, Node { tag: Tag::Leaf, p: h0.nodes[n.p].leaf }) } else { hb == ha },
    ensures sofar(h0, hb, t, n.p, 0),
{
    let p = n.p;
    let l = h0.nodes[p].leaf;
    let z = zone_to(h0, p, 0);
    start_unit(h0, t, n);
    track_fr(h0, ha, t, n);
    zone_owned(h0, p);
    part_leaf(h0, p);
    tree_ok(h0, p); ok_i(h0, p);
    thin_track(h0, ha, t, n);
    assert(in_or_new(h0, one(h0, p), z)) by {
        if h0.gh[p].own != 0 { if late(h0, p, 0, p) { let d = choose|d: u8| 0 <= d && #[trigger] kid_has(h0, p, d, p); kid_zone(h0, p, d); } }
    }
    if l != 0 {
        leaf_zone(h0, p); leaf_in(h0, p); leaf_tree(h0, p); tree_ok(h0, l); ok_l(h0, l); zone_owned(h0, l);
        thin_track(ha, hb, t, Node { tag: Tag::Leaf, p: l });
        thin_trans(h0, ha, hb, t);
        let s = one(h0, l);
        assert(in_or_new(h0, s, z)) by {
            if h0.gh[l].own != 0 { if late(h0, p, 0, l) { let d = choose|d: u8| 0 <= d && #[trigger] kid_has(h0, p, d, l); assert(kid_at(h0, p, d).tag != Tag::Nil); } }
        }
        assert(ha.nodes[l] == h0.nodes[l]);
        assert(fr(ha, hb, s)) by {
            reveal(fr);
            if h0.gh[l].own == 0 { assert(h0.gh[l].mx <= old_max(h0, t)); assert(hb.nodes[l] == ha.nodes[l]); }
        }
        assert(owned(ha, s));
        shared_frame(ha, hb, s);
        fr_trans(h0, ha, hb, one(h0, p), s, z);
        assert(h0.gh[p].cont[h0.gh[p].gp] == ent_of(h0, l));
        assert(swept(h0, hb, t, p, 0));
    } else {
        fr_weak(h0, ha, one(h0, p), z);
        assert(swept(h0, hb, t, p, 0));
    }
}
/// A child that is still to come.
pub proof fn sub_next(h0: H, h: H, t: Ptr, n: Node, c: u8)
    requires start(h0, t, n), sofar(h0, h, t, n.p, c as int), arrs(h),
    ensures ({
        let y = kid_at(h0, n.p, c);
        &&& h.nodes.contains_key(n.p) && nwf(n.tag, h.nodes[n.p]) && kid_at(h, n.p, c) == y && txok(h, t)
        &&& (y.tag != Tag::Nil ==> start(h, t, y) && depth_left(h, y) >= 0 && depth_left(h, y) < depth_left(h0, n) && h.gh[y.p] == h0.gh[y.p] && zone(h, y.p) == zone(h0, y.p))
    }),
{
    let p = n.p;
    fact_inner(h0, p);
    rec_same(n.tag, h0.nodes[p], h.nodes[p]);
    assert(kid(n.tag, h.nodes[p], c) == kid(n.tag, h0.nodes[p], c));
    let y = kid_at(h0, p, c);
    if y.tag != Tag::Nil {
        let z = zone_to(h0, p, c as int);
        start_kid(h0, t, n, c);
        kid_zone(h0, p, c);
        zone_owned(h0, p);
        assert(owned(h0, z));
        assert(apart(z, zone(h0, y.p))) by { assert forall|x: Ptr| #[trigger] z.contains(x) implies !zone(h0, y.p).contains(x) by { if zone(h0, y.p).contains(x) { assert(kid_has(h0, p, c, x)); } } }
        kept(h0, h, z, y.p);
        fact_inner(h0, y.p);
    }
}
pub proof fn sub_step(h0: H, h: H, hn: H, t: Ptr, n: Node, c: u8)
    requires start(h0, t, n), sofar(h0, h, t, n.p, c as int), arrs(h),
        if kid_at(h0, n.p, c).tag == Tag::Nil { hn == h } else { subd(h, hn, t, kid_at(h0, n.p, c)) },
    ensures sofar(h0, hn, t, n.p, c + 1),
{
    let p = n.p;
    let y = kid_at(h0, p, c);
    let a = zone_to(h0, p, c as int);
    let b = zone_to(h0, p, c + 1);
    let g = h0.gh[p];
    sub_next(h0, h, t, n, c);
    part_step(h0, p, c);
    assert(in_or_new(h0, a, b)) by {
        assert forall|x: Ptr| #[trigger] a.contains(x) implies b.contains(x) by { if late(h0, p, c + 1, x) { let d = choose|d: u8| c + 1 <= d && #[trigger] kid_has(h0, p, d, x); assert(late(h0, p, c as int, x)); } }
    }
    if y.tag == Tag::Nil {
        fr_weak(h0, h, a, b);
        assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] tm(h0, t) && rt(h0, p, q) && q[g.gp.len() as int] < c + 1 implies trk(hn, t).contains((g.wc)(q)) by {
            assert(q[g.gp.len() as int] != c);
        }
        assert forall|k: Seq<u8>| #![trigger part(h0, p, c + 1).contains(k)] tm(h0, t) && part(h0, p, c + 1).contains(k) implies trk(hn, t).contains(g.cont[k].ch) by {
            assert(part(h0, p, c as int).contains(k));
        }
        assert(swept(h0, hn, t, p, c + 1));
    } else {
        kid_zone(h0, p, c);
        thin_trans(h0, h, hn, t);
        assert(in_or_new(h0, zone(h0, y.p), b)) by {
            assert forall|x: Ptr| #[trigger] zone(h0, y.p).contains(x) implies b.contains(x) by {
                if late(h0, p, c + 1, x) { let d = choose|d: u8| c + 1 <= d && #[trigger] kid_has(h0, p, d, x); assert(kid_at(h0, p, d).tag != Tag::Nil); assert(apart(zone(h0, y.p), zone(h0, kid_at(h0, p, d).p))); }
            }
        }
        fr_trans(h0, h, hn, a, zone(h0, y.p), b);
        let gy = h0.gh[y.p];
        assert forall|x: Chan| #[trigger] trk(h, t).contains(x) implies trk(hn, t).contains(x) by { }
        assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] tm(h0, t) && rt(h0, p, q) && q[g.gp.len() as int] < c + 1 implies trk(hn, t).contains((g.wc)(q)) by {
            if q[g.gp.len() as int] == c { wc_fact(h0, p, q); assert((g.wc)(q) == (gy.wc)(q)); assert(trk(hn, t).contains((gy.wc)(q))); }
            else { assert(trk(h, t).contains((g.wc)(q))); }
        }
        assert forall|k: Seq<u8>| #![trigger part(h0, p, c + 1).contains(k)] tm(h0, t) && part(h0, p, c + 1).contains(k) implies trk(hn, t).contains(g.cont[k].ch) by {
            if part(h0, p, c as int).contains(k) { assert(trk(h, t).contains(g.cont[k].ch)); }
            else { assert(gy.cont.dom().contains(k)); assert(trk(hn, t).contains(gy.cont[k].ch)); }
        }
        assert forall|x: Chan| #![trigger trk(hn, t).contains(x)] trk(hn, t).contains(x) && h0.gx.lk.contains_key(x) implies trk(h0, t).contains(x) || g.cont.contains_key(h0.gx.lk[x]) by {
            if trk(h, t).contains(x) { } else { kid_in(h0, p, c, h0.gx.lk[x]); }
        }
        assert(swept(h0, hn, t, p, c + 1));
    }
}
pub proof fn sub_end(h0: H, h: H, t: Ptr, n: Node, c: int)
    requires start(h0, t, n), sofar(h0, h, t, n.p, c), arrs(h), c == 256 || (c == 0 && h0.nodes[n.p].numChildren == 0),
    ensures subd(h0, h, t, n), part(h0, n.p, c).len() == h0.gh[n.p].cont.dom().len(),
{
    let p = n.p;
    let g = h0.gh[p];
    fr_weak(h0, h, zone_to(h0, p, c), zone(h0, p));
    if c == 0 { cont_none(h0, p); part_leaf(h0, p); assert(part(h0, p, c) =~= g.cont.dom()); } else { part_end(h0, p); }
    if tm(h0, t) {
        assert forall|q: Seq<u8>| #![trigger (g.wc)(q)] trk(h, t).contains((g.wc)(q)) by {
            wc_fact(h0, p, q);
            if rt(h0, p, q) { assert(c == 256); }
        }
        assert forall|k: Seq<u8>| #![trigger g.cont.dom().contains(k)] g.cont.dom().contains(k) implies trk(h, t).contains(g.cont[k].ch) by { assert(part(h0, p, c).contains(k)); }
    }
}
// ---- deleting below a node ----

pub open spec fn can_pre(h: H, t: Ptr, n: Node, key: Slice, k: Seq<u8>, depth: int) -> bool {
    can_del(h, t, n, key, k, depth) && pfx(h.gh[n.p].sp, k) && some_key(h.gh[n.p].cont) && h.gh[n.p].cont.dom().len() < 0x4000_0000_0000_0000
}
pub open spec fn erased(h0: H, h1: H, t: Ptr, n: Node, r: Node, k: Seq<u8>) -> bool {
    edit(h0, h1, t, n, r, dp(h0.gh[n.p].cont, k)) && watched(h0, h1, t, n, r, hit(h0.gh[n.p].cont, k))
}
/// No key below the node has the prefix.
pub proof fn pre_none(h: H, n: Node, k: Seq<u8>)
    requires tree(h, n.p), inner(kind_of(n.p)),
        h.nodes[n.p].numChildren == 0 && h.nodes[n.p].leaf == 0
            || h.nodes[n.p].numChildren == 0 && !pfx(k, h.gh[n.p].gp)
            || (exists|i: int| 0 <= i < k.len() && i < h.gh[n.p].gp.len() && #[trigger] k[i] != h.gh[n.p].gp[i])
            || pfx(h.gh[n.p].gp, k) && k.len() > h.gh[n.p].gp.len() && kid_at(h, n.p, k[h.gh[n.p].gp.len() as int]).tag == Tag::Nil,
    ensures hit(h.gh[n.p].cont, k).len() == 0,
{
    let g = h.gh[n.p];
    assert forall|x: Seq<u8>| !hit(g.cont, k).contains(x) by {
        if hit(g.cont, k).contains(x) {
            cont_pfx(h, n.p, x);
            if h.nodes[n.p].numChildren == 0 { cont_none(h, n.p); }
            else if exists|i: int| 0 <= i < k.len() && i < g.gp.len() && #[trigger] k[i] != g.gp[i] {
                let i = choose|i: int| 0 <= i < k.len() && i < g.gp.len() && #[trigger] k[i] != g.gp[i];
                assert(k[i] == x[i] && g.gp[i] == x[i]);
            } else {
                let j = g.gp.len() as int;
                assert(k[j] == x[j]);
            }
        }
    }
    assert(hit(g.cont, k) =~= Set::empty());
}
/// Every key below the node has the prefix.
pub proof fn pre_all(h0: H, h1: H, t: Ptr, n: Node, k: Seq<u8>)
    requires start(h0, t, n), pfx(k, h0.gh[n.p].gp), subd(h0, h1, t, n),
    ensures erased(h0, h1, t, n, nil_node(), k), hit(h0.gh[n.p].cont, k) == h0.gh[n.p].cont.dom(),
{
    let g = h0.gh[n.p];
    assert forall|x: Seq<u8>| g.cont.contains_key(x) implies pfx(k, x) by { cont_pfx(h0, n.p, x); pfx_trans(k, g.gp, x); }
    assert(hit(g.cont, k) =~= g.cont.dom());
    assert(!some_key(dp(g.cont, k)));
}
pub proof fn pre_down(h: H, t: Ptr, n: Node, key: Slice, k: Seq<u8>, depth: int, c: u8)
    requires can_pre(h, t, n, key, k, depth), pfx(h.gh[n.p].gp, k), k.len() > h.gh[n.p].gp.len(), k[h.gh[n.p].gp.len() as int] == c, kid_at(h, n.p, c).tag != Tag::Nil,
    ensures ({
        let y = kid_at(h, n.p, c);
        let mc = dp(h.gh[y.p].cont, k);
        let m = dp(h.gh[n.p].cont, k);
        let ks = hit(h.gh[n.p].cont, k);
        &&& can_pre(h, t, y, key, k, h.gh[n.p].gp.len() as int + 1) && 0 <= depth_left(h, y) < depth_left(h, n) && h.nodes[n.p].numChildren > 0
        &&& ks == hit(h.gh[y.p].cont, k)
        &&& forall|x: Seq<u8>| #![trigger ks.contains(x)] ks.contains(x) ==> thru(h.gh[n.p].gp, x, c)
        &&& forall|x: Seq<u8>| #![trigger m.contains_key(x)] look(m, x) == look_kid(h, n.p, c, mc, x)
        &&& (!some_key(mc) ==> without(h, n.p, c, m))
    }),
{
    let y = kid_at(h, n.p, c);
    let g = h.gh[n.p];
    let gy = h.gh[y.p];
    let mc = dp(gy.cont, k);
    let m = dp(g.cont, k);
    let ks = hit(g.cont, k);
    del_down(h, t, n, key, k, depth, c);
    start_kid(h, t, n, c);
    assert(pfx(gy.sp, k));
    assert(some_key(gy.cont)) by { tree_ok(h, n.p); ok_i(h, n.p); assert(ok_kid(h, n.p, c)); }
    assert forall|x: Seq<u8>| #![trigger ks.contains(x)] ks.contains(x) implies thru(g.gp, x, c) && gy.cont.contains_key(x) by {
        pfx_trans(g.gp, k, x);
        assert(k[g.gp.len() as int] == x[g.gp.len() as int]);
        step_in(h, n.p, x);
    }
    assert forall|x: Seq<u8>| gy.cont.contains_key(x) implies g.cont.contains_key(x) by { kid_in(h, n.p, c, x); }
    assert(ks =~= hit(gy.cont, k));
    vstd::set_lib::lemma_len_subset(gy.cont.dom(), g.cont.dom());
    assert forall|x: Seq<u8>| #![trigger m.contains_key(x)] look(m, x) == look_kid(h, n.p, c, mc, x) by {
        if thru(g.gp, x, c) { step_in(h, n.p, x); }
        else if pfx(k, x) && g.cont.contains_key(x) { assert(ks.contains(x)); }
    }
    if !some_key(mc) {
        assert forall|x: Seq<u8>| #![trigger m.contains_key(x)] look(m, x) == if thru(g.gp, x, c) { None } else { look(g.cont, x) } by {
            assert(look(m, x) == look_kid(h, n.p, c, mc, x));
            assert(!mc.contains_key(x));
        }
    }
}
pub open spec fn agree(a: Seq<u8>, b: Seq<u8>) -> bool { forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() && i < b.len() ==> a[i] == b[i] }
pub proof fn agree_pfx(a: Seq<u8>, b: Seq<u8>)
    requires agree(a, b),
    ensures a.len() <= b.len() ==> pfx(a, b), b.len() <= a.len() ==> pfx(b, a),
{ }
pub proof fn agree_to(s: Seq<u8>, a: Seq<u8>, k: Seq<u8>, n: int)
    requires pfx(s, a), pfx(s, k), 0 <= n, s.len() + n >= a.len() || s.len() + n >= k.len(), forall|i: int| 0 <= i < n && s.len() + i < a.len() && s.len() + i < k.len() ==> #[trigger] k[s.len() + i] == a[s.len() + i],
    ensures agree(a, k),
{
    assert forall|i: int| #![trigger a[i]] #![trigger k[i]] 0 <= i < a.len() && i < k.len() implies a[i] == k[i] by {
        if i < s.len() { assert(s[i] == k[i]); assert(s[i] == a[i]); } else { assert(k[s.len() + (i - s.len())] == a[s.len() + (i - s.len())]); }
    }
}
pub proof fn pre_some(h: H, n: Node)
    requires tree(h, n.p), inner(kind_of(n.p)), some_key(h.gh[n.p].cont),
    ensures h.nodes[n.p].numChildren > 0 || h.nodes[n.p].leaf != 0,
{ let x = choose|x: Seq<u8>| h.gh[n.p].cont.contains_key(x); cont_pfx(h, n.p, x); }

// Deleting below a node.

pub open spec fn del(h: H, n: Node, k: Seq<u8>) -> Map<Seq<u8>, Ent> { h.gh[n.p].cont.remove(k) }
/// The leaf of the node goes.
pub proof fn del_leaf(h0: H, h1: H, h2: H, t: Ptr, n: Node, r: Node, k: Seq<u8>)
    requires start(h0, t, n), h0.nodes[n.p].leaf != 0, wrote(h0, h1, t, n, true, r), h0.gh[n.p].gp == k,
        h2 == (H { nodes: h1.nodes.insert(r.p, Rec { leaf: 0, ..h1.nodes[r.p] }), ..h1 }),
    ensures h2.nodes.contains_key(h0.nodes[n.p].leaf), h0.gh[n.p].cont.contains_key(k), h2.nodes[h0.nodes[n.p].leaf].value == h0.gh[n.p].cont[k].v,
        h1.nodes[r.p].numChildren == h0.nodes[n.p].numChildren,
        ({
            let m = del(h0, n, k);
            let h3 = put(h2, r.p, grec(h2, t, h0.gh[n.p].sp, k, m));
            if h0.nodes[n.p].numChildren > 0 { edit(h0, h3, t, n, r, m) && watched(h0, h3, t, n, r, set![k]) }
            else { edit(h0, h2, t, n, nil_node(), m) && watched(h0, h2, t, n, nil_node(), set![k]) }
        }),
{
    let p = n.p;
    let l0 = h0.nodes[p].leaf;
    let m = del(h0, n, k);
    let z = near(h0, p);
    let g = grec(h2, t, h0.gh[p].sp, k, m);
    nearly_self(h0, t, n);
    wrote_t(h0, h0, h1, t, n, r);
    zone_owned(h0, p);
    fact_inner(h0, p);
    leaf_zone(h0, p); leaf_in(h0, p); leaf_tree(h0, p); zone_owned(h0, l0); tree_ok(h0, l0); ok_l(h0, l0);
    tree_ok(h0, p); ok_i(h0, p);
    assert(owned(h0, z));
    assert(fr(h1, h2, set![r.p])) by { reveal(fr); }
    fr_trans(h0, h1, h2, z, set![r.p], z);
    side_plain(h1, h2, t);
    side_trans(h0, h1, h2, t);
    trk_same(h1, h2, t);
    assert(lks(h2)) by { assert forall|c: Chan| #[trigger] h2.gx.lk.contains_key(c) implies h2.chans.contains(c) by { assert(h0.chans.contains(c)); assert(h1.chans.contains(c)); } }
    shared_frame(h0, h2, z);
    rec_same(r.tag, h1.nodes[r.p], h2.nodes[r.p]);
    assert forall|d: u8| #![trigger kid_at(h2, r.p, d)] kid_at(h2, r.p, d) == kid_at(h0, p, d) by { assert(kid(r.tag, h2.nodes[r.p], d) == kid(r.tag, h1.nodes[r.p], d)); assert(kid_at(h1, r.p, d) == kid_at(h0, p, d)); }
    assert(r.p != l0);
    assert(leaf_of(h0, n) == l0);
    cont_pfx(h0, p, k);
    if h0.nodes[p].numChildren > 0 {
        let c = 0u8;
        assert(headed(h2, t, r));
        assert(ok_pre(raw(h2, r.p, g), r.p)) by {
            assert(same_pre(h0, p, h2, r.p)) by { assert forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) implies #[trigger] bs_at(h2, h2.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by { assert(bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i)); } }
            pre_kept(h0, p, h2, r.p, g);
        }
        here_kid(h0, h2, t, n, r, g, c);
        assert forall|x: Seq<u8>| #![trigger m.contains_key(x)] look(m, x) == look_new(h0, p, h2, r.p, k, c, x) by {
            if thru(k, x, c) { here_look(h0, h2, t, n, r, g, c, x); }
        }
        assert(some_key(m)) by {
            num_kids(n.tag, h0.nodes[p]);
            let d = choose|d: u8| (#[trigger] kid(n.tag, h0.nodes[p], d)).tag != Tag::Nil;
            assert(kid_at(h0, p, d).tag != Tag::Nil);
            assert(ok_kid(h0, p, d));
            kid_tree(h0, p, d);
            let y = kid_at(h0, p, d).p;
            let x = choose|x: Seq<u8>| h0.gh[y].cont.contains_key(x);
            kid_in(h0, p, d, x);
            cont_pfx(h0, y, x);
            assert(x.len() > k.len());
            assert(m.contains_key(x));
        }
        assert(live(h2, r.p) ==> h2.gh[r.p].own != 0 && h2.gh[r.p].sp.len() <= k.len()) by {
            if live(h2, r.p) { assert(live(h0, r.p)); assert(h0.nodes.contains_key(r.p)); }
        }
        assert(at_node(h0, h2, t, n, r, k, c, m));
        redo_here(h0, h2, t, n, r, k, c, m);
        let h3 = put(h2, r.p, g);
        assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) implies (h3.gh[r.p].wc)(q) == (h0.gh[p].wc)(q) && !pfx(q, k) by {
            assert((h3.gh[r.p].wc)(q) == wc_new(h0, p, h2, r.p, k, c, q));
            if thru(k, q, c) { wc_fact(h0, p, q); }
        }
        here_watch(h0, h3, t, n, r, k);
    } else {
        cont_none(h0, p);
        assert(!some_key(m)) by { assert forall|x: Seq<u8>| !(#[trigger] m.contains_key(x)) by { assert(h0.gh[p].cont.contains_key(x) <==> x == k); } }
        fr_weak(h0, h2, z, zone(h0, p));
        let g0 = h0.gh[p];
        if tm(h0, t) {
            assert forall|q: Seq<u8>| #![trigger (g0.wc)(q)] trk(h2, t).contains((g0.wc)(q)) by { wc_fact(h0, p, q); assert(!rt(h0, p, q)); }
        }
    }
}
/// What may change when the child for c goes: the child's nodes and the node itself.
pub open spec fn part_zone(h: H, p: Ptr, c: u8) -> Set<Ptr> { zone(h, kid_at(h, p, c).p).union(one(h, p)) }
/// Nothing is left of the child for c, whose place in r, the node n or its copy, is empty.
pub open spec fn hollow(h0: H, h1: H, h3: H, t: Ptr, n: Node, r: Node, c: u8) -> bool {
    let r0 = h0.nodes[n.p];
    let r3 = h3.nodes[r.p];
    &&& start(h0, t, n) && kid_at(h0, n.p, c).tag != Tag::Nil
    &&& side(h0, h1, t) && side(h0, h3, t) && shared(h3) && fr(h0, h3, part_zone(h0, n.p, c))
    &&& r.tag == n.tag && kind_of(r.p) == r.tag && r.p != 0 && h3.nodes.contains_key(r.p)
    &&& if h0.gh[n.p].own == 0 { !h0.nodes.contains_key(r.p) } else { r == n }
    &&& r3.numChildren == r0.numChildren && r3.leaf == r0.leaf && r3.partialLen == r0.partialLen
    &&& rest(n.tag, r3, c) == kids(n.tag, r0).update(c as int, nil_node())
    &&& own_pre(h3, r.p) && forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h3, r3.partial, i) == bs_at(h0, r0.partial, i)
    &&& old_max(h3, t) < r3.id <= max_id(h3, t)
    &&& r3.ch != 0 && h3.chans.contains(r3.ch) && !h3.gx.lk.contains_key(r3.ch)
    &&& forall|x: Chan| #[trigger] trk(h3, t).contains(x) <==> trk(h1, t).contains(x) || (tm(h0, t) && x == r0.ch)
    &&& live(h3, r.p) ==> h3.gh[r.p].own != 0 && h3.gh[r.p].sp.len() <= h0.gh[n.p].gp.len()
    &&& arrs(h3)
}
pub proof fn hollow_kid(h0: H, h1: H, h3: H, t: Ptr, n: Node, r: Node, c: u8, d: u8)
    requires hollow(h0, h1, h3, t, n, r, c), d != c, kid_at(h0, n.p, d).tag != Tag::Nil,
    ensures ({
        let y = kid_at(h0, n.p, d);
        &&& inner(y.tag) && kind_of(y.p) == y.tag && y.p != 0 && y.p != n.p && y.p != r.p && h3.nodes.contains_key(y.p) && h0.nodes.contains_key(y.p)
        &&& tree(h3, y.p) && h3.gh[y.p] == h0.gh[y.p] && h3.nodes[y.p] == h0.nodes[y.p] && own_pre(h3, y.p) && own_pre(h0, y.p)
        &&& kid(n.tag, fill(n.tag, h3.nodes[r.p], c), d) == y
        &&& start(h0, t, y) && h0.gh[y.p].sp == h0.gh[n.p].gp.push(d) && some_key(h0.gh[y.p].cont) && apart(part_zone(h0, n.p, c), zone(h0, y.p))
        &&& zone(h0, y.p).subset_of(zone(h0, n.p))
    }),
{
    let y = kid_at(h0, n.p, d);
    kid_zone(h0, n.p, c);
    kid_zone(h0, n.p, d);
    kid_tree(h0, n.p, d);
    start_kid(h0, t, n, d);
    zone_owned(h0, n.p);
    fact_inner(h0, n.p);
    assert(ok_kid(h0, n.p, d));
    assert(apart(part_zone(h0, n.p, c), zone(h0, y.p)));
    assert(owned(h0, part_zone(h0, n.p, c)));
    kept(h0, h3, part_zone(h0, n.p, c), y.p);
    fact_inner(h0, y.p);
    fact_inner(h3, y.p);
    let x = choose|x: Seq<u8>| h0.gh[y.p].cont.contains_key(x);
    cont_pfx(h0, y.p, x);
    tree_ok(h0, y.p); ok_i(h0, y.p);
    tree_ok(h3, y.p); ok_i(h3, y.p);
    assert(rest(n.tag, h3.nodes[r.p], c)[d as int] == kids(n.tag, h0.nodes[n.p])[d as int]);
}
pub proof fn del_hole(h0: H, h1: H, h2: H, h3: H, t: Ptr, n: Node, r: Node, c: u8, mc: Map<Seq<u8>, Ent>)
    requires start(h0, t, n), kid_at(h0, n.p, c).tag != Tag::Nil, edit(h0, h1, t, kid_at(h0, n.p, c), nil_node(), mc), arrs(h1), arrs(h3),
        opened(h1, h2, t, n, r),
        h3 == (H { nodes: h2.nodes.insert(r.p, Rec { children: h2.nodes[r.p].children.update(slot(n.tag, h0.nodes[n.p], c), nil_node()), ..h2.nodes[r.p] }), ..h2 }),
    ensures hollow(h0, h1, h3, t, n, r, c), can_remove(h3, t, r, c), fr(h0, h3, part_zone(h0, n.p, c)),
{
    let p = n.p;
    let y = kid_at(h0, p, c).p;
    let zz = zone(h0, p);
    let z1 = zone(h0, y);
    let z = part_zone(h0, p, c);
    kid_mid(h0, h1, t, n, c, nil_node(), mc);
    kid_zone(h0, p, c);
    zone_owned(h0, p);
    fact_inner(h0, p);
    assert(in_or_new(h0, z1, z) && in_or_new(h0, one(h0, p), z) && in_or_new(h0, z, zz));
    side_trans(h0, h1, h2, t);
    fr_trans(h0, h1, h2, z1, one(h0, p), z);
    assert(fr(h2, h3, set![r.p])) by { reveal(fr); }
    assert(h0.gh[p].own == 0 ==> !h0.nodes.contains_key(r.p)) by { reveal(fr); }
    fr_trans(h0, h2, h3, z, set![r.p], z);
    side_plain(h2, h3, t);
    side_trans(h0, h2, h3, t);
    assert(owned(h2, set![r.p]));
    shared_frame(h2, h3, set![r.p]);
    rec_same(n.tag, h0.nodes[p], h2.nodes[r.p]);
    assert(slot(n.tag, h0.nodes[p], c) == slot(n.tag, h2.nodes[r.p], c)) by { if small(n.tag) { slot_keys(n.tag, h0.nodes[p], h2.nodes[r.p], c); } }
    make_hole(n.tag, h2.nodes[r.p], c);
    assert(kids(n.tag, h2.nodes[r.p]) =~= kids(n.tag, h0.nodes[p])) by {
        assert forall|x: int| 0 <= x < 256 implies kids(n.tag, h2.nodes[r.p])[x] == kids(n.tag, h0.nodes[p])[x] by { assert(kid(n.tag, h2.nodes[r.p], x as u8) == kid(n.tag, h0.nodes[p], x as u8)); }
    }
    assert(h3.nodes[r.p] == (Rec { children: h2.nodes[r.p].children.update(slot(n.tag, h2.nodes[r.p], c), nil_node()), ..h2.nodes[r.p] }));
    assert forall|i: int| 0 <= i < 10 implies #[trigger] bs_at(h3, h3.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by {
        assert(bs_at(h2, h2.nodes[r.p].partial, i) == bs_at(h1, h1.nodes[p].partial, i));
        assert(bs_at(h1, h1.nodes[p].partial, i) == bs_at(h0, h0.nodes[p].partial, i));
    }
    assert(live(h3, r.p) ==> h3.gh[r.p].own != 0 && h3.gh[r.p].sp.len() <= h0.gh[p].gp.len()) by {
        if live(h3, r.p) && h0.gh[p].own == 0 { assert(h1.nodes.contains_key(r.p)); }
    }
    trk_same(h2, h3, t);
    assert(hollow(h0, h1, h3, t, n, r, c));
    assert forall|d: u8| #![trigger kid(n.tag, fill(n.tag, h3.nodes[r.p], c), d)] d != c && kid(n.tag, fill(n.tag, h3.nodes[r.p], c), d).tag != Tag::Nil implies { let w = kid(n.tag, fill(n.tag, h3.nodes[r.p], c), d); inner(w.tag) && kind_of(w.p) == w.tag && own_pre(h3, w.p) && w.p != r.p && w.p != 0 && h3.nodes.contains_key(w.p) } by {
        assert(rest(n.tag, h3.nodes[r.p], c)[d as int] == kids(n.tag, h0.nodes[p])[d as int]);
        assert(kid_at(h0, p, d) == kid(n.tag, h0.nodes[p], d));
        hollow_kid(h0, h1, h3, t, n, r, c, d);
    }
}
/// What has to be closed when the child for c goes.
pub proof fn gone_watch(h0: H, h1: H, h5: H, t: Ptr, n: Node, r: Node, c: u8, ks: Set<Seq<u8>>)
    requires start(h0, t, n), kid_at(h0, n.p, c).tag != Tag::Nil, watched(h0, h1, t, kid_at(h0, n.p, c), nil_node(), ks), side(h0, h1, t),
        forall|x: Chan| #[trigger] trk(h1, t).contains(x) ==> trk(h5, t).contains(x),
        forall|x: Chan| #[trigger] trk(h5, t).contains(x) && h0.gx.lk.contains_key(x) ==> trk(h1, t).contains(x),
        tm(h0, t) ==> trk(h5, t).contains(h0.nodes[n.p].ch),
        forall|q: Seq<u8>| #![trigger rt(h0, n.p, q)] rt(h0, n.p, q) && !thru(h0.gh[n.p].gp, q, c) ==> r.tag != Tag::Nil && (h5.gh[r.p].wc)(q) == (h0.gh[n.p].wc)(q),
        forall|k: Seq<u8>| #[trigger] ks.contains(k) ==> thru(h0.gh[n.p].gp, k, c),
    ensures watched(h0, h5, t, n, r, ks),
{
    let p = n.p;
    let y = kid_at(h0, p, c).p;
    let g0 = h0.gh[p];
    let gy = h0.gh[y];
    kid_zone(h0, p, c);
    tree_ok(h0, p); ok_i(h0, p);
    if tm(h0, t) {
        assert forall|q: Seq<u8>| #![trigger (g0.wc)(q)] (r.tag != Tag::Nil && (h5.gh[r.p].wc)(q) == (g0.wc)(q)) || trk(h5, t).contains((g0.wc)(q)) by {
            wc_fact(h0, p, q);
            if thru(g0.gp, q, c) { assert(rt(h0, p, q) && nxt(h0, p, q) == y); assert((gy.wc)(q) == (g0.wc)(q)); }
        }
        assert forall|q: Seq<u8>, k: Seq<u8>| #![trigger (g0.wc)(q), ks.contains(k)] ks.contains(k) && pfx(q, k) implies trk(h5, t).contains((g0.wc)(q)) by {
            wc_fact(h0, p, q);
            if rt(h0, p, q) {
                assert(q[g0.gp.len() as int] == k[g0.gp.len() as int]);
                assert((gy.wc)(q) == (g0.wc)(q));
            }
        }
        assert forall|k: Seq<u8>| #![trigger ks.contains(k)] ks.contains(k) && g0.cont.contains_key(k) implies trk(h5, t).contains(g0.cont[k].ch) by { step_in(h0, p, k); }
    }
    assert forall|x: Chan| #![trigger trk(h5, t).contains(x)] trk(h0, t).contains(x) implies trk(h5, t).contains(x) by { assert(trk(h1, t).contains(x)); }
    assert forall|x: Chan| #![trigger trk(h5, t).contains(x)] trk(h5, t).contains(x) && h0.gx.lk.contains_key(x) implies trk(h0, t).contains(x) || ks.contains(h0.gx.lk[x]) by { assert(trk(h1, t).contains(x)); }
}
pub open spec fn without(h: H, p: Ptr, c: u8, m: Map<Seq<u8>, Ent>) -> bool {
    forall|k: Seq<u8>| #![trigger m.contains_key(k)] look(m, k) == if thru(h.gh[p].gp, k, c) { None } else { look(h.gh[p].cont, k) }
}
/// The node stays, without the child for c.
pub proof fn del_kid(h0: H, h1: H, h3: H, h4: H, t: Ptr, n: Node, r: Node, r2: Node, c: u8, m: Map<Seq<u8>, Ent>, ks: Set<Seq<u8>>)
    requires hollow(h0, h1, h3, t, n, r, c), removed(h3, h4, t, r, c, r2), without(h0, n.p, c, m),
        watched(h0, h1, t, kid_at(h0, n.p, c), nil_node(), ks), forall|k: Seq<u8>| #[trigger] ks.contains(k) ==> thru(h0.gh[n.p].gp, k, c),
    ensures ({
        let h5 = put(h4, r2.p, grec(h4, t, h0.gh[n.p].sp, h0.gh[n.p].gp, m));
        if h4.nodes[r2.p].numChildren > 0 || h4.nodes[r2.p].leaf != 0 { edit(h0, h5, t, n, r2, m) && watched(h0, h5, t, n, r2, ks) }
        else { edit(h0, h4, t, n, nil_node(), m) && watched(h0, h4, t, n, nil_node(), ks) }
    }),
{
    let p = n.p;
    let g = grec(h4, t, h0.gh[p].sp, h0.gh[p].gp, m);
    let zz = zone(h0, p);
    let z = part_zone(h0, p, c);
    let l = h0.nodes[p].leaf;
    let r4 = h4.nodes[r2.p];
    kid_zone(h0, p, c);
    zone_owned(h0, p);
    fact_inner(h0, p);
    tree_ok(h0, p); ok_i(h0, p);
    assert(in_or_new(h0, z, zz) && owned(h0, z));
    assert(fr(h3, h4, set![r.p])) by { reveal(fr); }
    fr_trans(h0, h3, h4, z, set![r.p], z);
    fr_weak(h0, h4, z, zz);
    side_trans(h0, h3, h4, t);
    assert(owned(h3, set![r.p]));
    assert(lks(h4)) by { assert forall|x: Chan| #[trigger] h4.gx.lk.contains_key(x) implies h4.chans.contains(x) by { assert(h3.chans.contains(x)); } }
    shared_frame(h3, h4, set![r.p]);
    assert(h0.nodes.contains_key(r2.p) ==> r2 == r) by { reveal(fr); }
    assert forall|d: u8| #[trigger] kid_at(h4, r2.p, d) == if d == c { nil_node() } else { kid_at(h0, p, d) } by {
        assert(kids(r2.tag, r4)[d as int] == kids(n.tag, h0.nodes[p]).update(c as int, nil_node())[d as int]);
    }
    assert(h0.chans.contains(h0.nodes[p].ch) && !h0.gx.lk.contains_key(h0.nodes[p].ch));
    assert forall|x: Chan| #[trigger] trk(h1, t).contains(x) implies trk(h4, t).contains(x) by { assert(trk(h3, t).contains(x)); }
    assert(!h0.gx.lk.contains_key(h3.nodes[r.p].ch)) by { reveal(fr); if h0.gx.lk.contains_key(h3.nodes[r.p].ch) { assert(h0.chans.contains(h3.nodes[r.p].ch)); } }
    assert forall|x: Chan| #[trigger] trk(h4, t).contains(x) && h0.gx.lk.contains_key(x) implies trk(h1, t).contains(x) by { }
    assert(tm(h0, t) ==> trk(h4, t).contains(h0.nodes[p].ch)) by { if tm(h0, t) { assert(trk(h3, t).contains(h0.nodes[p].ch)); } }
    if r4.numChildren > 0 || r4.leaf != 0 {
        assert(r4.ch != 0 && h4.chans.contains(r4.ch) && !h4.gx.lk.contains_key(r4.ch)) by {
            if r2 != r { assert(!h3.chans.contains(r4.ch)); if h4.gx.lk.contains_key(r4.ch) { assert(h3.chans.contains(r4.ch)); } } else { assert(h3.chans.contains(r4.ch)); }
        }
        assert(ok_head(raw(h4, r2.p, g), r2.p));
        assert(ok_pre(raw(h4, r2.p, g), r2.p)) by {
            num_kids(n.tag, h0.nodes[p]);
            assert(kid(n.tag, h0.nodes[p], c).tag != Tag::Nil);
            assert(h0.nodes[p].numChildren > 0);
            assert(same_pre(h0, p, h4, r2.p)) by {
                assert forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) implies #[trigger] bs_at(h4, r4.partial, i) == bs_at(h0, h0.nodes[p].partial, i) by {
                    assert(bs_at(h4, r4.partial, i) == bs_at(h3, h3.nodes[r.p].partial, i));
                    assert(bs_at(h3, h3.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i));
                }
            }
            pre_kept(h0, p, h4, r2.p, g);
        }
        assert forall|d: u8| #![trigger kid_at(h0, p, d)] d != c && kid_at(h0, p, d).tag != Tag::Nil implies apart(z, zone(h0, kid_at(h0, p, d).p)) by { hollow_kid(h0, h1, h3, t, n, r, c, d); }
        if l != 0 { leaf_zone(h0, p); }
        leaf_kept(h0, h4, t, n, r2, z, g);
        assert(kid_at(h4, r2.p, c) == nil_node());
        assert forall|k: Seq<u8>| #![trigger g.cont.contains_key(k)] look(g.cont, k) == look_new(h0, p, h4, r2.p, g.gp, c, k) by {
            assert(look(m, k) == if thru(h0.gh[p].gp, k, c) { None } else { look(h0.gh[p].cont, k) });
            if k == g.gp && l == 0 && h0.gh[p].cont.contains_key(k) { cont_pfx(h0, p, k); }
        }
        assert(live(h4, r2.p) ==> h4.gh[r2.p].own != 0 && h4.gh[r2.p].sp.len() <= g.gp.len()) by {
            if live(h4, r2.p) { assert(live(h3, r2.p)); assert(h3.nodes.contains_key(r2.p)); }
        }
        assert(regrown(h0, h4, t, p, r2.p, g, c, z, zz));
        regrow(h0, h4, t, p, r2.p, g, c, z, zz);
        let h5 = put(h4, r2.p, g);
        side_plain(h4, h5, t);
        side_trans(h0, h4, h5, t);
        assert(some_key(m)) by {
            if l != 0 { leaf_in(h0, p); assert(m.contains_key(h0.gh[p].gp)); }
            else {
                num_kids(r2.tag, r4);
                let d = choose|d: u8| (#[trigger] kid(r2.tag, r4, d)).tag != Tag::Nil;
                assert(kid_at(h4, r2.p, d).tag != Tag::Nil);
                hollow_kid(h0, h1, h3, t, n, r, c, d);
                let y = kid_at(h0, p, d).p;
                let x = choose|x: Seq<u8>| h0.gh[y].cont.contains_key(x);
                kid_in(h0, p, d, x);
                assert(!thru(h0.gh[p].gp, x, c));
                assert(look(m, x) == look(h0.gh[p].cont, x));
                assert(m.contains_key(x));
            }
        }
        assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) && !thru(h0.gh[p].gp, q, c) implies (h5.gh[r2.p].wc)(q) == (h0.gh[p].wc)(q) by {
            assert((h5.gh[r2.p].wc)(q) == wc_new(h0, p, h4, r2.p, g.gp, c, q));
        }
        gone_watch(h0, h1, h5, t, n, r2, c, ks);
    } else {
        num_kids(r2.tag, r4);
        assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) implies thru(h0.gh[p].gp, q, c) by {
            let d = q[h0.gh[p].gp.len() as int];
            assert(kid(r2.tag, r4, d).tag == Tag::Nil);
            assert(kid_at(h4, r2.p, d).tag == Tag::Nil);
        }
        assert(!some_key(m)) by { assert forall|x: Seq<u8>| !(#[trigger] m.contains_key(x)) by { if m.contains_key(x) { assert(look(m, x) == if thru(h0.gh[p].gp, x, c) { None } else { look(h0.gh[p].cont, x) }); cont_pfx(h0, p, x); } } }
        gone_watch(h0, h1, h4, t, n, nil_node(), c, ks);
    }
}
/// A child of y, none of whose nodes changed.
pub proof fn far_kid(h0: H, h4: H, t: Ptr, n: Node, r: Node, g: GRec, c: u8, z: Set<Ptr>)
    requires start(h0, t, n), shared(h4), fr(h0, h4, z), owned(h0, z), kid_at(h4, r.p, c) == kid_at(h0, n.p, c),
        kid_at(h0, n.p, c).tag != Tag::Nil ==> apart(z, zone(h0, kid_at(h0, n.p, c).p)),
        g.own == t, g.lo == old_max(h0, t), g.mx >= max_id(h0, t), g.gp == h0.gh[n.p].gp,
    ensures hung_kid(h4, r.p, g, c), ({ let y = kid_at(h4, r.p, c); y.tag != Tag::Nil ==> in_or_new(h0, zone(h4, y.p), zone(h0, n.p)) && h4.gh[y.p] == h0.gh[y.p] }),
{
    let y = kid_at(h0, n.p, c);
    if y.tag != Tag::Nil {
        kid_zone(h0, n.p, c);
        kid_tree(h0, n.p, c);
        fact_inner(h0, n.p);
        assert(ok_kid(h0, n.p, c));
        kept(h0, h4, z, y.p);
        hung_kept(h0, t, n.p, y.p, h4, g);
    }
}
/// The prefix of the node that took over.
pub proof fn join_pre(h0: H, h3: H, h4: H, n: Node, r: Node, y: Node, r2: Node, d: u8, g: GRec)
    requires tree(h0, n.p), inner(kind_of(n.p)), tree(h0, y.p), inner(kind_of(y.p)), h0.nodes[n.p].numChildren > 0, h0.gh[y.p].sp == h0.gh[n.p].gp.push(d),
        g.sp == h0.gh[n.p].sp, g.gp == h0.gh[y.p].gp, h4.nodes[r2.p].numChildren == h0.nodes[y.p].numChildren,
        h3.nodes[r.p].partialLen == h0.nodes[n.p].partialLen, h3.nodes[y.p] == h0.nodes[y.p],
        forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h3, h3.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[n.p].partial, i),
        forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h3, h3.nodes[y.p].partial, i) == bs_at(h0, h0.nodes[y.p].partial, i),
        ({
            let m = h3.nodes[r.p].partialLen as int;
            let ry = h3.nodes[y.p];
            m + ry.partialLen + 1 < 0x1_0000_0000 ==> h4.nodes[r2.p].partialLen == m + ry.partialLen + 1
                && forall|i: int| 0 <= i < stored(h4.nodes[r2.p].partialLen) ==> #[trigger] bs_at(h4, h4.nodes[r2.p].partial, i) == jb(h3, r.p, d, y.p, i)
        }),
    ensures ok_pre(raw(h4, r2.p, g), r2.p),
{
    let hr = raw(h4, r2.p, g);
    let gn = h0.gh[n.p];
    let gy = h0.gh[y.p];
    fact_inner(h0, n.p);
    fact_inner(h0, y.p);
    tree_ok(h0, n.p); ok_i(h0, n.p);
    tree_ok(h0, y.p); ok_i(h0, y.p);
    if h0.nodes[y.p].numChildren > 0 {
        let m = h0.nodes[n.p].partialLen as int;
        assert(gy.gp.len() == gn.sp.len() + m + 1 + h0.nodes[y.p].partialLen);
        assert forall|i: int| 0 <= i < stored(h4.nodes[r2.p].partialLen) implies #[trigger] bs_at(hr, hr.nodes[r2.p].partial, i) == g.gp[g.sp.len() + i] by {
            assert(bs_at(h4, h4.nodes[r2.p].partial, i) == jb(h3, r.p, d, y.p, i));
            let j = gn.sp.len() + i;
            if i < m {
                assert(bs_at(h3, h3.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[n.p].partial, i));
                assert(bs_at(h0, h0.nodes[n.p].partial, i) == gn.gp[j]);
                assert(gy.sp[j] == gn.gp[j]);
                assert(gy.sp[j] == gy.gp[j]);
            } else if i == m {
                assert(gy.sp[j] == d);
                assert(gy.sp[j] == gy.gp[j]);
            } else {
                let b = i - m - 1;
                assert(bs_at(h3, h3.nodes[y.p].partial, b) == bs_at(h0, h0.nodes[y.p].partial, b));
                assert(bs_at(h0, h0.nodes[y.p].partial, b) == gy.gp[gy.sp.len() + b]);
            }
        }
    }
}
/// The node that takes over, and what may change with it.
pub open spec fn heir(h0: H, h3: H, n: Node, r: Node, c: u8) -> Node { kid_at(h0, n.p, other(n.tag, h3.nodes[r.p], c)) }
pub open spec fn join_zone(h0: H, p: Ptr, c: u8, y: Ptr) -> Set<Ptr> { part_zone(h0, p, c).union(one(h0, y)) }
pub open spec fn joint(h0: H, h1: H, h3: H, h4: H, t: Ptr, n: Node, r: Node, r2: Node, c: u8) -> bool {
    hollow(h0, h1, h3, t, n, r, c) && joins(r, h3.nodes[r.p]) && joined(h3, h4, t, r, c, r2)
}
pub proof fn join_heir(h0: H, h1: H, h3: H, h4: H, t: Ptr, n: Node, r: Node, r2: Node, c: u8)
    requires joint(h0, h1, h3, h4, t, n, r, r2, c),
    ensures ({
        let d = other(n.tag, h3.nodes[r.p], c);
        let y = heir(h0, h3, n, r, c);
        &&& d != c && y.tag != Tag::Nil && y == kid(n.tag, fill(n.tag, h3.nodes[r.p], c), d)
        &&& h0.nodes[n.p].leaf == 0 && h0.nodes[n.p].numChildren > 0
        &&& forall|e: u8| e != c && e != d ==> (#[trigger] kid_at(h0, n.p, e)).tag == Tag::Nil
    }),
{
    let p = n.p;
    let d = other(n.tag, h3.nodes[r.p], c);
    assert(rest(n.tag, h3.nodes[r.p], c)[d as int] == kids(n.tag, h0.nodes[p])[d as int]);
    assert forall|e: u8| e != c && e != d implies (#[trigger] kid_at(h0, n.p, e)).tag == Tag::Nil by {
        assert(rest(n.tag, h3.nodes[r.p], c)[e as int] == kids(n.tag, h0.nodes[p])[e as int]); assert(kid(n.tag, fill(n.tag, h3.nodes[r.p], c), e).tag == Tag::Nil);
    }
}
pub proof fn join_fr(h0: H, h1: H, h3: H, h4: H, t: Ptr, n: Node, r: Node, r2: Node, c: u8)
    requires joint(h0, h1, h3, h4, t, n, r, r2, c),
    ensures ({
        let y = heir(h0, h3, n, r, c);
        let z = join_zone(h0, n.p, c, y.p);
        &&& fr(h0, h4, z) && side(h0, h4, t) && shared(h4) && in_or_new(h0, z, zone(h0, n.p)) && owned(h0, z)
        &&& (h0.nodes.contains_key(r2.p) ==> r2 == y && h0.gh[y.p].own != 0)
        &&& (live(h4, r2.p) ==> h4.gh[r2.p].own != 0 && h4.gh[r2.p].sp.len() <= h0.gh[y.p].gp.len())
        &&& h4.chans.contains(h4.nodes[r2.p].ch) && !h4.gx.lk.contains_key(h4.nodes[r2.p].ch) && h4.nodes[r2.p].ch != 0
        &&& old_max(h4, t) < h4.nodes[r2.p].id <= max_id(h4, t)
    }),
{
    let p = n.p;
    let y = heir(h0, h3, n, r, c);
    let d = other(n.tag, h3.nodes[r.p], c);
    join_heir(h0, h1, h3, h4, t, n, r, r2, c);
    hollow_kid(h0, h1, h3, t, n, r, c, d);
    let zz = zone(h0, p);
    let z1 = part_zone(h0, p, c);
    let z = join_zone(h0, p, c, y.p);
    let ry = h0.nodes[y.p];
    kid_zone(h0, p, c);
    kid_zone(h0, p, d);
    zone_owned(h0, p);
    zone_owned(h0, y.p);
    fact_inner(h0, y.p);
    tree_ok(h0, y.p); ok_i(h0, y.p);
    assert(in_or_new(h0, z, zz) && owned(h0, z));
    assert(h0.gh[y.p].own == 0 ==> ry.id <= old_max(h3, t));
    assert(h0.gh[y.p].own != 0 ==> ry.id > old_max(h3, t));
    assert(h0.nodes.contains_key(r2.p) ==> r2 == y && h0.gh[y.p].own != 0) by { reveal(fr); }
    let s = set![r.p].union(one(h0, y.p));
    assert(fr(h3, h4, s)) by { reveal(fr); }
    assert(in_or_new(h0, z1, z) && in_or_new(h0, s, z));
    fr_trans(h0, h3, h4, z1, s, z);
    side_trans(h0, h3, h4, t);
    assert(owned(h3, s)) by { assert forall|x: Ptr| #[trigger] s.contains(x) && live(h3, x) implies h3.gh[x].own != 0 by { } }
    assert(lks(h4)) by { assert forall|x: Chan| #[trigger] h4.gx.lk.contains_key(x) implies h4.chans.contains(x) by { assert(h3.chans.contains(x)); } }
    shared_frame(h3, h4, s);
    assert(h3.chans.contains(ry.ch) && !h3.gx.lk.contains_key(ry.ch)) by { reveal(fr); }
    assert(live(h4, r2.p) ==> h4.gh[r2.p].own != 0 && h4.gh[r2.p].sp.len() <= h0.gh[y.p].gp.len()) by {
        if live(h4, r2.p) { assert(live(h3, r2.p)); assert(h3.nodes.contains_key(r2.p)); }
    }
}
pub proof fn join_head(h0: H, h1: H, h3: H, h4: H, t: Ptr, n: Node, r: Node, r2: Node, c: u8, m: Map<Seq<u8>, Ent>)
    requires joint(h0, h1, h3, h4, t, n, r, r2, c),
    ensures ({
        let y = heir(h0, h3, n, r, c);
        let g = grec(h4, t, h0.gh[n.p].sp, h0.gh[y.p].gp, m);
        &&& ok_head(raw(h4, r2.p, g), r2.p) && ok_pre(raw(h4, r2.p, g), r2.p)
        &&& forall|x: u8| #[trigger] kid_at(h4, r2.p, x) == kid_at(h0, y.p, x)
        &&& (h4.nodes[r2.p].numChildren > 0 || h4.nodes[r2.p].leaf != 0)
    }),
{
    let p = n.p;
    let y = heir(h0, h3, n, r, c);
    let d = other(n.tag, h3.nodes[r.p], c);
    let g = grec(h4, t, h0.gh[p].sp, h0.gh[y.p].gp, m);
    let r4 = h4.nodes[r2.p];
    let ry = h0.nodes[y.p];
    join_heir(h0, h1, h3, h4, t, n, r, r2, c);
    join_fr(h0, h1, h3, h4, t, n, r, r2, c);
    hollow_kid(h0, h1, h3, t, n, r, c, d);
    fact_inner(h0, p);
    fact_inner(h0, y.p);
    tree_ok(h0, y.p); ok_i(h0, y.p);
    rec_same(y.tag, ry, r4);
    assert forall|x: u8| #[trigger] kid_at(h4, r2.p, x) == kid_at(h0, y.p, x) by { assert(kid(y.tag, r4, x) == kid(y.tag, ry, x)); }
    let x = choose|x: Seq<u8>| h0.gh[y.p].cont.contains_key(x);
    cont_pfx(h0, y.p, x);
    assert(ok_head(raw(h4, r2.p, g), r2.p)) by {
        pfx_trans(h0.gh[p].sp, h0.gh[p].gp, h0.gh[y.p].sp);
        pfx_trans(h0.gh[p].sp, h0.gh[y.p].sp, h0.gh[y.p].gp);
    }
    assert(ok_pre(raw(h4, r2.p, g), r2.p)) by {
        kid_zone(h0, p, c); zone_owned(h0, p); zone_owned(h0, y.p);
        assert(!part_zone(h0, p, c).contains(y.p));
        assert forall|i: int| 0 <= i < 10 implies #[trigger] bs_at(h3, h3.nodes[y.p].partial, i) == bs_at(h0, ry.partial, i) by { reveal(fr); let a = pre_id(h0, y.p); assert(h3.bytes[a] == h0.bytes[a]); }
        join_pre(h0, h3, h4, n, r, y, r2, d, g);
    }
}
pub proof fn join_look(h0: H, h1: H, h3: H, h4: H, t: Ptr, n: Node, r: Node, r2: Node, c: u8, m: Map<Seq<u8>, Ent>)
    requires joint(h0, h1, h3, h4, t, n, r, r2, c), without(h0, n.p, c, m),
    ensures some_key(m), ({
        let y = heir(h0, h3, n, r, c);
        forall|k: Seq<u8>| #![trigger m.contains_key(k)] look(m, k) == look(h0.gh[y.p].cont, k)
    }),
{
    let p = n.p;
    let y = heir(h0, h3, n, r, c);
    let d = other(n.tag, h3.nodes[r.p], c);
    join_heir(h0, h1, h3, h4, t, n, r, r2, c);
    hollow_kid(h0, h1, h3, t, n, r, c, d);
    assert forall|k: Seq<u8>| #![trigger m.contains_key(k)] look(m, k) == look(h0.gh[y.p].cont, k) by {
        assert(look(m, k) == if thru(h0.gh[p].gp, k, c) { None } else { look(h0.gh[p].cont, k) });
        if h0.gh[y.p].cont.contains_key(k) { kid_in(h0, p, d, k); }
        if h0.gh[p].cont.contains_key(k) && !thru(h0.gh[p].gp, k, c) {
            cont_pfx(h0, p, k);
            let e = k[h0.gh[p].gp.len() as int];
            assert(kid_at(h0, p, e).tag != Tag::Nil);
        }
    }
    let x = choose|x: Seq<u8>| h0.gh[y.p].cont.contains_key(x);
    assert(look(m, x) == look(h0.gh[y.p].cont, x));
    assert(m.contains_key(x));
}
pub proof fn join_grow(h0: H, h1: H, h3: H, h4: H, t: Ptr, n: Node, r: Node, r2: Node, c: u8, m: Map<Seq<u8>, Ent>)
    requires joint(h0, h1, h3, h4, t, n, r, r2, c), without(h0, n.p, c, m),
    ensures ({
        let y = heir(h0, h3, n, r, c);
        let h5 = put(h4, r2.p, grec(h4, t, h0.gh[n.p].sp, h0.gh[y.p].gp, m));
        &&& edit(h0, h5, t, n, r2, m)
        &&& forall|q: Seq<u8>| #![trigger rt(h0, n.p, q)] rt(h0, n.p, q) && !thru(h0.gh[n.p].gp, q, c) ==> (h5.gh[r2.p].wc)(q) == (h0.gh[n.p].wc)(q)
    }),
{
    let p = n.p;
    let y = heir(h0, h3, n, r, c);
    let d = other(n.tag, h3.nodes[r.p], c);
    let g = grec(h4, t, h0.gh[p].sp, h0.gh[y.p].gp, m);
    let zz = zone(h0, p);
    let z = join_zone(h0, p, c, y.p);
    let r4 = h4.nodes[r2.p];
    let ry = h0.nodes[y.p];
    join_heir(h0, h1, h3, h4, t, n, r, r2, c);
    join_fr(h0, h1, h3, h4, t, n, r, r2, c);
    join_head(h0, h1, h3, h4, t, n, r, r2, c, m);
    join_look(h0, h1, h3, h4, t, n, r, r2, c, m);
    hollow_kid(h0, h1, h3, t, n, r, c, d);
    zone_owned(h0, p);
    let b = 0u8;
    assert forall|x: u8| #![trigger kid_at(h0, y.p, x)] kid_at(h0, y.p, x).tag != Tag::Nil implies apart(z, zone(h0, kid_at(h0, y.p, x).p)) by { kid_zone(h0, y.p, x); }
    assert(kid_at(h4, r2.p, b) == kid_at(h0, y.p, b));
    far_kid(h0, h4, t, y, r2, g, b, z);
    if ry.leaf != 0 { leaf_zone(h0, y.p); }
    leaf_kept(h0, h4, t, y, r2, z, g);
    assert forall|k: Seq<u8>| #![trigger g.cont.contains_key(k)] look(g.cont, k) == look_new(h0, y.p, h4, r2.p, g.gp, b, k) by {
        assert(look(m, k) == look(h0.gh[y.p].cont, k));
        if thru(g.gp, k, b) { if kid_at(h0, y.p, b).tag != Tag::Nil { step_in(h0, y.p, k); } else { not_in(h0, y.p, k); } }
        else if k == g.gp && ry.leaf == 0 && h0.gh[y.p].cont.contains_key(k) { cont_pfx(h0, y.p, k); }
    }
    assert(zone(h0, y.p).contains(y.p) || h0.gh[y.p].own == 0) by { zone_owned(h0, y.p); }
    assert(regrown(h0, h4, t, y.p, r2.p, g, b, z, zz));
    regrow(h0, h4, t, y.p, r2.p, g, b, z, zz);
    let h5 = put(h4, r2.p, g);
    side_plain(h4, h5, t);
    side_trans(h0, h4, h5, t);
    assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) && !thru(h0.gh[p].gp, q, c) implies (h5.gh[r2.p].wc)(q) == (h0.gh[p].wc)(q) by {
        assert((h5.gh[r2.p].wc)(q) == wc_new(h0, y.p, h4, r2.p, g.gp, b, q));
        let e = q[h0.gh[p].gp.len() as int];
        assert(kid_at(h0, p, e).tag != Tag::Nil);
        wc_fact(h0, p, q);
        wc_fact(h0, y.p, q);
    }
}
/// The only child left takes over.
pub proof fn del_join(h0: H, h1: H, h3: H, h4: H, t: Ptr, n: Node, r: Node, r2: Node, c: u8, m: Map<Seq<u8>, Ent>, ks: Set<Seq<u8>>)
    requires hollow(h0, h1, h3, t, n, r, c), joins(r, h3.nodes[r.p]), joined(h3, h4, t, r, c, r2), without(h0, n.p, c, m),
        watched(h0, h1, t, kid_at(h0, n.p, c), nil_node(), ks), forall|k: Seq<u8>| #[trigger] ks.contains(k) ==> thru(h0.gh[n.p].gp, k, c),
    ensures ({
        let y = heir(h0, h3, n, r, c);
        let h5 = put(h4, r2.p, grec(h4, t, h0.gh[n.p].sp, h0.gh[y.p].gp, m));
        edit(h0, h5, t, n, r2, m) && watched(h0, h5, t, n, r2, ks) && (h4.nodes[r2.p].numChildren > 0 || h4.nodes[r2.p].leaf != 0)
    }),
{
    let p = n.p;
    let y = heir(h0, h3, n, r, c);
    let h5 = put(h4, r2.p, grec(h4, t, h0.gh[n.p].sp, h0.gh[y.p].gp, m));
    join_grow(h0, h1, h3, h4, t, n, r, r2, c, m);
    join_head(h0, h1, h3, h4, t, n, r, r2, c, m);
    trk_same(h4, h5, t);
    tree_ok(h0, p); ok_i(h0, p);
    assert(!h0.gx.lk.contains_key(h3.nodes[r.p].ch)) by { reveal(fr); if h0.gx.lk.contains_key(h3.nodes[r.p].ch) { assert(h0.chans.contains(h3.nodes[r.p].ch)); } }
    assert forall|x: Chan| #[trigger] trk(h1, t).contains(x) implies trk(h5, t).contains(x) by { assert(trk(h3, t).contains(x)); assert(trk(h4, t).contains(x)); }
    assert forall|x: Chan| #[trigger] trk(h5, t).contains(x) && h0.gx.lk.contains_key(x) implies trk(h1, t).contains(x) by { assert(trk(h4, t).contains(x)); }
    assert(tm(h0, t) ==> trk(h5, t).contains(h0.nodes[p].ch)) by { if tm(h0, t) { assert(trk(h3, t).contains(h0.nodes[p].ch)); assert(trk(h4, t).contains(h0.nodes[p].ch)); } }
    gone_watch(h0, h1, h5, t, n, r2, c, ks);
}
/// The child for c was replaced.
pub proof fn del_swap(h0: H, h1: H, h2: H, h3: H, t: Ptr, n: Node, r: Node, c: u8, nc: Node, mc: Map<Seq<u8>, Ent>, m: Map<Seq<u8>, Ent>, ks: Set<Seq<u8>>)
    requires start(h0, t, n), kid_at(h0, n.p, c).tag != Tag::Nil, nc.tag != Tag::Nil, edit(h0, h1, t, kid_at(h0, n.p, c), nc, mc), watched(h0, h1, t, kid_at(h0, n.p, c), nc, ks),
        arrs(h1), opened(h1, h2, t, n, r),
        h3 == (H { nodes: h2.nodes.insert(r.p, Rec { children: h2.nodes[r.p].children.update(slot(n.tag, h0.nodes[n.p], c), nc), ..h2.nodes[r.p] }), ..h2 }),
        forall|k: Seq<u8>| #![trigger m.contains_key(k)] look(m, k) == look_kid(h0, n.p, c, mc, k),
        forall|k: Seq<u8>| #[trigger] ks.contains(k) ==> thru(h0.gh[n.p].gp, k, c),
    ensures ({
        let h4 = put(h3, r.p, grec(h3, t, h0.gh[n.p].sp, h0.gh[n.p].gp, m));
        edit(h0, h4, t, n, r, m) && watched(h0, h4, t, n, r, ks)
    }), h3.nodes[r.p].numChildren == h0.nodes[n.p].numChildren, h3.nodes[r.p].numChildren > 0,
{
    kid_mid(h0, h1, t, n, c, nc, mc);
    redo_kid(h0, h1, h2, h3, t, n, r, c, nc, mc, m);
    let h4 = put(h3, r.p, grec(h3, t, h0.gh[n.p].sp, h0.gh[n.p].gp, m));
    redo_watch(h0, h1, h2, h4, t, n, r, c, nc, ks);
    num_kids(n.tag, h0.nodes[n.p]);
    fact_inner(h0, n.p);
    assert(kid(n.tag, h0.nodes[n.p], c).tag != Tag::Nil);
}
// ---- the contract of a deletion ----

pub open spec fn can_del(h: H, t: Ptr, n: Node, key: Slice, k: Seq<u8>, depth: int) -> bool {
    start(h, t, n) && keyok(h, key, k) && depth == h.gh[n.p].sp.len() && depth <= k.len()
}
pub open spec fn taken(h0: H, h1: H, t: Ptr, n: Node, r: Node, l: Node, k: Seq<u8>) -> bool {
    &&& edit(h0, h1, t, n, r, del(h0, n, k)) && watched(h0, h1, t, n, r, set![k])
    &&& l.tag == Tag::Leaf && kind_of(l.p) == Tag::Leaf && l.p != 0 && h1.nodes.contains_key(l.p) && h1.nodes[l.p].value == h0.gh[n.p].cont[k].v
}
pub proof fn del_facts(h: H, t: Ptr, n: Node, key: Slice, k: Seq<u8>, depth: int)
    requires can_del(h, t, n, key, k, depth),
    ensures ({
        let r = h.nodes[n.p];
        let g = h.gh[n.p];
        &&& inner(n.tag) && kind_of(n.p) == n.tag && n.p != 0 && h.nodes.contains_key(n.p) && nwf(n.tag, r) && txok(h, t) && ctxn(h, t) && bs(h, key) == k && key.len == k.len() && k.len() < 0x1_0000_0000
        &&& pfx(g.sp, g.gp) && g.gp.len() < 0x1_0000_0000 && depth <= g.gp.len()
        &&& (r.numChildren > 0 || r.leaf != 0 ==> own_pre(h, n.p))
        &&& (r.numChildren == 0 && r.leaf == 0 ==> r.partialLen == 0)
        &&& (r.numChildren > 0 ==> g.gp.len() == depth + r.partialLen && forall|i: int| 0 <= i < stored(r.partialLen) ==> #[trigger] bs_at(h, r.partial, i) == g.gp[depth + i])
        &&& (r.leaf != 0 ==> h.nodes.contains_key(r.leaf) && kind_of(r.leaf) == Tag::Leaf && bs(h, h.nodes[r.leaf].key) == g.gp && h.nodes[r.leaf].key.len == g.gp.len() && look(g.cont, g.gp) == Some(ent_of(h, r.leaf)))
        &&& (r.leaf == 0 ==> !g.cont.contains_key(g.gp))
        &&& (r.numChildren == 0 ==> forall|x: Seq<u8>| #[trigger] g.cont.contains_key(x) ==> x == g.gp)
        &&& (r.numChildren == 0 ==> forall|c: u8| (#[trigger] kid(n.tag, r, c)).tag == Tag::Nil)
        &&& (!pfx(g.gp, k) ==> !g.cont.contains_key(k))
        &&& (g.cont.contains_key(k) && k != g.gp ==> thru(g.gp, k, k[g.gp.len() as int]) && kid_at(h, n.p, k[g.gp.len() as int]).tag != Tag::Nil)
        &&& 0 <= depth_left(h, n)
    }),
{
    let g = h.gh[n.p];
    fact_inner(h, n.p);
    assert(bs(h, key).len() == key.len);
    tree_ok(h, n.p); ok_i(h, n.p);
    num_kids(n.tag, h.nodes[n.p]);
    if h.nodes[n.p].leaf != 0 { leaf_in(h, n.p); assert(g.cont.contains_key(g.gp)); }
    else if g.cont.contains_key(g.gp) { cont_pfx(h, n.p, g.gp); }
    if h.nodes[n.p].numChildren > 0 { kid_some(h, n.p); } else { cont_none(h, n.p); }
    if g.cont.contains_key(k) { cont_pfx(h, n.p, k); }
}
/// The child below which the key would be.
pub proof fn del_down(h: H, t: Ptr, n: Node, key: Slice, k: Seq<u8>, depth: int, c: u8)
    requires can_del(h, t, n, key, k, depth), k.len() > h.gh[n.p].gp.len(), k[h.gh[n.p].gp.len() as int] == c, kid_at(h, n.p, c).tag != Tag::Nil,
    ensures ({
        let y = kid_at(h, n.p, c);
        can_del(h, t, y, key, k, h.gh[n.p].gp.len() as int + 1) && look(h.gh[n.p].cont, k) == look(h.gh[y.p].cont, k) && 0 <= depth_left(h, y) < depth_left(h, n)
            && h.nodes[n.p].numChildren > 0
    }),
{
    let y = kid_at(h, n.p, c);
    fact_inner(h, n.p);
    start_kid(h, t, n, c);
    step_in(h, n.p, k);
    assert(ok_kid(h, n.p, c));
    num_kids(n.tag, h.nodes[n.p]);
    kid_some(h, n.p);
    fact_inner(h, y.p);
}
/// What the deletion of k below the child for c means for the node.
pub proof fn del_maps(h: H, n: Node, k: Seq<u8>, c: u8)
    requires tree(h, n.p), inner(kind_of(n.p)), kid_at(h, n.p, c).tag != Tag::Nil, thru(h.gh[n.p].gp, k, c),
    ensures ({
        let mc = del(h, kid_at(h, n.p, c), k);
        let m = del(h, n, k);
        &&& forall|x: Seq<u8>| #![trigger m.contains_key(x)] look(m, x) == look_kid(h, n.p, c, mc, x)
        &&& (!some_key(mc) ==> without(h, n.p, c, m))
    }),
{
    let mc = del(h, kid_at(h, n.p, c), k);
    let m = del(h, n, k);
    assert forall|x: Seq<u8>| #![trigger m.contains_key(x)] look(m, x) == look_kid(h, n.p, c, mc, x) by {
        if thru(h.gh[n.p].gp, x, c) { step_in(h, n.p, x); }
    }
    if !some_key(mc) {
        assert forall|x: Seq<u8>| #![trigger m.contains_key(x)] look(m, x) == if thru(h.gh[n.p].gp, x, c) { None } else { look(h.gh[n.p].cont, x) } by {
            assert(look(m, x) == look_kid(h, n.p, c, mc, x));
            assert(!mc.contains_key(x));
        }
    }
}

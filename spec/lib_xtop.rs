// Trees and transactions as a whole.

/// A tree that will not change: its nodes belong to no transaction, and the size is that of the contents.
pub open spec fn fixed(h: H, v: Ptr) -> bool {
    let r = h.m_RadixTree[v];
    &&& h.m_RadixTree.contains_key(v) && rooted(h, v)
    &&& h.gh[r.root.p].own == 0 && h.gh[r.root.p].mx <= r.maxNodeId
    &&& r.size == all_of(h, v).dom().len()
}
/// A transaction between two operations.
pub open spec fn txinv(h: H, t: Ptr) -> bool {
    let v = tree_of(h, t);
    let r = h.m_RadixTree[v];
    &&& h.m_Txn.contains_key(t) && h.m_RadixTree.contains_key(v)
    &&& rooted(h, v) && start(h, t, r.root)
    &&& r.size == all_of(h, v).dom().len() && h.m_Txn[t].size == r.size
}
pub open spec fn top(h: H, t: Ptr) -> Node { h.m_RadixTree[tree_of(h, t)].root }
/// The contents of a transaction.
pub open spec fn txall(h: H, t: Ptr) -> Map<Seq<u8>, Ent> { all_of(h, tree_of(h, t)) }
/// If v was such a tree it still is, with the same contents and watches.
pub open spec fn same_tree(h0: H, h1: H, v: Ptr) -> bool {
    fixed(h0, v) ==> fixed(h1, v) && h1.m_RadixTree[v] == h0.m_RadixTree[v] && h1.gh[h0.m_RadixTree[v].root.p] == h0.gh[h0.m_RadixTree[v].root.p]
}
pub open spec fn same_txn(h0: H, h1: H, u: Ptr) -> bool {
    txinv(h0, u) ==> txinv(h1, u) && h1.m_Txn[u] == h0.m_Txn[u] && h1.m_RadixTree[tree_of(h0, u)] == h0.m_RadixTree[tree_of(h0, u)] && h1.gh[top(h0, u).p] == h0.gh[top(h0, u).p] && trk(h1, u) == trk(h0, u)
}
/// Objects do not vanish.
pub open spec fn lasts(h0: H, h1: H) -> bool {
    &&& forall|x: Ptr| #![trigger h1.m_Txn.contains_key(x)] h0.m_Txn.contains_key(x) ==> h1.m_Txn.contains_key(x)
    &&& forall|x: Ptr| #![trigger h1.m_RadixTree.contains_key(x)] h0.m_RadixTree.contains_key(x) ==> h1.m_RadixTree.contains_key(x)
}
/// All trees and transactions stay as they are.
pub open spec fn keeps_all(h0: H, h1: H) -> bool {
    &&& lasts(h0, h1)
    &&& forall|v: Ptr| #[trigger] same_tree(h0, h1, v)
    &&& forall|u: Ptr| #[trigger] same_txn(h0, h1, u)
}
/// All trees and transactions but t and its tree stay as they are.
pub open spec fn keeps(h0: H, h1: H, t: Ptr) -> bool {
    &&& lasts(h0, h1)
    &&& forall|v: Ptr| #![trigger same_tree(h0, h1, v)] v != tree_of(h0, t) ==> same_tree(h0, h1, v)
    &&& forall|u: Ptr| #![trigger same_txn(h0, h1, u)] u != t && tree_of(h0, u) != tree_of(h0, t) ==> same_txn(h0, h1, u)
}
/// All nodes of z are owned by the transaction.
pub open spec fn of_txn(h: H, z: Set<Ptr>, t: Ptr) -> bool { forall|x: Ptr| #[trigger] z.contains(x) && live(h, x) ==> h.gh[x].own == t }
pub open spec fn objs(h0: H, h1: H, t: Ptr, v: Ptr) -> bool {
    &&& lasts(h0, h1)
    &&& forall|x: Ptr| #![trigger h1.m_Txn[x]] #![trigger h1.m_Txn.contains_key(x)] h0.m_Txn.contains_key(x) && x != t ==> h1.m_Txn[x] == h0.m_Txn[x] && h1.m_Txn.contains_key(x)
    &&& forall|x: Ptr| #![trigger h1.m_RadixTree[x]] #![trigger h1.m_RadixTree.contains_key(x)] h0.m_RadixTree.contains_key(x) && x != v ==> h1.m_RadixTree[x] == h0.m_RadixTree[x] && h1.m_RadixTree.contains_key(x)
    &&& forall|a: u64| #![trigger h1.carr[a]] #![trigger h1.carr.contains_key(a)] h0.carr.contains_key(a) && h0.carr[a].owner != own_Txn(t) ==> h1.carr.contains_key(a) && h1.carr[a] == h0.carr[a]
}
pub proof fn same_tree_by(h0: H, h1: H, z: Set<Ptr>, t: Ptr, v: Ptr, y: Ptr)
    requires fr(h0, h1, z), shared(h1), t != 0, of_txn(h0, z, t), objs(h0, h1, t, v), y != v,
    ensures same_tree(h0, h1, y),
{
    if fixed(h0, y) {
        let p = h0.m_RadixTree[y].root.p;
        assert(zone(h0, p) =~= Set::empty());
        kept(h0, h1, z, p);
    }
}
pub proof fn same_txn_by(h0: H, h1: H, z: Set<Ptr>, t: Ptr, v: Ptr, u: Ptr)
    requires fr(h0, h1, z), shared(h1), arrs(h1), t != 0, of_txn(h0, z, t), objs(h0, h1, t, v), u != t, tree_of(h0, u) != v,
    ensures same_txn(h0, h1, u),
{
    if txinv(h0, u) {
        let p = top(h0, u).p;
        assert(apart(z, zone(h0, p))) by {
            assert forall|x: Ptr| #[trigger] z.contains(x) implies !zone(h0, p).contains(x) by {
                if zone(h0, p).contains(x) { good_in(h0, p, x); }
            }
        }
        kept(h0, h1, z, p);
        assert(h1.m_Txn[u] == h0.m_Txn[u]);
        assert(h1.m_RadixTree[tree_of(h0, u)] == h0.m_RadixTree[tree_of(h0, u)]);
        let s = h0.m_Txn[u].trackChnSlice;
        assert(trk(h1, u) =~= trk(h0, u)) by {
            match s.arr { Arr::A(a) => { assert(h1.carr[a] == h0.carr[a]); } _ => { } }
        }
    }
}
pub proof fn keeps_by(h0: H, h1: H, z: Set<Ptr>, t: Ptr)
    requires fr(h0, h1, z), shared(h1), arrs(h1), t != 0, of_txn(h0, z, t), objs(h0, h1, t, tree_of(h0, t)),
    ensures keeps(h0, h1, t),
{
    assert forall|v: Ptr| #![trigger same_tree(h0, h1, v)] v != tree_of(h0, t) implies same_tree(h0, h1, v) by { same_tree_by(h0, h1, z, t, tree_of(h0, t), v); }
    assert forall|u: Ptr| #![trigger same_txn(h0, h1, u)] u != t && tree_of(h0, u) != tree_of(h0, t) implies same_txn(h0, h1, u) by { same_txn_by(h0, h1, z, t, tree_of(h0, t), u); }
}
/// Nothing that existed before changed.
pub open spec fn quiet(h0: H, h1: H) -> bool {
    &&& fr(h0, h1, Set::empty()) && shared(h1) && arrs(h1)
    &&& forall|x: Ptr| #![trigger h1.m_Txn[x]] #![trigger h1.m_Txn.contains_key(x)] h0.m_Txn.contains_key(x) ==> h1.m_Txn[x] == h0.m_Txn[x] && h1.m_Txn.contains_key(x)
    &&& forall|x: Ptr| #![trigger h1.m_RadixTree[x]] #![trigger h1.m_RadixTree.contains_key(x)] h0.m_RadixTree.contains_key(x) ==> h1.m_RadixTree[x] == h0.m_RadixTree[x] && h1.m_RadixTree.contains_key(x)
    &&& forall|a: u64| #![trigger h1.carr[a]] #![trigger h1.carr.contains_key(a)] h0.carr.contains_key(a) ==> h1.carr.contains_key(a) && h1.carr[a] == h0.carr[a]
}
pub proof fn quiet_keeps(h0: H, h1: H)
    requires quiet(h0, h1),
    ensures keeps_all(h0, h1),
{
    assert forall|v: Ptr| #[trigger] same_tree(h0, h1, v) by {
        if fixed(h0, v) { kept(h0, h1, Set::empty(), h0.m_RadixTree[v].root.p); }
    }
    assert forall|u: Ptr| #[trigger] same_txn(h0, h1, u) by {
        if txinv(h0, u) {
            kept(h0, h1, Set::empty(), top(h0, u).p);
            assert(trk(h1, u) =~= trk(h0, u)) by {
                match h0.m_Txn[u].trackChnSlice.arr { Arr::A(a) => { assert(h1.carr[a] == h0.carr[a]); } _ => { } }
            }
        }
    }
}
pub proof fn grown_quiet(h0: H, h1: H)
    requires grown_b(h0, h1), shared(h0), arrs(h1),
    ensures quiet(h0, h1),
{
    grown_fr(h0, h1);
    assert(lks(h1));
    shared_frame(h0, h1, Set::empty());
}
pub proof fn keeps_after(h0: H, h1: H, h2: H, t: Ptr)
    requires keeps_all(h0, h1), keeps(h1, h2, t), h1.m_Txn[t] == h0.m_Txn[t],
    ensures keeps(h0, h2, t),
{
    assert forall|v: Ptr| #![trigger same_tree(h0, h2, v)] v != tree_of(h0, t) implies same_tree(h0, h2, v) by { assert(same_tree(h0, h1, v)); assert(same_tree(h1, h2, v)); }
    assert forall|u: Ptr| #![trigger same_txn(h0, h2, u)] u != t && tree_of(h0, u) != tree_of(h0, t) implies same_txn(h0, h2, u) by {
        assert(same_txn(h0, h1, u));
        if txinv(h0, u) { assert(same_txn(h1, h2, u)); }
    }
}
pub proof fn keeps_then(h0: H, h1: H, h2: H, t: Ptr)
    requires keeps(h0, h1, t), keeps(h1, h2, t), tree_of(h1, t) == tree_of(h0, t),
    ensures keeps(h0, h2, t),
{
    assert forall|v: Ptr| #![trigger same_tree(h0, h2, v)] v != tree_of(h0, t) implies same_tree(h0, h2, v) by { assert(same_tree(h0, h1, v)); assert(same_tree(h1, h2, v)); }
    assert forall|u: Ptr| #![trigger same_txn(h0, h2, u)] u != t && tree_of(h0, u) != tree_of(h0, t) implies same_txn(h0, h2, u) by {
        assert(same_txn(h0, h1, u));
        if txinv(h0, u) { assert(same_txn(h1, h2, u)); }
    }
}
/// A transaction that is new in h1 does not matter to what existed in h0.
pub proof fn keeps_new(h0: H, h1: H, h2: H, t: Ptr)
    requires keeps_all(h0, h1), keeps(h1, h2, t), !h0.m_Txn.contains_key(t), !h0.m_RadixTree.contains_key(tree_of(h1, t)),
    ensures keeps_all(h0, h2),
{
    assert forall|v: Ptr| #[trigger] same_tree(h0, h2, v) by { assert(same_tree(h0, h1, v)); if fixed(h0, v) { assert(same_tree(h1, h2, v)); } }
    assert forall|u: Ptr| #[trigger] same_txn(h0, h2, u) by {
        assert(same_txn(h0, h1, u));
        if txinv(h0, u) { assert(tree_of(h1, u) == tree_of(h0, u)); assert(same_txn(h1, h2, u)); }
    }
}

// ---- a transaction step ----

/// The root and the size are stored.
pub open spec fn set_top(h0: H, h1: H, h2: H, t: Ptr, r: Node) -> bool {
    let v = tree_of(h0, t);
    let s = h2.m_RadixTree[v].size;
    &&& h2 == (H { m_Txn: h2.m_Txn, m_RadixTree: h2.m_RadixTree, ..h1 })
    &&& h2.m_Txn.contains_key(t) && h2.m_Txn[t] == (RTxn { size: s, ..h1.m_Txn[t] })
    &&& h2.m_RadixTree.contains_key(v) && h2.m_RadixTree[v] == (RRadixTree { root: r, size: s, ..h1.m_RadixTree[v] })
    &&& forall|x: Ptr| #![trigger h2.m_Txn[x]] #![trigger h2.m_Txn.contains_key(x)] x != t ==> h2.m_Txn[x] == h1.m_Txn[x] && h2.m_Txn.contains_key(x) == h1.m_Txn.contains_key(x)
    &&& forall|x: Ptr| #![trigger h2.m_RadixTree[x]] #![trigger h2.m_RadixTree.contains_key(x)] x != v ==> h2.m_RadixTree[x] == h1.m_RadixTree[x] && h2.m_RadixTree.contains_key(x) == h1.m_RadixTree.contains_key(x)
}
/// r becomes the root of the transaction's tree.
pub proof fn retop(h0: H, h1: H, h2: H, t: Ptr, r: Node)
    requires txinv(h0, t), side(h0, h1, t), fr(h0, h1, zone(h0, top(h0, t).p)), shared(h1), arrs(h2), itree(h1, r), belongs(h1, t, r.p), h1.gh[r.p].sp.len() == 0,
        set_top(h0, h1, h2, t, r), h2.m_Txn[t].size == h1.gh[r.p].cont.dom().len(),
    ensures txinv(h2, t), keeps(h0, h2, t), tree_of(h2, t) == tree_of(h0, t), trk(h2, t) == trk(h1, t), top(h2, t) == r, txall(h2, t) == h1.gh[r.p].cont,
        tm(h2, t) == tm(h0, t), h2.closed == h0.closed,
{
    let z = zone(h0, top(h0, t).p);
    let p0 = top(h0, t).p;
    assert(fr(h1, h2, Set::empty())) by { reveal(fr); }
    fr_trans(h0, h1, h2, z, Set::empty(), z);
    assert(lks(h2));
    shared_frame(h1, h2, Set::empty());
    kept(h1, h2, Set::empty(), r.p);
    trk_same(h1, h2, t);
    assert(of_txn(h0, z, t)) by {
        assert forall|x: Ptr| #[trigger] z.contains(x) && live(h0, x) implies h0.gh[x].own == t by { good_in(h0, p0, x); }
    }
    assert(objs(h0, h2, t, tree_of(h0, t)));
    keeps_by(h0, h2, z, t);
}
pub proof fn dom_ins(m: Map<Seq<u8>, Ent>, k: Seq<u8>, e: Ent)
    ensures m.insert(k, e).dom().len() == m.dom().len() + if m.contains_key(k) { 0int } else { 1 },
{ assert(m.insert(k, e).dom() == m.dom().insert(k)); }
pub proof fn dom_del(m: Map<Seq<u8>, Ent>, k: Seq<u8>)
    ensures m.remove(k).dom().len() == m.dom().len() - if m.contains_key(k) { 1int } else { 0 },
{ assert(m.remove(k).dom() == m.dom().remove(k)); }
pub proof fn dom_none(m: Map<Seq<u8>, Ent>)
    ensures m.dom().len() == 0 <==> !some_key(m), !some_key(m) ==> m =~= Map::<Seq<u8>, Ent>::empty(),
{
    if m.dom().len() == 0 { assert forall|k: Seq<u8>| !m.contains_key(k) by { if m.contains_key(k) { assert(m.dom().contains(k)); vstd::set_lib::lemma_set_empty_equivalency_len(m.dom()); } } }
    else if !some_key(m) { assert(m.dom() =~= Set::<Seq<u8>>::empty()); }
}
/// What can be said of the transaction after an operation.
pub open spec fn tx_kept(h0: H, h1: H, t: Ptr) -> bool {
    txinv(h1, t) && keeps(h0, h1, t) && tree_of(h1, t) == tree_of(h0, t)
}
pub open spec fn tx_step(h0: H, h1: H, t: Ptr) -> bool { tx_kept(h0, h1, t) && tm(h1, t) == tm(h0, t) && h1.closed == h0.closed }

// ---- an empty root ----

pub open spec fn bare(h: H, p: Ptr) -> bool {
    let r = h.nodes[p];
    &&& p != 0 && kind_of(p) == Tag::N4 && h.nodes.contains_key(p) && r.numChildren == 0 && r.leaf == 0 && r.partialLen == 0
    &&& nwf(Tag::N4, r) && (own_pre(h, p) || r.partial == nil_slice())
    &&& r.ch != 0 && h.chans.contains(r.ch)
}
pub open spec fn all_one(c: Chan, p: Ptr, t: Ptr, mx: u64, lo: u64) -> GRec {
    GRec { sp: Seq::empty(), gp: Seq::empty(), cont: Map::empty(), own: t, mx, lo, sub: set![p], wc: |q: Seq<u8>| c }
}
pub open spec fn bare_rec(h: H, p: Ptr, t: Ptr, mx: u64, lo: u64) -> GRec {
    all_one(h.nodes[p].ch, p, t, mx, lo)
}
pub proof fn bare_top(h: H, p: Ptr, t: Ptr, mx: u64, lo: u64)
    requires shared(h), !live(h, p), bare(h, p), h.nodes[p].id <= mx, t != 0 ==> lo < h.nodes[p].id && own_pre(h, p), !h.gx.lk.contains_key(h.nodes[p].ch),
    ensures ({
        let h1 = raw(h, p, bare_rec(h, p, t, mx, lo));
        itree(h1, Node { tag: Tag::N4, p }) && fr(h, h1, Set::empty()) && shared(h1) && h1.gh[p] == bare_rec(h, p, t, mx, lo)
    }),
{
    let h1 = raw(h, p, bare_rec(h, p, t, mx, lo));
    let r = h.nodes[p];
    assert(fr(h, h1, Set::empty())) by { reveal(fr); }
    assert forall|c: u8| #[trigger] kid_at(h1, p, c).tag == Tag::Nil by { }
    assert forall|k: Seq<u8>| !rt(h1, p, k) by { }
    assert(ok_head(h1, p));
    assert forall|x: Ptr| #![trigger sub_at(h1, p, x)] sub_at(h1, p, x) <==> x == p by { if exists|c: u8| #[trigger] kid_has(h1, p, c, x) { let c = choose|c: u8| #[trigger] kid_has(h1, p, c, x); assert(kid_at(h1, p, c).tag == Tag::Nil); } }
    assert(ok_sub(h1, p));
    assert(ok_cont(h1, p));
    assert(ok_wc(h1, p));
    ok_from(h1, p);
    assert(lks(h1));
    assert forall|x: Ptr| #![trigger h1.gh[x]] #![trigger h1.gh.contains_key(x)] h1.gh.contains_key(x) implies h1.nodes.contains_key(x) && (h1.gh[x].own == 0 ==> ok(h1, x)) by {
        if x != p && h1.gh[x].own == 0 { assert(h.gh.contains_key(x)); ok_frame(h, h1, Set::empty(), x); }
    }
    if t != 0 { assert(good(h1, p)) by { reveal(good); } }
}

// ---- giving up what a transaction owns ----

pub open spec fn freeze(h: H, z: Set<Ptr>) -> H { H { gh: h.gh.map_entries(|k: Ptr, g: GRec| if z.contains(k) { GRec { own: 0, ..g } } else { g }), ..h } }
pub proof fn freeze_node(h: H, z: Set<Ptr>, x: Ptr)
    requires ok(h, x), z.contains(x), live(h, x), h.gh[x].sub.subset_of(z),
    ensures ok(freeze(h, z), x),
{
    let h1 = freeze(h, z);
    reveal(ok);
    let r = h.nodes[x];
    assert(h1.gh[x] == (GRec { own: 0, ..h.gh[x] }));
    if kind_of(x) == Tag::Leaf {
        assert(bs(h1, r.key) =~= bs(h, r.key));
    } else {
        assert(own_pre(h1, x) == own_pre(h, x));
        assert(forall|i: int| bs_at(h1, r.partial, i) == bs_at(h, r.partial, i));
        assert(ok_head(h1, x));
        assert(ok_pre(h1, x));
        if r.leaf != 0 { assert(shr(h, x, r.leaf)); assert(shr(h1, x, r.leaf)); assert(h1.gh[r.leaf].cont == h.gh[r.leaf].cont); }
        assert forall|c: u8| #![trigger kid_at(h1, x, c)] ok_kid(h1, x, c) && (kid_at(h, x, c).tag != Tag::Nil ==> live(h, kid_at(h, x, c).p)) by {
            assert(kid_at(h1, x, c) == kid_at(h, x, c));
            assert(ok_kid(h, x, c));
            let y = kid_at(h, x, c).p;
            if kid_at(h, x, c).tag != Tag::Nil { assert(h1.gh[y].cont == h.gh[y].cont); assert(shr(h1, x, y)); }
        }
        assert forall|k: Seq<u8>| rt(h1, x, k) == rt(h, x, k) by { }
        assert forall|k: Seq<u8>| #![trigger rt(h1, x, k)] look_at(h1, x, k) == look_at(h, x, k) && wc_at(h1, x, k) == wc_at(h, x, k) by {
            assert(rt(h1, x, k) == rt(h, x, k));
            if rt(h1, x, k) { let c = k[h.gh[x].gp.len() as int]; assert(kid_at(h1, x, c) == kid_at(h, x, c)); }
        }
        assert(ok_cont(h1, x)) by {
            assert forall|k: Seq<u8>| #![trigger h1.gh[x].cont.contains_key(k)] #![trigger rt(h1, x, k)] look(h1.gh[x].cont, k) == look_at(h1, x, k) by { assert(rt(h1, x, k) == rt(h, x, k)); }
        }
        assert(ok_wc(h1, x)) by { assert forall|q: Seq<u8>| #![trigger (h1.gh[x].wc)(q)] (h1.gh[x].wc)(q) == wc_at(h1, x, q) by { assert((h.gh[x].wc)(q) == wc_at(h, x, q)); assert(rt(h1, x, q) == rt(h, x, q)); } }
        ok_from(h1, x);
    }
}
pub proof fn freeze_tree(h: H, p: Ptr)
    requires tree(h, p),
    ensures ({
        let h1 = freeze(h, zone(h, p));
        &&& tree(h1, p) && h1.gh[p] == (GRec { own: 0, ..h.gh[p] }) && fr(h, h1, zone(h, p)) && shared(h1)
    }),
{
    let z = zone(h, p);
    let h1 = freeze(h, z);
    zone_owned(h, p);
    assert(fr(h, h1, z)) by { reveal(fr); }
    assert(lks(h1));
    if h.gh[p].own == 0 { assert(h1.gh =~= h.gh); }
    assert forall|x: Ptr| #![trigger h1.gh[x]] #![trigger h1.gh.contains_key(x)] h1.gh.contains_key(x) implies h1.nodes.contains_key(x) && (h1.gh[x].own == 0 ==> ok(h1, x)) by {
        assert(h.gh.contains_key(x));
        if z.contains(x) { good_in(h, p, x); freeze_node(h, z, x); }
        else if h1.gh[x].own == 0 { ok_frame(h, h1, z, x); }
    }
}
/// A transaction gives up its nodes.
pub proof fn freeze_txn(h0: H, h1: H, t: Ptr)
    requires txinv(h0, t), arrs(h1),
        ({
            let v = tree_of(h0, t);
            &&& h1 == (H { gh: freeze(h0, zone(h0, top(h0, t).p)).gh, m_Txn: h1.m_Txn, m_RadixTree: h1.m_RadixTree, ..h0 })
            &&& h1.m_Txn.contains_key(t) && h1.m_Txn[t] == (RTxn { oldMaxNodeId: max_id(h0, t), ..h0.m_Txn[t] })
            &&& forall|x: Ptr| #![trigger h1.m_Txn[x]] #![trigger h1.m_Txn.contains_key(x)] h0.m_Txn.contains_key(x) && x != t ==> h1.m_Txn[x] == h0.m_Txn[x] && h1.m_Txn.contains_key(x)
            &&& forall|x: Ptr| #![trigger h1.m_RadixTree[x]] #![trigger h1.m_RadixTree.contains_key(x)] h0.m_RadixTree.contains_key(x) ==> h1.m_RadixTree[x] == h0.m_RadixTree[x] && h1.m_RadixTree.contains_key(x)
        }),
    ensures tx_step(h0, h1, t), top(h1, t) == top(h0, t), txall(h1, t) == txall(h0, t), h1.gh[top(h0, t).p] == (GRec { own: 0, ..h0.gh[top(h0, t).p] }), trk(h1, t) == trk(h0, t), fixed(h1, tree_of(h0, t)),
{
    let p = top(h0, t).p;
    let z = zone(h0, p);
    let hf = freeze(h0, z);
    freeze_tree(h0, p);
    assert(fr(hf, h1, Set::empty())) by { reveal(fr); }
    assert(lks(h1));
    shared_frame(hf, h1, Set::empty());
    kept(hf, h1, Set::empty(), p);
    zone_owned(h0, p);
    assert(fr(h0, h1, z)) by { reveal(fr); }
    assert(of_txn(h0, z, t)) by {
        assert forall|x: Ptr| #[trigger] z.contains(x) && live(h0, x) implies h0.gh[x].own == t by { good_in(h0, p, x); }
    }
    trk_same(h0, h1, t);
    keeps_by(h0, h1, z, t);
}

// ---- a second root with the same fields ----

pub proof fn twin(h0: H, h1: H, n: Node, r: Node)
    requires itree(h0, n), h0.gh[n.p].own == 0, clone_of(h0, h1, n, true, r),
    ensures ({
        let h2 = raw(h1, r.p, h0.gh[n.p]);
        itree(h2, r) && fr(h0, h2, Set::empty()) && shared(h2) && h2.gh[r.p] == h0.gh[n.p]
    }),
{
    let h2 = raw(h1, r.p, h0.gh[n.p]);
    let g = h0.gh[n.p];
    let p = n.p;
    let x = r.p;
    let r0 = h0.nodes[p];
    let r1 = h2.nodes[x];
    tree_ok(h0, p);
    ok_i(h0, p);
    assert(!h0.gh.contains_key(x));
    assert(fr(h0, h2, Set::empty())) by { reveal(fr); }
    rec_same(n.tag, r0, r1);
    assert(own_pre(h2, x));
    assert(ok_head(h2, x));
    assert(ok_pre(h2, x)) by {
        if r1.numChildren > 0 {
            assert(own_pre(h0, p));
            assert forall|i: int| 0 <= i < stored(r1.partialLen) implies #[trigger] bs_at(h2, r1.partial, i) == g.gp[g.sp.len() + i] by { assert(bs_at(h1, r1.partial, i) == bs_at(h0, r0.partial, i)); assert(bs_at(h2, r1.partial, i) == bs_at(h1, r1.partial, i)); }
        }
    }
    if r0.leaf != 0 { assert(shr(h0, p, r0.leaf)); assert(r0.leaf != x); assert(shr(h2, x, r0.leaf)); }
    assert forall|c: u8| #![trigger kid_at(h2, x, c)] ok_kid(h2, x, c) && kid_at(h2, x, c) == kid_at(h0, p, c) && (kid_at(h0, p, c).tag != Tag::Nil ==> h2.gh[kid_at(h0, p, c).p] == h0.gh[kid_at(h0, p, c).p]) by {
        assert(kid(n.tag, r1, c) == kid(n.tag, r0, c));
        assert(ok_kid(h0, p, c));
        let y = kid_at(h0, p, c).p;
        if kid_at(h0, p, c).tag != Tag::Nil { assert(y != x); assert(shr(h2, x, y)); }
    }
    assert forall|k: Seq<u8>| #![trigger rt(h2, x, k)] rt(h2, x, k) == rt(h0, p, k) && look_at(h2, x, k) == look_at(h0, p, k) && wc_at(h2, x, k) == wc_at(h0, p, k) by {
        if k.len() > g.gp.len() { let c = k[g.gp.len() as int]; assert(kid_at(h2, x, c) == kid_at(h0, p, c)); }
    }
    assert(ok_cont(h2, x)) by {
        assert forall|k: Seq<u8>| #![trigger h2.gh[x].cont.contains_key(k)] #![trigger rt(h2, x, k)] look(h2.gh[x].cont, k) == look_at(h2, x, k) by { assert(rt(h2, x, k) == rt(h0, p, k)); }
    }
    assert(ok_wc(h2, x)) by { assert forall|q: Seq<u8>| #![trigger (h2.gh[x].wc)(q)] (h2.gh[x].wc)(q) == wc_at(h2, x, q) by { assert((h0.gh[p].wc)(q) == wc_at(h0, p, q)); assert(rt(h2, x, q) == rt(h0, p, q)); } }
    ok_from(h2, x);
    assert(lks(h2));
    assert forall|y: Ptr| #![trigger h2.gh[y]] #![trigger h2.gh.contains_key(y)] h2.gh.contains_key(y) implies h2.nodes.contains_key(y) && (h2.gh[y].own == 0 ==> ok(h2, y)) by {
        if y != x { assert(h0.gh.contains_key(y)); assert(h0.nodes.contains_key(y)); if h2.gh[y].own == 0 { ok_frame(h0, h2, Set::empty(), y); } }
    }
}
/// A new transaction on a copy of a root.
pub proof fn twin_txn(h0: H, h1: H, h2: H, n: Node, q: Node, t: Ptr)
    requires itree(h0, n), h0.gh[n.p].own == 0, h0.gh[n.p].sp.len() == 0, clone_of(h0, h1, n, true, q), arrs(h2), t != 0,
        h2 == (H { gh: h1.gh.insert(q.p, h0.gh[n.p]), m_Txn: h2.m_Txn, m_RadixTree: h2.m_RadixTree, ..h1 }),
        ({
            let v = tree_of(h2, t);
            let s = h2.m_RadixTree[v];
            let x = h2.m_Txn[t];
            &&& v != 0 && !h0.m_Txn.contains_key(t) && !h0.m_RadixTree.contains_key(v) && h2.m_Txn.contains_key(t) && h2.m_RadixTree.contains_key(v)
            &&& s.root == q && s.size == h0.gh[n.p].cont.dom().len() && h0.gh[n.p].mx <= s.maxNodeId
            &&& x.size == s.size && x.oldMaxNodeId == s.maxNodeId && x.trackChnSlice == nil_slice()
            &&& forall|x: Ptr| #![trigger h2.m_Txn[x]] #![trigger h2.m_Txn.contains_key(x)] h0.m_Txn.contains_key(x) ==> h2.m_Txn[x] == h0.m_Txn[x] && h2.m_Txn.contains_key(x)
            &&& forall|x: Ptr| #![trigger h2.m_RadixTree[x]] #![trigger h2.m_RadixTree.contains_key(x)] h0.m_RadixTree.contains_key(x) ==> h2.m_RadixTree[x] == h0.m_RadixTree[x] && h2.m_RadixTree.contains_key(x)
        }),
    ensures txinv(h2, t), h2.gh[q.p] == h0.gh[n.p], trk(h2, t) == Seq::<Chan>::empty(), keeps_all(h0, h2), fr(h0, h2, Set::empty()),
{
    twin(h0, h1, n, q);
    let hb = raw(h1, q.p, h0.gh[n.p]);
    assert(fr(hb, h2, Set::empty())) by { reveal(fr); }
    assert(lks(h2));
    shared_frame(hb, h2, Set::empty());
    kept(hb, h2, Set::empty(), q.p);
    assert(fr(h0, h2, Set::empty())) by { reveal(fr); }
    assert(trk(h2, t) =~= Seq::<Chan>::empty());
    quiet_keeps(h0, h2);
}
pub proof fn top_start(h0: H, h1: H, t: Ptr, key: Slice, key1: Slice)
    requires txinv(h0, t), key.len < 0x1_0000_0000, swf(key), swf(key1), bs(h1, key1) == bs(h0, key), arrs(h1),
        key1.arr matches Arr::A(a) && !h0.bytes.contains_key(a) && h1.bytes[a].owner == nobody() && upd(h0.bytes, h1.bytes, a) && h1 == (H { bytes: h1.bytes, ..h0 }),
    ensures can_ins(h1, t, top(h1, t), key1, bs(h0, key), 0), can_del(h1, t, top(h1, t), key1, bs(h0, key), 0), quiet(h0, h1), txinv(h1, t), keeps_all(h0, h1), top(h1, t) == top(h0, t), h1.gh == h0.gh, trk(h1, t) == trk(h0, t),
{
    assert(grown_b(h0, h1));
    grown_quiet(h0, h1);
    quiet_keeps(h0, h1);
    assert(same_txn(h0, h1, t));
    assert(bs(h0, key).len() == key.len);
    dom_none(txall(h0, t));
}
pub proof fn watched_to(h0: H, hk: H, h1: H, h2: H, t: Ptr, n: Node, r: Node, q: Node, ks: Set<Seq<u8>>)
    requires watched(hk, h1, t, n, r, ks), hk.gh == h0.gh, hk.gx == h0.gx, trk(hk, t) == trk(h0, t), trk(h2, t) == trk(h1, t), tm(hk, t) == tm(h0, t),
        r.tag == Tag::Nil || (q == r && h2.gh[q.p] == h1.gh[r.p]),
    ensures watched(h0, h2, t, n, q, ks),
{ }
pub proof fn top_ins(h0: H, hk: H, h1: H, h2: H, t: Ptr, k: Seq<u8>, v: Val, r: Node)
    requires txinv(h0, t), quiet(h0, hk), txinv(hk, t), keeps_all(h0, hk), top(hk, t) == top(h0, t), hk == (H { bytes: hk.bytes, ..h0 }), trk(hk, t) == trk(h0, t),
        put_in(hk, h1, t, top(hk, t), r, k, v), arrs(h2),
        set_top(h0, h1, h2, t, r), h2.m_Txn[t].size == h0.m_Txn[t].size + if txall(h0, t).contains_key(k) { 0int } else { 1 },
    ensures tx_step(h0, h2, t), txall(h2, t) == txall(h0, t).insert(k, txall(h2, t)[k]), txall(h2, t)[k].v == v, watched(h0, h2, t, top(h0, t), top(h2, t), set![k]),
{
    let e = h1.gh[r.p].cont[k];
    dom_ins(txall(h0, t), k, e);
    assert(itree(h1, r)) by { good_self(h1, r.p); }
    retop(hk, h1, h2, t, r);
    watched_to(h0, hk, h1, h2, t, top(h0, t), r, r, set![k]);
    keeps_after(h0, hk, h2, t);
}

// ---- deleting ----

/// The new root when nothing is left.
pub open spec fn own_bare(h: H, t: Ptr, p: Ptr) -> GRec { bare_rec(h, p, if h.nodes[p].id > old_max(h, t) { t } else { 0 }, h.nodes[p].id, old_max(h, t)) }
pub proof fn empty_top(h0: H, h1: H, h2: H, t: Ptr, p: Ptr, m: Map<Seq<u8>, Ent>)
    requires txinv(h0, t), edit(h0, h1, t, top(h0, t), nil_node(), m), arrs(h1), !h1.nodes.contains_key(p), upd(h1.nodes, h2.nodes, p), bare(h2, p), own_pre(h2, p), !h1.bytes.contains_key(pre_id(h2, p)), upd(h1.bytes, h2.bytes, pre_id(h2, p)),
        fresh_ch(h1, h2, h2.nodes[p].ch), grown_c(h1, h2), h2.nodes[p].id == max_id(h1, t),
        h2 == (H { nodes: h2.nodes, bytes: h2.bytes, chans: h2.chans, gh: h1.gh.insert(p, own_bare(h2, t, p)), ..h1 }),
    ensures side(h0, h2, t), fr(h0, h2, zone(h0, top(h0, t).p)), shared(h2), itree(h2, Node { tag: Tag::N4, p }), belongs(h2, t, p), h2.gh[p].sp.len() == 0, h2.gh[p].cont == m, trk(h2, t) == trk(h1, t),
{
    let hm = H { gh: h1.gh, ..h2 };
    let z = zone(h0, top(h0, t).p);
    assert(!h1.gh.contains_key(p));
    assert(fr(h1, hm, Set::empty())) by { reveal(fr); }
    assert(lks(hm));
    shared_frame(h1, hm, Set::empty());
    let g = own_bare(h2, t, p);
    assert(own_pre(hm, p));
    assert(g == bare_rec(hm, p, g.own, g.mx, g.lo));
    bare_top(hm, p, g.own, g.mx, g.lo);
    assert(h2 == raw(hm, p, g));
    fr_trans(h1, hm, h2, Set::empty(), Set::empty(), Set::empty());
    fr_trans(h0, h1, h2, z, Set::empty(), z);
    dom_none(m);
    trk_same(h1, h2, t);
    assert(ctxn(h1, t) ==> ctxn(h2, t));
    assert(grown_n(h0, h2)) by { assert(grown_n(h0, h1)); }
    assert(grown_c(h0, h2)) by { assert(grown_c(h0, h1)); }
}
/// A deletion of the keys ks ends.
pub proof fn top_del(h0: H, hk: H, h1: H, h2: H, h3: H, t: Ptr, ks: Set<Seq<u8>>, m: Map<Seq<u8>, Ent>, r: Node, q: Node)
    requires txinv(h0, t), quiet(h0, hk), txinv(hk, t), keeps_all(h0, hk), top(hk, t) == top(h0, t), hk == (H { bytes: hk.bytes, ..h0 }), trk(hk, t) == trk(h0, t),
        watched(hk, h1, t, top(h0, t), r, ks), trk(h2, t) == trk(h1, t), r.tag == Tag::Nil || (q == r && h2.gh[q.p] == h1.gh[r.p]),
        side(hk, h2, t), fr(hk, h2, zone(hk, top(h0, t).p)), shared(h2), itree(h2, q), belongs(h2, t, q.p), h2.gh[q.p].sp.len() == 0, h2.gh[q.p].cont == m,
        set_top(h0, h2, h3, t, q), arrs(h3), h3.m_Txn[t].size == m.dom().len(),
    ensures tx_step(h0, h3, t), txall(h3, t) == m, watched(h0, h3, t, top(h0, t), top(h3, t), ks),
{
    retop(hk, h2, h3, t, q);
    assert(h3.gh[q.p] == h2.gh[q.p]);
    watched_to(h0, hk, h1, h3, t, top(h0, t), r, q, ks);
    keeps_after(h0, hk, h3, t);
}
/// Nothing is deleted.
pub proof fn top_none(h0: H, hk: H, h2: H, t: Ptr)
    requires txinv(h0, t), quiet(h0, hk), txinv(hk, t), keeps_all(h0, hk), top(hk, t) == top(h0, t), hk == (H { bytes: hk.bytes, ..h0 }), trk(hk, t) == trk(h0, t), h2 == hk || set_top(h0, hk, h2, t, top(h0, t)), h2.m_Txn[t].size == h0.m_Txn[t].size, arrs(h2),
    ensures tx_step(h0, h2, t), txall(h2, t) == txall(h0, t), trk(h2, t) == trk(h0, t), top(h2, t) == top(h0, t), h2.gh == h0.gh,
{
    if h2 == hk { assert(keeps(hk, h2, t)); keeps_after(h0, hk, h2, t); }
    else {
        assert(side(hk, hk, t));
        assert(fr(hk, hk, zone(hk, top(hk, t).p))) by { reveal(fr); }
        retop(hk, hk, h2, t, top(h0, t));
        keeps_after(h0, hk, h2, t);
    }
}

// ---- the end of a transaction ----

pub proof fn keeps_more(h0: H, h1: H, h2: H, t: Ptr)
    requires keeps(h0, h1, t), keeps_all(h1, h2),
    ensures keeps(h0, h2, t),
{
    assert forall|v: Ptr| #![trigger same_tree(h0, h2, v)] v != tree_of(h0, t) implies same_tree(h0, h2, v) by { assert(same_tree(h0, h1, v)); assert(same_tree(h1, h2, v)); }
    assert forall|u: Ptr| #![trigger same_txn(h0, h2, u)] u != t && tree_of(h0, u) != tree_of(h0, t) implies same_txn(h0, h2, u) by {
        assert(same_txn(h0, h1, u));
        assert(same_txn(h1, h2, u));
    }
}
/// Only fields of the transaction that do not concern the tree changed.
pub proof fn mark_txn(h0: H, h1: H, t: Ptr)
    requires txinv(h0, t), h1 == (H { closed: h1.closed, m_Txn: h0.m_Txn.insert(t, RTxn { trackMutate: h1.m_Txn[t].trackMutate, trackChnSlice: h1.m_Txn[t].trackChnSlice, ..h0.m_Txn[t] }), ..h0 }), arrs(h1),
        h1.m_Txn[t].trackChnSlice == h0.m_Txn[t].trackChnSlice || h1.m_Txn[t].trackChnSlice == nil_slice(),
    ensures tx_kept(h0, h1, t), txall(h1, t) == txall(h0, t), top(h1, t) == top(h0, t), h1.gh == h0.gh, forall|v: Ptr| #[trigger] same_tree(h0, h1, v),
{
    assert(fr(h0, h1, Set::empty())) by { reveal(fr); }
    assert(lks(h1));
    shared_frame(h0, h1, Set::empty());
    kept(h0, h1, Set::empty(), top(h0, t).p);
    keeps_by(h0, h1, Set::empty(), t);
    assert forall|v: Ptr| #[trigger] same_tree(h0, h1, v) by { if fixed(h0, v) { kept(h0, h1, Set::empty(), h0.m_RadixTree[v].root.p); } }
}
pub proof fn twin_tree(h0: H, h1: H, h2: H, n: Node, q: Node, v: Ptr)
    requires itree(h0, n), h0.gh[n.p].own == 0, h0.gh[n.p].sp.len() == 0, clone_of(h0, h1, n, true, q), arrs(h2), v != 0,
        h2 == (H { gh: h1.gh.insert(q.p, h0.gh[n.p]), m_RadixTree: h2.m_RadixTree, ..h1 }),
        ({
            let s = h2.m_RadixTree[v];
            &&& !h0.m_RadixTree.contains_key(v) && h2.m_RadixTree.contains_key(v)
            &&& s.root == q && s.size == h0.gh[n.p].cont.dom().len() && h0.gh[n.p].mx <= s.maxNodeId
            &&& forall|x: Ptr| #![trigger h2.m_RadixTree[x]] #![trigger h2.m_RadixTree.contains_key(x)] h0.m_RadixTree.contains_key(x) ==> h2.m_RadixTree[x] == h0.m_RadixTree[x] && h2.m_RadixTree.contains_key(x)
        }),
    ensures fixed(h2, v), h2.gh[q.p] == h0.gh[n.p], keeps_all(h0, h2),
{
    twin(h0, h1, n, q);
    let hb = raw(h1, q.p, h0.gh[n.p]);
    assert(fr(hb, h2, Set::empty())) by { reveal(fr); }
    assert(lks(h2));
    shared_frame(hb, h2, Set::empty());
    kept(hb, h2, Set::empty(), q.p);
    assert(fr(h0, h2, Set::empty())) by { reveal(fr); }
    quiet_keeps(h0, h2);
}
/// What a committed tree is.
pub open spec fn committed(h0: H, h1: H, t: Ptr, v: Ptr) -> bool {
    &&& fixed(h1, v) && all_of(h1, v) == txall(h0, t) && h1.gh[h1.m_RadixTree[v].root.p].wc == h0.gh[top(h0, t).p].wc
    &&& !h0.m_RadixTree.contains_key(v) && v != tree_of(h1, t)
    &&& tx_kept(h0, h1, t) && tm(h1, t) == tm(h0, t) && txall(h1, t) == txall(h0, t) && top(h1, t) == top(h0, t) && h1.gh[top(h1, t).p].wc == h0.gh[top(h0, t).p].wc
}
pub proof fn bs_fr(h0: H, h1: H, s: Slice)
    requires fr(h0, h1, Set::empty()), alloc_b(h0, s),
    ensures bs(h1, s) == bs(h0, s),
{
    reveal(fr);
    assert(bs(h1, s) =~= bs(h0, s)) by {
        match s.arr { Arr::A(a) => { assert(h1.bytes[a].data == h0.bytes[a].data); } Arr::K(p) => { assert(h1.nodes[p] == h0.nodes[p]); } _ => { } }
    }
}
pub proof fn dom_pre(m: Map<Seq<u8>, Ent>, k: Seq<u8>)
    ensures dp(m, k).dom().len() + hit(m, k).len() == m.dom().len(), !some_key(m) ==> hit(m, k).len() == 0, hit(m, k).len() == 0 ==> dp(m, k) == m,
{
    let a = dp(m, k).dom();
    let b = hit(m, k);
    assert(a.disjoint(b));
    assert(m.dom() =~= a.union(b));
    vstd::set_lib::lemma_set_disjoint_lens(a, b);
    if !some_key(m) { assert(b =~= Set::empty()); }
    if b.len() == 0 {
        assert forall|x: Seq<u8>| m.contains_key(x) implies !pfx(k, x) by { if pfx(k, x) { assert(b.contains(x)); vstd::set_lib::lemma_set_empty_equivalency_len(b); } }
        assert(dp(m, k) =~= m);
    }
}

// Changing trees: what a transaction may touch, and how a changed node is put in order again.

/// The nodes below that only the transaction can reach.
pub open spec fn zone(h: H, p: Ptr) -> Set<Ptr> { if h.gh[p].own == 0 { Set::empty() } else { h.gh[p].sub } }
pub open spec fn in_or_new(h0: H, s: Set<Ptr>, z: Set<Ptr>) -> bool { forall|x: Ptr| #[trigger] s.contains(x) ==> z.contains(x) || !h0.nodes.contains_key(x) }

pub proof fn fr_trans(h0: H, h1: H, h2: H, a: Set<Ptr>, b: Set<Ptr>, c: Set<Ptr>)
    requires fr(h0, h1, a), fr(h1, h2, b), shared(h0), arrs(h0), in_or_new(h0, a, c), in_or_new(h0, b, c),
    ensures fr(h0, h2, c),
{
    reveal(fr);
    assert forall|x: Ptr| #![trigger h2.nodes[x]] #![trigger h2.nodes.contains_key(x)] h0.nodes.contains_key(x) implies h2.nodes.contains_key(x) && (!c.contains(x) ==> h2.nodes[x] == h0.nodes[x]) by {
        assert(h1.nodes.contains_key(x));
        if !c.contains(x) { assert(!a.contains(x) && !b.contains(x)); assert(h1.nodes[x] == h0.nodes[x]); }
    }
    assert forall|x: Ptr| #![trigger h2.gh[x]] #![trigger h2.gh.contains_key(x)] h0.gh.contains_key(x) && !c.contains(x) implies h2.gh.contains_key(x) && h2.gh[x] == h0.gh[x] by {
        assert(h0.nodes.contains_key(x));
        assert(!a.contains(x) && !b.contains(x));
        assert(h1.gh[x] == h0.gh[x]);
    }
    assert forall|i: u64| #![trigger h2.bytes[i]] #![trigger h2.bytes.contains_key(i)] h0.bytes.contains_key(i) implies h2.bytes.contains_key(i) && oc(h0.bytes[i].owner, h2.bytes[i].owner)
            && (!(h0.bytes[i].owner.k == 1 && kind_of(h0.bytes[i].owner.p) != Tag::Leaf && c.contains(h0.bytes[i].owner.p)) ==> h2.bytes[i].data == h0.bytes[i].data) by {
        assert(h1.bytes.contains_key(i));
        assert(oc(h0.bytes[i].owner, h1.bytes[i].owner));
        assert(oc(h1.bytes[i].owner, h2.bytes[i].owner));
    }
    assert forall|k: Chan| #![trigger h2.chans.contains(k)] #![trigger h2.gx.lk.contains_key(k)] h0.chans.contains(k) implies h2.chans.contains(k) && h2.gx.lk.contains_key(k) == h0.gx.lk.contains_key(k) && h2.gx.lk[k] == h0.gx.lk[k] by {
        assert(h1.chans.contains(k));
    }
}
pub proof fn fr_weak(h0: H, h1: H, a: Set<Ptr>, c: Set<Ptr>)
    requires fr(h0, h1, a), shared(h0), arrs(h0), in_or_new(h0, a, c),
    ensures fr(h0, h1, c),
{
    assert(fr(h1, h1, Set::empty())) by { reveal(fr); }
    fr_trans(h0, h1, h1, a, Set::empty(), c);
}

// ---- sealing: ghost information for a node whose fields are final ----

pub open spec fn raw(h: H, p: Ptr, g: GRec) -> H { H { gh: h.gh.insert(p, g), ..h } }
pub open spec fn put(h: H, p: Ptr, g: GRec) -> H {
    let h1 = raw(h, p, g);
    raw(h, p, GRec { wc: |q: Seq<u8>| wc_at(h1, p, q), sub: h1.gh.dom().filter(|x: Ptr| sub_at(h1, p, x)), ..g })
}
/// y may stand below a node with ghost record g.
pub open spec fn hung(h: H, g: GRec, y: Ptr) -> bool {
    let k = h.gh[y];
    live(h, y) && k.mx <= g.mx && if k.own == 0 { k.mx <= g.lo } else { k.own == g.own && k.lo == g.lo && good(h, y) }
}
pub open spec fn hung_leaf(h: H, p: Ptr, g: GRec) -> bool {
    let l = h.nodes[p].leaf;
    l != 0 ==> kind_of(l) == Tag::Leaf && h.gh[l].sp == g.gp && hung(h, g, l)
}
pub open spec fn hung_kid(h: H, p: Ptr, g: GRec, c: u8) -> bool {
    let y = kid_at(h, p, c);
    y.tag != Tag::Nil ==> inner(y.tag) && kind_of(y.p) == y.tag && h.gh[y.p].sp == g.gp.push(c) && some_key(h.gh[y.p].cont) && hung(h, g, y.p)
}
pub open spec fn ready(h: H, p: Ptr, g: GRec) -> bool {
    &&& p != 0 && h.nodes.contains_key(p) && inner(kind_of(p)) && g.own != 0
    &&& (live(h, p) ==> h.gh[p].own != 0 && h.gh[p].sp.len() <= g.gp.len())
    &&& ok_head(raw(h, p, g), p)
    &&& ok_pre(raw(h, p, g), p)
    &&& hung_leaf(h, p, g)
    &&& forall|c: u8| #![trigger kid_at(h, p, c)] hung_kid(h, p, g, c)
    &&& ok_cont(raw(h, p, g), p)
}
/// What sealing gives.
pub open spec fn sealed(h: H, h1: H, p: Ptr, g: GRec) -> bool {
    let g1 = h1.gh[p];
    &&& h1 == (H { gh: h1.gh, ..h }) && h1.gh.contains_key(p)
    &&& g1.sp == g.sp && g1.gp == g.gp && g1.cont == g.cont && g1.own == g.own && g1.mx == g.mx && g1.lo == g.lo
    &&& good(h1, p) && shared(h1)
    &&& fr(h, h1, set![p])
    &&& forall|x: Ptr| #![trigger h1.gh[x]] #![trigger h1.gh.contains_key(x)] x != p ==> h1.gh[x] == h.gh[x] && h1.gh.contains_key(x) == h.gh.contains_key(x)
    &&& forall|q: Seq<u8>| #[trigger] (g1.wc)(q) == wc_at(h1, p, q)
    &&& forall|x: Ptr| #[trigger] g1.sub.contains(x) <==> sub_at(h1, p, x)
}
pub proof fn ok_from(h: H, p: Ptr)
    requires p != 0, live(h, p), h.nodes.contains_key(p), inner(kind_of(p)), ok_head(h, p), ok_pre(h, p), ok_leaf(h, p), ok_kids(h, p), ok_cont(h, p), ok_wc(h, p), ok_sub(h, p),
    ensures ok(h, p),
{ reveal(ok); }
pub proof fn good_in(h: H, p: Ptr, x: Ptr)
    requires good(h, p), h.gh[p].sub.contains(x),
    ensures ok(h, x), in_sub(h, p, x), h.gh[p].sub.contains(p), h.gh[p].own != 0, ok(h, p),
        kind_of(p) == Tag::Leaf ==> x == p,
{
    reveal(good);
    if kind_of(p) == Tag::Leaf { ok_l(h, p); } else { assert(inner(kind_of(p))) by { reveal(ok); } ok_i(h, p); }
}
pub proof fn good_self(h: H, p: Ptr)
    requires good(h, p),
    ensures ok(h, p), h.gh[p].own != 0, h.gh[p].sub.contains(p), live(h, p), h.nodes.contains_key(p), p != 0,
{ reveal(good); reveal(ok); }
/// The node p is not below y.
pub proof fn not_below(h: H, p: Ptr, g: GRec, y: Ptr)
    requires good(h, y), h.gh[y].sp.len() > g.gp.len(), live(h, p) ==> h.gh[p].sp.len() <= g.gp.len(),
    ensures !h.gh[y].sub.contains(p), y != p,
{
    good_self(h, y);
    if h.gh[y].sub.contains(p) { good_in(h, y, p); }
}
pub proof fn sub_live(h: H, p: Ptr, g: GRec, x: Ptr)
    requires live(h, p), hung_leaf(h, p, g), forall|c: u8| #![trigger kid_at(h, p, c)] hung_kid(h, p, g, c), sub_at(h, p, x),
    ensures live(h, x),
{
    let l = h.nodes[p].leaf;
    if x != p && !(l != 0 && x == l) {
        let c = choose|c: u8| kid_has(h, p, c, x);
        assert(hung_kid(h, p, g, c));
        good_in(h, kid_at(h, p, c).p, x);
    }
}
pub proof fn seal_sub(h: H, p: Ptr)
    requires p != 0, live(h, p), h.nodes.contains_key(p), inner(kind_of(p)), h.gh[p].own != 0,
        ok_head(h, p), hung_leaf(h, p, h.gh[p]),
        forall|c: u8| #![trigger kid_at(h, p, c)] hung_kid(h, p, h.gh[p], c),
        forall|x: Ptr| #[trigger] h.gh[p].sub.contains(x) <==> sub_at(h, p, x),
    ensures ok_leaf(h, p), ok_kids(h, p), ok_sub(h, p), forall|x: Ptr| #![trigger h.gh[p].sub.contains(x)] h.gh[p].sub.contains(x) && x != p ==> ok(h, x),
{
    let g1 = h.gh[p];
    let l = h.nodes[p].leaf;
    assert(g1.sub.contains(p)) by { assert(sub_at(h, p, p)); }
    assert(ok_leaf(h, p)) by {
        if l != 0 && h.gh[l].own != 0 {
            good_self(h, l);
            assert forall|x: Ptr| h.gh[l].sub.contains(x) implies g1.sub.contains(x) by { good_in(h, l, x); assert(sub_at(h, p, x)); }
        }
    }
    assert(ok_kids(h, p)) by {
        assert forall|c: u8| #![trigger kid_at(h, p, c)] ok_kid(h, p, c) by {
            assert(hung_kid(h, p, g1, c));
            let y = kid_at(h, p, c);
            if y.tag != Tag::Nil && h.gh[y.p].own != 0 {
                good_self(h, y.p);
                assert forall|x: Ptr| h.gh[y.p].sub.contains(x) implies g1.sub.contains(x) by { assert(kid_has(h, p, c, x)); assert(sub_at(h, p, x)); }
            }
        }
    }
    assert forall|x: Ptr| #![trigger g1.sub.contains(x)] g1.sub.contains(x) implies in_sub(h, p, x) && (x != p ==> ok(h, x)) by {
        assert(sub_at(h, p, x));
        if x == p {
        } else if l != 0 && h.gh[l].own != 0 && x == l {
            good_self(h, l);
        } else {
            let c = choose|c: u8| kid_has(h, p, c, x);
            let y = kid_at(h, p, c).p;
            assert(ok_kid(h, p, c));
            assert(hung_kid(h, p, g1, c));
            good_in(h, y, x);
            assert(pfx(g1.sp, h.gh[y].sp)) by { assert forall|i: int| 0 <= i < g1.sp.len() implies #[trigger] g1.sp[i] == #[trigger] h.gh[y].sp[i] by { assert(g1.sp[i] == g1.gp[i]); assert(g1.gp.push(c)[i] == g1.gp[i]); } }
            pfx_trans(g1.sp, h.gh[y].sp, h.gh[x].sp);
        }
    }
}
pub proof fn seal_good(h: H, p: Ptr)
    requires p != 0, live(h, p), h.nodes.contains_key(p), inner(kind_of(p)), h.gh[p].own != 0,
        ok_head(h, p), ok_pre(h, p), ok_cont(h, p), ok_wc(h, p), hung_leaf(h, p, h.gh[p]),
        forall|c: u8| #![trigger kid_at(h, p, c)] hung_kid(h, p, h.gh[p], c),
        forall|x: Ptr| #[trigger] h.gh[p].sub.contains(x) <==> sub_at(h, p, x),
    ensures good(h, p),
{
    seal_sub(h, p);
    ok_from(h, p);
    reveal(good);
}
/// A new ghost record for p does not disturb what stands below it.
pub proof fn seal_below(h: H, h1: H, p: Ptr, g: GRec)
    requires ready(h, p, g), shared(h), h1 == raw(h, p, h1.gh[p]), h1.gh[p].own != 0,
    ensures fr(h, h1, set![p]), shared(h1), hung_leaf(h1, p, g), forall|c: u8| #![trigger kid_at(h1, p, c)] hung_kid(h1, p, g, c) && (kid_at(h1, p, c).tag != Tag::Nil ==> kid_at(h1, p, c).p != p),
        forall|c: u8| #![trigger kid_at(h1, p, c)] kid_at(h1, p, c) == kid_at(h, p, c),
{
    let s = set![p];
    let l = h.nodes[p].leaf;
    assert(fr(h, h1, s)) by { reveal(fr); }
    shared_frame(h, h1, s);
    assert forall|c: u8| #![trigger kid_at(h1, p, c)] hung_kid(h1, p, g, c) && (kid_at(h1, p, c).tag != Tag::Nil ==> kid_at(h1, p, c).p != p) by {
        let y = kid_at(h, p, c).p;
        assert(hung_kid(h, p, g, c));
        assert(kid_at(h1, p, c) == kid_at(h, p, c));
        if kid_at(h, p, c).tag != Tag::Nil && h.gh[y].own != 0 { not_below(h, p, g, y); good_frame(h, h1, s, y); }
    }
    if l != 0 && h.gh[l].own != 0 {
        good_self(h, l);
        if h.gh[l].sub.contains(p) { good_in(h, l, p); }
        good_frame(h, h1, s, l);
    }
}
/// Two heaps that differ in wc and sub of p only.
pub proof fn seal_fields(hr: H, h1: H, p: Ptr)
    requires h1 == raw(hr, p, GRec { wc: h1.gh[p].wc, sub: h1.gh[p].sub, ..hr.gh[p] }), hr.gh.contains_key(p),
        forall|c: u8| #![trigger kid_at(h1, p, c)] kid_at(h1, p, c).tag != Tag::Nil ==> kid_at(h1, p, c).p != p,
        inner(kind_of(p)), hr.nodes[p].leaf != 0 ==> kind_of(hr.nodes[p].leaf) == Tag::Leaf,
        ok_head(hr, p), ok_pre(hr, p), ok_cont(hr, p),
    ensures ok_head(h1, p), ok_pre(h1, p), ok_cont(h1, p),
        forall|q: Seq<u8>| #![trigger wc_at(h1, p, q)] wc_at(h1, p, q) == wc_at(hr, p, q),
        forall|x: Ptr| #![trigger sub_at(h1, p, x)] sub_at(h1, p, x) == sub_at(hr, p, x),
{
    let g = hr.gh[p];
    assert forall|c: u8| #[trigger] kid_at(h1, p, c) == kid_at(hr, p, c) by { }
    assert forall|k: Seq<u8>| #![trigger rt(h1, p, k)] rt(h1, p, k) == rt(hr, p, k) && (rt(h1, p, k) ==> nxt(h1, p, k) == nxt(hr, p, k) && nxt(h1, p, k) != p) by { assert(kid_at(h1, p, k[g.gp.len() as int]) == kid_at(hr, p, k[g.gp.len() as int])); }
    assert forall|k: Seq<u8>| #![trigger look_at(h1, p, k)] look_at(h1, p, k) == look_at(hr, p, k) by { assert(rt(h1, p, k) == rt(hr, p, k)); }
    assert forall|k: Seq<u8>| #![trigger wc_at(h1, p, k)] wc_at(h1, p, k) == wc_at(hr, p, k) by { assert(rt(h1, p, k) == rt(hr, p, k)); }
    assert(ok_pre(h1, p)) by { assert forall|i: int| #[trigger] bs_at(h1, h1.nodes[p].partial, i) == bs_at(hr, hr.nodes[p].partial, i) by { } }
    assert forall|k: Seq<u8>| #![trigger h1.gh[p].cont.contains_key(k)] #![trigger rt(h1, p, k)] look(h1.gh[p].cont, k) == look_at(h1, p, k) by { assert(rt(hr, p, k) || !rt(hr, p, k)); assert(look_at(h1, p, k) == look_at(hr, p, k)); }
    assert forall|x: Ptr| #![trigger sub_at(h1, p, x)] sub_at(h1, p, x) == sub_at(hr, p, x) by {
        assert forall|c: u8| kid_has(h1, p, c, x) == #[trigger] kid_has(hr, p, c, x) by { assert(kid_at(h1, p, c) == kid_at(hr, p, c)); }
        if exists|c: u8| kid_has(h1, p, c, x) { let c = choose|c: u8| kid_has(h1, p, c, x); assert(kid_has(hr, p, c, x)); }
    }
}
pub proof fn seal(h: H, p: Ptr, g: GRec)
    requires ready(h, p, g), shared(h),
    ensures sealed(h, put(h, p, g), p, g),
{
    let hr = raw(h, p, g);
    let h1 = put(h, p, g);
    let g1 = h1.gh[p];
    assert(h1.gh =~= hr.gh.insert(p, g1));
    seal_below(h, h1, p, g);
    seal_fields(hr, h1, p);
    assert(ok_wc(h1, p)) by { assert forall|q: Seq<u8>| (g1.wc)(q) == wc_at(h1, p, q) by { assert((g1.wc)(q) == wc_at(hr, p, q)); } }
    assert forall|x: Ptr| #[trigger] g1.sub.contains(x) <==> sub_at(h1, p, x) by {
        if sub_at(h1, p, x) { sub_live(h1, p, g, x); assert(hr.gh.dom().contains(x)); }
        assert(sub_at(h1, p, x) == sub_at(hr, p, x));
        assert(g1.sub == hr.gh.dom().filter(|x: Ptr| sub_at(hr, p, x)));
    }
    assert(hung_leaf(h1, p, g1));
    assert forall|c: u8| #![trigger kid_at(h1, p, c)] hung_kid(h1, p, g1, c) by { assert(hung_kid(h1, p, g, c)); }
    seal_good(h1, p);
}

// ---- what belongs to a transaction ----

/// The node is shared and older than the transaction, or the transaction's own.
pub open spec fn belongs(h: H, t: Ptr, p: Ptr) -> bool {
    let g = h.gh[p];
    if g.own == 0 { g.mx <= old_max(h, t) } else { g.own == t && g.lo == old_max(h, t) && g.mx <= max_id(h, t) }
}
pub open spec fn ids(h: H, t: Ptr) -> bool { old_max(h, t) <= max_id(h, t) }
pub open spec fn grec(h: H, t: Ptr, sp: Seq<u8>, gp: Seq<u8>, m: Map<Seq<u8>, Ent>) -> GRec {
    GRec { sp, gp, cont: m, own: t, mx: max_id(h, t), lo: old_max(h, t), sub: Set::empty(), wc: |q: Seq<u8>| 0u64 }
}
pub open spec fn owned(h: H, s: Set<Ptr>) -> bool { forall|x: Ptr| #[trigger] s.contains(x) && live(h, x) ==> h.gh[x].own != 0 }
pub open spec fn apart(a: Set<Ptr>, b: Set<Ptr>) -> bool { forall|x: Ptr| #[trigger] a.contains(x) ==> !b.contains(x) }

/// A tree none of whose nodes changed.
pub proof fn kept(h0: H, h1: H, z: Set<Ptr>, y: Ptr)
    requires tree(h0, y), fr(h0, h1, z), shared(h1), owned(h0, z), apart(z, zone(h0, y)),
    ensures tree(h1, y), h1.gh[y] == h0.gh[y], h1.nodes[y] == h0.nodes[y], zone(h1, y) == zone(h0, y),
{
    if h0.gh[y].own != 0 { good_self(h0, y); good_frame(h0, h1, z, y); good_self(h1, y); } else { tree_ok(h0, y); assert(!z.contains(y)); ok_frame(h0, h1, z, y); reveal(ok); }
}
pub proof fn zone_owned(h: H, p: Ptr)
    requires tree(h, p),
    ensures owned(h, zone(h, p)), h.gh[p].own != 0 ==> zone(h, p).contains(p),
{
    if h.gh[p].own != 0 {
        good_self(h, p);
        assert forall|x: Ptr| #[trigger] zone(h, p).contains(x) && live(h, x) implies h.gh[x].own != 0 by { good_in(h, p, x); }
    }
}
/// Child, siblings, leaf and the node itself have nothing in common.
pub proof fn kid_zone(h: H, p: Ptr, c: u8)
    requires tree(h, p), inner(kind_of(p)), kid_at(h, p, c).tag != Tag::Nil,
    ensures ({
        let y = kid_at(h, p, c).p;
        &&& shr(h, p, y) && !zone(h, y).contains(p) && y != p
        &&& (h.nodes[p].leaf != 0 ==> !zone(h, y).contains(h.nodes[p].leaf))
        &&& zone(h, y).subset_of(zone(h, p)) && owned(h, zone(h, y))
        &&& forall|d: u8| #![trigger kid_at(h, p, d)] d != c && kid_at(h, p, d).tag != Tag::Nil ==> apart(zone(h, y), zone(h, kid_at(h, p, d).p))
    }),
{
    let y = kid_at(h, p, c).p;
    let g = h.gh[p].gp;
    fact_inner(h, p);
    kid_tree(h, p, c);
    zone_owned(h, y);
    assert(ok_kid(h, p, c));
    if h.gh[y].own != 0 {
        good_self(h, y);
        if zone(h, y).contains(p) { good_in(h, y, p); }
        if h.nodes[p].leaf != 0 && zone(h, y).contains(h.nodes[p].leaf) { leaf_tree(h, p); good_in(h, y, h.nodes[p].leaf); }
        assert forall|d: u8| #![trigger kid_at(h, p, d)] d != c && kid_at(h, p, d).tag != Tag::Nil implies apart(zone(h, y), zone(h, kid_at(h, p, d).p)) by {
            let yd = kid_at(h, p, d).p;
            kid_tree(h, p, d);
            assert forall|x: Ptr| #[trigger] zone(h, y).contains(x) implies !zone(h, yd).contains(x) by {
                if zone(h, yd).contains(x) {
                    good_in(h, y, x);
                    good_in(h, yd, x);
                    assert(g.push(c)[g.len() as int] == h.gh[x].sp[g.len() as int]);
                    assert(g.push(d)[g.len() as int] == h.gh[x].sp[g.len() as int]);
                }
            }
        }
    }
    if y == p { assert(h.gh[y].sp.len() == g.len() + 1); }
}
pub proof fn leaf_zone(h: H, p: Ptr)
    requires tree(h, p), inner(kind_of(p)), h.nodes[p].leaf != 0,
    ensures ({
        let l = h.nodes[p].leaf;
        &&& shr(h, p, l) && zone(h, l).subset_of(zone(h, p)) && owned(h, zone(h, l)) && l != p && kind_of(l) == Tag::Leaf
        &&& forall|x: Ptr| zone(h, l).contains(x) ==> x == l
        &&& forall|d: u8| #![trigger kid_at(h, p, d)] kid_at(h, p, d).tag != Tag::Nil ==> apart(zone(h, l), zone(h, kid_at(h, p, d).p)) && !zone(h, kid_at(h, p, d).p).contains(l)
    }),
{
    let l = h.nodes[p].leaf;
    tree_ok(h, p);
    ok_i(h, p);
    leaf_tree(h, p);
    zone_owned(h, l);
    if h.gh[l].own != 0 {
        good_self(h, l);
        assert forall|x: Ptr| zone(h, l).contains(x) implies x == l by { good_in(h, l, x); }
    }
    assert forall|d: u8| #![trigger kid_at(h, p, d)] kid_at(h, p, d).tag != Tag::Nil implies apart(zone(h, l), zone(h, kid_at(h, p, d).p)) && !zone(h, kid_at(h, p, d).p).contains(l) by { kid_zone(h, p, d); }
}
/// What stands below a node of the transaction may stand below a new one.
pub proof fn hung_kept(h: H, t: Ptr, p: Ptr, y: Ptr, h1: H, g: GRec)
    requires shr(h, p, y), belongs(h, t, p), ids(h, t), g.own == t, g.lo == old_max(h, t), g.mx >= max_id(h, t), h1.gh[y] == h.gh[y], tree(h1, y),
    ensures hung(h1, g, y),
{ }
/// Key k belongs below the child for c.
pub open spec fn thru(gp: Seq<u8>, k: Seq<u8>, c: u8) -> bool { pfx(gp, k) && k.len() > gp.len() && k[gp.len() as int] == c }

/// The entry for k when the child for c, the leaf, and nothing else below the node was replaced.
pub open spec fn look_new(h0: H, n: Ptr, h3: H, r: Ptr, gp: Seq<u8>, c: u8, k: Seq<u8>) -> Option<Ent> {
    let l = h3.nodes[r].leaf;
    let y = kid_at(h3, r, c);
    if l != 0 && k == gp { Some(h3.gh[l].cont[k]) }
    else if thru(gp, k, c) { if y.tag != Tag::Nil { look(h3.gh[y.p].cont, k) } else { None } }
    else if k == gp || gp != h0.gh[n].gp { None }
    else { look(h0.gh[n].cont, k) }
}
pub open spec fn wc_new(h0: H, n: Ptr, h3: H, r: Ptr, gp: Seq<u8>, c: u8, q: Seq<u8>) -> Chan {
    let y = kid_at(h3, r, c);
    if thru(gp, q, c) { if y.tag != Tag::Nil { (h3.gh[y.p].wc)(q) } else { h3.nodes[r].ch } }
    else if gp == h0.gh[n].gp && rt(h0, n, q) { (h0.gh[n].wc)(q) }
    else { h3.nodes[r].ch }
}
/// Node r takes the place of n; below it only the child for c and the leaf may differ.
pub open spec fn regrown(h0: H, h3: H, t: Ptr, n: Ptr, r: Ptr, g: GRec, c: u8, z: Set<Ptr>, zz: Set<Ptr>) -> bool {
    let y = kid_at(h3, r, c);
    let l = h3.nodes[r].leaf;
    &&& tree(h0, n) && inner(kind_of(n)) && belongs(h0, t, n) && ids(h0, t) && t != 0
    &&& shared(h3) && fr(h0, h3, z) && arrs(h0) && in_or_new(h0, z, zz) && owned(h0, zz) && zone(h0, n).subset_of(zz)
    &&& r != 0 && h3.nodes.contains_key(r) && inner(kind_of(r)) && g.own == t && g.lo == old_max(h0, t) && g.mx >= max_id(h0, t)
    &&& (live(h3, r) ==> h3.gh[r].own != 0 && h3.gh[r].sp.len() <= g.gp.len())
    &&& (zz.contains(r) || !h0.nodes.contains_key(r))
    &&& ok_head(raw(h3, r, g), r) && ok_pre(raw(h3, r, g), r)
    &&& (g.gp == h0.gh[n].gp || h0.nodes[n].numChildren == 0)
    &&& (forall|d: u8| #![trigger kid_at(h3, r, d)] d != c ==> kid_at(h3, r, d) == kid_at(h0, n, d))
    &&& (forall|d: u8| #![trigger kid_at(h0, n, d)] d != c && kid_at(h0, n, d).tag != Tag::Nil ==> apart(z, zone(h0, kid_at(h0, n, d).p)))
    &&& hung_kid(h3, r, g, c) && (y.tag != Tag::Nil ==> in_or_new(h0, zone(h3, y.p), zz))
    &&& hung_leaf(h3, r, g) && (l != 0 && h3.gh[l].own != 0 ==> zz.contains(l) || !h0.nodes.contains_key(l))
    &&& forall|k: Seq<u8>| #![trigger g.cont.contains_key(k)] look(g.cont, k) == look_new(h0, n, h3, r, g.gp, c, k)
}
pub proof fn regrow_kids(h0: H, h3: H, t: Ptr, n: Ptr, r: Ptr, g: GRec, c: u8, z: Set<Ptr>, zz: Set<Ptr>)
    requires regrown(h0, h3, t, n, r, g, c, z, zz),
    ensures forall|d: u8| #![trigger kid_at(h3, r, d)] hung_kid(h3, r, g, d) && (kid_at(h3, r, d).tag != Tag::Nil ==> in_or_new(h0, zone(h3, kid_at(h3, r, d).p), zz)),
        forall|d: u8| #![trigger kid_at(h3, r, d)] d != c && kid_at(h3, r, d).tag != Tag::Nil ==> h3.gh[kid_at(h3, r, d).p] == h0.gh[kid_at(h0, n, d).p] && g.gp == h0.gh[n].gp,
{
    assert forall|d: u8| #![trigger kid_at(h3, r, d)] hung_kid(h3, r, g, d) && (kid_at(h3, r, d).tag != Tag::Nil ==> in_or_new(h0, zone(h3, kid_at(h3, r, d).p), zz) && (d != c ==> h3.gh[kid_at(h3, r, d).p] == h0.gh[kid_at(h0, n, d).p] && g.gp == h0.gh[n].gp)) by {
        if d != c && kid_at(h3, r, d).tag != Tag::Nil {
            let y = kid_at(h0, n, d).p;
            assert(kid_at(h3, r, d) == kid_at(h0, n, d));
            if h0.nodes[n].numChildren == 0 { cont_none(h0, n); }
            kid_zone(h0, n, d);
            kid_tree(h0, n, d);
            fact_inner(h0, n);
            assert(ok_kid(h0, n, d));
            assert(owned(h0, z)) by { assert forall|x: Ptr| #[trigger] z.contains(x) && live(h0, x) implies h0.gh[x].own != 0 by { assert(h0.nodes.contains_key(x)); assert(zz.contains(x)); } }
            kept(h0, h3, z, y);
            hung_kept(h0, t, n, y, h3, g);
        }
    }
}
pub proof fn regrow_cont(h0: H, h3: H, t: Ptr, n: Ptr, r: Ptr, g: GRec, c: u8, z: Set<Ptr>, zz: Set<Ptr>)
    requires regrown(h0, h3, t, n, r, g, c, z, zz),
    ensures ok_cont(raw(h3, r, g), r),
        forall|q: Seq<u8>| #![trigger wc_at(h3, r, q)] h3.gh[r].gp == g.gp ==> wc_at(h3, r, q) == wc_new(h0, n, h3, r, g.gp, c, q),
{
    let hr = raw(h3, r, g);
    regrow_kids(h0, h3, t, n, r, g, c, z, zz);
    assert forall|d: u8| #[trigger] kid_at(hr, r, d) == kid_at(h3, r, d) by { }
    assert forall|d: u8| #[trigger] kid_at(hr, r, d) == kid_at(h3, r, d) && (kid_at(h3, r, d).tag != Tag::Nil ==> kid_at(h3, r, d).p != r) by {
        assert(hung_kid(h3, r, g, d));
        let y = kid_at(h3, r, d).p;
        if y == r && kid_at(h3, r, d).tag != Tag::Nil { assert(h3.gh[r].sp.len() > g.gp.len()); }
    }
    assert forall|k: Seq<u8>| #![trigger hr.gh[r].cont.contains_key(k)] #![trigger rt(hr, r, k)] look(hr.gh[r].cont, k) == look_at(hr, r, k) by {
        assert(g.cont.contains_key(k) || !g.cont.contains_key(k));
        let b = k[g.gp.len() as int];
        assert(kid_at(hr, r, b) == kid_at(h3, r, b));
        if rt(hr, r, k) {
            if b != c {
                assert(kid_at(h3, r, b) == kid_at(h0, n, b));
                assert(rt(h0, n, k));
                step_in(h0, n, k);
            }
        } else if !thru(g.gp, k, c) && k != g.gp && g.gp == h0.gh[n].gp {
            if pfx(g.gp, k) && k.len() > g.gp.len() { assert(kid_at(h3, r, b) == kid_at(h0, n, b)); }
            not_in(h0, n, k);
        }
    }
    assert forall|q: Seq<u8>| #![trigger wc_at(h3, r, q)] h3.gh[r].gp == g.gp implies wc_at(h3, r, q) == wc_new(h0, n, h3, r, g.gp, c, q) by {
        let b = q[g.gp.len() as int];
        assert(b == c || kid_at(h3, r, b) == kid_at(h0, n, b));
        if rt(h0, n, q) && b != c && g.gp == h0.gh[n].gp { wc_fact(h0, n, q); }
        if rt(h3, r, q) && b != c { assert(rt(h0, n, q)); }
    }
}
pub proof fn regrow(h0: H, h3: H, t: Ptr, n: Ptr, r: Ptr, g: GRec, c: u8, z: Set<Ptr>, zz: Set<Ptr>)
    requires regrown(h0, h3, t, n, r, g, c, z, zz),
    ensures ({
        let h4 = put(h3, r, g);
        &&& sealed(h3, h4, r, g) && fr(h0, h4, zz) && in_or_new(h0, h4.gh[r].sub, zz)
        &&& forall|q: Seq<u8>| #[trigger] (h4.gh[r].wc)(q) == wc_new(h0, n, h3, r, g.gp, c, q)
    }),
{
    let h4 = put(h3, r, g);
    let hr = raw(h3, r, g);
    regrow_kids(h0, h3, t, n, r, g, c, z, zz);
    regrow_cont(h0, h3, t, n, r, g, c, z, zz);
    assert(ready(h3, r, g));
    seal(h3, r, g);
    seal_below(h3, h4, r, g);
    fr_trans(h0, h3, h4, z, set![r], zz);
    let l = h3.nodes[r].leaf;
    assert forall|x: Ptr| #[trigger] h4.gh[r].sub.contains(x) implies zz.contains(x) || !h0.nodes.contains_key(x) by {
        assert(sub_at(h4, r, x));
        if x != r && !(l != 0 && h4.gh[l].own != 0 && x == l) {
            let d = choose|d: u8| kid_has(h4, r, d, x);
            assert(kid_at(h4, r, d) == kid_at(h3, r, d));
            assert(zone(h3, kid_at(h3, r, d).p).contains(x));
        }
    }
    assert forall|q: Seq<u8>| #[trigger] (h4.gh[r].wc)(q) == wc_new(h0, n, h3, r, g.gp, c, q) by {
        assert((h4.gh[r].wc)(q) == wc_at(h4, r, q));
        let b = q[g.gp.len() as int];
        assert(kid_at(h4, r, b) == kid_at(h3, r, b));
        assert(b == c || kid_at(h3, r, b) == kid_at(h0, n, b));
        if rt(h4, r, q) {
            assert(h4.gh[kid_at(h3, r, b).p] == h3.gh[kid_at(h3, r, b).p]);
            if b != c { assert(rt(h0, n, q)); wc_fact(h0, n, q); }
        } else if rt(h0, n, q) && g.gp == h0.gh[n].gp { assert(b == c); }
    }
}

// ---- steps ----

pub proof fn side_trans(h0: H, h1: H, h2: H, t: Ptr)
    requires side(h0, h1, t), side(h1, h2, t), ctxn(h0, t),
    ensures side(h0, h2, t), ctxn(h1, t), ctxn(h2, t), tm(h1, t) == tm(h0, t), old_max(h1, t) == old_max(h0, t),
{
    assert forall|a: u64| #![trigger h2.carr[a]] #![trigger h2.carr.contains_key(a)] h0.carr.contains_key(a) && h0.carr[a].owner != own_Txn(t) implies h2.carr.contains_key(a) && h2.carr[a] == h0.carr[a] by {
        assert(h1.carr.contains_key(a) && h1.carr[a] == h0.carr[a]);
    }
    assert forall|a: u64| #![trigger h2.narr[a]] #![trigger h2.narr.contains_key(a)] h0.narr.contains_key(a) implies h2.narr.contains_key(a) && h2.narr[a] == h0.narr[a] by { assert(h1.narr.contains_key(a)); }
    assert forall|c: Chan| #![trigger h2.chans.contains(c)] h0.chans.contains(c) implies h2.chans.contains(c) by { assert(h1.chans.contains(c)); }
    assert forall|x: Ptr| #![trigger h2.m_Txn[x]] #![trigger h2.m_Txn.contains_key(x)] x != t implies h2.m_Txn[x] == h0.m_Txn[x] && h2.m_Txn.contains_key(x) == h0.m_Txn.contains_key(x) by { assert(h1.m_Txn[x] == h0.m_Txn[x]); assert(h1.m_Txn.contains_key(x) == h0.m_Txn.contains_key(x)); }
    assert forall|x: Ptr| #![trigger h2.m_RadixTree[x]] #![trigger h2.m_RadixTree.contains_key(x)] x != tree_of(h0, t) implies h2.m_RadixTree[x] == h0.m_RadixTree[x] && h2.m_RadixTree.contains_key(x) == h0.m_RadixTree.contains_key(x) by { assert(h1.m_RadixTree[x] == h0.m_RadixTree[x]); assert(h1.m_RadixTree.contains_key(x) == h0.m_RadixTree.contains_key(x)); }
}
/// Only nodes, prefixes and keys, channels, ghost information and the id counter changed.
pub proof fn side_plain(h0: H, h1: H, t: Ptr)
    requires h1 == (H { nodes: h1.nodes, gh: h1.gh, gx: h1.gx, bytes: h1.bytes, chans: h1.chans, m_RadixTree: h1.m_RadixTree, ..h0 }), grown_c(h0, h1),
        h1.m_RadixTree == h0.m_RadixTree || h1.m_RadixTree == set_max(h0, t, max_id(h1, t)), max_id(h0, t) <= max_id(h1, t),
    ensures side(h0, h1, t), trk(h1, t) == trk(h0, t), tm(h1, t) == tm(h0, t), old_max(h1, t) == old_max(h0, t),
{ trk_same(h0, h1, t); }

/// Well-formedness and the children depend on three fields.
/// Replacing a child.
pub proof fn set_kid(t: Tag, r: Rec, r1: Rec, c: u8, y: Node)
    requires inner(t), nwf(t, r), kid(t, r, c).tag != Tag::Nil, y.tag != Tag::Nil,
        r1.keys == r.keys, r1.numChildren == r.numChildren, r1.children == r.children.update(slot(t, r, c), y),
    ensures nwf(t, r1), forall|d: u8| #[trigger] kid(t, r1, d) == if d == c { y } else { kid(t, r, d) },
{
    let s = slot(t, r, c);
    if small(t) { let i = small_cases(t, r, c); slot_keys(t, r, r1, c); }
    assert(0 <= s < r.children.len());
    assert(r.children[s].tag != Tag::Nil);
    assert(sorted(r) ==> sorted(r1)) by { reveal(sorted); }
    count_update(r.children, s, y, |x: Node| x.tag != Tag::Nil);
    assert(nwf(t, r1));
    assert forall|d: u8| #[trigger] kid(t, r1, d) == if d == c { y } else { kid(t, r, d) } by {
        if small(t) { let i = small_cases(t, r, d); let j = small_cases(t, r, c); slot_keys(t, r, r1, d); }
        if t == Tag::N48 && d != c && r.keys[d as int] != 0 { if d < c { assert(r.keys[d as int] != r.keys[c as int]); } else { assert(r.keys[c as int] != r.keys[d as int]); } }
    }
}
/// A node ready for writeNode.
pub open spec fn unit(h: H, t: Ptr, n: Node) -> bool {
    inner(n.tag) && kind_of(n.p) == n.tag && n.p != 0 && h.nodes.contains_key(n.p) && live(h, n.p) && ok_head(h, n.p) && belongs(h, t, n.p) && shared(h) && arrs(h) && ctxn(h, t) && ids(h, t)
}
pub open spec fn one(h: H, p: Ptr) -> Set<Ptr> { if h.gh[p].own == 0 { Set::empty() } else { set![p] } }
/// What trackChannel promises.
pub open spec fn tracked1(h0: H, h1: H, t: Ptr, node: Node) -> bool {
    &&& side(h0, h1, t)
    &&& h1.gh == h0.gh && h1.gx == h0.gx && h1.bytes == h0.bytes && h1.narr == h0.narr && h1.m_RadixTree == h0.m_RadixTree
    &&& (!tm(h0, t) || node.tag == Tag::Nil ==> h1 == h0)
    &&& forall|x: Chan| #[trigger] trk(h1, t).contains(x) <==> trk(h0, t).contains(x) || (tm(h0, t) && node.tag != Tag::Nil && x == h0.nodes[node.p].ch)
    &&& (node.tag != Tag::Nil ==> rech(h0, h1, t, tm(h0, t), node.p))
    &&& forall|x: Ptr| #![trigger h1.nodes[x]] #![trigger h1.nodes.contains_key(x)] x != node.p ==> h1.nodes[x] == h0.nodes[x] && h1.nodes.contains_key(x) == h0.nodes.contains_key(x)
}
/// r is the node or a copy that the transaction owns.
pub open spec fn opened(h0: H, h1: H, t: Ptr, n: Node, r: Node) -> bool {
    let r0 = h0.nodes[n.p];
    let r1 = h1.nodes[r.p];
    &&& side(h0, h1, t) && h1.gh == h0.gh && h1.gx == h0.gx && shared(h1)
    &&& r.tag == n.tag && kind_of(r.p) == r.tag && r.p != 0 && h1.nodes.contains_key(r.p)
    &&& if h0.gh[n.p].own == 0 { !h0.nodes.contains_key(r.p) } else { r == n }
    &&& r1.keys == r0.keys && r1.children == r0.children && r1.partialLen == r0.partialLen && r1.numChildren == r0.numChildren && r1.leaf == r0.leaf
    &&& own_pre(h1, r.p) && (own_pre(h0, n.p) ==> forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h1, r1.partial, i) == bs_at(h0, r0.partial, i))
    &&& old_max(h0, t) < r1.id <= max_id(h1, t)
    &&& r1.ch != 0 && h1.chans.contains(r1.ch) && !h1.gx.lk.contains_key(r1.ch)
    &&& fr(h0, h1, one(h0, n.p))
    &&& forall|x: Chan| #[trigger] trk(h1, t).contains(x) <==> trk(h0, t).contains(x) || (tm(h0, t) && x == r0.ch)
}
pub proof fn track_fr(h0: H, h1: H, t: Ptr, n: Node)
    requires unit(h0, t, n), tracked1(h0, h1, t, n),
    ensures fr(h0, h1, one(h0, n.p)), shared(h1), h1.nodes.contains_key(n.p), h1.nodes[n.p] == (Rec { ch: h1.nodes[n.p].ch, ..h0.nodes[n.p] }),
        h1.nodes[n.p].ch != 0, h1.chans.contains(h1.nodes[n.p].ch), !h1.gx.lk.contains_key(h1.nodes[n.p].ch),
{
    let s = one(h0, n.p);
    let r0 = h0.nodes[n.p];
    assert(fr(h0, h1, s)) by {
        reveal(fr);
        if h0.gh[n.p].own == 0 { assert(h1.nodes[n.p] == h0.nodes[n.p]); }
    }
    shared_frame(h0, h1, s);
}
pub proof fn write_fr(h0: H, h1: H, t: Ptr, n: Node, r: Node)
    requires unit(h0, t, n), wrote(h0, h1, t, n, false, r),
    ensures fr(h0, h1, Set::empty()), shared(h1),
        own_pre(h1, r.p), (own_pre(h0, n.p) ==> forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[n.p].partial, i)),
        h1.nodes[r.p].ch != 0, h1.chans.contains(h1.nodes[r.p].ch), !h1.gx.lk.contains_key(h1.nodes[r.p].ch),
        old_max(h0, t) < h1.nodes[r.p].id <= max_id(h1, t),
{
    assert(fr(h0, h1, Set::empty())) by { reveal(fr); }
    shared_frame(h0, h1, Set::empty());
    if h0.gh[n.p].own != 0 { assert(r == n); assert(own_pre(h1, r.p)); assert forall|i: int| #[trigger] bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[n.p].partial, i) by { } }
}
pub proof fn open2(h0: H, ha: H, h1: H, t: Ptr, n: Node, r: Node)
    requires unit(h0, t, n), tracked1(h0, ha, t, n), wrote(ha, h1, t, n, false, r), arrs(ha),
    ensures opened(h0, h1, t, n, r),
{
    track_fr(h0, ha, t, n);
    rec_same(n.tag, h0.nodes[n.p], ha.nodes[n.p]);
    assert(ok_head(ha, n.p));
    assert(belongs(ha, t, n.p));
    write_fr(ha, h1, t, n, r);
    side_trans(h0, ha, h1, t);
    fr_trans(h0, ha, h1, one(h0, n.p), Set::empty(), one(h0, n.p));
    if own_pre(h0, n.p) { assert(own_pre(ha, n.p)); assert forall|i: int| 0 <= i < 10 implies #[trigger] bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[n.p].partial, i) by { assert(bs_at(ha, ha.nodes[n.p].partial, i) == bs_at(h0, h0.nodes[n.p].partial, i)); } }
}

// ---- changing a subtree ----

/// r takes the place of n and holds m instead; nil when nothing is left.
pub open spec fn edit(h0: H, h1: H, t: Ptr, n: Node, r: Node, m: Map<Seq<u8>, Ent>) -> bool {
    &&& side(h0, h1, t) && shared(h1) && fr(h0, h1, zone(h0, n.p))
    &&& if r.tag == Tag::Nil { r == nil_node() && !some_key(m) } else {
            &&& some_key(m) && inner(r.tag) && kind_of(r.p) == r.tag && good(h1, r.p) && belongs(h1, t, r.p)
            &&& h1.gh[r.p].sp == h0.gh[n.p].sp && h1.gh[r.p].cont == m
            &&& in_or_new(h0, h1.gh[r.p].sub, zone(h0, n.p))
        }
}
/// The channels that have to be closed for a change of the entries ks are on the list, and no leaf's without need.
pub open spec fn watched(h0: H, h1: H, t: Ptr, n: Node, r: Node, ks: Set<Seq<u8>>) -> bool {
    let g0 = h0.gh[n.p];
    &&& (tm(h0, t) ==> {
        &&& forall|q: Seq<u8>| #![trigger (g0.wc)(q)] (r.tag != Tag::Nil && (h1.gh[r.p].wc)(q) == (g0.wc)(q)) || trk(h1, t).contains((g0.wc)(q))
        &&& forall|q: Seq<u8>, k: Seq<u8>| #![trigger (g0.wc)(q), ks.contains(k)] ks.contains(k) && pfx(q, k) ==> trk(h1, t).contains((g0.wc)(q))
        &&& forall|k: Seq<u8>| #![trigger ks.contains(k)] ks.contains(k) && g0.cont.contains_key(k) ==> trk(h1, t).contains(g0.cont[k].ch)
    })
    &&& forall|c: Chan| #![trigger trk(h1, t).contains(c)] trk(h0, t).contains(c) ==> trk(h1, t).contains(c)
    &&& forall|c: Chan| #![trigger trk(h1, t).contains(c)] trk(h1, t).contains(c) && h0.gx.lk.contains_key(c) ==> trk(h0, t).contains(c) || ks.contains(h0.gx.lk[c])
}
/// What the caller needs of a call.
pub open spec fn start(h: H, t: Ptr, n: Node) -> bool { itree(h, n) && belongs(h, t, n.p) && ids(h, t) && arrs(h) && ctxn(h, t) }

pub proof fn start_unit(h: H, t: Ptr, n: Node)
    requires start(h, t, n),
    ensures unit(h, t, n),
{ tree_ok(h, n.p); ok_i(h, n.p); }
pub proof fn start_kid(h: H, t: Ptr, n: Node, c: u8)
    requires start(h, t, n), kid_at(h, n.p, c).tag != Tag::Nil,
    ensures start(h, t, kid_at(h, n.p, c)), h.gh[kid_at(h, n.p, c).p].sp == h.gh[n.p].gp.push(c),
{ kid_tree(h, n.p, c); kid_zone(h, n.p, c); }
/// After the child was changed the node is still as it was.
pub proof fn kid_mid(h0: H, h1: H, t: Ptr, n: Node, c: u8, nc: Node, mc: Map<Seq<u8>, Ent>)
    requires start(h0, t, n), kid_at(h0, n.p, c).tag != Tag::Nil, edit(h0, h1, t, kid_at(h0, n.p, c), nc, mc), arrs(h1),
    ensures unit(h1, t, n), h1.nodes[n.p] == h0.nodes[n.p], h1.gh[n.p] == h0.gh[n.p], own_pre(h0, n.p), own_pre(h1, n.p),
        forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h1, h1.nodes[n.p].partial, i) == bs_at(h0, h0.nodes[n.p].partial, i),
{
    let p = n.p;
    let y = kid_at(h0, p, c).p;
    kid_zone(h0, p, c);
    fact_inner(h0, p);
    num_kids(n.tag, h0.nodes[p]);
    assert(kid(n.tag, h0.nodes[p], c).tag != Tag::Nil);
    tree_ok(h0, p);
    ok_i(h0, p);
    assert(h1.nodes[p] == h0.nodes[p] && h1.gh[p] == h0.gh[p] && h1.nodes.contains_key(p) && live(h1, p)) by { reveal(fr); }
    assert(h1.chans.contains(h0.nodes[p].ch) && !h1.gx.lk.contains_key(h0.nodes[p].ch)) by { reveal(fr); }
    let a = pre_id(h0, p);
    assert(h1.bytes.contains_key(a) && h1.bytes[a] == h0.bytes[a]) by { reveal(fr); }
    assert forall|i: int| 0 <= i < 10 implies #[trigger] bs_at(h1, h1.nodes[p].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by { }
}
pub open spec fn look_kid(h: H, p: Ptr, c: u8, mc: Map<Seq<u8>, Ent>, k: Seq<u8>) -> Option<Ent> {
    if thru(h.gh[p].gp, k, c) { look(mc, k) } else { look(h.gh[p].cont, k) }
}
pub proof fn redo_kid(h0: H, h1: H, h2: H, h3: H, t: Ptr, n: Node, r: Node, c: u8, nc: Node, mc: Map<Seq<u8>, Ent>, m: Map<Seq<u8>, Ent>)
    requires start(h0, t, n), kid_at(h0, n.p, c).tag != Tag::Nil, edit(h0, h1, t, kid_at(h0, n.p, c), nc, mc), nc.tag != Tag::Nil, arrs(h1),
        opened(h1, h2, t, n, r),
        h3 == (H { nodes: h2.nodes.insert(r.p, Rec { children: h2.nodes[r.p].children.update(slot(n.tag, h0.nodes[n.p], c), nc), ..h2.nodes[r.p] }), ..h2 }),
        forall|k: Seq<u8>| #![trigger m.contains_key(k)] look(m, k) == look_kid(h0, n.p, c, mc, k),
    ensures ({
        let g = grec(h3, t, h0.gh[n.p].sp, h0.gh[n.p].gp, m);
        let h4 = put(h3, r.p, g);
        &&& edit(h0, h4, t, n, r, m) && trk(h4, t) == trk(h2, t) && old_max(h4, t) == old_max(h0, t)
        &&& forall|q: Seq<u8>| #[trigger] (h4.gh[r.p].wc)(q) == (if thru(h0.gh[n.p].gp, q, c) { (h1.gh[nc.p].wc)(q) } else if rt(h0, n.p, q) { (h0.gh[n.p].wc)(q) } else { h3.nodes[r.p].ch })
    }),
{
    let p = n.p;
    let y = kid_at(h0, p, c).p;
    let g = grec(h3, t, h0.gh[p].sp, h0.gh[p].gp, m);
    let zz = zone(h0, p);
    let z1 = zone(h0, y);
    let z = z1.union(one(h0, p));
    kid_mid(h0, h1, t, n, c, nc, mc);
    kid_zone(h0, p, c);
    kid_tree(h0, p, c);
    zone_owned(h0, p);
    fact_inner(h0, p);
    good_self(h1, nc.p);
    // frames
    assert(h0.gh[p].own != 0 ==> zz.contains(p));
    assert(in_or_new(h0, z1, z) && in_or_new(h0, one(h0, p), z) && in_or_new(h0, z, zz));
    side_trans(h0, h1, h2, t);
    fr_trans(h0, h1, h2, z1, one(h0, p), z);
    assert(fr(h2, h3, set![r.p])) by { reveal(fr); }
    assert(h0.gh[p].own == 0 ==> !h0.nodes.contains_key(r.p)) by { reveal(fr); }
    fr_trans(h0, h2, h3, z, set![r.p], z);
    side_plain(h2, h3, t);
    side_trans(h0, h2, h3, t);
    // the replaced child
    assert(!h1.gh[nc.p].sub.contains(p)) by { if h1.gh[nc.p].sub.contains(p) { good_in(h1, nc.p, p); } }
    assert(!h1.gh[nc.p].sub.contains(r.p)) by { if h1.gh[nc.p].sub.contains(r.p) { good_in(h1, nc.p, r.p); } }
    assert(tree(h1, nc.p));
    assert(owned(h1, one(h0, p)));
    assert(owned(h1, set![r.p]));
    kept(h1, h2, one(h0, p), nc.p);
    assert(owned(h2, set![r.p]));
    shared_frame(h2, h3, set![r.p]);
    kept(h2, h3, set![r.p], nc.p);
    rec_same(n.tag, h0.nodes[p], h2.nodes[r.p]);
    assert(slot(n.tag, h0.nodes[p], c) == slot(n.tag, h2.nodes[r.p], c)) by { if small(n.tag) { slot_keys(n.tag, h0.nodes[p], h2.nodes[r.p], c); } }
    set_kid(n.tag, h2.nodes[r.p], h3.nodes[r.p], c, nc);
    assert(kid_at(h3, r.p, c) == nc);
    assert forall|d: u8| #![trigger kid_at(h3, r.p, d)] d != c implies kid_at(h3, r.p, d) == kid_at(h0, p, d) by { assert(kid(n.tag, h3.nodes[r.p], d) == kid(n.tag, h2.nodes[r.p], d)); assert(kid(n.tag, h2.nodes[r.p], d) == kid(n.tag, h0.nodes[p], d)); }
    assert forall|d: u8| #![trigger kid_at(h0, p, d)] d != c && kid_at(h0, p, d).tag != Tag::Nil implies apart(z, zone(h0, kid_at(h0, p, d).p)) by { kid_zone(h0, p, d); }
    // the leaf
    let l = h0.nodes[p].leaf;
    assert(owned(h0, z));
    if l != 0 {
        leaf_zone(h0, p);
        leaf_tree(h0, p);
        kept(h0, h3, z, l);
        hung_kept(h0, t, p, l, h3, g);
    }
    // the node
    assert(ok_head(raw(h3, r.p, g), r.p));
    assert(ok_pre(raw(h3, r.p, g), r.p)) by {
        tree_ok(h0, p); ok_i(h0, p);
        num_kids(n.tag, h0.nodes[p]);
        assert forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) implies #[trigger] bs_at(raw(h3, r.p, g), h3.nodes[r.p].partial, i) == g.gp[g.sp.len() + i] by {
            assert(bs_at(h2, h2.nodes[r.p].partial, i) == bs_at(h1, h1.nodes[p].partial, i));
            assert(bs_at(h1, h1.nodes[p].partial, i) == bs_at(h0, h0.nodes[p].partial, i));
        }
    }
    assert forall|k: Seq<u8>| #![trigger g.cont.contains_key(k)] look(g.cont, k) == look_new(h0, p, h3, r.p, g.gp, c, k) by {
        assert(look(m, k) == look_kid(h0, p, c, mc, k));
        if k == g.gp { if l != 0 { leaf_in(h0, p); tree_ok(h0, l); ok_l(h0, l); } else { if rt(h0, p, k) { } not_in(h0, p, k); } }
    }
    assert(live(h3, r.p) ==> h3.gh[r.p].own != 0 && h3.gh[r.p].sp.len() <= g.gp.len()) by {
        if live(h3, r.p) && h0.gh[p].own == 0 { assert(h1.nodes.contains_key(r.p)); }
    }
    assert(hung_kid(h3, r.p, g, c));
    assert(in_or_new(h0, zone(h3, nc.p), zz));
    regrow(h0, h3, t, p, r.p, g, c, z, zz);
    let h4 = put(h3, r.p, g);
    side_plain(h3, h4, t);
    side_trans(h0, h3, h4, t);
    assert(some_key(m)) by { let k = choose|k: Seq<u8>| mc.contains_key(k); tree_ok(h1, nc.p); cont_pfx(h1, nc.p, k); let gg = h0.gh[p].gp; assert(gg.push(c)[gg.len() as int] == k[gg.len() as int]); assert(thru(gg, k, c)) by { assert forall|j: int| 0 <= j < gg.len() implies #[trigger] gg[j] == #[trigger] k[j] by { assert(gg.push(c)[j] == k[j]); } } assert(look(m, k) == look_kid(h0, p, c, mc, k)); assert(m.contains_key(k)); }
    assert forall|q: Seq<u8>| #[trigger] (h4.gh[r.p].wc)(q) == (if thru(h0.gh[n.p].gp, q, c) { (h1.gh[nc.p].wc)(q) } else if rt(h0, n.p, q) { (h0.gh[n.p].wc)(q) } else { h3.nodes[r.p].ch }) by {
        assert((h4.gh[r.p].wc)(q) == wc_new(h0, p, h3, r.p, g.gp, c, q));
    }
}
pub proof fn redo_watch(h0: H, h1: H, h2: H, h4: H, t: Ptr, n: Node, r: Node, c: u8, nc: Node, ks: Set<Seq<u8>>)
    requires start(h0, t, n), kid_at(h0, n.p, c).tag != Tag::Nil, watched(h0, h1, t, kid_at(h0, n.p, c), nc, ks), side(h0, h1, t),
        h1.nodes[n.p].ch == h0.nodes[n.p].ch, r.tag != Tag::Nil, nc.tag != Tag::Nil,
        forall|x: Chan| #[trigger] trk(h2, t).contains(x) <==> trk(h1, t).contains(x) || (tm(h1, t) && x == h1.nodes[n.p].ch),
        trk(h4, t) == trk(h2, t),
        forall|q: Seq<u8>| #[trigger] (h4.gh[r.p].wc)(q) == (if thru(h0.gh[n.p].gp, q, c) { (h1.gh[nc.p].wc)(q) } else if rt(h0, n.p, q) { (h0.gh[n.p].wc)(q) } else { h4.nodes[r.p].ch }),
        forall|k: Seq<u8>| #[trigger] ks.contains(k) ==> thru(h0.gh[n.p].gp, k, c),
    ensures watched(h0, h4, t, n, r, ks),
{
    let p = n.p;
    let y = kid_at(h0, p, c).p;
    let g0 = h0.gh[p];
    let gy = h0.gh[y];
    kid_zone(h0, p, c);
    tree_ok(h0, p); ok_i(h0, p);
    if tm(h0, t) {
        assert forall|q: Seq<u8>| #![trigger (g0.wc)(q)] (h4.gh[r.p].wc)(q) == (g0.wc)(q) || trk(h4, t).contains((g0.wc)(q)) by {
            wc_fact(h0, p, q);
            if thru(g0.gp, q, c) { assert(rt(h0, p, q) && nxt(h0, p, q) == y); assert((gy.wc)(q) == (g0.wc)(q)); }
        }
        assert forall|q: Seq<u8>, k: Seq<u8>| #![trigger (g0.wc)(q), ks.contains(k)] ks.contains(k) && pfx(q, k) implies trk(h4, t).contains((g0.wc)(q)) by {
            wc_fact(h0, p, q);
            if rt(h0, p, q) {
                assert(q[g0.gp.len() as int] == k[g0.gp.len() as int]);
                assert((gy.wc)(q) == (g0.wc)(q));
            }
        }
        assert forall|k: Seq<u8>| #![trigger ks.contains(k)] ks.contains(k) && g0.cont.contains_key(k) implies trk(h4, t).contains(g0.cont[k].ch) by { step_in(h0, p, k); }
    }
}
// ---- leaves ----

pub open spec fn lrec(h: H, t: Ptr, l: Ptr, k: Seq<u8>) -> GRec {
    GRec { sp: k, gp: k, cont: map![k => Ent { v: h.nodes[l].value, ch: h.nodes[l].ch }], own: t, mx: max_id(h, t), lo: old_max(h, t), sub: set![l], wc: |q: Seq<u8>| 0u64 }
}
pub open spec fn put_leaf(h: H, t: Ptr, l: Ptr, k: Seq<u8>) -> H { H { gh: h.gh.insert(l, lrec(h, t, l, k)), gx: GX { lk: h.gx.lk.insert(h.nodes[l].ch, k) }, ..h } }
/// A key as the caller hands it in: no inner node refers to its array.
pub open spec fn keyok(h: H, key: Slice, k: Seq<u8>) -> bool {
    &&& match key.arr { Arr::A(a) => h.bytes.contains_key(a) && (h.bytes[a].owner == nobody() || leafown(h.bytes[a].owner)), _ => false }
    &&& 0 <= key.len < 0x1_0000_0000 && bs(h, key) == k && swf(key)
}
pub proof fn keyok_fr(h0: H, h1: H, s: Set<Ptr>, key: Slice, k: Seq<u8>)
    requires keyok(h0, key, k), fr(h0, h1, s),
    ensures keyok(h1, key, k),
{
    reveal(fr);
    let a = key.arr->A_0;
    assert(h1.bytes[a].data == h0.bytes[a].data);
    assert(bs(h1, key) =~= bs(h0, key));
}
pub proof fn seal_leaf(h0: H, h: H, z: Set<Ptr>, t: Ptr, l: Ptr, k: Seq<u8>)
    requires shared(h0), fr(h0, h, z), owned(h0, z), h.gh == h0.gh, h.gx == h0.gx, lks(h), t != 0,
        l != 0, kind_of(l) == Tag::Leaf, h.nodes.contains_key(l), live(h, l) ==> h.gh[l].own != 0, z.contains(l) || !h0.nodes.contains_key(l),
        match h.nodes[l].key.arr { Arr::A(a) => h.bytes.contains_key(a) && leafown(h.bytes[a].owner), _ => false },
        0 <= h.nodes[l].key.len, bs(h, h.nodes[l].key) == k, k.len() < 0x1_0000_0000,
        h.nodes[l].ch != 0, h.chans.contains(h.nodes[l].ch),
        !h0.chans.contains(h.nodes[l].ch) || (h0.gx.lk.contains_key(h.nodes[l].ch) && h0.gx.lk[h.nodes[l].ch] == k),
        old_max(h, t) < h.nodes[l].id <= max_id(h, t),
    ensures ({
        let h1 = put_leaf(h, t, l, k);
        &&& fr(h0, h1, z) && shared(h1) && good(h1, l) && zone(h1, l) == set![l] && live(h1, l)
        &&& h1.gh[l].cont.contains_key(k) && h1.gh[l].cont[k] == (Ent { v: h.nodes[l].value, ch: h.nodes[l].ch })
    }),
{
    let h1 = put_leaf(h, t, l, k);
    assert(fr(h0, h1, z)) by { reveal(fr); assert forall|x: Ptr| #![trigger h1.gh[x]] #![trigger h1.gh.contains_key(x)] h0.gh.contains_key(x) && !z.contains(x) implies h1.gh.contains_key(x) && h1.gh[x] == h0.gh[x] by { if x == l { assert(h0.nodes.contains_key(x)); } } }
    shared_frame(h0, h1, z);
    assert(ok(h1, l)) by { reveal(ok); assert(bs(h1, h1.nodes[l].key) =~= bs(h, h.nodes[l].key)); }
    assert(good(h1, l)) by { reveal(good); }
}
/// A new node that only holds a new leaf.
pub proof fn made_fr(h0: H, h1: H, t: Ptr, key: Slice, v: Val, r: Node, k: Seq<u8>)
    requires shared(h0), ctxn(h0, t), ids(h0, t), keyok(h0, key, k), made(h0, h1, t, key, v, r), arrs(h0),
    ensures ({
        let l = h1.nodes[r.p].leaf;
        let h2 = put_leaf(h1, t, l, k);
        &&& fr(h0, h2, Set::empty()) && shared(h2) && good(h2, l) && zone(h2, l) == set![l] && side(h0, h2, t) && trk(h2, t) == trk(h0, t)
        &&& tm(h2, t) == tm(h0, t) && old_max(h2, t) == old_max(h0, t) && ids(h2, t)
        &&& live(h2, l) && !live(h2, r.p) && !h0.nodes.contains_key(l) && !h0.nodes.contains_key(r.p) && h2.nodes == h1.nodes && keyok(h2, key, k)
        &&& !h0.gx.lk.contains_key(h1.nodes[r.p].ch) && !h2.gx.lk.contains_key(h1.nodes[r.p].ch)
    }),
{
    let l = h1.nodes[r.p].leaf;
    let h2 = put_leaf(h1, t, l, k);
    assert(fr(h0, h1, Set::empty())) by { reveal(fr); }
    side_plain(h0, h1, t);
    side_plain(h1, h2, t);
    side_trans(h0, h1, h2, t);
    keyok_fr(h0, h1, Set::empty(), key, k);
    seal_leaf(h0, h1, Set::empty(), t, l, k);
    keyok_fr(h0, h2, Set::empty(), key, k);
}

// ---- changes at the node itself ----

pub open spec fn same_ent(m: Map<Seq<u8>, Ent>, k: Seq<u8>, l: Map<Seq<u8>, Ent>) -> bool { m.contains_key(k) && l.contains_key(k) && m[k] == l[k] }
/// What the node r needs besides children and leaf to be sealed.
pub open spec fn headed(h: H, t: Ptr, r: Node) -> bool {
    let r1 = h.nodes[r.p];
    &&& inner(r.tag) && kind_of(r.p) == r.tag && r.p != 0 && h.nodes.contains_key(r.p) && nwf(r.tag, r1)
    &&& own_pre(h, r.p) && old_max(h, t) < r1.id <= max_id(h, t)
    &&& r1.ch != 0 && h.chans.contains(r1.ch) && !h.gx.lk.contains_key(r1.ch)
}
pub proof fn added_fr(h0: H, h1: H, t: Ptr, r: Node, c: u8, y: Node, r2: Node)
    requires headed(h0, t, r), shared(h0), arrs(h0), ctxn(h0, t), ids(h0, t), added(h0, h1, t, r, c, y, r2), live(h0, r.p) ==> h0.gh[r.p].own != 0,
        max_id(h0, t) < 0x7fff_ffff_ffff_ffff,
    ensures headed(h1, t, r2), shared(h1), fr(h0, h1, set![r.p]), side(h0, h1, t), trk(h1, t) == trk(h0, t), tm(h1, t) == tm(h0, t), old_max(h1, t) == old_max(h0, t), ctxn(h1, t), ids(h1, t),
        h1.gh == h0.gh, h1.gx == h0.gx, r2.p == r.p || !h0.nodes.contains_key(r2.p),
        forall|d: u8| #[trigger] kid_at(h1, r2.p, d) == if d == c { y } else { kid_at(h0, r.p, d) },
        forall|x: Ptr| #![trigger h1.nodes[x]] #![trigger h1.nodes.contains_key(x)] x != r.p && x != r2.p ==> h1.nodes[x] == h0.nodes[x] && h1.nodes.contains_key(x) == h0.nodes.contains_key(x),
{
    assert(fr(h0, h1, set![r.p])) by { reveal(fr); }
    shared_frame(h0, h1, set![r.p]);
    side_plain(h0, h1, t);
    assert forall|d: u8| #[trigger] kid_at(h1, r2.p, d) == if d == c { y } else { kid_at(h0, r.p, d) } by {
        assert(kids(r2.tag, h1.nodes[r2.p])[d as int] == kids(r.tag, h0.nodes[r.p]).update(c as int, y)[d as int]);
    }
}
/// What a new node that only holds a new leaf looks like before it has its place.
pub open spec fn bud(h: H, t: Ptr, y: Node, k: Seq<u8>) -> bool {
    let l = h.nodes[y.p].leaf;
    &&& headed(h, t, y) && !live(h, y.p) && h.nodes[y.p].numChildren == 0
    &&& l != 0 && kind_of(l) == Tag::Leaf && live(h, l) && h.gh[l].sp == k && h.gh[l].own == t && h.gh[l].lo == old_max(h, t) && h.gh[l].mx <= max_id(h, t) && good(h, l) && zone(h, l) == set![l]
    &&& h.gh[l].cont.contains_key(k)
}
pub proof fn no_kids(t: Tag, r: Rec)
    requires inner(t), nwf(t, r), r.numChildren == 0,
    ensures forall|c: u8| (#[trigger] kid(t, r, c)).tag == Tag::Nil,
{ num_kids(t, r); }
pub proof fn sprout(h: H, t: Ptr, y: Node, sp: Seq<u8>, k: Seq<u8>)
    requires bud(h, t, y, k), shared(h), ctxn(h, t), pfx(sp, k), k.len() < 0x1_0000_0000,
    ensures ({
        let l = h.nodes[y.p].leaf;
        let g = grec(h, t, sp, k, map![k => h.gh[l].cont[k]]);
        let h1 = put(h, y.p, g);
        &&& sealed(h, h1, y.p, g)
        &&& (forall|x: Ptr| #[trigger] h1.gh[y.p].sub.contains(x) ==> x == y.p || x == l)
        &&& (forall|q: Seq<u8>| #[trigger] (h1.gh[y.p].wc)(q) == h.nodes[y.p].ch)
    }),
{
    let p = y.p;
    let l = h.nodes[p].leaf;
    let g = grec(h, t, sp, k, map![k => h.gh[l].cont[k]]);
    let hr = raw(h, p, g);
    let h1 = put(h, p, g);
    no_kids(y.tag, h.nodes[p]);
    assert forall|c: u8| #![trigger kid_at(h, p, c)] hung_kid(h, p, g, c) by { assert(kid(y.tag, h.nodes[p], c).tag == Tag::Nil); }
    assert forall|q: Seq<u8>| !rt(hr, p, q) by { assert(kid(y.tag, h.nodes[p], q[k.len() as int]).tag == Tag::Nil); }
    assert forall|x: Seq<u8>| #![trigger hr.gh[p].cont.contains_key(x)] #![trigger rt(hr, p, x)] look(hr.gh[p].cont, x) == look_at(hr, p, x) by { assert(!rt(hr, p, x)); }
    assert(ready(h, p, g));
    seal(h, p, g);
    assert forall|q: Seq<u8>| #[trigger] (h1.gh[p].wc)(q) == h.nodes[p].ch by { assert(kid(y.tag, h.nodes[p], q[k.len() as int]).tag == Tag::Nil); assert(!rt(h1, p, q)); }
    assert forall|x: Ptr| #[trigger] h1.gh[p].sub.contains(x) implies x == p || x == l by {
        assert(sub_at(h1, p, x));
        assert forall|c: u8| !kid_has(h1, p, c, x) by { assert(kid(y.tag, h.nodes[p], c).tag == Tag::Nil); }
    }
}
/// A change at the node itself, with all children kept.
pub proof fn here_watch(h0: H, h4: H, t: Ptr, n: Node, r: Node, k: Seq<u8>)
    requires tree(h0, n.p), inner(kind_of(n.p)), r.tag != Tag::Nil,
        forall|c: Chan| #[trigger] trk(h0, t).contains(c) ==> trk(h4, t).contains(c),
        tm(h0, t) ==> trk(h4, t).contains(h0.nodes[n.p].ch),
        tm(h0, t) && h0.gh[n.p].cont.contains_key(k) ==> trk(h4, t).contains(h0.gh[n.p].cont[k].ch),
        forall|c: Chan| #[trigger] trk(h4, t).contains(c) && h0.gx.lk.contains_key(c) ==> trk(h0, t).contains(c) || h0.gx.lk[c] == k,
        forall|q: Seq<u8>| #![trigger rt(h0, n.p, q)] rt(h0, n.p, q) ==> (h4.gh[r.p].wc)(q) == (h0.gh[n.p].wc)(q) && !pfx(q, k),
    ensures watched(h0, h4, t, n, r, set![k]),
{
    let g0 = h0.gh[n.p];
    if tm(h0, t) {
        assert forall|q: Seq<u8>| #![trigger (g0.wc)(q)] (h4.gh[r.p].wc)(q) == (g0.wc)(q) || trk(h4, t).contains((g0.wc)(q)) by { wc_fact(h0, n.p, q); }
        assert forall|q: Seq<u8>, x: Seq<u8>| #![trigger (g0.wc)(q), set![k].contains(x)] set![k].contains(x) && pfx(q, x) implies trk(h4, t).contains((g0.wc)(q)) by { wc_fact(h0, n.p, q); }
    }
}
/// A node that did not change from h0 to h1.
pub proof fn unit_kept(h0: H, h1: H, t: Ptr, n: Node)
    requires start(h0, t, n), fr(h0, h1, Set::empty()), side(h0, h1, t), shared(h1), arrs(h1),
    ensures unit(h1, t, n), h1.nodes[n.p] == h0.nodes[n.p], h1.gh[n.p] == h0.gh[n.p],
        own_pre(h0, n.p) ==> own_pre(h1, n.p) && forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h1, h1.nodes[n.p].partial, i) == bs_at(h0, h0.nodes[n.p].partial, i),
{
    start_unit(h0, t, n);
    reveal(fr);
    let p = n.p;
    assert(h1.nodes[p] == h0.nodes[p] && h1.gh[p] == h0.gh[p]);
    assert(h1.chans.contains(h0.nodes[p].ch) && !h1.gx.lk.contains_key(h0.nodes[p].ch));
    if own_pre(h0, p) {
        let a = pre_id(h0, p);
        assert(h1.bytes.contains_key(a) && h1.bytes[a] == h0.bytes[a]);
        assert forall|i: int| 0 <= i < 10 implies #[trigger] bs_at(h1, h1.nodes[p].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by { }
    }
}
/// ok_pre for a node whose prefix was copied.
pub proof fn pre_kept(h0: H, p: Ptr, h: H, r: Ptr, g: GRec)
    requires tree(h0, p), inner(kind_of(p)), g.sp == h0.gh[p].sp, g.gp == h0.gh[p].gp, h0.nodes[p].numChildren > 0 || h.nodes[r].numChildren == 0, same_pre(h0, p, h, r),
    ensures ok_pre(raw(h, r, g), r),
{
    tree_ok(h0, p);
    ok_i(h0, p);
    assert forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) && h0.nodes[p].numChildren > 0 implies #[trigger] bs_at(raw(h, r, g), h.nodes[r].partial, i) == g.gp[g.sp.len() + i] by {
        assert(bs_at(h, h.nodes[r].partial, i) == bs_at(h0, h0.nodes[p].partial, i));
    }
}
/// The node and its leaf, as far as the transaction owns them.
pub open spec fn near(h: H, p: Ptr) -> Set<Ptr> { one(h, p).union(if h.nodes[p].leaf == 0 { Set::empty() } else { zone(h, h.nodes[p].leaf) }) }
/// The node r takes the place of n: of the children only the one for c differs.
pub open spec fn at_node(h0: H, h3: H, t: Ptr, n: Node, r: Node, gp: Seq<u8>, c: u8, m: Map<Seq<u8>, Ent>) -> bool {
    let g = grec(h3, t, h0.gh[n.p].sp, gp, m);
    let y = kid_at(h3, r.p, c);
    let l = h3.nodes[r.p].leaf;
    &&& start(h0, t, n) && side(h0, h3, t) && shared(h3) && fr(h0, h3, near(h0, n.p))
    &&& headed(h3, t, r) && ok_pre(raw(h3, r.p, g), r.p) && (h3.nodes[r.p].numChildren > 0 || l != 0)
    &&& (live(h3, r.p) ==> h3.gh[r.p].own != 0 && h3.gh[r.p].sp.len() <= gp.len())
    &&& (zone(h0, n.p).contains(r.p) || !h0.nodes.contains_key(r.p))
    &&& pfx(g.sp, gp) && gp.len() < 0x1_0000_0000 && (gp == h0.gh[n.p].gp || h0.nodes[n.p].numChildren == 0)
    &&& (forall|d: u8| #![trigger kid_at(h3, r.p, d)] d != c ==> kid_at(h3, r.p, d) == kid_at(h0, n.p, d))
    &&& hung_kid(h3, r.p, g, c) && (y.tag != Tag::Nil ==> in_or_new(h0, zone(h3, y.p), zone(h0, n.p)))
    &&& hung_leaf(h3, r.p, g) && (l != 0 && h3.gh[l].own != 0 ==> zone(h0, n.p).contains(l) || !h0.nodes.contains_key(l))
    &&& some_key(m)
    &&& forall|k: Seq<u8>| #![trigger m.contains_key(k)] look(m, k) == look_new(h0, n.p, h3, r.p, gp, c, k)
}
pub proof fn redo_here(h0: H, h3: H, t: Ptr, n: Node, r: Node, gp: Seq<u8>, c: u8, m: Map<Seq<u8>, Ent>)
    requires at_node(h0, h3, t, n, r, gp, c, m),
    ensures ({
        let h4 = put(h3, r.p, grec(h3, t, h0.gh[n.p].sp, gp, m));
        &&& edit(h0, h4, t, n, r, m) && trk(h4, t) == trk(h3, t) && h4.nodes == h3.nodes
        &&& forall|q: Seq<u8>| #[trigger] (h4.gh[r.p].wc)(q) == wc_new(h0, n.p, h3, r.p, gp, c, q)
    }),
{
    let p = n.p;
    let g = grec(h3, t, h0.gh[p].sp, gp, m);
    let z = near(h0, p);
    let zz = zone(h0, p);
    zone_owned(h0, p);
    assert(in_or_new(h0, z, zz)) by { if h0.nodes[p].leaf != 0 { leaf_zone(h0, p); } }
    assert(ok_head(raw(h3, r.p, g), r.p));
    assert forall|d: u8| #![trigger kid_at(h0, p, d)] d != c && kid_at(h0, p, d).tag != Tag::Nil implies apart(z, zone(h0, kid_at(h0, p, d).p)) by { kid_zone(h0, p, d); if h0.nodes[p].leaf != 0 { leaf_zone(h0, p); } }
    assert(regrown(h0, h3, t, p, r.p, g, c, z, zz));
    regrow(h0, h3, t, p, r.p, g, c, z, zz);
    let h4 = put(h3, r.p, g);
    side_plain(h3, h4, t);
    side_trans(h0, h3, h4, t);
}
/// A leaf that was kept.
pub proof fn leaf_kept(h0: H, h3: H, t: Ptr, n: Node, r: Node, z: Set<Ptr>, g: GRec)
    requires start(h0, t, n), shared(h3), fr(h0, h3, z), owned(h0, z), h0.nodes[n.p].leaf == 0 || apart(z, zone(h0, h0.nodes[n.p].leaf)), h3.nodes[r.p].leaf == h0.nodes[n.p].leaf,
        g.own == t, g.lo == old_max(h0, t), g.mx >= max_id(h0, t), g.gp == h0.gh[n.p].gp,
    ensures hung_leaf(h3, r.p, g), ({ let l = h3.nodes[r.p].leaf; (l != 0 && h3.gh[l].own != 0 ==> zone(h0, n.p).contains(l)) && (l != 0 ==> h3.gh[l] == h0.gh[l] && h0.gh[l].cont.contains_key(g.gp) && look(h0.gh[n.p].cont, g.gp) == Some(h3.gh[l].cont[g.gp])) }),
{
    let l = h0.nodes[n.p].leaf;
    if l != 0 {
        leaf_zone(h0, n.p);
        leaf_tree(h0, n.p);
        leaf_in(h0, n.p);
        tree_ok(h0, l);
        ok_l(h0, l);
        kept(h0, h3, z, l);
        hung_kept(h0, t, n.p, l, h3, g);
        zone_owned(h0, l);
    }
}
pub open spec fn ins(h0: H, n: Node, k: Seq<u8>, e: Ent) -> Map<Seq<u8>, Ent> { h0.gh[n.p].cont.insert(k, e) }
/// The key goes into a new child.
pub proof fn ins_add(h0: H, h1: H, h2: H, h3: H, t: Ptr, n: Node, r: Node, r2: Node, c: u8, y: Node, k: Seq<u8>)
    requires start(h0, t, n), fr(h0, h1, Set::empty()), side(h0, h1, t), shared(h1), arrs(h1), arrs(h2), trk(h1, t) == trk(h0, t),
        opened(h1, h2, t, n, r), added(h2, h3, t, r, c, y, r2), max_id(h2, t) < 0x7fff_ffff_ffff_ffff,
        bud(h1, t, y, k), !h0.nodes.contains_key(y.p), !h0.nodes.contains_key(h1.nodes[y.p].leaf),
        h0.nodes[n.p].numChildren > 0, thru(h0.gh[n.p].gp, k, c), kid_at(h0, n.p, c).tag == Tag::Nil, k.len() < 0x1_0000_0000,
    ensures ({
        let l = h1.nodes[y.p].leaf;
        let e = h1.gh[l].cont[k];
        let m = ins(h0, n, k, e);
        let h4 = put(h3, y.p, grec(h3, t, h0.gh[n.p].gp.push(c), k, map![k => e]));
        let h5 = put(h4, r2.p, grec(h4, t, h0.gh[n.p].sp, h0.gh[n.p].gp, m));
        edit(h0, h5, t, n, r2, m) && watched(h0, h5, t, n, r2, set![k]) && bud(h3, t, y, k) && h3.gh == h1.gh
    }),
{
    let p = n.p;
    let gp = h0.gh[p].gp;
    let l = h1.nodes[y.p].leaf;
    let e = h1.gh[l].cont[k];
    let m = ins(h0, n, k, e);
    let gy = grec(h3, t, gp.push(c), k, map![k => e]);
    let h4 = put(h3, y.p, gy);
    let z = near(h0, p);
    unit_kept(h0, h1, t, n);
    zone_owned(h0, p);
    fact_inner(h0, p);
    rec_same(n.tag, h0.nodes[p], h2.nodes[r.p]);
    side_trans(h0, h1, h2, t);
    fr_trans(h0, h1, h2, Set::empty(), one(h0, p), z);
    assert(h0.gh[p].own == 0 ==> !h0.nodes.contains_key(r.p)) by { reveal(fr); }
    added_fr(h2, h3, t, r, c, y, r2);
    fr_trans(h0, h2, h3, z, set![r.p], z);
    side_trans(h0, h2, h3, t);
    // the new child
    assert(y.p != p && l != p && y.p != r.p && l != r.p && y.p != r2.p && l != r2.p) by { reveal(fr); assert(h1.nodes.contains_key(y.p) && h1.nodes.contains_key(l)); assert(h2.nodes.contains_key(y.p) && h2.nodes.contains_key(l)); }
    assert(tree(h1, l));
    kept(h1, h2, one(h1, p), l);
    kept(h2, h3, set![r.p], l);
    assert(h2.nodes[y.p] == h1.nodes[y.p] && h3.nodes[y.p] == h1.nodes[y.p] && h3.nodes.contains_key(y.p)) by { reveal(fr); }
    assert(own_pre(h3, y.p)) by { reveal(fr); assert(own_pre(h2, y.p)); }
    assert(h3.chans.contains(h1.nodes[y.p].ch)) by { reveal(fr); assert(h2.chans.contains(h1.nodes[y.p].ch)); }
    assert(bud(h3, t, y, k));
    assert(pfx(gp.push(c), k));
    sprout(h3, t, y, gp.push(c), k);
    side_plain(h3, h4, t);
    side_trans(h0, h3, h4, t);
    fr_trans(h0, h3, h4, z, set![y.p], z);
    // the node
    let g = grec(h4, t, h0.gh[p].sp, gp, m);
    assert(kid_at(h4, r2.p, c) == kid_at(h3, r2.p, c));
    assert(some_key(map![k => e])) by { assert(map![k => e].contains_key(k)); }
    assert(hung_kid(h4, r2.p, g, c));
    good_self(h4, y.p);
    assert(in_or_new(h0, zone(h4, y.p), zone(h0, p)));
    let z3 = one(h0, p);
    fr_trans(h0, h1, h2, Set::empty(), one(h0, p), z3);
    fr_trans(h0, h2, h3, z3, set![r.p], z3);
    fr_trans(h0, h3, h4, z3, set![y.p], z3);
    if h0.nodes[p].leaf != 0 { leaf_zone(h0, p); }
    leaf_kept(h0, h4, t, n, r2, z3, g);
    assert(same_pre(h0, p, h4, r2.p)) by {
        assert forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) implies #[trigger] bs_at(h4, h4.nodes[r2.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by {
            assert(bs_at(h3, h3.nodes[r2.p].partial, i) == bs_at(h2, h2.nodes[r.p].partial, i));
            assert(bs_at(h2, h2.nodes[r.p].partial, i) == bs_at(h1, h1.nodes[p].partial, i));
            assert(bs_at(h1, h1.nodes[p].partial, i) == bs_at(h0, h0.nodes[p].partial, i));
        }
    }
    pre_kept(h0, p, h4, r2.p, g);
    assert forall|d: u8| #![trigger kid_at(h4, r2.p, d)] d != c implies kid_at(h4, r2.p, d) == kid_at(h0, p, d) by {
        assert(kid_at(h3, r2.p, d) == kid_at(h2, r.p, d));
        assert(kid(n.tag, h2.nodes[r.p], d) == kid(n.tag, h0.nodes[p], d));
    }
    assert forall|x: Seq<u8>| #![trigger m.contains_key(x)] look(m, x) == look_new(h0, p, h4, r2.p, gp, c, x) by {
        if x == gp && h0.nodes[p].leaf == 0 { not_in(h0, p, x); }
        if thru(gp, x, c) { assert(!rt(h0, p, x)); not_in(h0, p, x); }
    }
    assert(some_key(m)) by { assert(m.contains_key(k)); }
    assert(live(h4, r2.p) ==> h4.gh[r2.p].own != 0 && h4.gh[r2.p].sp.len() <= gp.len()) by {
        if live(h4, r2.p) { assert(live(h1, r2.p)); assert(h1.nodes.contains_key(r2.p)); }
    }
    assert(h4.nodes[r2.p].numChildren > 0);
    assert(headed(h4, t, r2));
    assert(r2.p == r.p || !h0.nodes.contains_key(r2.p)) by { reveal(fr); if h0.nodes.contains_key(r2.p) { assert(h2.nodes.contains_key(r2.p)); } }
    assert(at_node(h0, h4, t, n, r2, gp, c, m));
    redo_here(h0, h4, t, n, r2, gp, c, m);
    let h5 = put(h4, r2.p, g);
    assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) implies (h5.gh[r2.p].wc)(q) == (h0.gh[p].wc)(q) && !pfx(q, k) by {
        assert((h5.gh[r2.p].wc)(q) == wc_new(h0, p, h4, r2.p, gp, c, q));
    }
    not_in(h0, p, k);
    tree_ok(h0, p); ok_i(h0, p);
    here_watch(h0, h5, t, n, r2, k);
}
/// A child that was kept, when all children were.
pub proof fn here_kid(h0: H, h3: H, t: Ptr, n: Node, r: Node, g: GRec, c: u8)
    requires start(h0, t, n), shared(h3), fr(h0, h3, near(h0, n.p)), kid_at(h3, r.p, c) == kid_at(h0, n.p, c),
        g.own == t, g.lo == old_max(h0, t), g.mx >= max_id(h0, t), g.gp == h0.gh[n.p].gp,
    ensures hung_kid(h3, r.p, g, c), ({ let y = kid_at(h3, r.p, c); y.tag != Tag::Nil ==> in_or_new(h0, zone(h3, y.p), zone(h0, n.p)) && h3.gh[y.p] == h0.gh[y.p] }),
{
    let y = kid_at(h0, n.p, c);
    if y.tag != Tag::Nil {
        kid_zone(h0, n.p, c);
        kid_tree(h0, n.p, c);
        fact_inner(h0, n.p);
        zone_owned(h0, n.p);
        assert(ok_kid(h0, n.p, c));
        if h0.nodes[n.p].leaf != 0 { leaf_zone(h0, n.p); }
        assert(apart(near(h0, n.p), zone(h0, y.p)));
        kept(h0, h3, near(h0, n.p), y.p);
        hung_kept(h0, t, n.p, y.p, h3, g);
    }
}
pub proof fn here_look(h0: H, h3: H, t: Ptr, n: Node, r: Node, g: GRec, c: u8, x: Seq<u8>)
    requires start(h0, t, n), shared(h3), fr(h0, h3, near(h0, n.p)), kid_at(h3, r.p, c) == kid_at(h0, n.p, c),
        g.own == t, g.lo == old_max(h0, t), g.mx >= max_id(h0, t), g.gp == h0.gh[n.p].gp, thru(g.gp, x, c),
    ensures ({ let y = kid_at(h3, r.p, c); look(h0.gh[n.p].cont, x) == if y.tag != Tag::Nil { look(h3.gh[y.p].cont, x) } else { None } }),
{
    here_kid(h0, h3, t, n, r, g, c);
    if kid_at(h0, n.p, c).tag != Tag::Nil { step_in(h0, n.p, x); } else { not_in(h0, n.p, x); }
}
/// The key ends at the node, which had no leaf.
pub proof fn ins_end(h0: H, h1: H, h2: H, h3: H, t: Ptr, n: Node, r: Node, y: Node, k: Seq<u8>)
    requires start(h0, t, n), fr(h0, h1, Set::empty()), side(h0, h1, t), shared(h1), arrs(h1), arrs(h2), trk(h1, t) == trk(h0, t),
        opened(h1, h2, t, n, r), bud(h1, t, y, k), !h0.nodes.contains_key(y.p), !h0.nodes.contains_key(h1.nodes[y.p].leaf),
        h3 == (H { nodes: h2.nodes.insert(r.p, Rec { leaf: h1.nodes[y.p].leaf, ..h2.nodes[r.p] }), ..h2 }),
        h0.nodes[n.p].numChildren > 0, h0.gh[n.p].gp == k, h0.nodes[n.p].leaf == 0,
    ensures ({
        let l = h1.nodes[y.p].leaf;
        let e = h1.gh[l].cont[k];
        let m = ins(h0, n, k, e);
        let h5 = put(h3, r.p, grec(h3, t, h0.gh[n.p].sp, h0.gh[n.p].gp, m));
        edit(h0, h5, t, n, r, m) && watched(h0, h5, t, n, r, set![k])
    }),
{
    let p = n.p;
    let gp = h0.gh[p].gp;
    let l = h1.nodes[y.p].leaf;
    let e = h1.gh[l].cont[k];
    let m = ins(h0, n, k, e);
    let z = near(h0, p);
    unit_kept(h0, h1, t, n);
    zone_owned(h0, p);
    fact_inner(h0, p);
    rec_same(n.tag, h0.nodes[p], h2.nodes[r.p]);
    rec_same(n.tag, h2.nodes[r.p], h3.nodes[r.p]);
    side_trans(h0, h1, h2, t);
    fr_trans(h0, h1, h2, Set::empty(), one(h0, p), z);
    assert(h0.gh[p].own == 0 ==> !h0.nodes.contains_key(r.p)) by { reveal(fr); }
    assert(fr(h2, h3, set![r.p])) by { reveal(fr); }
    assert(owned(h2, set![r.p])) by { if h0.gh[p].own == 0 && live(h2, r.p) { assert(h1.nodes.contains_key(r.p)); } }
    shared_frame(h2, h3, set![r.p]);
    side_plain(h2, h3, t);
    fr_trans(h0, h2, h3, z, set![r.p], z);
    side_trans(h0, h2, h3, t);
    assert(l != p && l != r.p) by { reveal(fr); assert(h1.nodes.contains_key(l)); assert(h2.nodes.contains_key(l)); }
    assert(tree(h1, l));
    kept(h1, h2, one(h1, p), l);
    kept(h2, h3, set![r.p], l);
    let g = grec(h3, t, h0.gh[p].sp, gp, m);
    assert(same_pre(h0, p, h3, r.p)) by {
        assert forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) implies #[trigger] bs_at(h3, h3.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by {
            assert(bs_at(h2, h2.nodes[r.p].partial, i) == bs_at(h1, h1.nodes[p].partial, i));
            assert(bs_at(h1, h1.nodes[p].partial, i) == bs_at(h0, h0.nodes[p].partial, i));
        }
    }
    pre_kept(h0, p, h3, r.p, g);
    assert forall|d: u8| #![trigger kid_at(h3, r.p, d)] kid_at(h3, r.p, d) == kid_at(h0, p, d) by {
        assert(kid(n.tag, h3.nodes[r.p], d) == kid(n.tag, h2.nodes[r.p], d));
        assert(kid(n.tag, h2.nodes[r.p], d) == kid(n.tag, h0.nodes[p], d));
    }
    let c = 0u8;
    here_kid(h0, h3, t, n, r, g, c);
    assert forall|x: Seq<u8>| #![trigger m.contains_key(x)] look(m, x) == look_new(h0, p, h3, r.p, gp, c, x) by { if thru(gp, x, c) { here_look(h0, h3, t, n, r, g, c, x); } }
    assert(some_key(m)) by { assert(m.contains_key(k)); }
    assert(live(h3, r.p) ==> h3.gh[r.p].own != 0 && h3.gh[r.p].sp.len() <= gp.len()) by {
        if live(h3, r.p) { assert(live(h1, r.p)); assert(h1.nodes.contains_key(r.p)); }
    }
    assert(at_node(h0, h3, t, n, r, gp, c, m));
    redo_here(h0, h3, t, n, r, gp, c, m);
    let h5 = put(h3, r.p, g);
    assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) implies (h5.gh[r.p].wc)(q) == (h0.gh[p].wc)(q) && !pfx(q, k) by {
        assert((h5.gh[r.p].wc)(q) == wc_new(h0, p, h3, r.p, gp, c, q));
        if thru(gp, q, c) { wc_fact(h0, p, q); }
    }
    not_in(h0, p, k);
    tree_ok(h0, p); ok_i(h0, p);
    here_watch(h0, h5, t, n, r, k);
}
// ---- replacing the leaf of a node ----

/// The leaf l carries k and can be given its ghost record.
pub open spec fn leaf_raw(h0: H, h: H, t: Ptr, l: Ptr, k: Seq<u8>) -> bool {
    let r = h.nodes[l];
    &&& l != 0 && kind_of(l) == Tag::Leaf && h.nodes.contains_key(l)
    &&& match r.key.arr { Arr::A(a) => h.bytes.contains_key(a) && leafown(h.bytes[a].owner), _ => false }
    &&& 0 <= r.key.len && bs(h, r.key) == k && k.len() < 0x1_0000_0000
    &&& r.ch != 0 && h.chans.contains(r.ch)
    &&& (!h0.chans.contains(r.ch) || (h0.gx.lk.contains_key(r.ch) && h0.gx.lk[r.ch] == k))
    &&& old_max(h, t) < r.id <= max_id(h, t)
}
pub open spec fn swap_ready(h0: H, h5: H, t: Ptr, n: Node, r: Node, k: Seq<u8>) -> bool {
    let l = h5.nodes[r.p].leaf;
    let g0 = h0.gh[n.p];
    let r0 = h0.nodes[n.p];
    &&& start(h0, t, n) && side(h0, h5, t) && h5.gh == h0.gh && h5.gx == h0.gx && fr(h0, h5, near(h0, n.p))
    &&& headed(h5, t, r) && leaf_raw(h0, h5, t, l, k) && h5.nodes[l].ch != h5.nodes[r.p].ch && (!h0.nodes.contains_key(l) || (l == r0.leaf && h0.gh[l].own != 0))
    &&& if g0.own == 0 { !h0.nodes.contains_key(r.p) } else { r == n }
    &&& (forall|d: u8| #![trigger kid_at(h5, r.p, d)] kid_at(h5, r.p, d) == kid_at(h0, n.p, d))
    &&& h5.nodes[r.p].numChildren == r0.numChildren && (r0.numChildren > 0 ==> same_pre(h0, n.p, h5, r.p))
    &&& pfx(g0.sp, k) && (r0.numChildren == 0 || g0.gp == k) && (r0.numChildren == 0 && r0.leaf != 0 ==> g0.gp == k)
    &&& (forall|c: Chan| #[trigger] trk(h0, t).contains(c) ==> trk(h5, t).contains(c))
    &&& (tm(h0, t) ==> trk(h5, t).contains(r0.ch))
    &&& (tm(h0, t) && r0.leaf != 0 ==> trk(h5, t).contains(h0.nodes[r0.leaf].ch))
    &&& forall|c: Chan| #[trigger] trk(h5, t).contains(c) && h0.gx.lk.contains_key(c) ==> trk(h0, t).contains(c) || h0.gx.lk[c] == k
}
pub proof fn ins_swap(h0: H, h5: H, t: Ptr, n: Node, r: Node, k: Seq<u8>)
    requires swap_ready(h0, h5, t, n, r, k),
    ensures ({
        let l = h5.nodes[r.p].leaf;
        let e = ent_of(h5, l);
        let m = ins(h0, n, k, e);
        let h6 = put_leaf(h5, t, l, k);
        let h7 = put(h6, r.p, grec(h6, t, h0.gh[n.p].sp, k, m));
        edit(h0, h7, t, n, r, m) && watched(h0, h7, t, n, r, set![k])
    }),
{
    let p = n.p;
    let l = h5.nodes[r.p].leaf;
    let l0 = h0.nodes[p].leaf;
    let e = ent_of(h5, l);
    let m = ins(h0, n, k, e);
    let h6 = put_leaf(h5, t, l, k);
    let z = near(h0, p);
    let g = grec(h6, t, h0.gh[p].sp, k, m);
    zone_owned(h0, p);
    fact_inner(h0, p);
    tree_ok(h0, p); ok_i(h0, p);
    if l0 != 0 { leaf_zone(h0, p); leaf_in(h0, p); leaf_tree(h0, p); zone_owned(h0, l0); tree_ok(h0, l0); ok_l(h0, l0); }
    assert(owned(h0, z));
    assert(lks(h5)) by { assert forall|c: Chan| #[trigger] h5.gx.lk.contains_key(c) implies h5.chans.contains(c) by { assert(h0.chans.contains(c)); } }
    seal_leaf(h0, h5, z, t, l, k);
    side_plain(h5, h6, t);
    side_trans(h0, h5, h6, t);
    assert(h6.nodes[r.p].ch != h6.nodes[l].ch) by {
        let c = h5.nodes[r.p].ch;
        if c == h5.nodes[l].ch {
            assert(!h0.gx.lk.contains_key(c));
            assert(!h0.chans.contains(c));
        }
    }
    assert(headed(h6, t, r));
    assert(ok_pre(raw(h6, r.p, g), r.p)) by {
        if h0.nodes[p].numChildren > 0 {
            assert(same_pre(h0, p, h6, r.p)) by { assert forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) implies #[trigger] bs_at(h6, h6.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by { assert(bs_at(h5, h5.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i)); } }
            pre_kept(h0, p, h6, r.p, g);
        }
    }
    if h0.nodes[p].numChildren == 0 { cont_none(h0, p); }
    let c = 0u8;
    assert forall|d: u8| #![trigger kid_at(h6, r.p, d)] kid_at(h6, r.p, d) == kid_at(h0, p, d) by { assert(kid_at(h5, r.p, d) == kid_at(h0, p, d)); }
    if h0.nodes[p].numChildren > 0 { here_kid(h0, h6, t, n, r, g, c); } else { assert(kid_at(h0, p, c).tag == Tag::Nil); }
    assert forall|x: Seq<u8>| #![trigger m.contains_key(x)] look(m, x) == look_new(h0, p, h6, r.p, k, c, x) by {
        if h0.nodes[p].numChildren > 0 { if thru(k, x, c) { here_look(h0, h6, t, n, r, g, c, x); } }
        else { assert(h0.gh[p].cont.contains_key(x) <==> l0 != 0 && x == h0.gh[p].gp); }
    }
    assert(some_key(m)) by { assert(m.contains_key(k)); }
    assert(r.p != l);
    assert(live(h6, r.p) ==> h6.gh[r.p].own != 0 && h6.gh[r.p].sp.len() <= k.len()) by {
        if live(h6, r.p) { assert(live(h0, r.p)); assert(h0.nodes.contains_key(r.p)); }
    }
    assert(at_node(h0, h6, t, n, r, k, c, m));
    redo_here(h0, h6, t, n, r, k, c, m);
    let h7 = put(h6, r.p, g);
    assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) implies (h7.gh[r.p].wc)(q) == (h0.gh[p].wc)(q) && !pfx(q, k) by {
        assert((h7.gh[r.p].wc)(q) == wc_new(h0, p, h6, r.p, k, c, q));
        if thru(k, q, c) { wc_fact(h0, p, q); }
    }
    if h0.gh[p].cont.contains_key(k) { cont_pfx(h0, p, k); }
    here_watch(h0, h7, t, n, r, k);
}
/// The node n as on entry, possibly with another value or channel in its leaf.
pub open spec fn nearly(h0: H, h: H, t: Ptr, n: Node) -> bool {
    let l0 = h0.nodes[n.p].leaf;
    &&& start(h0, t, n) && side(h0, h, t) && h.gh == h0.gh && h.gx == h0.gx
    &&& h.nodes.contains_key(n.p) && h.nodes[n.p] == h0.nodes[n.p]
    &&& (l0 != 0 ==> h.nodes.contains_key(l0) && h.nodes[l0].id == h0.nodes[l0].id)
    &&& (own_pre(h0, n.p) ==> own_pre(h, n.p) && forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h, h.nodes[n.p].partial, i) == bs_at(h0, h0.nodes[n.p].partial, i))
}
pub proof fn wrote_t(h0: H, h: H, h1: H, t: Ptr, n: Node, r: Node)
    requires nearly(h0, h, t, n), wrote(h, h1, t, n, true, r),
    ensures fr(h, h1, near(h0, n.p)), side(h0, h1, t), h1.gh == h0.gh, h1.gx == h0.gx, headed(h1, t, r),
        if h0.gh[n.p].own == 0 { !h.nodes.contains_key(r.p) } else { r == n },
        forall|d: u8| #![trigger kid_at(h1, r.p, d)] kid_at(h1, r.p, d) == kid_at(h0, n.p, d),
        h1.nodes[r.p].leaf == h0.nodes[n.p].leaf, h1.nodes[r.p].numChildren == h0.nodes[n.p].numChildren,
        own_pre(h0, n.p) ==> same_pre(h0, n.p, h1, r.p),
        h0.nodes[n.p].leaf != 0 ==> h1.nodes.contains_key(h0.nodes[n.p].leaf) && h1.nodes[h0.nodes[n.p].leaf] == (Rec { ch: h1.nodes[h0.nodes[n.p].leaf].ch, ..h.nodes[h0.nodes[n.p].leaf] }),
{
    let p = n.p;
    let l0 = h0.nodes[p].leaf;
    start_unit(h0, t, n);
    zone_owned(h0, p);
    if l0 != 0 { leaf_zone(h0, p); leaf_in(h0, p); leaf_tree(h0, p); zone_owned(h0, l0); tree_ok(h0, l0); ok_l(h0, l0); }
    assert(fr(h, h1, near(h0, p))) by { reveal(fr); }
    side_trans(h0, h, h1, t);
    assert(leaf_of(h, n) == l0);
    rec_same(n.tag, h0.nodes[p], h1.nodes[r.p]);
    assert forall|d: u8| #![trigger kid_at(h1, r.p, d)] kid_at(h1, r.p, d) == kid_at(h0, p, d) by { assert(kid(n.tag, h1.nodes[r.p], d) == kid(n.tag, h0.nodes[p], d)); }
    assert(own_pre(h1, r.p));
    if own_pre(h0, p) {
        assert forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) implies #[trigger] bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by {
            assert(bs_at(h, h.nodes[p].partial, i) == bs_at(h0, h0.nodes[p].partial, i));
            assert(bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h, h.nodes[p].partial, i));
        }
    }
    let c = h1.nodes[r.p].ch;
    assert(!h1.gx.lk.contains_key(c)) by { if h1.gx.lk.contains_key(c) { assert(h0.chans.contains(c)); assert(h.chans.contains(c)); } }
}
pub proof fn nearly_self(h: H, t: Ptr, n: Node)
    requires start(h, t, n),
    ensures nearly(h, h, t, n), fr(h, h, Set::empty()),
{
    start_unit(h, t, n);
    if h.nodes[n.p].leaf != 0 { leaf_in(h, n.p); }
    reveal(fr);
}
/// A new leaf object goes in.
pub proof fn swap_new(h0: H, h1: H, h2: H, h3: H, h4: H, h5: H, t: Ptr, n: Node, r: Node, l: Ptr, key: Slice, k: Seq<u8>, v: Val)
    requires start(h0, t, n), wrote(h0, h1, t, n, true, r), alloc_leaf(h1, h2, t, l), kind_of(l) == Tag::Leaf,
        h3 == (H { nodes: h2.nodes.insert(l, Rec { key, ..h2.nodes[l] }), bytes: own_b(h2.bytes, key.arr, node_own(l)), ..h2 }),
        h4 == (H { nodes: h3.nodes.insert(l, Rec { value: v, ..h3.nodes[l] }), ..h3 }),
        h5 == (H { nodes: h4.nodes.insert(r.p, Rec { leaf: l, ..h4.nodes[r.p] }), ..h4 }),
        keyok(h0, key, k), pfx(h0.gh[n.p].sp, k), h0.nodes[n.p].numChildren == 0, h0.nodes[n.p].leaf != 0 ==> h0.gh[n.p].gp == k,
    ensures swap_ready(h0, h5, t, n, r, k), ent_of(h5, l).v == v, h5.nodes[r.p].leaf == l, !h0.chans.contains(h5.nodes[l].ch),
{
    let p = n.p;
    let z = near(h0, p);
    let l0 = h0.nodes[p].leaf;
    nearly_self(h0, t, n);
    wrote_t(h0, h0, h1, t, n, r);
    start_unit(h0, t, n);
    zone_owned(h0, p);
    if l0 != 0 { leaf_zone(h0, p); leaf_in(h0, p); leaf_tree(h0, p); zone_owned(h0, l0); tree_ok(h0, l0); ok_l(h0, l0); }
    assert(!h0.nodes.contains_key(l)) by { reveal(fr); }
    assert(fr(h1, h5, set![r.p])) by {
        reveal(fr);
        keyok_fr(h0, h1, z, key, k);
    }
    fr_trans(h0, h1, h5, z, set![r.p], z);
    side_plain(h1, h5, t);
    side_trans(h0, h1, h5, t);
    keyok_fr(h0, h5, z, key, k);
    rec_same(r.tag, h1.nodes[r.p], h5.nodes[r.p]);
    assert forall|d: u8| #![trigger kid_at(h5, r.p, d)] kid_at(h5, r.p, d) == kid_at(h0, p, d) by { assert(kid(r.tag, h5.nodes[r.p], d) == kid(r.tag, h1.nodes[r.p], d)); assert(kid_at(h1, r.p, d) == kid_at(h0, p, d)); }
    let c = h5.nodes[l].ch;
    assert(!h0.chans.contains(c)) by { if h0.chans.contains(c) { assert(h1.chans.contains(c)); } }
    assert(own_pre(h5, r.p)) by { keyok_fr(h0, h1, z, key, k); }
    trk_same(h1, h5, t);
}
/// The leaf object of the node is written.
pub proof fn swap_old(h0: H, h1: H, h2: H, h3: H, h4: H, t: Ptr, n: Node, r: Node, lf: Node, l: Node, k: Seq<u8>, v: Val)
    requires start(h0, t, n), h0.nodes[n.p].leaf != 0, lf == (Node { tag: Tag::Leaf, p: h0.nodes[n.p].leaf }), wrote(h0, h1, t, lf, true, l),
        h2 == (H { nodes: h1.nodes.insert(l.p, Rec { value: v, ..h1.nodes[l.p] }), ..h1 }),
        wrote(h2, h3, t, n, true, r),
        h4 == (H { nodes: h3.nodes.insert(r.p, Rec { leaf: l.p, ..h3.nodes[r.p] }), ..h3 }),
        h0.gh[n.p].gp == k,
    ensures swap_ready(h0, h4, t, n, r, k), ent_of(h4, l.p).v == v, h4.nodes[r.p].leaf == l.p, tm(h0, t) ==> !h0.chans.contains(h4.nodes[l.p].ch),
{
    let p = n.p;
    let z = near(h0, p);
    let l0 = h0.nodes[p].leaf;
    start_unit(h0, t, n);
    zone_owned(h0, p);
    leaf_zone(h0, p); leaf_in(h0, p); leaf_tree(h0, p); zone_owned(h0, l0); tree_ok(h0, l0); ok_l(h0, l0);
    assert(fr(h0, h2, zone(h0, l0))) by { reveal(fr); }
    side_plain(h1, h2, t);
    side_trans(h0, h1, h2, t);
    assert(nearly(h0, h2, t, n)) by {
        if own_pre(h0, p) {
            reveal(fr);
            let a = pre_id(h0, p);
            assert(h2.bytes[a] == h0.bytes[a]);
            assert forall|i: int| 0 <= i < 10 implies #[trigger] bs_at(h2, h2.nodes[p].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by { }
        }
    }
    wrote_t(h0, h2, h3, t, n, r);
    fr_trans(h0, h2, h3, zone(h0, l0), z, z);
    assert(fr(h3, h4, set![r.p])) by { reveal(fr); }
    assert(h0.gh[p].own == 0 ==> !h0.nodes.contains_key(r.p)) by { reveal(fr); }
    fr_trans(h0, h3, h4, z, set![r.p], z);
    side_plain(h3, h4, t);
    side_trans(h0, h3, h4, t);
    rec_same(r.tag, h3.nodes[r.p], h4.nodes[r.p]);
    assert forall|d: u8| #![trigger kid_at(h4, r.p, d)] kid_at(h4, r.p, d) == kid_at(h0, p, d) by { assert(kid(r.tag, h4.nodes[r.p], d) == kid(r.tag, h3.nodes[r.p], d)); assert(kid_at(h3, r.p, d) == kid_at(h0, p, d)); }
    // the leaf
    let c = h4.nodes[l.p].ch;
    trk_same(h1, h2, t);
    trk_same(h3, h4, t);
    assert(leaf_of(h2, n) == l0 && leaf_of(h0, lf) == 0);
    assert(h4.nodes[l.p] == (Rec { ch: c, ..h2.nodes[l.p] }));
    assert(bs(h4, h4.nodes[l.p].key) =~= k) by {
        reveal(fr);
        assert(bs(h1, h1.nodes[l.p].key) =~= bs(h0, h0.nodes[l0].key));
        let a = h1.nodes[l.p].key.arr->A_0;
        assert(h1.bytes.contains_key(a) && leafown(h1.bytes[a].owner));
        assert(h3.bytes[a].data == h1.bytes[a].data);
        assert forall|i: int| bs_at(h4, h4.nodes[l.p].key, i) == bs_at(h1, h1.nodes[l.p].key, i) by { }
        assert(bs(h4, h4.nodes[l.p].key) =~= bs(h1, h1.nodes[l.p].key));
    }
    assert(own_pre(h4, r.p));
    fact_inner(h0, p);
    assert(same_pre(h0, p, h4, r.p)) by {
        assert forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) implies #[trigger] bs_at(h4, h4.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by {
            assert(bs_at(h3, h3.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i));
        }
    }
}
// ---- splitting ----

/// Up to here only n itself, if it may be written, and new nodes changed.
pub open spec fn base(h0: H, h: H, t: Ptr, n: Node) -> bool {
    &&& start(h0, t, n) && side(h0, h, t) && shared(h) && fr(h0, h, one(h0, n.p))
    &&& (forall|x: Chan| #[trigger] trk(h0, t).contains(x) ==> trk(h, t).contains(x))
    &&& (forall|x: Chan| #[trigger] trk(h, t).contains(x) && h0.gx.lk.contains_key(x) ==> trk(h0, t).contains(x))
}
/// The node that may be written for n.
pub open spec fn rpart(h0: H, h: H, t: Ptr, n: Node, r: Node) -> bool {
    let p = n.p;
    &&& headed(h, t, r) && if h0.gh[p].own == 0 { !h0.nodes.contains_key(r.p) } else { r == n }
    &&& h.nodes[r.p].numChildren == h0.nodes[p].numChildren && h.nodes[r.p].leaf == h0.nodes[p].leaf
    &&& (live(h, r.p) ==> h.gh[r.p].own != 0 && h.gh[r.p].sp.len() <= h0.gh[p].gp.len())
    &&& (forall|d: u8| #![trigger kid_at(h, r.p, d)] kid_at(h, r.p, d) == kid_at(h0, p, d))
    &&& (tm(h0, t) ==> trk(h, t).contains(h0.nodes[p].ch))
}
/// The node for the split.
pub open spec fn wpart(h0: H, h: H, t: Ptr, n: Node, w: Node, gp: Seq<u8>) -> bool {
    let g0 = h0.gh[n.p];
    &&& headed(h, t, w) && !h0.nodes.contains_key(w.p) && !live(h, w.p)
    &&& pfx(g0.sp, gp) && gp.len() < 0x1_0000_0000 && gp.len() == g0.sp.len() + h.nodes[w.p].partialLen
    &&& (forall|i: int| 0 <= i < stored(h.nodes[w.p].partialLen) ==> #[trigger] bs_at(h, h.nodes[w.p].partial, i) == gp[g0.sp.len() + i])
}
/// The node for the new key.
pub open spec fn ypart(h0: H, h: H, t: Ptr, y: Node, k: Seq<u8>) -> bool {
    bud(h, t, y, k) && !h0.nodes.contains_key(y.p) && !h0.nodes.contains_key(h.nodes[y.p].leaf)
}
/// A new node takes the place of n; r is n with another start.
pub open spec fn forked(h0: H, h: H, t: Ptr, n: Node, r: Node, w: Node, gp: Seq<u8>, k: Seq<u8>) -> bool {
    let p = n.p;
    let g0 = h0.gh[p];
    &&& base(h0, h, t, n) && rpart(h0, h, t, n, r) && wpart(h0, h, t, n, w, gp)
    &&& r.p != w.p && some_key(g0.cont) && k.len() < 0x1_0000_0000 && h.nodes[w.p].numChildren > 0
    &&& !g0.cont.contains_key(k) && (forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) ==> !pfx(q, k))
}
/// The old node gets its new start.
pub proof fn respace(h0: H, h: H, t: Ptr, n: Node, r: Node, sp: Seq<u8>)
    requires base(h0, h, t, n), rpart(h0, h, t, n, r), some_key(h0.gh[n.p].cont), pfx(sp, h0.gh[n.p].gp), ok_pre(raw(h, r.p, grec(h, t, sp, h0.gh[n.p].gp, h0.gh[n.p].cont)), r.p),
    ensures ({
        let g = grec(h, t, sp, h0.gh[n.p].gp, h0.gh[n.p].cont);
        let h1 = put(h, r.p, g);
        &&& sealed(h, h1, r.p, g) && fr(h0, h1, zone(h0, n.p)) && in_or_new(h0, h1.gh[r.p].sub, zone(h0, n.p))
        &&& forall|q: Seq<u8>| #[trigger] (h1.gh[r.p].wc)(q) == if rt(h0, n.p, q) { (h0.gh[n.p].wc)(q) } else { h.nodes[r.p].ch }
    }),
{
    let p = n.p;
    let gp0 = h0.gh[p].gp;
    let g = grec(h, t, sp, gp0, h0.gh[p].cont);
    let z = one(h0, p);
    let zz = zone(h0, p);
    let c = 0u8;
    zone_owned(h0, p);
    fact_inner(h0, p);
    start_unit(h0, t, n);
    assert(fr(h0, h, near(h0, p))) by { fr_weak(h0, h, z, near(h0, p)); }
    here_kid(h0, h, t, n, r, g, c);
    if h0.nodes[p].leaf != 0 { leaf_zone(h0, p); }
    leaf_kept(h0, h, t, n, r, z, g);
    assert forall|x: Seq<u8>| #![trigger g.cont.contains_key(x)] look(g.cont, x) == look_new(h0, p, h, r.p, gp0, c, x) by {
        if x == gp0 && h0.nodes[p].leaf == 0 { not_in(h0, p, x); }
        if thru(gp0, x, c) { here_look(h0, h, t, n, r, g, c, x); }
    }
    assert forall|d: u8| #![trigger kid_at(h0, p, d)] d != c && kid_at(h0, p, d).tag != Tag::Nil implies apart(z, zone(h0, kid_at(h0, p, d).p)) by { kid_zone(h0, p, d); }
    assert(h.nodes[r.p].numChildren > 0 || h.nodes[r.p].leaf != 0) by { let x = choose|x: Seq<u8>| h0.gh[p].cont.contains_key(x); cont_pfx(h0, p, x); }
    assert(ok_head(raw(h, r.p, g), r.p));
    assert(regrown(h0, h, t, p, r.p, g, c, z, zz));
    regrow(h0, h, t, p, r.p, g, c, z, zz);
    let h1 = put(h, r.p, g);
    assert forall|q: Seq<u8>| #[trigger] (h1.gh[r.p].wc)(q) == (if rt(h0, p, q) { (h0.gh[p].wc)(q) } else { h.nodes[r.p].ch }) by {
        assert((h1.gh[r.p].wc)(q) == wc_new(h0, p, h, r.p, gp0, c, q));
        if thru(gp0, q, c) && rt(h0, p, q) { wc_fact(h0, p, q); }
    }
}
/// Sealing the new node on top.
pub proof fn top_off(h0: H, h: H, t: Ptr, n: Node, w: Node, gp: Seq<u8>, m: Map<Seq<u8>, Ent>)
    requires start(h0, t, n), side(h0, h, t), shared(h), fr(h0, h, zone(h0, n.p)), headed(h, t, w), !h0.nodes.contains_key(w.p), !live(h, w.p), h.nodes[w.p].numChildren > 0, some_key(m),
        pfx(h0.gh[n.p].sp, gp), gp.len() < 0x1_0000_0000,
        ({
            let g = grec(h, t, h0.gh[n.p].sp, gp, m);
            let l = h.nodes[w.p].leaf;
            &&& ok_pre(raw(h, w.p, g), w.p) && ok_cont(raw(h, w.p, g), w.p)
            &&& hung_leaf(h, w.p, g) && (l != 0 && h.gh[l].own != 0 ==> zone(h0, n.p).contains(l) || !h0.nodes.contains_key(l))
            &&& forall|d: u8| #![trigger kid_at(h, w.p, d)] hung_kid(h, w.p, g, d) && (kid_at(h, w.p, d).tag != Tag::Nil ==> in_or_new(h0, zone(h, kid_at(h, w.p, d).p), zone(h0, n.p)))
        }),
    ensures ({
        let h1 = put(h, w.p, grec(h, t, h0.gh[n.p].sp, gp, m));
        &&& edit(h0, h1, t, n, w, m) && trk(h1, t) == trk(h, t)
        &&& forall|q: Seq<u8>, c: u8| #![trigger thru(gp, q, c), (h1.gh[w.p].wc)(q)] thru(gp, q, c) && kid_at(h, w.p, c).tag != Tag::Nil ==> (h1.gh[w.p].wc)(q) == (h.gh[kid_at(h, w.p, c).p].wc)(q)
    }),
{
    let g = grec(h, t, h0.gh[n.p].sp, gp, m);
    let h1 = put(h, w.p, g);
    let zz = zone(h0, n.p);
    zone_owned(h0, n.p);
    assert(ok_head(raw(h, w.p, g), w.p));
    assert(ready(h, w.p, g));
    seal(h, w.p, g);
    seal_below(h, h1, w.p, g);
    fr_trans(h0, h, h1, zz, set![w.p], zz);
    side_plain(h, h1, t);
    side_trans(h0, h, h1, t);
    let l = h.nodes[w.p].leaf;
    assert forall|x: Ptr| #[trigger] h1.gh[w.p].sub.contains(x) implies zz.contains(x) || !h0.nodes.contains_key(x) by {
        assert(sub_at(h1, w.p, x));
        if x != w.p && !(l != 0 && h1.gh[l].own != 0 && x == l) {
            let d = choose|d: u8| kid_has(h1, w.p, d, x);
            assert(kid_at(h1, w.p, d) == kid_at(h, w.p, d));
            assert(zone(h, kid_at(h, w.p, d).p).contains(x));
        }
    }
    assert forall|q: Seq<u8>, c: u8| #![trigger thru(gp, q, c), (h1.gh[w.p].wc)(q)] thru(gp, q, c) && kid_at(h, w.p, c).tag != Tag::Nil implies (h1.gh[w.p].wc)(q) == (h.gh[kid_at(h, w.p, c).p].wc)(q) by {
        assert((h1.gh[w.p].wc)(q) == wc_at(h1, w.p, q));
        assert(kid_at(h1, w.p, c) == kid_at(h, w.p, c));
        assert(rt(h1, w.p, q));
    }
}
/// The keys of a tree all start like the node.
pub proof fn keys_from(h0: H, p: Ptr, gp: Seq<u8>, c: u8)
    requires tree(h0, p), inner(kind_of(p)), thru(gp, h0.gh[p].gp, c),
    ensures forall|x: Seq<u8>| #[trigger] h0.gh[p].cont.contains_key(x) ==> thru(gp, x, c), forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) ==> thru(gp, q, c),
{
    let g = h0.gh[p].gp;
    assert forall|x: Seq<u8>| pfx(g, x) implies thru(gp, x, c) by { pfx_trans(gp, g, x); assert(g[gp.len() as int] == x[gp.len() as int]); }
    assert forall|x: Seq<u8>| #[trigger] h0.gh[p].cont.contains_key(x) implies thru(gp, x, c) by { cont_pfx(h0, p, x); }
}
pub open spec fn r_start(h0: H, h: H, t: Ptr, n: Node, r: Node, gp: Seq<u8>, c0: u8) -> bool {
    thru(gp, h0.gh[n.p].gp, c0) && ok_pre(raw(h, r.p, grec(h, t, gp.push(c0), h0.gh[n.p].gp, h0.gh[n.p].cont)), r.p)
}
/// The stored prefix does not depend on the ghost records.
pub proof fn pre_put(h: H, h1: H, p: Ptr, g: GRec, g1: GRec)
    requires ok_pre(raw(h, p, g), p), h1.nodes == h.nodes, h1.bytes == h.bytes, g1.sp == g.sp, g1.gp == g.gp,
    ensures ok_pre(raw(h1, p, g1), p),
{
    let ha = raw(h, p, g);
    let hb = raw(h1, p, g1);
    let r = h.nodes[p];
    assert forall|i: int| r.numChildren > 0 && 0 <= i < stored(r.partialLen) implies #[trigger] bs_at(hb, r.partial, i) == g1.gp[g1.sp.len() + i] by { assert(bs_at(ha, r.partial, i) == g.gp[g.sp.len() + i]); }
}
/// The split leaves the old node and a new one side by side.
pub proof fn fork_both(h0: H, h: H, t: Ptr, n: Node, r: Node, w: Node, y: Node, gp: Seq<u8>, k: Seq<u8>, c0: u8, c: u8)
    requires forked(h0, h, t, n, r, w, gp, k), r_start(h0, h, t, n, r, gp, c0), bud(h, t, y, k), !h0.nodes.contains_key(y.p), !h0.nodes.contains_key(h.nodes[y.p].leaf),
        y.p != r.p, y.p != w.p, c != c0, thru(gp, k, c), h.nodes[w.p].leaf == 0,
        forall|d: u8| #[trigger] kid_at(h, w.p, d) == if d == c { y } else if d == c0 { r } else { nil_node() },
    ensures ({
        let e = h.gh[h.nodes[y.p].leaf].cont[k];
        let m = ins(h0, n, k, e);
        let h1 = put(h, y.p, grec(h, t, gp.push(c), k, map![k => e]));
        let h2 = put(h1, r.p, grec(h1, t, gp.push(c0), h0.gh[n.p].gp, h0.gh[n.p].cont));
        let h3 = put(h2, w.p, grec(h2, t, h0.gh[n.p].sp, gp, m));
        edit(h0, h3, t, n, w, m) && watched(h0, h3, t, n, w, set![k])
    }),
{
    let p = n.p;
    let l = h.nodes[y.p].leaf;
    let gp0 = h0.gh[p].gp;
    let sp0 = h0.gh[p].sp;
    let e = h.gh[l].cont[k];
    let m = ins(h0, n, k, e);
    let gy = grec(h, t, gp.push(c), k, map![k => e]);
    let h1 = put(h, y.p, gy);
    let gr = grec(h1, t, gp.push(c0), gp0, h0.gh[p].cont);
    let h2 = put(h1, r.p, gr);
    let gw = grec(h2, t, sp0, gp, m);
    sprout(h, t, y, gp.push(c), k);
    fr_trans(h0, h, h1, one(h0, p), set![y.p], one(h0, p));
    side_plain(h, h1, t);
    side_trans(h0, h, h1, t);
    assert(live(h1, r.p) == live(h, r.p) && live(h1, w.p) == live(h, w.p));
    pre_put(h, h1, r.p, grec(h, t, gp.push(c0), gp0, h0.gh[p].cont), gr);
    assert forall|d: u8| #![trigger kid_at(h1, r.p, d)] kid_at(h1, r.p, d) == kid_at(h0, p, d) by { assert(kid_at(h, r.p, d) == kid_at(h0, p, d)); }
    assert forall|i: int| 0 <= i < stored(h1.nodes[w.p].partialLen) implies #[trigger] bs_at(h1, h1.nodes[w.p].partial, i) == gp[sp0.len() + i] by { assert(bs_at(h, h.nodes[w.p].partial, i) == gp[sp0.len() + i]); }
    assert(trk(h1, t) == trk(h, t));
    assert(forked(h0, h1, t, n, r, w, gp, k));
    respace(h0, h1, t, n, r, gp.push(c0));
    side_plain(h1, h2, t);
    side_trans(h0, h1, h2, t);
    // y is as it was
    assert(h2.gh[y.p] == h1.gh[y.p]);
    assert(l != r.p);
    kept(h1, h2, set![r.p], y.p);
    assert(hung(h2, gw, y.p) && hung(h2, gw, r.p));
    keys_from(h0, p, gp, c0);
    assert forall|d: u8| #![trigger kid_at(h2, w.p, d)] hung_kid(h2, w.p, gw, d) && (kid_at(h2, w.p, d).tag != Tag::Nil ==> in_or_new(h0, zone(h2, kid_at(h2, w.p, d).p), zone(h0, p))) by {
        assert(kid_at(h2, w.p, d) == kid_at(h, w.p, d));
        if d == c { assert(h2.gh[y.p].cont.contains_key(k)); assert(in_or_new(h0, zone(h2, y.p), zone(h0, p))); }
        else if d == c0 { assert(in_or_new(h0, zone(h2, r.p), zone(h0, p))); }
    }
    let hr = raw(h2, w.p, gw);
    assert forall|i: int| 0 <= i < stored(h2.nodes[w.p].partialLen) implies #[trigger] bs_at(hr, h2.nodes[w.p].partial, i) == gp[sp0.len() + i] by { assert(bs_at(h, h.nodes[w.p].partial, i) == gp[sp0.len() + i]); }
    assert(ok_pre(hr, w.p));
    assert forall|x: Seq<u8>| #![trigger hr.gh[w.p].cont.contains_key(x)] #![trigger rt(hr, w.p, x)] look(hr.gh[w.p].cont, x) == look_at(hr, w.p, x) by {
        if pfx(gp, x) && x.len() > gp.len() {
            let d = x[gp.len() as int];
            assert(kid_at(hr, w.p, d) == kid_at(h, w.p, d));
        }
        if x != k && m.contains_key(x) { assert(h0.gh[p].cont.contains_key(x)); }
        if x == k { }
    }
    assert(m.contains_key(k));
    top_off(h0, h2, t, n, w, gp, m);
    let h3 = put(h2, w.p, gw);
    assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) implies (h3.gh[w.p].wc)(q) == (h0.gh[p].wc)(q) && !pfx(q, k) by {
        assert(thru(gp, q, c0));
        assert(kid_at(h2, w.p, c0) == kid_at(h, w.p, c0));
        assert((h2.gh[r.p].wc)(q) == (h0.gh[p].wc)(q));
    }
    here_watch(h0, h3, t, n, w, k);
}
/// The new key ends where the split is.
pub proof fn fork_leaf(h0: H, h: H, t: Ptr, n: Node, r: Node, w: Node, l: Ptr, k: Seq<u8>, c0: u8)
    requires forked(h0, h, t, n, r, w, k, k), r_start(h0, h, t, n, r, k, c0), !h0.nodes.contains_key(l),
        l != 0 && h.nodes[w.p].leaf == l && kind_of(l) == Tag::Leaf && live(h, l) && h.gh[l].sp == k && h.gh[l].own == t && h.gh[l].lo == old_max(h, t) && h.gh[l].mx <= max_id(h, t) && good(h, l) && zone(h, l) == set![l],
        h.gh[l].cont.contains_key(k), l != r.p,
        forall|d: u8| #[trigger] kid_at(h, w.p, d) == if d == c0 { r } else { nil_node() },
    ensures ({
        let m = ins(h0, n, k, h.gh[l].cont[k]);
        let h2 = put(h, r.p, grec(h, t, k.push(c0), h0.gh[n.p].gp, h0.gh[n.p].cont));
        let h3 = put(h2, w.p, grec(h2, t, h0.gh[n.p].sp, k, m));
        edit(h0, h3, t, n, w, m) && watched(h0, h3, t, n, w, set![k])
    }),
{
    let p = n.p;
    let gp = k;
    let gp0 = h0.gh[p].gp;
    let sp0 = h0.gh[p].sp;
    let e = h.gh[l].cont[k];
    let m = ins(h0, n, k, e);
    let gr = grec(h, t, gp.push(c0), gp0, h0.gh[p].cont);
    let h2 = put(h, r.p, gr);
    let gw = grec(h2, t, sp0, gp, m);
    respace(h0, h, t, n, r, gp.push(c0));
    side_plain(h, h2, t);
    side_trans(h0, h, h2, t);
    kept(h, h2, set![r.p], l);
    assert(hung(h2, gw, l) && hung(h2, gw, r.p));
    keys_from(h0, p, gp, c0);
    assert forall|d: u8| #![trigger kid_at(h2, w.p, d)] hung_kid(h2, w.p, gw, d) && (kid_at(h2, w.p, d).tag != Tag::Nil ==> in_or_new(h0, zone(h2, kid_at(h2, w.p, d).p), zone(h0, p))) by {
        assert(kid_at(h2, w.p, d) == kid_at(h, w.p, d));
        if d == c0 { assert(in_or_new(h0, zone(h2, r.p), zone(h0, p))); }
    }
    let hr = raw(h2, w.p, gw);
    assert forall|i: int| 0 <= i < stored(h2.nodes[w.p].partialLen) implies #[trigger] bs_at(hr, h2.nodes[w.p].partial, i) == gp[sp0.len() + i] by { assert(bs_at(h, h.nodes[w.p].partial, i) == gp[sp0.len() + i]); }
    assert(ok_pre(hr, w.p));
    assert forall|x: Seq<u8>| #![trigger hr.gh[w.p].cont.contains_key(x)] #![trigger rt(hr, w.p, x)] look(hr.gh[w.p].cont, x) == look_at(hr, w.p, x) by {
        if pfx(gp, x) && x.len() > gp.len() {
            let d = x[gp.len() as int];
            assert(kid_at(hr, w.p, d) == kid_at(h, w.p, d));
        }
        if x != k && m.contains_key(x) { assert(h0.gh[p].cont.contains_key(x)); }
    }
    assert(m.contains_key(k));
    top_off(h0, h2, t, n, w, gp, m);
    let h3 = put(h2, w.p, gw);
    assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) implies (h3.gh[w.p].wc)(q) == (h0.gh[p].wc)(q) && !pfx(q, k) by {
        assert(thru(gp, q, c0));
        assert(kid_at(h2, w.p, c0) == kid_at(h, w.p, c0));
        assert((h2.gh[r.p].wc)(q) == (h0.gh[p].wc)(q));
    }
    here_watch(h0, h3, t, n, w, k);
}
/// The old leaf stays at the split and the new key goes below it.
pub proof fn fork_under(h0: H, h: H, t: Ptr, n: Node, r: Node, w: Node, y: Node, k: Seq<u8>, c: u8)
    requires forked(h0, h, t, n, r, w, h0.gh[n.p].gp, k), bud(h, t, y, k), !h0.nodes.contains_key(y.p), !h0.nodes.contains_key(h.nodes[y.p].leaf),
        y.p != r.p, y.p != w.p, thru(h0.gh[n.p].gp, k, c), h.nodes[w.p].leaf == h0.nodes[n.p].leaf, h0.nodes[n.p].leaf != 0, h0.nodes[n.p].numChildren == 0,
        forall|d: u8| #[trigger] kid_at(h, w.p, d) == if d == c { y } else { nil_node() },
    ensures ({
        let e = h.gh[h.nodes[y.p].leaf].cont[k];
        let gp = h0.gh[n.p].gp;
        let m = ins(h0, n, k, e);
        let h2 = put(h, y.p, grec(h, t, gp.push(c), k, map![k => e]));
        let h3 = put(h2, w.p, grec(h2, t, h0.gh[n.p].sp, gp, m));
        edit(h0, h3, t, n, w, m) && watched(h0, h3, t, n, w, set![k])
    }),
{
    let p = n.p;
    let l = h.nodes[y.p].leaf;
    let gp = h0.gh[p].gp;
    let sp0 = h0.gh[p].sp;
    let e = h.gh[l].cont[k];
    let m = ins(h0, n, k, e);
    let gy = grec(h, t, gp.push(c), k, map![k => e]);
    let h2 = put(h, y.p, gy);
    let gw = grec(h2, t, sp0, gp, m);
    let lf = h0.nodes[p].leaf;
    fact_inner(h0, p);
    no_kids(n.tag, h0.nodes[p]);
    sprout(h, t, y, gp.push(c), k);
    zone_owned(h0, p);
    fr_trans(h0, h, h2, one(h0, p), set![y.p], one(h0, p));
    side_plain(h, h2, t);
    side_trans(h0, h, h2, t);
    leaf_zone(h0, p);
    leaf_kept(h0, h2, t, n, w, one(h0, p), gw);
    fr_weak(h0, h2, one(h0, p), zone(h0, p));
    assert(hung(h2, gw, y.p));
    assert(in_or_new(h0, zone(h2, y.p), zone(h0, p)));
    assert forall|d: u8| #![trigger kid_at(h2, w.p, d)] hung_kid(h2, w.p, gw, d) && (kid_at(h2, w.p, d).tag != Tag::Nil ==> in_or_new(h0, zone(h2, kid_at(h2, w.p, d).p), zone(h0, p))) by {
        assert(kid_at(h2, w.p, d) == kid_at(h, w.p, d));
        if d == c { assert(h2.gh[y.p].cont.contains_key(k)); }
    }
    let hr = raw(h2, w.p, gw);
    assert forall|i: int| 0 <= i < stored(h2.nodes[w.p].partialLen) implies #[trigger] bs_at(hr, h2.nodes[w.p].partial, i) == gp[sp0.len() + i] by { assert(bs_at(h, h.nodes[w.p].partial, i) == gp[sp0.len() + i]); }
    assert(ok_pre(hr, w.p));
    assert forall|x: Seq<u8>| #![trigger hr.gh[w.p].cont.contains_key(x)] #![trigger rt(hr, w.p, x)] look(hr.gh[w.p].cont, x) == look_at(hr, w.p, x) by {
        if pfx(gp, x) && x.len() > gp.len() {
            let d = x[gp.len() as int];
            assert(kid_at(hr, w.p, d) == kid_at(h, w.p, d));
            assert(kid(n.tag, h0.nodes[p], d).tag == Tag::Nil);
        }
        if x != gp { assert(!rt(h0, p, x)); not_in(h0, p, x); } else { leaf_in(h0, p); }
    }
    assert(m.contains_key(k));
    top_off(h0, h2, t, n, w, gp, m);
    let h3 = put(h2, w.p, gw);
    assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] !rt(h0, p, q) by { assert(kid(n.tag, h0.nodes[p], q[gp.len() as int]).tag == Tag::Nil); }
    here_watch(h0, h3, t, n, w, k);
}

// ---- the steps of a split ----

pub open spec fn stepped(h: H, h1: H, t: Ptr, s: Set<Ptr>) -> bool {
    &&& side(h, h1, t) && shared(h1) && fr(h, h1, s)
    &&& forall|x: Ptr| #![trigger h1.gh.contains_key(x)] #![trigger h1.gh[x]] h.nodes.contains_key(x) ==> h1.gh.contains_key(x) == h.gh.contains_key(x) && h1.gh[x] == h.gh[x]
}
pub proof fn head_kept(h: H, h1: H, t: Ptr, s: Set<Ptr>, x: Node)
    requires fr(h, h1, s), side(h, h1, t), headed(h, t, x), !s.contains(x.p),
    ensures headed(h1, t, x), h1.nodes[x.p] == h.nodes[x.p], forall|d: u8| #[trigger] kid_at(h1, x.p, d) == kid_at(h, x.p, d),
        forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h1, h1.nodes[x.p].partial, i) == bs_at(h, h.nodes[x.p].partial, i),
{ reveal(fr); }
pub proof fn base_step(h0: H, h: H, h1: H, t: Ptr, n: Node, s: Set<Ptr>)
    requires base(h0, h, t, n), stepped(h, h1, t, s), trk(h1, t) == trk(h, t), forall|x: Ptr| #[trigger] s.contains(x) ==> one(h0, n.p).contains(x) || !h0.nodes.contains_key(x),
    ensures base(h0, h1, t, n),
{
    zone_owned(h0, n.p);
    start_unit(h0, t, n);
    fr_trans(h0, h, h1, one(h0, n.p), s, one(h0, n.p));
    side_trans(h0, h, h1, t);
}
pub proof fn wpart_step(h0: H, h: H, h1: H, t: Ptr, n: Node, s: Set<Ptr>, w: Node, gp: Seq<u8>)
    requires wpart(h0, h, t, n, w, gp), stepped(h, h1, t, s), !s.contains(w.p),
    ensures wpart(h0, h1, t, n, w, gp), h1.nodes[w.p] == h.nodes[w.p], forall|d: u8| #[trigger] kid_at(h1, w.p, d) == kid_at(h, w.p, d),
{
    head_kept(h, h1, t, s, w);
    let g0 = h0.gh[n.p];
    assert forall|i: int| 0 <= i < stored(h1.nodes[w.p].partialLen) implies #[trigger] bs_at(h1, h1.nodes[w.p].partial, i) == gp[g0.sp.len() + i] by { assert(bs_at(h, h.nodes[w.p].partial, i) == gp[g0.sp.len() + i]); }
}
pub proof fn rpart_step(h0: H, h: H, h1: H, t: Ptr, n: Node, s: Set<Ptr>, r: Node)
    requires base(h0, h, t, n), rpart(h0, h, t, n, r), stepped(h, h1, t, s), trk(h1, t) == trk(h, t), !s.contains(r.p),
    ensures rpart(h0, h1, t, n, r), h1.nodes[r.p] == h.nodes[r.p], forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h, h.nodes[r.p].partial, i),
{
    head_kept(h, h1, t, s, r);
    assert forall|d: u8| #![trigger kid_at(h1, r.p, d)] kid_at(h1, r.p, d) == kid_at(h0, n.p, d) by { assert(kid_at(h, r.p, d) == kid_at(h0, n.p, d)); }
}
pub proof fn ypart_step(h0: H, h: H, h1: H, t: Ptr, s: Set<Ptr>, y: Node, k: Seq<u8>)
    requires ypart(h0, h, t, y, k), stepped(h, h1, t, s), shared(h), owned(h, s), !s.contains(y.p), !s.contains(h.nodes[y.p].leaf),
    ensures ypart(h0, h1, t, y, k), h1.nodes[y.p] == h.nodes[y.p], h1.gh[h.nodes[y.p].leaf] == h.gh[h.nodes[y.p].leaf],
{
    let l = h.nodes[y.p].leaf;
    head_kept(h, h1, t, s, y);
    assert(apart(s, zone(h, l)));
    kept(h, h1, s, l);
    good_self(h, l);
}
/// One record that nobody else sees changed.
pub proof fn rec_step(h: H, h1: H, t: Ptr, x: Ptr, rec: Rec)
    requires shared(h), h1 == (H { nodes: h.nodes.insert(x, rec), ..h }), h.nodes.contains_key(x), live(h, x) ==> h.gh[x].own != 0,
    ensures stepped(h, h1, t, set![x]), trk(h1, t) == trk(h, t),
{
    assert(fr(h, h1, set![x])) by { reveal(fr); }
    shared_frame(h, h1, set![x]);
    side_plain(h, h1, t);
}
/// The prefix bytes of a node that nobody else sees changed.
pub proof fn bytes_step(h: H, h1: H, t: Ptr, x: Ptr, a: u64)
    requires shared(h), h1 == (H { bytes: h1.bytes, ..h }), upd(h.bytes, h1.bytes, a), h.bytes.contains_key(a), h1.bytes[a].owner == h.bytes[a].owner, h.bytes[a].owner == node_own(x), inner(kind_of(x)), live(h, x) ==> h.gh[x].own != 0,
    ensures stepped(h, h1, t, set![x]), trk(h1, t) == trk(h, t),
{
    assert(fr(h, h1, set![x])) by { reveal(fr); }
    shared_frame(h, h1, set![x]);
    side_plain(h, h1, t);
}
pub proof fn alloc_step(h: H, h1: H, t: Ptr, x: Node)
    requires shared(h), ctxn(h, t), ids(h, t), arrs(h), alloc1(h, h1, t, x.p), inner(x.tag), kind_of(x.p) == x.tag, nwf(x.tag, h1.nodes[x.p]), max_id(h, t) < 0x4000_0000_0000_0000,
    ensures stepped(h, h1, t, Set::empty()), trk(h1, t) == trk(h, t), headed(h1, t, x), !live(h1, x.p), !h.nodes.contains_key(x.p),
{
    assert(fr(h, h1, Set::empty())) by { reveal(fr); }
    shared_frame(h, h1, Set::empty());
    side_plain(h, h1, t);
    assert(!h.gx.lk.contains_key(h1.nodes[x.p].ch));
    assert(!live(h, x.p));
}

pub proof fn open_step(h0: H, h: H, h1: H, t: Ptr, n: Node, r: Node)
    requires start(h0, t, n), side(h0, h, t), shared(h), fr(h0, h, Set::empty()), trk(h, t) == trk(h0, t), arrs(h), opened(h, h1, t, n, r),
        h.gh.contains_key(n.p) && h.gh[n.p] == h0.gh[n.p],
    ensures base(h0, h1, t, n), rpart(h0, h1, t, n, r), stepped(h, h1, t, one(h0, n.p)), owned(h, one(h0, n.p)), r.p == n.p || !h.nodes.contains_key(r.p),
        own_pre(h0, n.p) ==> forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[n.p].partial, i),
        h1.nodes[r.p].partialLen == h0.nodes[n.p].partialLen,
{
    let p = n.p;
    unit_kept(h0, h, t, n);
    zone_owned(h0, p);
    fact_inner(h0, p);
    start_unit(h0, t, n);
    rec_same(n.tag, h0.nodes[p], h1.nodes[r.p]);
    side_trans(h0, h, h1, t);
    fr_trans(h0, h, h1, Set::empty(), one(h0, p), one(h0, p));
    assert(h0.gh[p].own == 0 ==> !h0.nodes.contains_key(r.p)) by { reveal(fr); }
    assert forall|d: u8| #![trigger kid_at(h1, r.p, d)] kid_at(h1, r.p, d) == kid_at(h0, p, d) by { assert(kid(n.tag, h1.nodes[r.p], d) == kid(n.tag, h0.nodes[p], d)); }
    assert(live(h1, r.p) ==> live(h, r.p));
    assert(live(h, r.p) ==> h.nodes.contains_key(r.p));
    if own_pre(h0, p) {
        assert forall|i: int| 0 <= i < 10 implies #[trigger] bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i) by { assert(bs_at(h, h.nodes[p].partial, i) == bs_at(h0, h0.nodes[p].partial, i)); }
    }
}
/// The child is added to the new node.
pub proof fn add_step(h0: H, h: H, h1: H, t: Ptr, n: Node, w: Node, gp: Seq<u8>, c: u8, y: Node, w2: Node)
    requires base(h0, h, t, n), wpart(h0, h, t, n, w, gp), arrs(h), ctxn(h, t), ids(h, t), added(h, h1, t, w, c, y, w2), w.tag == Tag::N4, h.nodes[w.p].numChildren < 4, max_id(h, t) < 0x7fff_ffff_ffff_ffff,
    ensures w2 == w, stepped(h, h1, t, set![w.p]), trk(h1, t) == trk(h, t), owned(h, set![w.p]), base(h0, h1, t, n), wpart(h0, h1, t, n, w, gp), h1.nodes[w.p].leaf == h.nodes[w.p].leaf, h1.nodes[w.p].numChildren == h.nodes[w.p].numChildren + 1,
        forall|d: u8| #[trigger] kid_at(h1, w.p, d) == if d == c { y } else { kid_at(h, w.p, d) },
{
    added_fr(h, h1, t, w, c, y, w2);
    base_step(h0, h, h1, t, n, set![w.p]);
    let g0 = h0.gh[n.p];
    assert forall|i: int| 0 <= i < stored(h1.nodes[w.p].partialLen) implies #[trigger] bs_at(h1, h1.nodes[w.p].partial, i) == gp[g0.sp.len() + i] by { assert(bs_at(h, h.nodes[w.p].partial, i) == gp[g0.sp.len() + i]); }
}
/// The leaf of the new node is set.
pub proof fn leaf_step(h0: H, h: H, h1: H, t: Ptr, n: Node, w: Node, gp: Seq<u8>, l: Ptr)
    requires base(h0, h, t, n), wpart(h0, h, t, n, w, gp), h1 == (H { nodes: h.nodes.insert(w.p, Rec { leaf: l, ..h.nodes[w.p] }), ..h }),
    ensures stepped(h, h1, t, set![w.p]), trk(h1, t) == trk(h, t), owned(h, set![w.p]), base(h0, h1, t, n), wpart(h0, h1, t, n, w, gp),
        forall|d: u8| #[trigger] kid_at(h1, w.p, d) == kid_at(h, w.p, d),
{
    rec_step(h, h1, t, w.p, Rec { leaf: l, ..h.nodes[w.p] });
    base_step(h0, h, h1, t, n, set![w.p]);
    rec_same(w.tag, h.nodes[w.p], h1.nodes[w.p]);
    let g0 = h0.gh[n.p];
    assert forall|d: u8| #[trigger] kid_at(h1, w.p, d) == kid_at(h, w.p, d) by { assert(kid(w.tag, h1.nodes[w.p], d) == kid(w.tag, h.nodes[w.p], d)); }
    assert forall|i: int| 0 <= i < stored(h1.nodes[w.p].partialLen) implies #[trigger] bs_at(h1, h1.nodes[w.p].partial, i) == gp[g0.sp.len() + i] by { assert(bs_at(h, h.nodes[w.p].partial, i) == gp[g0.sp.len() + i]); }
}
/// A new node gets its prefix: allocated, length set, bytes copied.
pub open spec fn fresh_w(h: H, h1: H, h2: H, h3: H, t: Ptr, w: Node, len: u32, a: u64) -> bool {
    &&& w.tag == Tag::N4 && kind_of(w.p) == w.tag && alloc1(h, h1, t, w.p) && max_id(h, t) < 0x4000_0000_0000_0000 && nwf(w.tag, h1.nodes[w.p]) && h1.nodes[w.p].numChildren == 0 && h1.nodes[w.p].leaf == 0
    &&& h2 == (H { nodes: h1.nodes.insert(w.p, Rec { partialLen: len, ..h1.nodes[w.p] }), ..h1 })
    &&& h2.nodes[w.p].partial.arr == Arr::A(a) && h3 == (H { bytes: h3.bytes, ..h2 }) && upd(h2.bytes, h3.bytes, a) && h3.bytes.contains_key(a) && h3.bytes[a].owner == h2.bytes[a].owner
}
pub proof fn w_step(h0: H, h: H, h1: H, h2: H, h3: H, t: Ptr, n: Node, w: Node, gp: Seq<u8>, a: u64)
    requires start(h0, t, n), side(h0, h, t), shared(h), fr(h0, h, one(h0, n.p)), arrs(h), ids(h, t), fresh_w(h, h1, h2, h3, t, w, h2.nodes[w.p].partialLen, a),
        pfx(h0.gh[n.p].sp, gp), gp.len() < 0x1_0000_0000, gp.len() == h0.gh[n.p].sp.len() + h2.nodes[w.p].partialLen,
        forall|i: int| 0 <= i < stored(h2.nodes[w.p].partialLen) ==> #[trigger] bs_at(h3, h2.nodes[w.p].partial, i) == gp[h0.gh[n.p].sp.len() + i],
    ensures stepped(h, h3, t, Set::empty()), trk(h3, t) == trk(h, t), wpart(h0, h3, t, n, w, gp), h3.nodes[w.p].numChildren == 0, h3.nodes[w.p].leaf == 0, forall|d: u8| #[trigger] kid_at(h3, w.p, d) == nil_node(), !h.nodes.contains_key(w.p), h3.gh == h.gh,
{
    alloc_step(h, h1, t, w);
    rec_step(h1, h2, t, w.p, h2.nodes[w.p]);
    bytes_step(h2, h3, t, w.p, a);
    zone_owned(h0, n.p);
    let e = Set::<Ptr>::empty();
    fr_trans(h, h1, h2, e, set![w.p], e);
    fr_trans(h, h2, h3, e, set![w.p], e);
    side_trans(h, h1, h2, t);
    side_trans(h, h2, h3, t);
    rec_same(w.tag, h1.nodes[w.p], h3.nodes[w.p]);
    no_kids(w.tag, h3.nodes[w.p]);
    assert forall|d: u8| #[trigger] kid_at(h3, w.p, d) == nil_node() by { assert(kid(w.tag, h3.nodes[w.p], d).tag == Tag::Nil); small_cases(w.tag, h3.nodes[w.p], d); }
    assert(!h0.nodes.contains_key(w.p)) by { reveal(fr); }
}
pub open spec fn laid(h0: H, h: H, t: Ptr, n: Node, r: Node, w: Node, gp: Seq<u8>, k: Seq<u8>) -> bool {
    &&& base(h0, h, t, n) && rpart(h0, h, t, n, r) && wpart(h0, h, t, n, w, gp) && w.tag == Tag::N4
    &&& r.p != w.p && some_key(h0.gh[n.p].cont) && k.len() < 0x1_0000_0000
    &&& !h0.gh[n.p].cont.contains_key(k) && (forall|q: Seq<u8>| #![trigger rt(h0, n.p, q)] rt(h0, n.p, q) ==> !pfx(q, k))
}
/// y is a node of its own.
pub open spec fn aside(h: H, r: Node, w: Node, y: Node) -> bool {
    y.p != r.p && y.p != w.p && h.nodes[y.p].leaf != r.p && h.nodes[y.p].leaf != w.p
}
pub proof fn laid_ids(h0: H, h: H, t: Ptr, n: Node, r: Node, w: Node, gp: Seq<u8>, k: Seq<u8>)
    requires laid(h0, h, t, n, r, w, gp, k),
    ensures ctxn(h, t), ids(h, t),
{ }
pub proof fn start_step(h0: H, h: H, h1: H, t: Ptr, n: Node, s: Set<Ptr>, r: Node, gp: Seq<u8>, c0: u8)
    requires base(h0, h, t, n), rpart(h0, h, t, n, r), r_start(h0, h, t, n, r, gp, c0), stepped(h, h1, t, s), trk(h1, t) == trk(h, t), !s.contains(r.p),
    ensures r_start(h0, h1, t, n, r, gp, c0),
{
    rpart_step(h0, h, h1, t, n, s, r);
    let g = grec(h, t, gp.push(c0), h0.gh[n.p].gp, h0.gh[n.p].cont);
    let g1 = grec(h1, t, gp.push(c0), h0.gh[n.p].gp, h0.gh[n.p].cont);
    let x = h.nodes[r.p];
    assert forall|i: int| x.numChildren > 0 && 0 <= i < stored(x.partialLen) implies #[trigger] bs_at(raw(h1, r.p, g1), x.partial, i) == g1.gp[g1.sp.len() + i] by {
        assert(bs_at(raw(h, r.p, g), x.partial, i) == g.gp[g.sp.len() + i]);
        assert(bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h, h.nodes[r.p].partial, i));
    }
}
pub proof fn laid_add(h0: H, h: H, h1: H, t: Ptr, n: Node, r: Node, w: Node, gp: Seq<u8>, k: Seq<u8>, c: u8, x: Node, w2: Node)
    requires laid(h0, h, t, n, r, w, gp, k), arrs(h), added(h, h1, t, w, c, x, w2), h.nodes[w.p].numChildren < 4, max_id(h, t) < 0x7fff_ffff_ffff_ffff,
    ensures w2 == w, laid(h0, h1, t, n, r, w, gp, k), stepped(h, h1, t, set![w.p]), trk(h1, t) == trk(h, t), owned(h, set![w.p]), h1.nodes[w.p].leaf == h.nodes[w.p].leaf, h1.nodes[w.p].numChildren == h.nodes[w.p].numChildren + 1,
        forall|d: u8| #[trigger] kid_at(h1, w.p, d) == if d == c { x } else { kid_at(h, w.p, d) },
        h1.nodes[r.p] == h.nodes[r.p], forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h, h.nodes[r.p].partial, i),
{
    laid_ids(h0, h, t, n, r, w, gp, k);
    add_step(h0, h, h1, t, n, w, gp, c, x, w2);
    rpart_step(h0, h, h1, t, n, set![w.p], r);
}
pub proof fn laid_leaf(h0: H, h: H, h1: H, t: Ptr, n: Node, r: Node, w: Node, gp: Seq<u8>, k: Seq<u8>, l: Ptr)
    requires laid(h0, h, t, n, r, w, gp, k), h1 == (H { nodes: h.nodes.insert(w.p, Rec { leaf: l, ..h.nodes[w.p] }), ..h }),
    ensures laid(h0, h1, t, n, r, w, gp, k), stepped(h, h1, t, set![w.p]), trk(h1, t) == trk(h, t), owned(h, set![w.p]),
        forall|d: u8| #[trigger] kid_at(h1, w.p, d) == kid_at(h, w.p, d),
{
    leaf_step(h0, h, h1, t, n, w, gp, l);
    rpart_step(h0, h, h1, t, n, set![w.p], r);
}
/// Putting a leaf-only node and a new key under one node.
pub proof fn split_leaf(h0: H, hm: H, h2: H, h3: H, h4: H, h5: H, t: Ptr, n: Node, r: Node, w: Node, y: Node, key: Slice, k: Seq<u8>, v: Val, gp: Seq<u8>, a: u64)
    requires start(h0, t, n), keyok(h0, key, k), made(h0, hm, t, key, v, y), h0.nodes[n.p].numChildren == 0, h0.nodes[n.p].leaf != 0, h0.gh[n.p].gp != k,
        opened(put_leaf(hm, t, hm.nodes[y.p].leaf, k), h2, t, n, r), arrs(put_leaf(hm, t, hm.nodes[y.p].leaf, k)), arrs(h2), fresh_w(h2, h3, h4, h5, t, w, h4.nodes[w.p].partialLen, a),
        pfx(h0.gh[n.p].sp, gp), gp.len() < 0x1_0000_0000, gp.len() == h0.gh[n.p].sp.len() + h4.nodes[w.p].partialLen,
        forall|i: int| 0 <= i < stored(h4.nodes[w.p].partialLen) ==> #[trigger] bs_at(h5, h4.nodes[w.p].partial, i) == gp[h0.gh[n.p].sp.len() + i],
    ensures laid(h0, h5, t, n, r, w, gp, k), ypart(h0, h5, t, y, k), aside(h5, r, w, y), h5.nodes[w.p].numChildren == 0, h5.nodes[w.p].leaf == 0, forall|d: u8| #[trigger] kid_at(h5, w.p, d) == nil_node(),
        h5.nodes[y.p].leaf == hm.nodes[y.p].leaf, h5.nodes[r.p].leaf == h0.nodes[n.p].leaf,
        ({ let l = hm.nodes[y.p].leaf; h5.gh[l].cont.contains_key(k) && h5.gh[l].cont[k].v == v }),
{
    let l = hm.nodes[y.p].leaf;
    let h1 = put_leaf(hm, t, l, k);
    made_fr(h0, hm, t, key, v, y, k);
    assert(bud(h1, t, y, k)) by { assert(h1.gh[l].cont.contains_key(k)); }
    assert(h1.gh[n.p] == h0.gh[n.p] && h1.gh.contains_key(n.p)) by { reveal(fr); }
    open_step(h0, h1, h2, t, n, r);
    fact_inner(h0, n.p);
    assert(!one(h0, n.p).contains(y.p) && !one(h0, n.p).contains(l));
    ypart_step(h0, h1, h2, t, one(h0, n.p), y, k);
    w_step(h0, h2, h3, h4, h5, t, n, w, gp, a);
    let e = Set::<Ptr>::empty();
    base_step(h0, h2, h5, t, n, e);
    rpart_step(h0, h2, h5, t, n, e, r);
    ypart_step(h0, h2, h5, t, e, y, k);
    cont_none(h0, n.p);
    leaf_in(h0, n.p);
    assert(h0.gh[n.p].cont.contains_key(h0.gh[n.p].gp));
}
/// Below the new node come the old leaf and the new key.
pub proof fn split_two(h0: H, h5: H, h6: H, h7: H, t: Ptr, n: Node, r: Node, w: Node, w2: Node, w3: Node, y: Node, k: Seq<u8>, gp: Seq<u8>, c0: u8, c: u8)
    requires laid(h0, h5, t, n, r, w, gp, k), ypart(h0, h5, t, y, k), aside(h5, r, w, y), h5.nodes[w.p].numChildren == 0, h5.nodes[w.p].leaf == 0, forall|d: u8| #[trigger] kid_at(h5, w.p, d) == nil_node(),
        arrs(h5), arrs(h6), max_id(h5, t) < 0x4000_0000_0000_0000, added(h5, h6, t, w, c0, r, w2), added(h6, h7, t, w2, c, y, w3), thru(gp, h0.gh[n.p].gp, c0), thru(gp, k, c), c != c0, h0.nodes[n.p].numChildren == 0,
    ensures w3 == w, w2 == w, ({
        let l = h5.nodes[y.p].leaf;
        let e = h7.gh[l].cont[k];
        let m = ins(h0, n, k, e);
        let h8 = put(h7, y.p, grec(h7, t, gp.push(c), k, map![k => e]));
        let h9 = put(h8, r.p, grec(h8, t, gp.push(c0), h0.gh[n.p].gp, h0.gh[n.p].cont));
        let h10 = put(h9, w.p, grec(h9, t, h0.gh[n.p].sp, gp, m));
        h7.nodes[y.p].leaf == l && h7.gh[l] == h5.gh[l] && edit(h0, h10, t, n, w, m) && watched(h0, h10, t, n, w, set![k])
    }),
{
    laid_add(h0, h5, h6, t, n, r, w, gp, k, c0, r, w2);
    ypart_step(h0, h5, h6, t, set![w.p], y, k);
    laid_add(h0, h6, h7, t, n, r, w, gp, k, c, y, w3);
    ypart_step(h0, h6, h7, t, set![w.p], y, k);
    fork_both(h0, h7, t, n, r, w, y, gp, k, c0, c);
}
pub proof fn split_on(h0: H, h5: H, h6: H, h7: H, t: Ptr, n: Node, r: Node, w: Node, w2: Node, y: Node, k: Seq<u8>, c0: u8)
    requires laid(h0, h5, t, n, r, w, k, k), ypart(h0, h5, t, y, k), aside(h5, r, w, y), h5.nodes[w.p].numChildren == 0, forall|d: u8| #[trigger] kid_at(h5, w.p, d) == nil_node(),
        h6 == (H { nodes: h5.nodes.insert(w.p, Rec { leaf: h5.nodes[y.p].leaf, ..h5.nodes[w.p] }), ..h5 }), arrs(h6), max_id(h5, t) < 0x4000_0000_0000_0000,
        added(h6, h7, t, w, c0, r, w2), thru(k, h0.gh[n.p].gp, c0), h0.nodes[n.p].numChildren == 0,
    ensures w2 == w, ({
        let l = h5.nodes[y.p].leaf;
        let e = h7.gh[l].cont[k];
        let m = ins(h0, n, k, e);
        let h9 = put(h7, r.p, grec(h7, t, k.push(c0), h0.gh[n.p].gp, h0.gh[n.p].cont));
        let h10 = put(h9, w.p, grec(h9, t, h0.gh[n.p].sp, k, m));
        h7.gh[l] == h5.gh[l] && edit(h0, h10, t, n, w, m) && watched(h0, h10, t, n, w, set![k])
    }),
{
    let l = h5.nodes[y.p].leaf;
    laid_leaf(h0, h5, h6, t, n, r, w, k, k, l);
    ypart_step(h0, h5, h6, t, set![w.p], y, k);
    laid_add(h0, h6, h7, t, n, r, w, k, k, c0, r, w2);
    ypart_step(h0, h6, h7, t, set![w.p], y, k);
    fork_leaf(h0, h7, t, n, r, w, l, k, c0);
}
pub proof fn split_below(h0: H, h5: H, h6: H, h7: H, t: Ptr, n: Node, r: Node, w: Node, w2: Node, y: Node, k: Seq<u8>, c: u8)
    requires laid(h0, h5, t, n, r, w, h0.gh[n.p].gp, k), ypart(h0, h5, t, y, k), aside(h5, r, w, y), h5.nodes[w.p].numChildren == 0, forall|d: u8| #[trigger] kid_at(h5, w.p, d) == nil_node(),
        h6 == (H { nodes: h5.nodes.insert(w.p, Rec { leaf: h0.nodes[n.p].leaf, ..h5.nodes[w.p] }), ..h5 }), arrs(h6), max_id(h5, t) < 0x4000_0000_0000_0000,
        added(h6, h7, t, w, c, y, w2), thru(h0.gh[n.p].gp, k, c), h0.nodes[n.p].numChildren == 0, h0.nodes[n.p].leaf != 0,
    ensures w2 == w, ({
        let l = h5.nodes[y.p].leaf;
        let e = h7.gh[l].cont[k];
        let gp = h0.gh[n.p].gp;
        let m = ins(h0, n, k, e);
        let h9 = put(h7, y.p, grec(h7, t, gp.push(c), k, map![k => e]));
        let h10 = put(h9, w.p, grec(h9, t, h0.gh[n.p].sp, gp, m));
        h7.nodes[y.p].leaf == l && h7.gh[l] == h5.gh[l] && edit(h0, h10, t, n, w, m) && watched(h0, h10, t, n, w, set![k])
    }),
{
    let gp = h0.gh[n.p].gp;
    laid_leaf(h0, h5, h6, t, n, r, w, gp, k, h0.nodes[n.p].leaf);
    ypart_step(h0, h5, h6, t, set![w.p], y, k);
    laid_add(h0, h6, h7, t, n, r, w, gp, k, c, y, w2);
    ypart_step(h0, h6, h7, t, set![w.p], y, k);
    fork_under(h0, h7, t, n, r, w, y, k, c);
}

// ---- a prefix is split ----

/// The new node is made and n opened; r is a tree of its own.
pub proof fn cut_open(h0: H, h1: H, h2: H, h3: H, h4: H, t: Ptr, n: Node, r: Node, w: Node, k: Seq<u8>, gp: Seq<u8>, a: u64)
    requires start(h0, t, n), h0.nodes[n.p].numChildren > 0, k.len() < 0x1_0000_0000, !pfx(h0.gh[n.p].gp, k),
        fresh_w(h0, h1, h2, h3, t, w, h2.nodes[w.p].partialLen, a), arrs(h3), opened(h3, h4, t, n, r),
        pfx(h0.gh[n.p].sp, gp), pfx(gp, h0.gh[n.p].gp), gp.len() == h0.gh[n.p].sp.len() + h2.nodes[w.p].partialLen,
        forall|i: int| 0 <= i < stored(h2.nodes[w.p].partialLen) ==> #[trigger] bs_at(h3, h2.nodes[w.p].partial, i) == gp[h0.gh[n.p].sp.len() + i],
    ensures ({
        let g = grec(h4, t, h0.gh[n.p].sp, h0.gh[n.p].gp, h0.gh[n.p].cont);
        let h5 = put(h4, r.p, g);
        &&& laid(h0, h5, t, n, r, w, gp, k) && itree(h5, r) && h5.gh[r.p].cont == h0.gh[n.p].cont && h5.gh[r.p].gp == h0.gh[n.p].gp && h5.gh[r.p].own == t
        &&& h5.nodes[w.p].numChildren == 0 && h5.nodes[w.p].leaf == 0 && (forall|d: u8| #[trigger] kid_at(h5, w.p, d) == nil_node())
        &&& h5.nodes[r.p].partialLen == h0.nodes[n.p].partialLen
        &&& forall|i: int| 0 <= i < stored(h0.nodes[n.p].partialLen) ==> #[trigger] bs_at(h5, h5.nodes[r.p].partial, i) == h0.gh[n.p].gp[h0.gh[n.p].sp.len() + i]
    }),
{
    let p = n.p;
    let g0 = h0.gh[p];
    let g = grec(h4, t, g0.sp, g0.gp, g0.cont);
    let h5 = put(h4, r.p, g);
    let e = Set::<Ptr>::empty();
    start_unit(h0, t, n);
    fact_inner(h0, p);
    zone_owned(h0, p);
    assert(fr(h0, h0, one(h0, p))) by { reveal(fr); }
    side_plain(h0, h0, t);
    w_step(h0, h0, h1, h2, h3, t, n, w, gp, a);
    open_step(h0, h3, h4, t, n, r);
    wpart_step(h0, h3, h4, t, n, one(h0, p), w, gp);
    kid_some(h0, p);
    pre_kept2(h0, p, h4, r.p, g);
    respace(h0, h4, t, n, r, g0.sp);
    side_plain(h4, h5, t);
    assert(stepped(h4, h5, t, set![r.p]) || true);
    fr_trans(h0, h4, h5, one(h0, p), set![r.p], one(h0, p));
    side_trans(h0, h4, h5, t);
    assert(trk(h5, t) == trk(h4, t));
    assert(base(h0, h5, t, n));
    assert forall|d: u8| #![trigger kid_at(h5, r.p, d)] kid_at(h5, r.p, d) == kid_at(h0, p, d) by { assert(kid_at(h4, r.p, d) == kid_at(h0, p, d)); }
    assert(rpart(h0, h5, t, n, r));
    assert forall|i: int| 0 <= i < stored(h5.nodes[w.p].partialLen) implies #[trigger] bs_at(h5, h5.nodes[w.p].partial, i) == gp[g0.sp.len() + i] by { assert(bs_at(h4, h4.nodes[w.p].partial, i) == gp[g0.sp.len() + i]); }
    assert(r.p != w.p) by { assert(h3.nodes.contains_key(w.p)); }
    assert(wpart(h0, h5, t, n, w, gp));
    assert(!g0.cont.contains_key(k)) by { if g0.cont.contains_key(k) { cont_pfx(h0, p, k); } }
    assert forall|q: Seq<u8>| #![trigger rt(h0, p, q)] rt(h0, p, q) implies !pfx(q, k) by { if pfx(q, k) { pfx_trans(g0.gp, q, k); } }
    assert forall|d: u8| #[trigger] kid_at(h5, w.p, d) == nil_node() by { assert(kid_at(h3, w.p, d) == nil_node()); assert(kid_at(h4, w.p, d) == kid_at(h3, w.p, d)); }
    assert forall|i: int| 0 <= i < stored(h0.nodes[p].partialLen) implies #[trigger] bs_at(h5, h5.nodes[r.p].partial, i) == g0.gp[g0.sp.len() + i] by {
        assert(bs_at(h4, h4.nodes[r.p].partial, i) == bs_at(h0, h0.nodes[p].partial, i));
        assert(bs_at(h0, h0.nodes[p].partial, i) == g0.gp[g0.sp.len() + i]);
    }
}
pub proof fn pre_kept2(h0: H, p: Ptr, h: H, r: Ptr, g: GRec)
    requires tree(h0, p), inner(kind_of(p)), h0.nodes[p].numChildren > 0, g.sp == h0.gh[p].sp, g.gp == h0.gh[p].gp, h.nodes[r].partialLen == h0.nodes[p].partialLen,
        forall|i: int| 0 <= i < 10 ==> #[trigger] bs_at(h, h.nodes[r].partial, i) == bs_at(h0, h0.nodes[p].partial, i),
    ensures ok_pre(raw(h, r, g), r),
{
    fact_inner(h0, p);
    let hr = raw(h, r, g);
    assert forall|i: int| 0 <= i < stored(h.nodes[r].partialLen) implies #[trigger] bs_at(hr, h.nodes[r].partial, i) == g.gp[g.sp.len() + i] by {
        assert(bs_at(h, h.nodes[r].partial, i) == bs_at(h0, h0.nodes[p].partial, i));
        assert(bs_at(h0, h0.nodes[p].partial, i) == h0.gh[p].gp[h0.gh[p].sp.len() + i]);
    }
}
/// The length of the prefix of r changes.
pub proof fn cut_len(h0: H, h: H, h1: H, t: Ptr, n: Node, r: Node, w: Node, gp: Seq<u8>, k: Seq<u8>, len: u32)
    requires laid(h0, h, t, n, r, w, gp, k), h1 == (H { nodes: h.nodes.insert(r.p, Rec { partialLen: len, ..h.nodes[r.p] }), ..h }),
    ensures laid(h0, h1, t, n, r, w, gp, k), itree(h, r) && h.gh[r.p].own != 0 ==> lax(h1, r), h1.nodes[w.p] == h.nodes[w.p], forall|d: u8| #[trigger] kid_at(h1, w.p, d) == kid_at(h, w.p, d),
        forall|i: int| #![trigger bs_at(h1, h1.nodes[r.p].partial, i)] bs_at(h1, h1.nodes[r.p].partial, i) == bs_at(h, h.nodes[r.p].partial, i),
{
    rec_step(h, h1, t, r.p, h1.nodes[r.p]);
    zone_owned(h0, n.p);
    base_step(h0, h, h1, t, n, set![r.p]);
    wpart_step(h0, h, h1, t, n, set![r.p], w, gp);
    rec_same(r.tag, h.nodes[r.p], h1.nodes[r.p]);
    assert forall|d: u8| #![trigger kid_at(h1, r.p, d)] kid_at(h1, r.p, d) == kid_at(h0, n.p, d) by { assert(kid(r.tag, h1.nodes[r.p], d) == kid(r.tag, h.nodes[r.p], d)); assert(kid_at(h, r.p, d) == kid_at(h0, n.p, d)); }
    if itree(h, r) {
        let hl = with_len(h1, r.p, h.nodes[r.p].partialLen);
        assert(hl.nodes =~= h.nodes);
        assert(hl == h);
    }
}
/// The prefix bytes of r change.
pub proof fn cut_bytes(h0: H, h: H, h1: H, t: Ptr, n: Node, r: Node, w: Node, gp: Seq<u8>, k: Seq<u8>, a: u64)
    requires laid(h0, h, t, n, r, w, gp, k), h1 == (H { bytes: h1.bytes, ..h }), upd(h.bytes, h1.bytes, a), h.bytes.contains_key(a), h1.bytes.contains_key(a), h1.bytes[a].owner == h.bytes[a].owner, h.nodes[r.p].partial.arr == Arr::A(a),
    ensures laid(h0, h1, t, n, r, w, gp, k), h1.nodes[w.p] == h.nodes[w.p], forall|d: u8| #[trigger] kid_at(h1, w.p, d) == kid_at(h, w.p, d),
{
    bytes_step(h, h1, t, r.p, a);
    zone_owned(h0, n.p);
    base_step(h0, h, h1, t, n, set![r.p]);
    wpart_step(h0, h, h1, t, n, set![r.p], w, gp);
    assert forall|d: u8| #![trigger kid_at(h1, r.p, d)] kid_at(h1, r.p, d) == kid_at(h0, n.p, d) by { assert(kid_at(h, r.p, d) == kid_at(h0, n.p, d)); }
}
/// r has its new prefix.
pub proof fn cut_start(h0: H, h: H, t: Ptr, n: Node, r: Node, w: Node, gp: Seq<u8>, k: Seq<u8>, c0: u8)
    requires laid(h0, h, t, n, r, w, gp, k), thru(gp, h0.gh[n.p].gp, c0), h0.gh[n.p].gp.len() == gp.len() + 1 + h.nodes[r.p].partialLen,
        forall|i: int| 0 <= i < stored(h.nodes[r.p].partialLen) ==> #[trigger] bs_at(h, h.nodes[r.p].partial, i) == h0.gh[n.p].gp[gp.len() + 1 + i],
    ensures r_start(h0, h, t, n, r, gp, c0),
{
    let g = grec(h, t, gp.push(c0), h0.gh[n.p].gp, h0.gh[n.p].cont);
    let hr = raw(h, r.p, g);
    assert forall|i: int| 0 <= i < stored(h.nodes[r.p].partialLen) implies #[trigger] bs_at(hr, h.nodes[r.p].partial, i) == g.gp[g.sp.len() + i] by { assert(bs_at(h, h.nodes[r.p].partial, i) == h0.gh[n.p].gp[gp.len() + 1 + i]); }
}
/// The leaf for the new key is made.
pub proof fn cut_made(h0: H, h: H, hm: H, t: Ptr, n: Node, r: Node, w: Node, y: Node, key: Slice, k: Seq<u8>, v: Val, gp: Seq<u8>, c0: u8)
    requires laid(h0, h, t, n, r, w, gp, k), r_start(h0, h, t, n, r, gp, c0), arrs(h), keyok(h, key, k), made(h, hm, t, key, v, y),
    ensures ({
        let l = hm.nodes[y.p].leaf;
        let h1 = put_leaf(hm, t, l, k);
        &&& laid(h0, h1, t, n, r, w, gp, k) && r_start(h0, h1, t, n, r, gp, c0) && ypart(h0, h1, t, y, k) && aside(h1, r, w, y)
        &&& h1.nodes[w.p] == h.nodes[w.p] && (forall|d: u8| #[trigger] kid_at(h1, w.p, d) == kid_at(h, w.p, d))
        &&& h1.gh[l].cont.contains_key(k) && h1.gh[l].cont[k].v == v
    }),
{
    let l = hm.nodes[y.p].leaf;
    let h1 = put_leaf(hm, t, l, k);
    let e = Set::<Ptr>::empty();
    laid_ids(h0, h, t, n, r, w, gp, k);
    made_fr(h, hm, t, key, v, y, k);
    assert(stepped(h, h1, t, e));
    assert(h1.gh[l].cont.contains_key(k));
    assert(!h0.nodes.contains_key(y.p) && !h0.nodes.contains_key(l)) by { reveal(fr); }
    base_step(h0, h, h1, t, n, e);
    start_step(h0, h, h1, t, n, e, r, gp, c0);
    rpart_step(h0, h, h1, t, n, e, r);
    wpart_step(h0, h, h1, t, n, e, w, gp);
}
pub proof fn cut_two(h0: H, h: H, h1: H, t: Ptr, n: Node, r: Node, w: Node, w2: Node, y: Node, k: Seq<u8>, gp: Seq<u8>, c0: u8, c: u8)
    requires laid(h0, h, t, n, r, w, gp, k), r_start(h0, h, t, n, r, gp, c0), ypart(h0, h, t, y, k), aside(h, r, w, y), h.nodes[w.p].numChildren == 1, h.nodes[w.p].leaf == 0, forall|d: u8| #[trigger] kid_at(h, w.p, d) == if d == c0 { r } else { nil_node() },
        arrs(h), max_id(h, t) < 0x7fff_ffff_ffff_ffff, added(h, h1, t, w, c, y, w2), thru(gp, k, c), c != c0,
    ensures w2 == w, ({
        let l = h.nodes[y.p].leaf;
        let e = h1.gh[l].cont[k];
        let m = ins(h0, n, k, e);
        let h8 = put(h1, y.p, grec(h1, t, gp.push(c), k, map![k => e]));
        let h9 = put(h8, r.p, grec(h8, t, gp.push(c0), h0.gh[n.p].gp, h0.gh[n.p].cont));
        let h10 = put(h9, w.p, grec(h9, t, h0.gh[n.p].sp, gp, m));
        h1.nodes[y.p].leaf == l && h1.gh[l] == h.gh[l] && edit(h0, h10, t, n, w, m) && watched(h0, h10, t, n, w, set![k])
    }),
{
    laid_add(h0, h, h1, t, n, r, w, gp, k, c, y, w2);
    ypart_step(h0, h, h1, t, set![w.p], y, k);
    start_step(h0, h, h1, t, n, set![w.p], r, gp, c0);
    fork_both(h0, h1, t, n, r, w, y, gp, k, c0, c);
}
pub proof fn cut_on(h0: H, h: H, h1: H, t: Ptr, n: Node, r: Node, w: Node, y: Node, k: Seq<u8>, c0: u8)
    requires laid(h0, h, t, n, r, w, k, k), r_start(h0, h, t, n, r, k, c0), ypart(h0, h, t, y, k), aside(h, r, w, y), h.nodes[w.p].numChildren == 1, forall|d: u8| #[trigger] kid_at(h, w.p, d) == if d == c0 { r } else { nil_node() },
        h1 == (H { nodes: h.nodes.insert(w.p, Rec { leaf: h.nodes[y.p].leaf, ..h.nodes[w.p] }), ..h }),
    ensures ({
        let l = h.nodes[y.p].leaf;
        let e = h1.gh[l].cont[k];
        let m = ins(h0, n, k, e);
        let h9 = put(h1, r.p, grec(h1, t, k.push(c0), h0.gh[n.p].gp, h0.gh[n.p].cont));
        let h10 = put(h9, w.p, grec(h9, t, h0.gh[n.p].sp, k, m));
        edit(h0, h10, t, n, w, m) && watched(h0, h10, t, n, w, set![k])
    }),
{
    let l = h.nodes[y.p].leaf;
    laid_leaf(h0, h, h1, t, n, r, w, k, k, l);
    ypart_step(h0, h, h1, t, set![w.p], y, k);
    start_step(h0, h, h1, t, n, set![w.p], r, k, c0);
    fork_leaf(h0, h1, t, n, r, w, l, k, c0);
}

// ---- what the code needs along the way ----

pub open spec fn made_h(hm: H, t: Ptr, y: Node, k: Seq<u8>) -> H { put_leaf(hm, t, hm.nodes[y.p].leaf, k) }
/// A new leaf was made, then the node was opened.
pub proof fn made_open(h0: H, hm: H, ha: H, h2: H, t: Ptr, n: Node, r: Node, y: Node, key: Slice, k: Seq<u8>, v: Val)
    requires start(h0, t, n), keyok(h0, key, k), made(h0, hm, t, key, v, y), arrs(hm), arrs(ha), tracked1(made_h(hm, t, y, k), ha, t, n), wrote(ha, h2, t, n, false, r),
    ensures ({
        let h1 = made_h(hm, t, y, k);
        let l = hm.nodes[y.p].leaf;
        &&& opened(h1, h2, t, n, r) && arrs(h1) && fr(h0, h1, Set::empty()) && side(h0, h1, t) && shared(h1) && trk(h1, t) == trk(h0, t)
        &&& bud(h1, t, y, k) && h1.gh[l].cont.contains_key(k) && h1.gh[l].cont[k] == ent_of(hm, l) && ent_of(hm, l).v == v
        &&& base(h0, h2, t, n) && headed(h2, t, r) && (forall|d: u8| #[trigger] kid_at(h2, r.p, d) == kid_at(h0, n.p, d)) && ctxn(h2, t)
        &&& h2.nodes[r.p].partialLen == h0.nodes[n.p].partialLen && h2.nodes[r.p].numChildren == h0.nodes[n.p].numChildren
        &&& h2.nodes[l].key == key && h2.nodes[y.p].leaf == l && keyok(h2, key, k) && h2.nodes[r.p].leaf == h0.nodes[n.p].leaf
    }),
{
    let l = hm.nodes[y.p].leaf;
    let h1 = made_h(hm, t, y, k);
    made_fr(h0, hm, t, key, v, y, k);
    assert(h1.gh[l].cont.contains_key(k));
    assert(bud(h1, t, y, k));
    unit_kept(h0, h1, t, n);
    open2(h1, ha, h2, t, n, r);
    assert(h1.gh[n.p] == h0.gh[n.p] && h1.gh.contains_key(n.p)) by { reveal(fr); }
    open_step(h0, h1, h2, t, n, r);
    fact_inner(h0, n.p);
    assert(!one(h0, n.p).contains(y.p) && !one(h0, n.p).contains(l));
    ypart_step(h0, h1, h2, t, one(h0, n.p), y, k);
    assert(h2.nodes[l] == h1.nodes[l]) by { reveal(fr); }
    keyok_fr(h0, h2, one(h0, n.p), key, k);
    assert forall|d: u8| #[trigger] kid_at(h2, r.p, d) == kid_at(h0, n.p, d) by { }
}
/// The leaf of n can still be read.
pub proof fn read_leaf(h0: H, h: H, t: Ptr, n: Node)
    requires base(h0, h, t, n), h0.nodes[n.p].leaf != 0,
    ensures ({ let l = h0.nodes[n.p].leaf; h.nodes.contains_key(l) && h.nodes[l] == h0.nodes[l] && bs(h, h0.nodes[l].key) == h0.gh[n.p].gp && h0.nodes[l].key.len == h0.gh[n.p].gp.len() }),
{
    let l = h0.nodes[n.p].leaf;
    leaf_in(h0, n.p);
    leaf_zone(h0, n.p);
    tree_ok(h0, l);
    ok_l(h0, l);
    zone_owned(h0, n.p);
    reveal(fr);
    assert(l != n.p);
    assert(bs(h, h0.nodes[l].key) =~= bs(h0, h0.nodes[l].key));
}
pub proof fn read_key(h0: H, h: H, t: Ptr, n: Node, key: Slice, k: Seq<u8>)
    requires base(h0, h, t, n), keyok(h0, key, k),
    ensures keyok(h, key, k), bs(h, key) == k, key.len == k.len(),
{ keyok_fr(h0, h, one(h0, n.p), key, k); assert(bs(h0, key).len() == key.len); }
pub proof fn bud_key(h: H, t: Ptr, y: Node, k: Seq<u8>)
    requires bud(h, t, y, k),
    ensures ({ let l = h.nodes[y.p].leaf; bs(h, h.nodes[l].key) == k && h.nodes[l].key.len == k.len() }),
{
    let l = h.nodes[y.p].leaf;
    good_self(h, l);
    ok_l(h, l);
    assert(bs(h, h.nodes[l].key).len() == h.nodes[l].key.len);
}
/// Copying into a prefix.
pub proof fn wrote_pre(h: H, p: Slice, v: Seq<u8>, a: u64)
    requires p.arr == Arr::A(a), h.bytes.contains_key(a), swf(p), v.len() <= p.len, alens(h),
    ensures ({
        let h1 = write_b(h, p, v);
        &&& h1 == (H { bytes: h1.bytes, ..h }) && upd(h.bytes, h1.bytes, a) && h1.bytes.contains_key(a) && h1.bytes[a].owner == h.bytes[a].owner
        &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] bs_at(h1, p, i) == v[i]
    }),
{ }
/// A new node was made for the shared part, then the node was opened.
pub proof fn cut_opens(h0: H, h1: H, h2: H, h3: H, ha: H, h4: H, t: Ptr, n: Node, r: Node, w: Node, gp: Seq<u8>, a: u64)
    requires start(h0, t, n), fresh_w(h0, h1, h2, h3, t, w, h2.nodes[w.p].partialLen, a), arrs(h3), arrs(ha), tracked1(h3, ha, t, n), wrote(ha, h4, t, n, false, r),
        pfx(h0.gh[n.p].sp, gp), gp.len() < 0x1_0000_0000, gp.len() == h0.gh[n.p].sp.len() + h2.nodes[w.p].partialLen,
        forall|i: int| 0 <= i < stored(h2.nodes[w.p].partialLen) ==> #[trigger] bs_at(h3, h2.nodes[w.p].partial, i) == gp[h0.gh[n.p].sp.len() + i],
    ensures opened(h3, h4, t, n, r),
{
    start_unit(h0, t, n);
    assert(fr(h0, h0, one(h0, n.p))) by { reveal(fr); }
    assert(side(h0, h0, t));
    w_step(h0, h0, h1, h2, h3, t, n, w, gp, a);
    unit_kept(h0, h3, t, n);
    open2(h3, ha, h4, t, n, r);
}
/// The text of a leaf's key stays.
pub proof fn keep_text(h: H, h1: H, s: Set<Ptr>, p: Ptr)
    requires okl(h, p), fr(h, h1, s),
    ensures bs(h1, h.nodes[p].key) == bs(h, h.nodes[p].key),
{
    reveal(fr);
    let a = h.nodes[p].key.arr->A_0;
    assert(h1.bytes[a].data == h.bytes[a].data);
    assert(bs(h1, h.nodes[p].key) =~= bs(h, h.nodes[p].key));
}
/// The key goes below a child.
pub proof fn ins_kid(h0: H, h1: H, ha: H, h2: H, h3: H, t: Ptr, n: Node, r: Node, c: u8, nc: Node, k: Seq<u8>, e: Ent)
    requires start(h0, t, n), kid_at(h0, n.p, c).tag != Tag::Nil, thru(h0.gh[n.p].gp, k, c), nc.tag != Tag::Nil,
        edit(h0, h1, t, kid_at(h0, n.p, c), nc, ins(h0, kid_at(h0, n.p, c), k, e)), watched(h0, h1, t, kid_at(h0, n.p, c), nc, set![k]),
        arrs(h1), arrs(ha), tracked1(h1, ha, t, n), wrote(ha, h2, t, n, false, r),
        h3 == (H { nodes: h2.nodes.insert(r.p, Rec { children: h2.nodes[r.p].children.update(slot(n.tag, h0.nodes[n.p], c), nc), ..h2.nodes[r.p] }), ..h2 }),
    ensures ({
        let m = ins(h0, n, k, e);
        let h4 = put(h3, r.p, grec(h3, t, h0.gh[n.p].sp, h0.gh[n.p].gp, m));
        edit(h0, h4, t, n, r, m) && watched(h0, h4, t, n, r, set![k])
    }),
{
    let y = kid_at(h0, n.p, c);
    let mc = ins(h0, y, k, e);
    let m = ins(h0, n, k, e);
    kid_mid(h0, h1, t, n, c, nc, mc);
    open2(h1, ha, h2, t, n, r);
    assert forall|x: Seq<u8>| #![trigger m.contains_key(x)] look(m, x) == look_kid(h0, n.p, c, mc, x) by {
        if thru(h0.gh[n.p].gp, x, c) { step_in(h0, n.p, x); }
    }
    redo_kid(h0, h1, h2, h3, t, n, r, c, nc, mc, m);
    let h4 = put(h3, r.p, grec(h3, t, h0.gh[n.p].sp, h0.gh[n.p].gp, m));
    redo_watch(h0, h1, h2, h4, t, n, r, c, nc, set![k]);
}

// ---- the contract of an insertion ----

pub open spec fn can_ins(h: H, t: Ptr, n: Node, key: Slice, k: Seq<u8>, depth: int) -> bool {
    &&& start(h, t, n) && keyok(h, key, k) && depth == h.gh[n.p].sp.len() && pfx(h.gh[n.p].sp, k)
    &&& (h.m_RadixTree[tree_of(h, t)].size == 0 <==> !some_key(h.gh[n.p].cont))
}
pub open spec fn put_in(h0: H, h1: H, t: Ptr, n: Node, r: Node, k: Seq<u8>, v: Val) -> bool {
    let e = h1.gh[r.p].cont[k];
    r.tag != Tag::Nil && e.v == v && edit(h0, h1, t, n, r, ins(h0, n, k, e)) && watched(h0, h1, t, n, r, set![k])
}
pub proof fn put_in_e(h0: H, h1: H, t: Ptr, n: Node, r: Node, k: Seq<u8>, v: Val, e: Ent)
    requires r.tag != Tag::Nil, e.v == v, edit(h0, h1, t, n, r, ins(h0, n, k, e)), watched(h0, h1, t, n, r, set![k]),
    ensures put_in(h0, h1, t, n, r, k, v),
{ }
/// What is known of the node at the start.
pub proof fn ins_facts(h: H, t: Ptr, n: Node, key: Slice, k: Seq<u8>, depth: int)
    requires can_ins(h, t, n, key, k, depth),
    ensures ({
        let r = h.nodes[n.p];
        let g = h.gh[n.p];
        &&& inner(n.tag) && kind_of(n.p) == n.tag && n.p != 0 && h.nodes.contains_key(n.p) && nwf(n.tag, r) && txok(h, t) && ctxn(h, t) && bs(h, key) == k && key.len == k.len() && k.len() < 0x1_0000_0000
        &&& pfx(g.sp, g.gp) && g.gp.len() < 0x1_0000_0000 && depth <= k.len() && depth <= g.gp.len()
        &&& (some_key(g.cont) ==> own_pre(h, n.p) && (r.numChildren > 0 || r.leaf != 0))
        &&& (!some_key(g.cont) ==> r.numChildren == 0 && r.leaf == 0)
        &&& (r.numChildren > 0 ==> g.gp.len() == depth + r.partialLen && forall|i: int| 0 <= i < stored(r.partialLen) ==> #[trigger] bs_at(h, r.partial, i) == g.gp[depth + i])
        &&& (r.leaf != 0 ==> h.nodes.contains_key(r.leaf) && kind_of(r.leaf) == Tag::Leaf && bs(h, h.nodes[r.leaf].key) == g.gp && h.nodes[r.leaf].key.len == g.gp.len() && look(g.cont, g.gp) == Some(ent_of(h, r.leaf)))
        &&& (r.leaf == 0 ==> !g.cont.contains_key(g.gp))
        &&& (r.numChildren == 0 ==> forall|x: Seq<u8>| #[trigger] g.cont.contains_key(x) ==> x == g.gp)
        &&& (!pfx(g.gp, k) ==> !g.cont.contains_key(k))
        &&& (pfx(g.gp, k) && g.gp.len() >= k.len() ==> g.gp == k)
        &&& 0 <= depth_left(h, n)
    }),
{
    let g = h.gh[n.p];
    fact_inner(h, n.p);
    assert(bs(h, key).len() == key.len);
    assert(pfx(g.gp, k) && g.gp.len() >= k.len() ==> g.gp =~= k);
    if h.nodes[n.p].leaf != 0 { leaf_in(h, n.p); assert(g.cont.contains_key(g.gp)); }
    else if g.cont.contains_key(g.gp) { cont_pfx(h, n.p, g.gp); }
    if h.nodes[n.p].numChildren > 0 { kid_some(h, n.p); } else { cont_none(h, n.p); }
    if some_key(g.cont) { let x = choose|x: Seq<u8>| g.cont.contains_key(x); cont_pfx(h, n.p, x); }
    if g.cont.contains_key(k) { cont_pfx(h, n.p, k); }
}
/// The child below which the key belongs.
pub proof fn ins_down(h: H, t: Ptr, n: Node, key: Slice, k: Seq<u8>, depth: int, c: u8)
    requires can_ins(h, t, n, key, k, depth), thru(h.gh[n.p].gp, k, c),
    ensures ({
        let y = kid_at(h, n.p, c);
        if y.tag != Tag::Nil { can_ins(h, t, y, key, k, h.gh[n.p].gp.len() as int + 1) && look(h.gh[n.p].cont, k) == look(h.gh[y.p].cont, k) && 0 <= depth_left(h, y) < depth_left(h, n) }
        else { !h.gh[n.p].cont.contains_key(k) }
    }),
{
    let y = kid_at(h, n.p, c);
    fact_inner(h, n.p);
    if y.tag != Tag::Nil {
        start_kid(h, t, n, c);
        step_in(h, n.p, k);
        assert(ok_kid(h, n.p, c));
        num_kids(n.tag, h.nodes[n.p]);
        kid_some(h, n.p);
        fact_inner(h, y.p);
    } else { not_in(h, n.p, k); }
}

// Stacks of nodes whose keys are still to come.

pub open spec fn entry(h: H, n: Node) -> bool { (n.tag == Tag::Leaf || inner(n.tag)) && kind_of(n.p) == n.tag && tree(h, n.p) }
pub open spec fn up(u: bool, a: Seq<u8>, b: Seq<u8>) -> bool { a != b && if u { lt(a, b) } else { lt(b, a) } }
/// Every key of the first map comes before every key of the second.
pub open spec fn ahead(u: bool, m: Map<Seq<u8>, Ent>, n: Map<Seq<u8>, Ent>) -> bool {
    forall|a: Seq<u8>, b: Seq<u8>| #[trigger] m.contains_key(a) && #[trigger] n.contains_key(b) ==> up(u, a, b)
}
/// The keys below the nodes of a stack.
#[verifier::opaque]
pub open spec fn und(h: H, s: Seq<Node>) -> Map<Seq<u8>, Ent>
    decreases s.len(),
{
    if s.len() == 0 { Map::empty() } else { und(h, s.drop_last()).union_prefer_right(cont(h, s.last())) }
}
/// The keys of a node come before all keys further down the stack.
#[verifier::opaque]
pub open spec fn tw(h: H, s: Seq<Node>, u: bool) -> bool
    decreases s.len(),
{
    s.len() == 0 || (tw(h, s.drop_last(), u) && entry(h, s.last()) && ahead(u, cont(h, s.last()), und(h, s.drop_last())))
}
pub open spec fn pw(n: nat) -> nat
    decreases n,
{ if n == 0 { 1 } else { 300 * pw((n - 1) as nat) } }
pub open spec fn dl(h: H, n: Node) -> nat { if 0x1_0000_0001 < h.gh[n.p].sp.len() { 0 } else { (0x1_0000_0001 - h.gh[n.p].sp.len()) as nat } }
/// More than the number of nodes below a node can be.
pub open spec fn wgt(h: H, n: Node) -> nat { if n.tag == Tag::Leaf { 1 } else { pw(dl(h, n)) } }
#[verifier::opaque]
pub open spec fn wt(h: H, s: Seq<Node>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { wt(h, s.drop_last()) + wgt(h, s.last()) } }

pub proof fn pw_pos(n: nat)
    ensures pw(n) >= 1,
    decreases n,
{ if n > 0 { pw_pos((n - 1) as nat); } }
pub proof fn pw_mono(a: nat, b: nat)
    requires a <= b,
    ensures pw(a) <= pw(b),
    decreases b,
{ if a < b { pw_mono(a, (b - 1) as nat); pw_pos((b - 1) as nat); } }

pub open spec fn und2(h: H, s: Seq<Node>, n: Node, k: Seq<u8>) -> Option<Ent> { if cont(h, n).contains_key(k) { look(cont(h, n), k) } else { look(und(h, s), k) } }
pub proof fn stk_push(h: H, s: Seq<Node>, n: Node, u: bool)
    ensures
        forall|k: Seq<u8>| #![trigger und(h, s.push(n)).contains_key(k)] look(und(h, s.push(n)), k) == und2(h, s, n, k),
        tw(h, s.push(n), u) == (tw(h, s, u) && entry(h, n) && ahead(u, cont(h, n), und(h, s))),
        wt(h, s.push(n)) == wt(h, s) + wgt(h, n),
{
    reveal_with_fuel(und, 2);
    reveal_with_fuel(tw, 2);
    reveal_with_fuel(wt, 2);
    assert(s.push(n).drop_last() =~= s);
}
pub proof fn stk_none(h: H, u: bool)
    ensures tw(h, Seq::empty(), u), forall|k: Seq<u8>| !#[trigger] und(h, Seq::empty()).contains_key(k), wt(h, Seq::empty()) == 0,
{
    reveal_with_fuel(und, 1);
    reveal_with_fuel(tw, 1);
    reveal_with_fuel(wt, 1);
}
pub proof fn stk_pop(h: H, s: Seq<Node>, u: bool)
    requires s.len() > 0,
    ensures ({
        let s0 = s.drop_last();
        let n = s.last();
        &&& s == s0.push(n)
        &&& forall|k: Seq<u8>| #![trigger und(h, s).contains_key(k)] look(und(h, s), k) == und2(h, s0, n, k)
        &&& tw(h, s, u) == (tw(h, s0, u) && entry(h, n) && ahead(u, cont(h, n), und(h, s0)))
        &&& wt(h, s) == wt(h, s0) + wgt(h, n)
    }),
{
    assert(s =~= s.drop_last().push(s.last()));
    stk_push(h, s.drop_last(), s.last(), u);
}
pub proof fn stk_one(h: H, n: Node, u: bool)
    requires entry(h, n),
    ensures tw(h, seq![n], u), und(h, seq![n]) =~= cont(h, n),
{
    stk_none(h, u);
    assert(seq![n] =~= Seq::empty().push(n));
    stk_push(h, Seq::empty(), n, u);
    assert forall|k: Seq<u8>| und(h, seq![n]).contains_key(k) == cont(h, n).contains_key(k) && (cont(h, n).contains_key(k) ==> und(h, seq![n])[k] == cont(h, n)[k]) by {
        assert(look(und(h, seq![n]), k) == und2(h, Seq::empty(), n, k));
    }
}
/// Nothing that trees consist of changed.
pub open spec fn calm(h0: H, h1: H) -> bool { fr(h0, h1, Set::empty()) && h1.gh == h0.gh && h1.gx == h0.gx }
pub proof fn stk_calm(h0: H, h1: H, s: Seq<Node>, u: bool)
    requires calm(h0, h1),
    ensures tw(h0, s, u) ==> tw(h1, s, u), und(h1, s) == und(h0, s), wt(h1, s) == wt(h0, s),
    decreases s.len(),
{
    if s.len() > 0 {
        stk_calm(h0, h1, s.drop_last(), u);
        stk_pop(h0, s, u);
        stk_pop(h1, s, u);
        reveal_with_fuel(und, 1);
        if tw(h0, s, u) { tree_quiet(h0, h1, s.last().p); }
    } else {
        assert(s =~= Seq::empty());
        stk_none(h0, u);
        stk_none(h1, u);
        reveal_with_fuel(und, 1);
    }
}

// ---- replacing a node by its children ----

/// The key is one of those already moved to the stack.
pub open spec fn took(h: H, p: Ptr, k: Seq<u8>, b: int, u: bool) -> bool {
    let g = h.gh[p].gp;
    h.gh[p].cont.contains_key(k) && if u { k != g && k[g.len() as int] >= b } else { k == g || k[g.len() as int] < b }
}
pub open spec fn und3(h: H, s0: Seq<Node>, p: Ptr, b: int, u: bool, k: Seq<u8>) -> Option<Ent> { if took(h, p, k, b, u) { look(h.gh[p].cont, k) } else { look(und(h, s0), k) } }
pub open spec fn room(p: Ptr, b: int, u: bool) -> int { if u { 256 - b } else { b + 1 } }
/// s is s0 with the children for bytes from b on (for bytes up to b, and the leaf) on top.
pub open spec fn pushed(h: H, s0: Seq<Node>, s: Seq<Node>, n: Node, b: int, u: bool) -> bool {
    &&& tw(h, s, u) && wt(h, s) <= wt(h, s0) + room(n.p, b, u) * pw((dl(h, n) - 1) as nat)
    &&& forall|k: Seq<u8>| #![trigger und(h, s).contains_key(k)] look(und(h, s), k) == und3(h, s0, n.p, b, u, k)
}
/// The node was just taken from the stack.
pub open spec fn popped(h: H, s0: Seq<Node>, n: Node, u: bool) -> bool {
    inner(n.tag) && kind_of(n.p) == n.tag && tree(h, n.p) && tw(h, s0, u) && ahead(u, cont(h, n), und(h, s0))
}
pub proof fn dl_pos(h: H, n: Node)
    requires inner(n.tag), kind_of(n.p) == n.tag, tree(h, n.p),
    ensures dl(h, n) >= 1, wgt(h, n) == 300 * pw((dl(h, n) - 1) as nat), pw((dl(h, n) - 1) as nat) >= 1,
{
    fact_inner(h, n.p);
    pw_pos((dl(h, n) - 1) as nat);
}
pub proof fn push_start(h: H, s0: Seq<Node>, n: Node, u: bool)
    requires popped(h, s0, n, u), !u ==> h.nodes[n.p].leaf == 0,
    ensures pushed(h, s0, s0, n, if u { 256 } else { 0 }, u),
{
    dl_pos(h, n);
    let b = if u { 256 } else { 0int };
    assert forall|k: Seq<u8>| #![trigger und(h, s0).contains_key(k)] look(und(h, s0), k) == und3(h, s0, n.p, b, u, k) by {
        if took(h, n.p, k, b, u) { cont_pfx(h, n.p, k); }
    }
    assert(room(n.p, b, u) * pw((dl(h, n) - 1) as nat) >= 0) by (nonlinear_arith)
        requires room(n.p, b, u) >= 0, pw((dl(h, n) - 1) as nat) >= 1;
}
/// The node's own leaf goes first when the order is descending.
pub proof fn push_leaf(h: H, s0: Seq<Node>, n: Node)
    requires popped(h, s0, n, false), h.nodes[n.p].leaf != 0,
    ensures pushed(h, s0, s0.push(Node { tag: Tag::Leaf, p: h.nodes[n.p].leaf }), n, 0, false),
{
    let l = Node { tag: Tag::Leaf, p: h.nodes[n.p].leaf };
    let g = h.gh[n.p].gp;
    let s = s0.push(l);
    dl_pos(h, n);
    leaf_in(h, n.p);
    tree_ok(h, l.p);
    ok_l(h, l.p);
    stk_push(h, s0, l, false);
    assert(cont(h, n).contains_key(g));
    assert(ahead(false, cont(h, l), und(h, s0))) by {
        assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] cont(h, l).contains_key(a) && #[trigger] und(h, s0).contains_key(b) implies up(false, a, b) by { assert(cont(h, n).contains_key(a)); }
    }
    assert forall|k: Seq<u8>| #![trigger und(h, s).contains_key(k)] look(und(h, s), k) == und3(h, s0, n.p, 0, false, k) by {
        assert(look(und(h, s), k) == und2(h, s0, l, k));
        assert(cont(h, l).contains_key(k) <==> k == g);
    }
}
pub proof fn push_skip(h: H, s0: Seq<Node>, s: Seq<Node>, n: Node, b: int, c: int, u: bool)
    requires popped(h, s0, n, u), pushed(h, s0, s, n, b, u), 0 <= b <= 256, 0 <= c <= 256,
        if u { c <= b } else { b <= c },
        forall|d: u8| (if u { c <= d < b } else { b <= d < c }) ==> (#[trigger] kid_at(h, n.p, d)).tag == Tag::Nil,
    ensures pushed(h, s0, s, n, c, u),
{
    dl_pos(h, n);
    let w = pw((dl(h, n) - 1) as nat);
    assert(room(n.p, b, u) * w <= room(n.p, c, u) * w) by (nonlinear_arith)
        requires room(n.p, b, u) <= room(n.p, c, u), w >= 1;
    assert forall|k: Seq<u8>| #![trigger und(h, s).contains_key(k)] look(und(h, s), k) == und3(h, s0, n.p, c, u, k) by {
        assert(look(und(h, s), k) == und3(h, s0, n.p, b, u, k));
        if cont(h, n).contains_key(k) { cont_pfx(h, n.p, k); }
    }
}
pub proof fn push_kid(h: H, s0: Seq<Node>, s: Seq<Node>, n: Node, b: int, c: u8, u: bool)
    requires popped(h, s0, n, u), pushed(h, s0, s, n, b, u), 0 <= b <= 256, kid_at(h, n.p, c).tag != Tag::Nil,
        if u { c < b } else { b <= c },
        forall|d: u8| (if u { c < d < b } else { b <= d < c }) ==> (#[trigger] kid_at(h, n.p, d)).tag == Tag::Nil,
    ensures pushed(h, s0, s.push(kid_at(h, n.p, c)), n, if u { c as int } else { c + 1 }, u),
{
    let y = kid_at(h, n.p, c);
    let b0 = if u { c + 1 } else { c as int };
    let b1 = if u { c as int } else { c + 1 };
    let s1 = s.push(y);
    let g = h.gh[n.p].gp;
    push_skip(h, s0, s, n, b, b0, u);
    kid_tree(h, n.p, c);
    fact_inner(h, n.p);
    fact_inner(h, y.p);
    dl_pos(h, n);
    dl_pos(h, y);
    let w = pw((dl(h, n) - 1) as nat);
    assert(wgt(h, y) <= w) by { pw_mono(dl(h, y), (dl(h, n) - 1) as nat); }
    assert(room(n.p, b1, u) * w == room(n.p, b0, u) * w + w) by (nonlinear_arith)
        requires room(n.p, b1, u) == room(n.p, b0, u) + 1;
    stk_push(h, s, y, u);
    assert(ahead(u, cont(h, y), und(h, s))) by {
        assert forall|a: Seq<u8>, k: Seq<u8>| #[trigger] cont(h, y).contains_key(a) && #[trigger] und(h, s).contains_key(k) implies up(u, a, k) by {
            kid_in(h, n.p, c, a);
            assert(look(und(h, s), k) == und3(h, s0, n.p, b0, u, k));
            if took(h, n.p, k, b0, u) {
                cont_pfx(h, n.p, k);
                if k == g { lt_ext(g, a); } else if u { lt_div(g, a, k); } else { lt_div(g, k, a); }
            } else { assert(und(h, s0).contains_key(k)); }
        }
    }
    assert forall|k: Seq<u8>| #![trigger und(h, s1).contains_key(k)] look(und(h, s1), k) == und3(h, s0, n.p, b1, u, k) by {
        assert(look(und(h, s1), k) == und2(h, s, y, k));
        assert(und(h, s).contains_key(k) || true);
        assert(look(und(h, s), k) == und3(h, s0, n.p, b0, u, k));
        if cont(h, y).contains_key(k) { kid_in(h, n.p, c, k); }
        else if took(h, n.p, k, b1, u) { cont_pfx(h, n.p, k); }
    }
}
/// Slots of small nodes in order.
pub open spec fn from_slot(r: Rec, i: int) -> int { if 0 <= i < r.numChildren { r.keys[i] as int } else { 256 } }
pub proof fn slot_gap(h: H, p: Ptr, i: int)
    requires nwf(kind_of(p), h.nodes[p]), small(kind_of(p)), 0 <= i < h.nodes[p].numChildren,
    ensures ({
        let r = h.nodes[p];
        &&& kid_at(h, p, r.keys[i]) == r.children[i] && r.children[i].tag != Tag::Nil
        &&& r.keys[i] < from_slot(r, i + 1)
        &&& forall|d: u8| r.keys[i] < d < from_slot(r, i + 1) ==> (#[trigger] kid_at(h, p, d)).tag == Tag::Nil
        &&& i == 0 ==> forall|d: u8| d < r.keys[0] ==> (#[trigger] kid_at(h, p, d)).tag == Tag::Nil
        &&& i == 0 ==> r.keys[i] >= 0
    }),
{
    let r = h.nodes[p];
    slot_small(kind_of(p), r, i);
    reveal(sorted);
    assert forall|d: u8| (r.keys[i] < d < from_slot(r, i + 1)) || (i == 0 && d < r.keys[0]) implies (#[trigger] kid_at(h, p, d)).tag == Tag::Nil by {
        assert forall|j: int| 0 <= j < r.numChildren implies #[trigger] r.keys[j] != d by {
            if j < i { assert(r.keys[j] < r.keys[i]); }
            if j > i + 1 { assert(r.keys[i + 1] < r.keys[j]); }
            if j > 0 && i == 0 { assert(r.keys[0] < r.keys[j]); }
        }
        slot_none(kind_of(p), r, d);
    }
}
/// All children are on the stack.
pub proof fn push_end(h: H, s0: Seq<Node>, s: Seq<Node>, n: Node)
    requires popped(h, s0, n, true), pushed(h, s0, s, n, 0, true),
    ensures wt(h, s) < wt(h, s0) + wgt(h, n),
        forall|k: Seq<u8>| #![trigger und(h, s).contains_key(k)] look(und(h, s), k) == (if cont(h, n).contains_key(k) && k != h.gh[n.p].gp { look(cont(h, n), k) } else { look(und(h, s0), k) }),
{
    dl_pos(h, n);
    assert forall|k: Seq<u8>| #![trigger und(h, s).contains_key(k)] look(und(h, s), k) == (if cont(h, n).contains_key(k) && k != h.gh[n.p].gp { look(cont(h, n), k) } else { look(und(h, s0), k) }) by {
        assert(look(und(h, s), k) == und3(h, s0, n.p, 0, true, k));
    }
}
pub proof fn push_end_r(h: H, s0: Seq<Node>, s: Seq<Node>, n: Node)
    requires popped(h, s0, n, false), pushed(h, s0, s, n, 256, false),
    ensures wt(h, s) < wt(h, s0) + wgt(h, n), forall|k: Seq<u8>| #![trigger und(h, s).contains_key(k)] look(und(h, s), k) == und2(h, s0, n, k),
{
    dl_pos(h, n);
    assert forall|k: Seq<u8>| #![trigger und(h, s).contains_key(k)] look(und(h, s), k) == und2(h, s0, n, k) by {
        assert(look(und(h, s), k) == und3(h, s0, n.p, 256, false, k));
        if cont(h, n).contains_key(k) { cont_pfx(h, n.p, k); }
    }
}

//@ rename-path Borrow => VxBorrow
//@ rename-method borrow/0 => vx_borrow
//@ module bv::indexed
//@ mod bv::indexed
broadcast use {group_wbit, vstd::std_specs::hash::group_hash_axioms};
/// the words an index addresses
pub open spec fn ix_end(i: BitVecValueIndex) -> int { i.index as int + nw(i.width as int) }
pub open spec fn ix_words(store: Seq<u64>, i: BitVecValueIndex) -> Seq<u64> { store.subrange(i.index as int, ix_end(i)) }
pub open spec fn ix_in(store: Seq<u64>, i: BitVecValueIndex) -> bool { ix_end(i) <= store.len() }
pub open spec fn ix_apart(a: BitVecValueIndex, b: BitVecValueIndex) -> bool { ix_end(a) <= b.index || ix_end(b) <= a.index }
pub open spec fn ix_splice(store: Seq<u64>, i: BitVecValueIndex, w: Seq<u64>) -> Seq<u64> {
    store.subrange(0, i.index as int) + w + store.subrange(ix_end(i), store.len() as int)
}
//@ fn impl PartialEq for BitVecValueIndex::eq
//@ props C13
//@ ensures
r == (self_.width == other.width && self_.index == other.index),
//@ fn impl Hash for BitVecValueIndex::hash
//@ props C13
//@ ensures
final(state).log() == old(state).log() + (hash_u32(self_.width) + hash_u32(self_.index)),
//@ ghost end
proof { assert(state.log() =~= old(state).log() + (hash_u32(self_.width) + hash_u32(self_.index))); }
//@ fn BitVecValueIndex::new
//@ props C13 C14
//@ ensures
r.index == index, r.width == width,
//@ fn BitVecValueIndex::words
//@ props C14
//@ ensures
r == nw(self.width as int),
//@ fn BitVecValueIndex::to_range
//@ props C14
//@ ensures
r.start == self.index, r.end == ix_end(*self),
//@ fn BitVecValueIndex::width
//@ props C14
//@ ensures
r == self.width,
//@ fn move_range
//@ props C14
//@ requires
offset <= rng.start, offset <= rng.end,
//@ ensures
r.start == rng.start - offset, r.end == rng.end - offset,
//@ fn split_borrow_1
//@ props C14
//@ requires
dst.start <= dst.end <= old(data)@.len(), src.start <= src.end <= old(data)@.len(), src.end <= dst.start || dst.end <= src.start,
//@ ensures
r.0@ == old(data)@.subrange(dst.start as int, dst.end as int), r.1@ == old(data)@.subrange(src.start as int, src.end as int),
final(data)@ == old(data)@.subrange(0, dst.start as int) + final(r.0)@ + old(data)@.subrange(dst.end as int, old(data)@.len() as int),
//@ fn split_borrow_2
//@ props C14
//@ requires
dst.start <= dst.end <= old(data)@.len(), src_a.start <= src_a.end <= old(data)@.len(), src_b.start <= src_b.end <= old(data)@.len(),
src_a.end <= dst.start || dst.end <= src_a.start, src_b.end <= dst.start || dst.end <= src_b.start,
//@ ensures
r.0@ == old(data)@.subrange(dst.start as int, dst.end as int),
r.1@ == old(data)@.subrange(src_a.start as int, src_a.end as int), r.2@ == old(data)@.subrange(src_b.start as int, src_b.end as int),
final(data)@ == old(data)@.subrange(0, dst.start as int) + final(r.0)@ + old(data)@.subrange(dst.end as int, old(data)@.len() as int),
//@ trait IndexToRef
    spec fn gr_req(self, index: I) -> bool;
    spec fn gr_post(self, index: I, r: O) -> bool;
//@ fn IndexToRef::get_ref
//@ requires
self.gr_req(index),
//@ ensures
self.gr_post(index, r),
//@ trait IndexToMutRef
    spec fn gm_req(self, index: I) -> bool;
    #[verifier::prophetic]
    spec fn gm_post(self, index: I, r: O) -> bool;
//@ fn IndexToMutRef::get_mut_ref
//@ requires
self.gm_req(index),
//@ ensures
self.gm_post(index, r),
//@ impl impl IndexToRef<I,BitVecValueRef> for &[Word]
    open spec fn gr_req(self, index: I) -> bool { ix_in(self@, index.vx_b()) }
    open spec fn gr_post(self, index: I, r: BitVecValueRef<'a>) -> bool {
        r.width == index.vx_b().width && r.words@ == ix_words(self@, index.vx_b())
    }
//@ fn impl IndexToRef<I,BitVecValueRef> for &[Word]::get_ref
//@ props C14 C13
//@ impl impl IndexToRef<(I,I),(BitVecValueRef,BitVecValueRef)> for &[Word]
    open spec fn gr_req(self, index: (I, I)) -> bool { ix_in(self@, index.0.vx_b()) && ix_in(self@, index.1.vx_b()) }
    open spec fn gr_post(self, index: (I, I), r: (BitVecValueRef<'a>, BitVecValueRef<'a>)) -> bool {
        r.0.width == index.0.vx_b().width && r.0.words@ == ix_words(self@, index.0.vx_b())
        && r.1.width == index.1.vx_b().width && r.1.words@ == ix_words(self@, index.1.vx_b())
    }
//@ fn impl IndexToRef<(I,I),(BitVecValueRef,BitVecValueRef)> for &[Word]::get_ref
//@ props C14
//@ impl impl IndexToMutRef<I,BitVecValueMutRef> for &mut[Word]
    open spec fn gm_req(self, index: I) -> bool { ix_in(self@, index.vx_b()) }
    #[verifier::prophetic]
    open spec fn gm_post(self, index: I, r: BitVecValueMutRef<'a>) -> bool {
        r.width == index.vx_b().width && r.words@ == ix_words(self@, index.vx_b())
        && final(self)@ == ix_splice(self@, index.vx_b(), final(r.words)@)
    }
//@ fn impl IndexToMutRef<I,BitVecValueMutRef> for &mut[Word]::get_mut_ref
//@ props C14
//@ impl impl IndexToMutRef<(I,I),(BitVecValueMutRef,BitVecValueRef)> for &mut[Word]
    open spec fn gm_req(self, index: (I, I)) -> bool {
        ix_in(self@, index.0.vx_b()) && ix_in(self@, index.1.vx_b()) && ix_apart(index.0.vx_b(), index.1.vx_b())
    }
    #[verifier::prophetic]
    open spec fn gm_post(self, index: (I, I), r: (BitVecValueMutRef<'a>, BitVecValueRef<'a>)) -> bool {
        r.0.width == index.0.vx_b().width && r.0.words@ == ix_words(self@, index.0.vx_b())
        && r.1.width == index.1.vx_b().width && r.1.words@ == ix_words(self@, index.1.vx_b())
        && final(self)@ == ix_splice(self@, index.0.vx_b(), final(r.0.words)@)
    }
//@ fn impl IndexToMutRef<(I,I),(BitVecValueMutRef,BitVecValueRef)> for &mut[Word]::get_mut_ref
//@ props C14
//@ impl impl IndexToMutRef<(I,I,I),(BitVecValueMutRef,BitVecValueRef,BitVecValueRef),> for &mut[Word]
    open spec fn gm_req(self, index: (I, I, I)) -> bool {
        ix_in(self@, index.0.vx_b()) && ix_in(self@, index.1.vx_b()) && ix_in(self@, index.2.vx_b())
        && ix_apart(index.0.vx_b(), index.1.vx_b()) && ix_apart(index.0.vx_b(), index.2.vx_b())
    }
    #[verifier::prophetic]
    open spec fn gm_post(self, index: (I, I, I), r: (BitVecValueMutRef<'a>, BitVecValueRef<'a>, BitVecValueRef<'a>)) -> bool {
        r.0.width == index.0.vx_b().width && r.0.words@ == ix_words(self@, index.0.vx_b())
        && r.1.width == index.1.vx_b().width && r.1.words@ == ix_words(self@, index.1.vx_b())
        && r.2.width == index.2.vx_b().width && r.2.words@ == ix_words(self@, index.2.vx_b())
        && final(self)@ == ix_splice(self@, index.0.vx_b(), final(r.0.words)@)
    }
//@ fn impl IndexToMutRef<(I,I,I),(BitVecValueMutRef,BitVecValueRef,BitVecValueRef),> for &mut[Word]::get_mut_ref
//@ props C14
//@ mod bv::indexed
/// where the interner keeps a value, if it has it
pub open spec fn in_lookup(t: ValueInterner, s: Seq<u64>) -> Option<u32> {
    if s.len() == 1 {
        if s[0] < 8 { Some(s[0] as u32) } else if t.small@.contains_key(s[0]) { Some(t.small@[s[0]]) } else { None }
    } else if t.large@.contains_key(s) { Some(t.large@[s]) } else { None }
}
/// every value the interner has is in the store at its index
pub open spec fn in_inv(t: ValueInterner) -> bool {
    &&& t.words@.len() >= 8
    &&& forall|i: int| 0 <= i < 8 ==> #[trigger] t.words@[i] == i
    &&& forall|w: u64| #[trigger] t.small@.contains_key(w) ==> w >= 8 && 8 <= t.small@[w] < t.words@.len() && t.words@[t.small@[w] as int] == w
    &&& forall|s: Seq<u64>| #[trigger] t.large@.contains_key(s) ==> s.len() >= 2 && 8 <= t.large@[s] && t.large@[s] + s.len() <= t.words@.len()
        && t.words@.subrange(t.large@[s] as int, t.large@[s] + s.len()) == s
}
/// a later state of the store: everything found before is found at the same place, all words are kept
pub open spec fn in_later(a: ValueInterner, b: ValueInterner) -> bool {
    &&& a.words@.len() <= b.words@.len()
    &&& forall|i: int| 0 <= i < a.words@.len() ==> #[trigger] b.words@[i] == a.words@[i]
    &&& forall|s: Seq<u64>| #[trigger] in_lookup(a, s) is Some ==> in_lookup(b, s) == in_lookup(a, s)
}
/// `i` was handed out for the value (s, w)
pub open spec fn in_gave(t: ValueInterner, s: Seq<u64>, w: u32, i: BitVecValueIndex) -> bool {
    i.width == w && in_lookup(t, s) == Some(i.index)
}
/// whole histories: an index handed out in some state `t1` for (s1, w1) and one handed out in a later state `t2` for (s2, w2)
pub proof fn in_history(t1: ValueInterner, t2: ValueInterner, s1: Seq<u64>, w1: u32, i1: BitVecValueIndex, s2: Seq<u64>, w2: u32, i2: BitVecValueIndex)
    requires in_inv(t1), in_inv(t2), in_later(t1, t2), in_gave(t1, s1, w1, i1), in_gave(t2, s2, w2, i2),
        w1 >= 1, w2 >= 1, wfw(s1, w1 as int), wfw(s2, w2 as int),
    ensures
        // reads back its value, then and later
        ix_in(t1.words@, i1), ix_words(t1.words@, i1) == s1, ix_in(t2.words@, i1), ix_words(t2.words@, i1) == s1, ix_words(t2.words@, i2) == s2,
        // same index exactly for the same width and value
        (i1 == i2) == (w1 == w2 && val(s1) == val(s2)),
        // the zero and one predicates (up to 64 bits)
        w1 <= 64 ==> (i1.index == 0) == (val(s1) == 0),
        w1 <= 64 ==> (i1.index == 1) == (val(s1) == 1),
{
    in_reads(t1, s1, w1, i1); in_reads(t2, s2, w2, i2); in_reads(t2, s1, w1, i1);
    if w1 == w2 && val(s1) == val(s2) { val_inj(s1, s2); }
    if w1 <= 64 { val_one_word(s1); }
}
pub proof fn in_reads(t: ValueInterner, s: Seq<u64>, w: u32, i: BitVecValueIndex)
    requires in_inv(t), in_gave(t, s, w, i), w >= 1, wfw(s, w as int),
    ensures ix_in(t.words@, i), ix_words(t.words@, i) == s,
{
    if s.len() == 1 {
        assert(t.words@[i.index as int] == s[0]);
        assert(ix_words(t.words@, i) =~= s);
    }
}
pub proof fn in_later_trans(a: ValueInterner, b: ValueInterner, c: ValueInterner)
    requires in_later(a, b), in_later(b, c),
    ensures in_later(a, c),
{
    assert forall|i: int| 0 <= i < a.words@.len() implies #[trigger] c.words@[i] == a.words@[i] by { assert(b.words@[i] == a.words@[i]); }
    assert forall|s: Seq<u64>| #[trigger] in_lookup(a, s) is Some implies in_lookup(c, s) == in_lookup(a, s) by { assert(in_lookup(b, s) is Some); }
}
//@ fn ValueInterner::new
//@ props C13
//@ ensures
in_inv(r),
//@ fn impl Default for ValueInterner::default
//@ props C13
//@ ensures
in_inv(r),
//@ fn ValueInterner::is_zero
//@ props C13
//@ ensures
r == (index.vx_b().index == 0),
//@ fn ValueInterner::is_one
//@ props C13
//@ ensures
r == (index.vx_b().index == 1),
//@ fn ValueInterner::words
//@ props C13
//@ ensures
r@ == self.words@,
//@ fn ValueInterner::get_index
//@ props C13
//@ requires
in_inv(*old(self)), value.vx_into_req(), value.vx_into_spec().0 >= 1, wfw(value.vx_into_spec().1, value.vx_into_spec().0 as int),
old(self).words@.len() + value.vx_into_spec().1.len() <= u32::MAX,
//@ ensures
in_inv(*final(self)), in_later(*old(self), *final(self)), in_gave(*final(self), value.vx_into_spec().1, value.vx_into_spec().0, r),
final(self).words@.len() <= old(self).words@.len() + value.vx_into_spec().1.len(),
//@ ghost end
proof {
    let (a, b) = (*old(self), *self);
    assert forall|s: Seq<u64>| #[trigger] b.large@.contains_key(s) implies b.words@.subrange(b.large@[s] as int, b.large@[s] + s.len()) == s by {
        if a.large@.contains_key(s) { assert(b.words@.subrange(a.large@[s] as int, a.large@[s] + s.len()) =~= a.words@.subrange(a.large@[s] as int, a.large@[s] + s.len())); }
        else { assert(b.words@.subrange(b.large@[s] as int, b.large@[s] + s.len()) =~= s); }
    }
}
//@ rename-path HashMap => VxMap
//@ rename-path Box::from => vx_box_from
//@ rename-path BitVecValue::from => BitVecValue::vx_from
//@ rename-path DenseArrayValue::from => DenseArrayValue::vx_from
//@ rename-path SparseArrayValue::from => SparseArrayValue::vx_from
//@ rename-path std::collections::hash_map::Iter => VxMapIter
//@ rename-method shrink_to_fit/0 => vx_shrink

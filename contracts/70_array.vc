//@ module array::ops
//@ trait ArrayOps
    spec fn siw(&self) -> u32;
    spec fn sdw(&self) -> u32;
    /// representation invariant
    spec fn ainv(&self) -> bool;
    /// the element at an index
    spec fn aget(&self, n: int) -> int;
//@ fn ArrayOps::index_width
//@ ensures
r == self.siw(),
//@ fn ArrayOps::data_width
//@ ensures
r == self.sdw(),
//@ fn ArrayOps::words_per_element
//@ props C15 C17
//@ ensures
r == nw(self.sdw() as int),
//@ fn ArrayOps::num_elements
//@ props C15 C17 C18
//@ requires
self.siw() < 64,
//@ ensures
r == p2(self.siw() as int),
//@ ghost start
proof { one_shl_usize(self.siw()); }
//@ split-trait ArrayOps::select
//@ fn ArrayOps::select
//@ requires
self.ainv(), index.vx_into_req(), index.vx_into_spec().0 == self.siw(), wfw(index.vx_into_spec().1, self.siw() as int),
//@ ensures
r.width == self.sdw(), wfw(r.words@, r.width as int), val(r.words@) == self.aget(val(index.vx_into_spec().1)),
//@ fn ArrayMutOps::store
//@ requires
old(self).ainv(), index.vx_into_req(), index.vx_into_spec().0 == old(self).siw(), wfw(index.vx_into_spec().1, old(self).siw() as int),
data.vx_into_req(), data.vx_into_spec().0 == old(self).sdw(), wfw(data.vx_into_spec().1, old(self).sdw() as int),
//@ ensures
final(self).ainv(), final(self).siw() == old(self).siw(), final(self).sdw() == old(self).sdw(),
forall|n: int| 0 <= n < p2(old(self).siw() as int) ==> #[trigger] final(self).aget(n) == if n == val(index.vx_into_spec().1) { val(data.vx_into_spec().1) } else { old(self).aget(n) },
//@ fn ArrayMutOps::clear
//@ requires
old(self).ainv(),
//@ ensures
final(self).ainv(), final(self).siw() == old(self).siw(), final(self).sdw() == old(self).sdw(),
forall|n: int| 0 <= n < p2(old(self).siw() as int) ==> #[trigger] final(self).aget(n) == 0,
//@ module array::owned
//@ mod array::owned
broadcast use {group_wbit, b_sub_sub};
/// index width, data width, elements, well-formed
pub open spec fn arr_vw<A: ArrayOps>(a: &A) -> (u32, u32, Seq<int>, bool) {
    (a.siw(), a.sdw(), Seq::new(p2(a.siw() as int) as nat, |n: int| a.aget(n)), a.ainv())
}
impl VxView for DenseArrayValue { type V = (u32, u32, Seq<int>, bool); open spec fn vw(&self) -> (u32, u32, Seq<int>, bool) { arr_vw(self) } }
impl VxView for SparseArrayValue { type V = (u32, u32, Seq<int>, bool); open spec fn vw(&self) -> (u32, u32, Seq<int>, bool) { arr_vw(self) } }
impl VxView for ArrayValue { type V = (u32, u32, Seq<int>, bool); open spec fn vw(&self) -> (u32, u32, Seq<int>, bool) { arr_vw(self) } }
pub open spec fn den_get(d: DenseArrayImpl, dw: int, n: int) -> int {
    match d {
        DenseArrayImpl::Bit(v) => if sbit(v.words@, n) { 1 } else { 0 },
        DenseArrayImpl::U8(v) => v@[n] as int,
        DenseArrayImpl::U64(v) => v@[n] as int,
        DenseArrayImpl::Big(v) => val(big_el(v@, nw(dw), n)),
    }
}
/// stored units
pub open spec fn dense_words(d: DenseArrayImpl) -> nat {
    match d {
        DenseArrayImpl::Bit(v) => v.words@.len(),
        DenseArrayImpl::U8(v) => v@.len(),
        DenseArrayImpl::U64(v) => v@.len(),
        DenseArrayImpl::Big(v) => v@.len(),
    }
}
pub open spec fn den_inv(d: DenseArrayImpl, iw: int, dw: int) -> bool {
    &&& 0 <= iw < 64
    &&& match d {
        DenseArrayImpl::Bit(v) => dw == 1 && iw <= 31 && v.width == p2(iw) && wfw(v.words@, v.width as int),
        DenseArrayImpl::U8(v) => 2 <= dw <= 8 && v@.len() == p2(iw) && forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] < p2(dw),
        DenseArrayImpl::U64(v) => 9 <= dw <= 64 && v@.len() == p2(iw) && forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] < p2(dw),
        DenseArrayImpl::Big(v) => dw > 64 && v@.len() == p2(iw) * nw(dw) && forall|i: int| 0 <= i < p2(iw) ==> wfw(#[trigger] big_el(v@, nw(dw), i), dw),
    }
}
pub open spec fn sp_get(d: SparseArrayImpl, iw: int, n: int) -> int {
    match d {
        SparseArrayImpl::U64U64(z, m) => if m@.contains_key(n as u64) { m@[n as u64] as int } else { z as int },
        SparseArrayImpl::U64Big(z, m) => if m@.contains_key(n as u64) { val(m@[n as u64].words@) } else { val(z.words@) },
        SparseArrayImpl::BigBig(z, m) => if m@.contains_key(big_key(iw, n)) { val(m@[big_key(iw, n)].words@) } else { val(z.words@) },
    }
}
pub open spec fn big_key(iw: int, n: int) -> (u32, Seq<u64>) { (iw as u32, words_of(n, nw(iw))) }
pub open spec fn sp_default(d: SparseArrayImpl) -> int {
    match d {
        SparseArrayImpl::U64U64(z, m) => z as int,
        SparseArrayImpl::U64Big(z, m) => val(z.words@),
        SparseArrayImpl::BigBig(z, m) => val(z.words@),
    }
}
/// number of entries
pub open spec fn sp_len(d: SparseArrayImpl) -> int {
    match d {
        SparseArrayImpl::U64U64(z, m) => m@.dom().len() as int,
        SparseArrayImpl::U64Big(z, m) => m@.dom().len() as int,
        SparseArrayImpl::BigBig(z, m) => m@.dom().len() as int,
    }
}
/// a well-formed element that differs from the default
pub open spec fn el_ok(v: BitVecValue, z: BitVecValue, dw: int) -> bool { v.width == dw && wfw(v.words@, dw) && val(v.words@) != val(z.words@) }
pub open spec fn sp_inv(d: SparseArrayImpl, iw: int, dw: int) -> bool {
    &&& 0 <= iw <= u32::MAX && 1 <= dw <= u32::MAX
    &&& match d {
        SparseArrayImpl::U64U64(z, m) => iw <= 64 && dw <= 64 && z < p2(dw)
            && forall|k: u64| #[trigger] m@.contains_key(k) ==> k < p2(iw) && m@[k] < p2(dw) && m@[k] != z,
        SparseArrayImpl::U64Big(z, m) => iw <= 64 && dw > 64 && z.width == dw && wfw(z.words@, dw)
            && forall|k: u64| #[trigger] m@.contains_key(k) ==> k < p2(iw) && el_ok(m@[k], z, dw),
        SparseArrayImpl::BigBig(z, m) => iw > 64 && z.width == dw && wfw(z.words@, dw)
            && forall|k: (u32, Seq<u64>)| #[trigger] m@.contains_key(k) ==> k.0 == iw && wfw(k.1, iw) && el_ok(m@[k], z, dw),
    }
}
/// equal numbers are equal words: the comparison with the default value may look at either
proof fn def_eq(d: SparseArrayImpl, s: Seq<u64>, iw: int, dw: int)
    requires sp_inv(d, iw, dw), wfw(s, dw), val(s) == sp_default(d),
    ensures d is U64Big ==> s == d->U64Big_0.words@, d is BigBig ==> s == d->BigBig_0.words@,
{
    match d {
        SparseArrayImpl::U64U64(z, m) => {},
        SparseArrayImpl::U64Big(z, m) => { val_inj(s, z.words@); },
        SparseArrayImpl::BigBig(z, m) => { val_inj(s, z.words@); },
    }
}
pub open spec fn arr_same<A: ArrayOps, B: ArrayOps>(a: &A, b: &B) -> bool {
    forall|n: int| #![trigger a.aget(n)] #![trigger b.aget(n)] 0 <= n < p2(a.siw() as int) ==> a.aget(n) == b.aget(n)
}
/// the result of a comparison
pub open spec fn arr_eq<A: ArrayOps, B: ArrayOps>(a: &A, b: &B, r: Option<bool>) -> bool {
    match r {
        Some(x) => a.siw() == b.siw() && a.sdw() == b.sdw() && x == arr_same(a, b),
        None => a.siw() != b.siw() || a.sdw() != b.sdw(),
    }
}
/// same entries
pub open spec fn sp_eq(a: SparseArrayImpl, b: SparseArrayImpl) -> bool {
    match (a, b) {
        (SparseArrayImpl::U64U64(y, m), SparseArrayImpl::U64U64(z, n)) => m@.dom() == n@.dom() && map_same(m, n),
        (SparseArrayImpl::U64Big(y, m), SparseArrayImpl::U64Big(z, n)) => m@.dom() == n@.dom() && map_same(m, n),
        (SparseArrayImpl::BigBig(y, m), SparseArrayImpl::BigBig(z, n)) => m@.dom() == n@.dom() && map_same(m, n),
        _ => false,
    }
}
pub proof fn sp_same(a: &SparseArrayValue, b: &SparseArrayValue)
    requires a.ainv(), b.ainv(), a.index_width == b.index_width, a.data_width == b.data_width, sp_default(a.data) == sp_default(b.data),
    ensures arr_same(a, b) == sp_eq(a.data, b.data),
{
    let iw = a.index_width as int;
    p2_small(iw);
    match (a.data, b.data) {
        (SparseArrayImpl::U64U64(y, m), SparseArrayImpl::U64U64(z, n)) => {
            if arr_same(a, b) {
                assert forall|k: u64| #![trigger m@.contains_key(k)] #![trigger n@.contains_key(k)] m@.contains_key(k) == n@.contains_key(k) && (m@.contains_key(k) ==> m@[k] == n@[k]) by {
                    if m@.contains_key(k) || n@.contains_key(k) { assert(a.aget(k as int) == b.aget(k as int)); }
                }
                assert(m@.dom() =~= n@.dom());
                assert(map_same(m, n));
            }
            if map_same(m, n) && m@.dom() == n@.dom() {
                assert forall|i: int| 0 <= i < p2(iw) implies a.aget(i) == b.aget(i) by { let k = i as u64; assert(m@.contains_key(k) == n@.contains_key(k)); }
            }
        }
        (SparseArrayImpl::U64Big(y, m), SparseArrayImpl::U64Big(z, n)) => {
            if arr_same(a, b) {
                assert forall|k: u64| #![trigger m@.contains_key(k)] #![trigger n@.contains_key(k)] m@.contains_key(k) == n@.contains_key(k) && (m@.contains_key(k) ==> m@[k].kv() == n@[k].kv()) by {
                    if m@.contains_key(k) || n@.contains_key(k) { assert(a.aget(k as int) == b.aget(k as int)); val_inj(m@[k].words@, n@[k].words@); }
                }
                assert(m@.dom() =~= n@.dom());
                assert(map_same(m, n));
            }
            if map_same(m, n) && m@.dom() == n@.dom() {
                assert forall|i: int| 0 <= i < p2(iw) implies a.aget(i) == b.aget(i) by { let k = i as u64; assert(m@.contains_key(k) == n@.contains_key(k)); }
            }
        }
        (SparseArrayImpl::BigBig(y, m), SparseArrayImpl::BigBig(z, n)) => {
            if arr_same(a, b) {
                assert forall|k: (u32, Seq<u64>)| #![trigger m@.contains_key(k)] #![trigger n@.contains_key(k)] m@.contains_key(k) == n@.contains_key(k) && (m@.contains_key(k) ==> m@[k].kv() == n@[k].kv()) by {
                    if m@.contains_key(k) || n@.contains_key(k) {
                        wf_bound(k.1, iw);
                        words_of_is(k.1);
                        assert(big_key(iw, val(k.1)) == k);
                        assert(a.aget(val(k.1)) == b.aget(val(k.1)));
                        val_inj(m@[k].words@, n@[k].words@);
                    }
                }
                assert(m@.dom() =~= n@.dom());
                assert(map_same(m, n));
            }
            if map_same(m, n) && m@.dom() == n@.dom() {
                assert forall|i: int| 0 <= i < p2(iw) implies a.aget(i) == b.aget(i) by { let k = big_key(iw, i); assert(m@.contains_key(k) == n@.contains_key(k)); }
            }
        }
        _ => {}
    }
}
/// equal arrays with different defaults: every index has an entry
pub proof fn sp_pigeon(a: &SparseArrayValue, b: &SparseArrayValue)
    requires a.ainv(), b.ainv(), a.index_width == b.index_width, a.data_width == b.data_width, sp_default(a.data) != sp_default(b.data), arr_same(a, b),
    ensures p2(a.index_width as int) <= sp_len(a.data) + sp_len(b.data),
{
    let iw = a.index_width as int;
    p2_small(iw);
    match (a.data, b.data) {
        (SparseArrayImpl::U64U64(y, m), SparseArrayImpl::U64U64(z, n)) => {
            let d = m@.dom().union(n@.dom());
            let f = |i: int| i as u64;
            assert forall|i: int| 0 <= i < p2(iw) implies d.contains(#[trigger] f(i)) by { assert(a.aget(i) == b.aget(i)); }
            pigeon(f, p2(iw), d);
            vstd::set_lib::lemma_len_union(m@.dom(), n@.dom());
        }
        (SparseArrayImpl::U64Big(y, m), SparseArrayImpl::U64Big(z, n)) => {
            let d = m@.dom().union(n@.dom());
            let f = |i: int| i as u64;
            assert forall|i: int| 0 <= i < p2(iw) implies d.contains(#[trigger] f(i)) by { assert(a.aget(i) == b.aget(i)); }
            pigeon(f, p2(iw), d);
            vstd::set_lib::lemma_len_union(m@.dom(), n@.dom());
        }
        (SparseArrayImpl::BigBig(y, m), SparseArrayImpl::BigBig(z, n)) => {
            let d = m@.dom().union(n@.dom());
            let f = |i: int| big_key(iw, i);
            assert forall|i: int| 0 <= i < p2(iw) implies d.contains(#[trigger] f(i)) by { assert(a.aget(i) == b.aget(i)); }
            assert forall|i: int, j: int| 0 <= i < j < p2(iw) implies #[trigger] f(i) != #[trigger] f(j) by {
                words_inj(iw, i, j);
            }
            pigeon(f, p2(iw), d);
            vstd::set_lib::lemma_len_union(m@.dom(), n@.dom());
        }
        _ => {}
    }
}
pub open spec fn pad_vw(len: int, dw: u32, f: spec_fn(int) -> int) -> (u32, u32, Seq<int>, bool) {
    (ix_width(len) as u32, dw, Seq::new(p2(ix_width(len)) as nat, |n: int| if n < len { f(n) } else { 0 }), true)
}
/// entries of an iterator
pub open spec fn it_view(it: SparseArrayIterImpl) -> Seq<(int, int)> {
    match it {
        SparseArrayIterImpl::U64U64(i) => Seq::new(i@.len(), |j: int| (*i@[j].0 as int, *i@[j].1 as int)),
        SparseArrayIterImpl::U64Big(i) => Seq::new(i@.len(), |j: int| (*i@[j].0 as int, val(i@[j].1.words@))),
        SparseArrayIterImpl::BigBig(i) => Seq::new(i@.len(), |j: int| (val(i@[j].0.words@), val(i@[j].1.words@))),
    }
}
pub open spec fn it_ok(it: SparseArrayIterImpl, iw: int, dw: int) -> bool {
    match it {
        SparseArrayIterImpl::U64U64(i) => forall|j: int| 0 <= j < i@.len() ==> *(#[trigger] i@[j]).0 < p2(iw) && *i@[j].1 < p2(dw),
        SparseArrayIterImpl::U64Big(i) => forall|j: int| 0 <= j < i@.len() ==> *(#[trigger] i@[j]).0 < p2(iw) && i@[j].1.width == dw && wfw(i@[j].1.words@, dw),
        SparseArrayIterImpl::BigBig(i) => forall|j: int| 0 <= j < i@.len() ==> (#[trigger] i@[j]).0.width == iw && wfw(i@[j].0.words@, iw) && i@[j].1.width == dw && wfw(i@[j].1.words@, dw),
    }
}
/// the list holds every index with a value that is not the default once
pub open spec fn non_default(a: &SparseArrayValue, s: Seq<(int, int)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> 0 <= (#[trigger] s[i]).0 < p2(a.index_width as int) && s[i].1 == a.aget(s[i].0) && s[i].1 != sp_default(a.data)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|n: int| 0 <= n < p2(a.index_width as int) && #[trigger] a.aget(n) != sp_default(a.data) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n
}
pub proof fn vw_same<A: ArrayOps, B: ArrayOps>(a: &A, b: &B)
    requires arr_vw(a) == arr_vw(b),
    ensures arr_same(a, b), arr_same(b, a), a.siw() == b.siw(), a.sdw() == b.sdw(), a.ainv() == b.ainv(),
{
    assert forall|n: int| 0 <= n < p2(a.siw() as int) implies a.aget(n) == b.aget(n) by {
        assert(arr_vw(a).2[n] == a.aget(n));
        assert(arr_vw(b).2[n] == b.aget(n));
    }
}
/// `==` on arrays
impl VxEq for ArrayValue {
    open spec fn vx_eq_req(&self, o: &Self) -> bool {
        self.ainv() && o.ainv() && (self.data is Dense != o.data is Dense && self.siw() == o.siw() && self.sdw() == o.sdw() ==> dense_ok(self.siw() as int, self.sdw() as int))
    }
    open spec fn vx_eq_is(&self, o: &Self) -> bool { self.siw() == o.siw() && self.sdw() == o.sdw() && arr_same(self, o) }
    fn vx_eq(&self, o: &Self) -> (r: bool) { vx_impl_PartialEq_ArrayValue__for_ArrayValue_eq(self, o) }
}
/// the size limit of dense arrays (one-bit elements: see the known finding F11)
pub open spec fn dense_ok(iw: int, dw: int) -> bool {
    &&& 0 <= iw < 64 && dw >= 1
    &&& dw == 1 ==> iw <= 31
    &&& 1 < dw <= 8 ==> p2(iw) <= 0x4000_0000
    &&& 8 < dw <= 64 ==> 8 * p2(iw) <= 0x4000_0000
    &&& dw > 64 ==> p2(iw) * nw(dw) <= 0x4000_0000
}
//@ impl impl ArrayOps for DenseArrayValue
    open spec fn siw(&self) -> u32 { self.index_width }
    open spec fn sdw(&self) -> u32 { self.data_width }
    open spec fn ainv(&self) -> bool { den_inv(self.data, self.index_width as int, self.data_width as int) }
    open spec fn aget(&self, n: int) -> int { den_get(self.data, self.data_width as int, n) }
//@ const DENSE_ARRAY_MAX_BYTES
DENSE_ARRAY_MAX_BYTES == 0x4000_0000,
//@ fn approx_dense_storage_size
//@ props C15
//@ requires
dense_ok(index_width as int, data_width as int),
//@ ensures
r <= 0x4000_0000,
//@ ghost after-let elements
proof {
    one_shl_usize(index_width);
    p2_small(index_width as int);
    assert(u64::BITS / u8::BITS == 8);
    assert(elements == p2(index_width as int));
    assert(elements * 8 == 8 * p2(index_width as int));
    assert(nw(data_width as int) * elements == elements * nw(data_width as int)) by (nonlinear_arith);
}
//@ fn DenseArrayValue::new
//@ props C15 C17
//@ requires
default.vx_into_req(), wfw(default.vx_into_spec().1, default.vx_into_spec().0 as int), dense_ok(index_width as int, default.vx_into_spec().0 as int),
//@ ensures
r.ainv(), r.index_width == index_width, r.data_width == default.vx_into_spec().0,
forall|n: int| 0 <= n < p2(index_width as int) ==> #[trigger] r.aget(n) == val(default.vx_into_spec().1),
//@ ghost after-let elements
proof {
    one_shl_usize(index_width);
    p2_small(index_width as int);
    wf_small(default.words@, data_width as int);
    p2_64();
}
//@ loop 0
elements == p2(index_width as int), data_width > 64, default.width == data_width, wfw(default.words@, data_width as int),
v@.len() == vx_i0 * nw(data_width as int),
forall|n: int| 0 <= n < vx_i0 ==> #[trigger] big_el(v@, nw(data_width as int), n) == default.words@,
//@ ghost loop 0 start
let ghost v0 = v@;
//@ ghost loop 0 end
proof {
    let wp = nw(data_width as int);
    assert(v@ =~= v0 + default.words@);
    assert forall|n: int| 0 <= n < vx_i0 implies #[trigger] big_el(v@, wp, n) == default.words@ by { big_push(v0, v@, default.words@, wp, vx_i0 - 1, n); }
    assert((vx_i0 - 1) * wp + wp == vx_i0 * wp) by (nonlinear_arith);
}
//@ fn DenseArrayValue::select_usize
//@ props C15 C17
//@ requires
self.ainv(), index < p2(self.index_width as int),
//@ ensures
r.width == self.data_width, wfw(r.words@, r.width as int), val(r.words@) == self.aget(index as int),
//@ ghost start
proof {
    let (iw, dw) = (self.index_width as int, self.data_width as int);
    p2_small(iw);
    p2_64();
    if self.data is Bit {
        let w = crate::bv::owned::bool_words(sbit(self.data->Bit_0.words@, index as int));
        val_one_word(w);
        wf_from_bound(w, 1);
    }
    if self.data is Big {
        let v = self.data->Big_0@;
        big_range(v.len() as int, nw(dw), index as int, p2(iw));
        assert(self.data->Big_0.len() <= usize::MAX);
        assert(wfw(big_el(v, nw(dw), index as int), dw));
    }
}
//@ fn impl ArrayOps for DenseArrayValue::select
//@ props C15
//@ ghost start
proof { wf_small(index.vx_into_spec().1, self.index_width as int); }
//@ fn impl ArrayMutOps for DenseArrayValue::store
//@ props C15 C17
//@ ghost start
proof {
    let (iw, dw) = (self.index_width as int, self.data_width as int);
    wf_small(index.vx_into_spec().1, iw);
    wf_small(data.vx_into_spec().1, dw);
    p2_small(iw);
    p2_64();
    if self.data is Big { big_range(self.data->Big_0@.len() as int, nw(dw), val(index.vx_into_spec().1), p2(iw)); assert(self.data->Big_0.len() <= usize::MAX); }
}
//@ ghost end
proof {
    let (iw, dw) = (self.index_width as int, self.data_width as int);
    let wp = nw(dw);
    if self.data is Big {
        let (v0, v1) = (old(self).data->Big_0@, self.data->Big_0@);
        assert(v1 =~= v0.subrange(0, wp * index) + data.words@ + v0.subrange(wp * index + wp, v0.len() as int));
        assert forall|n: int| 0 <= n < p2(iw) implies #[trigger] big_el(v1, wp, n) == if n == index { data.words@ } else { big_el(v0, wp, n) } by {
            big_store(v0, v1, data.words@, wp, index as int, n, p2(iw));
            assert(wfw(big_el(v0, wp, n), dw));
        }
    }
}
//@ fn impl ArrayMutOps for DenseArrayValue::clear
//@ props C15
//@ loop 0
vx_n0 == values@.len(), values@.len() == dense_words(old(self).data),
forall|i: int| 0 <= i < vx_i0 ==> #[trigger] values@[i] == 0,
//@ loop 1
vx_n1 == values@.len(), values@.len() == dense_words(old(self).data),
forall|i: int| 0 <= i < vx_i1 ==> #[trigger] values@[i] == 0,
//@ loop 2
vx_n2 == values@.len(), values@.len() == dense_words(old(self).data),
forall|i: int| 0 <= i < vx_i2 ==> #[trigger] values@[i] == 0,
//@ ghost end
proof {
    let (iw, dw) = (self.index_width as int, self.data_width as int);
    p2_pos(dw);
    if self.data is Bit {
        let v = self.data->Bit_0.words@;
        assert forall|n: int| !#[trigger] sbit(v, n) by { if n >= 0 { val_bit(v, n); } }
    }
    if self.data is Big {
        let v = self.data->Big_0@;
        assert forall|n: int| 0 <= n < p2(iw) implies wfw(#[trigger] big_el(v, nw(dw), n), dw) && val(big_el(v, nw(dw), n)) == 0 by { big_zero(v, nw(dw), n, p2(iw), dw); }
    }
}
//@ fn DenseArrayValue::is_equal
//@ props C18
//@ requires
self.ainv(), other.ainv(),
//@ ensures
arr_eq(self, other, r),
//@ ghost start
proof {
    let (iw, dw) = (self.index_width as int, self.data_width as int);
    p2_small(iw);
    if iw == other.index_width && dw == other.data_width {
        if self.data is Bit {
            let (a, b) = (self.data->Bit_0.words@, other.data->Bit_0.words@);
            if val(a) == val(b) { val_inj(a, b); }
            if arr_same(self, other) {
                assert forall|k: int| #[trigger] sbit(a, k) == sbit(b, k) by {
                    if 0 <= k < p2(iw) { assert(self.aget(k) == other.aget(k)); }
                }
                s_ext(a, b);
            }
        }
        if self.data is U8 {
            let (a, b) = (self.data->U8_0@, other.data->U8_0@);
            if arr_same(self, other) {
                assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { assert(self.aget(k) == other.aget(k)); }
                assert(a =~= b);
            }
        }
        if self.data is U64 {
            let (a, b) = (self.data->U64_0@, other.data->U64_0@);
            if arr_same(self, other) {
                assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { assert(self.aget(k) == other.aget(k)); }
                assert(a =~= b);
            }
        }
        if self.data is Big {
            let (a, b) = (self.data->Big_0@, other.data->Big_0@);
            if arr_same(self, other) {
                let wp = nw(dw);
                assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by {
                    let n = k / wp;
                    big_index(a.len() as int, wp, k, p2(iw));
                    assert(self.aget(n) == other.aget(n));
                    val_inj(big_el(a, wp, n), big_el(b, wp, n));
                    assert(a[k] == big_el(a, wp, n)[k - wp * n]);
                    assert(b[k] == big_el(b, wp, n)[k - wp * n]);
                }
                assert(a =~= b);
            }
        }
    }
}
//@ ghost end
proof {
    let r = vx_ret->Some_0;
    if self.data is U8 { assert(r == (self.data->U8_0@ =~= other.data->U8_0@)); }
    if self.data is U64 { assert(r == (self.data->U64_0@ =~= other.data->U64_0@)); }
    if self.data is Big { assert(r == (self.data->Big_0@ =~= other.data->Big_0@)); }
    if self.data is Bit { assert(r == arr_same(self, other)); }
    assert(r == arr_same(self, other));
}
//@ impl impl ArrayOps for SparseArrayValue
    open spec fn siw(&self) -> u32 { self.index_width }
    open spec fn sdw(&self) -> u32 { self.data_width }
    open spec fn ainv(&self) -> bool { sp_inv(self.data, self.index_width as int, self.data_width as int) }
    open spec fn aget(&self, n: int) -> int { sp_get(self.data, self.index_width as int, n) }
//@ fn SparseArrayValue::new
//@ props C16 C17
//@ requires
default.vx_into_req(), default.vx_into_spec().0 >= 1, wfw(default.vx_into_spec().1, default.vx_into_spec().0 as int),
//@ ensures
r.ainv(), r.index_width == index_width, r.data_width == default.vx_into_spec().0, sp_default(r.data) == val(default.vx_into_spec().1),
forall|n: int| 0 <= n < p2(index_width as int) ==> #[trigger] r.aget(n) == val(default.vx_into_spec().1),
//@ ghost start
proof { wf_small(default.vx_into_spec().1, default.vx_into_spec().0 as int); }
//@ fn SparseArrayValue::is_equal
//@ props C18
//@ requires
self.ainv(), other.ainv(),
//@ ensures
arr_eq(self, other, r),
//@ ghost start
proof {
    assert forall|a: Seq<u64>, b: Seq<u64>| #![trigger val(a), val(b)] a.len() == b.len() && val(a) == val(b) implies a == b by { val_inj(a, b); }
    if self.index_width == other.index_width && self.data_width == other.data_width && sp_default(self.data) == sp_default(other.data) { sp_same(self, other); }
}
//@ fn SparseArrayValue::is_equal_with_different_default
//@ props C18
//@ requires
self.ainv(), other.ainv(), self.index_width == other.index_width, self.data_width == other.data_width,
sp_default(self.data) != sp_default(other.data),
num_entries == sp_len(self.data), num_other_entries == sp_len(other.data), num_entries <= 0x3fff_ffff_ffff_ffff, num_other_entries <= 0x3fff_ffff_ffff_ffff,
//@ ensures
r == arr_same(self, other),
//@ ghost start
proof {
    let iw = self.index_width as int;
    p2_small(iw);
    p2_64();
    if iw >= 64 { p2_le(64, iw); }
    if arr_same(self, other) { sp_pigeon(self, other); }
}
//@ loop 0
vx_n0 == p2(self.index_width as int), vx_n0 <= 0x8000_0000_0000_0000,
forall|n: int| 0 <= n < vx_i0 ==> #[trigger] self.aget(n) == other.aget(n),
//@ ghost loop 0 start
proof { assert forall|a: Seq<u64>, b: Seq<u64>| #![trigger val(a), val(b)] a.len() == b.len() && val(a) == val(b) implies a == b by { val_inj(a, b); } }
//@ fn SparseArrayValue::default
//@ props C16
//@ requires
self.ainv(),
//@ ensures
r.width == self.data_width, wfw(r.words@, r.width as int), val(r.words@) == sp_default(self.data),
//@ fn SparseArrayValue::store_u64_u64
//@ props C16 C17
//@ requires
old(self).ainv(), old(self).index_width <= 64, old(self).data_width <= 64, index < p2(old(self).index_width as int), data < p2(old(self).data_width as int),
//@ ensures
final(self).ainv(), final(self).index_width == old(self).index_width, final(self).data_width == old(self).data_width, sp_default(final(self).data) == sp_default(old(self).data),
forall|n: int| 0 <= n < p2(old(self).index_width as int) ==> #[trigger] final(self).aget(n) == if n == index { data as int } else { old(self).aget(n) },
//@ ghost start
proof { p2_small(self.index_width as int); }
//@ fn SparseArrayValue::store_u64_big
//@ props C16 C17
//@ requires
old(self).ainv(), old(self).index_width <= 64, index < p2(old(self).index_width as int),
data.vx_into_req(), data.vx_into_spec().0 == old(self).sdw(), wfw(data.vx_into_spec().1, old(self).sdw() as int),
//@ ensures
final(self).ainv(), final(self).index_width == old(self).index_width, final(self).data_width == old(self).data_width, sp_default(final(self).data) == sp_default(old(self).data),
forall|n: int| 0 <= n < p2(old(self).index_width as int) ==> #[trigger] final(self).aget(n) == if n == index { val(data.vx_into_spec().1) } else { old(self).aget(n) },
//@ ghost start
proof { p2_small(self.index_width as int); wf_small(data.vx_into_spec().1, self.data_width as int); }
//@ fn impl ArrayOps for SparseArrayValue::select
//@ props C16
//@ ghost start
proof {
    let (iw, dw) = (self.index_width as int, self.data_width as int);
    p2_small(iw);
    wf_small(index.vx_into_spec().1, iw);
    key_eq(index.vx_into_spec().1, iw, val(index.vx_into_spec().1));
}
//@ fn impl ArrayMutOps for SparseArrayValue::store
//@ props C16
//@ ghost start
proof {
    let (iw, dw) = (self.index_width as int, self.data_width as int);
    p2_small(iw);
    wf_small(index.vx_into_spec().1, iw);
    wf_small(data.vx_into_spec().1, dw);
    if val(data.vx_into_spec().1) == sp_default(self.data) { def_eq(self.data, data.vx_into_spec().1, iw, dw); }
    if iw > 64 {
        assert forall|n: int| 0 <= n < p2(iw) implies (#[trigger] words_of(n, nw(iw)) == index.vx_into_spec().1) == (n == val(index.vx_into_spec().1)) by { key_eq(index.vx_into_spec().1, iw, n); }
    }
}
//@ fn impl ArrayMutOps for SparseArrayValue::clear
//@ props C16
//@ ghost start
proof { p2_pos(self.data_width as int); }
//@ impl impl ArrayOps for ArrayValue
    open spec fn siw(&self) -> u32 { match self.data { ArrayImpl::Sparse(a) => a.siw(), ArrayImpl::Dense(a) => a.siw() } }
    open spec fn sdw(&self) -> u32 { match self.data { ArrayImpl::Sparse(a) => a.sdw(), ArrayImpl::Dense(a) => a.sdw() } }
    open spec fn ainv(&self) -> bool { match self.data { ArrayImpl::Sparse(a) => a.ainv(), ArrayImpl::Dense(a) => a.ainv() } }
    open spec fn aget(&self, n: int) -> int { match self.data { ArrayImpl::Sparse(a) => a.aget(n), ArrayImpl::Dense(a) => a.aget(n) } }
//@ fn ArrayValue::is_dense
//@ props C17
//@ ensures
r == (self.data is Dense),
//@ fn ArrayValue::is_sparse
//@ props C17
//@ ensures
r == (self.data is Sparse),
//@ fn index_width_from_len
//@ props C19
//@ requires
len <= 0x4000_0000_0000_0000,
//@ ensures
r == ix_width(len as int),
//@ ghost end
proof { p2_64(); if len > 0 { ix_width_is(len as int, vx_ret as int); } }
//@ fn num_elements_from_index_width
//@ props C19
//@ requires
index_width < 64,
//@ ensures
r == p2(index_width as int),
//@ ghost start
proof { one_shl_usize(index_width); }
//@ impl impl From<&[bool]> for DenseArrayValue
    open spec fn vx_from_req(v: &[bool]) -> bool { v@.len() <= 0x8000_0000 }
    open spec fn vx_from_spec(v: &[bool]) -> (u32, u32, Seq<int>, bool) { pad_vw(v@.len() as int, 1, |n: int| if v@[n] { 1 } else { 0 }) }
//@ fn impl From<&[bool]> for DenseArrayValue::from
//@ props C19
//@ ghost start
proof { ix_width_ok(values@.len() as int); p2_small(ix_width(values@.len() as int)); }
//@ loop 0
vx_n0 == values@.len(), num_elements == p2(ix_width(values@.len() as int)), num_elements <= 0x8000_0000, vx_n0 <= num_elements,
data.width == num_elements, wfw(data.words@, data.width as int),
forall|n: int| 0 <= n < num_elements ==> #[trigger] sbit(data.words@, n) == (n < vx_i0 && values@[n]),
//@ ghost loop 0 before
proof { assert forall|n: int| !#[trigger] sbit(data.words@, n) by { if n >= 0 { val_bit(data.words@, n); } } }
//@ ghost end
proof { assert(vx_ret.vw().2 =~= Self::vx_from_spec(values).2); }
//@ impl impl From<&[u8]> for DenseArrayValue
    open spec fn vx_from_req(v: &[u8]) -> bool { v@.len() <= 0x4000_0000_0000_0000 }
    open spec fn vx_from_spec(v: &[u8]) -> (u32, u32, Seq<int>, bool) { pad_vw(v@.len() as int, 8, |n: int| v@[n] as int) }
//@ fn impl From<&[u8]> for DenseArrayValue::from
//@ props C19
//@ ghost start
proof { ix_width_ok(values@.len() as int); p2_small(ix_width(values@.len() as int)); p2_64(); }
//@ ghost end
proof { assert(vx_ret.vw().2 =~= Self::vx_from_spec(values).2); }
//@ impl impl From<&[u64]> for DenseArrayValue
    open spec fn vx_from_req(v: &[u64]) -> bool { v@.len() <= 0x4000_0000_0000_0000 }
    open spec fn vx_from_spec(v: &[u64]) -> (u32, u32, Seq<int>, bool) { pad_vw(v@.len() as int, 64, |n: int| v@[n] as int) }
//@ fn impl From<&[u64]> for DenseArrayValue::from
//@ props C19
//@ ghost start
proof { ix_width_ok(values@.len() as int); p2_small(ix_width(values@.len() as int)); p2_64(); }
//@ ghost end
proof { assert(vx_ret.vw().2 =~= Self::vx_from_spec(values).2); }
//@ impl impl From<&SparseArrayValue> for DenseArrayValue
    open spec fn vx_from_req(v: &SparseArrayValue) -> bool { v.ainv() && dense_ok(v.index_width as int, v.data_width as int) }
    open spec fn vx_from_spec(v: &SparseArrayValue) -> (u32, u32, Seq<int>, bool) { arr_vw(v) }
//@ fn impl From<&SparseArrayValue> for DenseArrayValue::from
//@ props C17 C18
//@ ghost start
proof { p2_small(value.index_width as int); p2_small(value.data_width as int); p2_64(); }
//@ loop 0
dense.ainv(), dense.index_width == value.index_width, dense.data_width == value.data_width,
vx_n0 == vx_ent1@.len(), ent_of(m@, ent_view(vx_ent1@)),
forall|n: int| 0 <= n < p2(value.index_width as int) ==> #[trigger] dense.aget(n) == if in_first(ent_view(vx_ent1@), vx_i0 as int, n as u64) { m@[n as u64] as int } else { sp_default(value.data) },
//@ ghost loop 0 start
let ghost dn = dense;
proof { assert(m@.contains_key(ent_view(vx_ent1@)[vx_k0 as int].0)); }
//@ ghost loop 0 end
proof {
    let e = ent_view(vx_ent1@);
    assert forall|n: int| 0 <= n < p2(value.index_width as int) implies #[trigger] dense.aget(n) == if in_first(e, vx_i0 as int, n as u64) { m@[n as u64] as int } else { sp_default(value.data) } by {
        in_first_step(e, vx_k0 as int, n as u64);
        assert(dn.aget(n) == if in_first(e, vx_k0 as int, n as u64) { m@[n as u64] as int } else { sp_default(value.data) });
        assert(e[vx_k0 as int].0 == n as u64 <==> *index == n);
    }
}
//@ ghost loop 0 after
proof {
    assert forall|n: int| 0 <= n < p2(value.index_width as int) implies #[trigger] dense.aget(n) == value.aget(n) by { in_first_all(m@, ent_view(vx_ent1@), n as u64); }
}
//@ loop 1
dense.ainv(), dense.index_width == value.index_width, dense.data_width == value.data_width,
index_bv.width == value.index_width, wfw(index_bv.words@, index_bv.width as int),
vx_n1 == vx_ent2@.len(), ent_of(m@, ent_view(vx_ent2@)),
forall|n: int| 0 <= n < p2(value.index_width as int) ==> #[trigger] dense.aget(n) == if in_first(ent_view(vx_ent2@), vx_i1 as int, n as u64) { val(m@[n as u64].words@) } else { sp_default(value.data) },
//@ ghost loop 1 start
let ghost dn = dense;
proof { assert(m@.contains_key(ent_view(vx_ent2@)[vx_k1 as int].0)); }
//@ ghost loop 1 end
proof {
    let e = ent_view(vx_ent2@);
    assert forall|n: int| 0 <= n < p2(value.index_width as int) implies #[trigger] dense.aget(n) == if in_first(e, vx_i1 as int, n as u64) { val(m@[n as u64].words@) } else { sp_default(value.data) } by {
        in_first_step(e, vx_k1 as int, n as u64);
        assert(dn.aget(n) == if in_first(e, vx_k1 as int, n as u64) { val(m@[n as u64].words@) } else { sp_default(value.data) });
        assert(e[vx_k1 as int].0 == n as u64 <==> *k == n);
    }
}
//@ ghost loop 1 after
proof {
    assert forall|n: int| 0 <= n < p2(value.index_width as int) implies #[trigger] dense.aget(n) == value.aget(n) by { in_first_all(m@, ent_view(vx_ent2@), n as u64); }
}
//@ ghost end
proof { assert(vx_ret.vw().2 =~= arr_vw(value).2); }
//@ impl impl From<&DenseArrayValue> for SparseArrayValue
    open spec fn vx_from_req(v: &DenseArrayValue) -> bool { v.ainv() }
    open spec fn vx_from_spec(v: &DenseArrayValue) -> (u32, u32, Seq<int>, bool) { arr_vw(v) }
//@ fn impl From<&DenseArrayValue> for SparseArrayValue::from
//@ props C17
//@ ghost start
proof { p2_small(value.index_width as int); p2_small(value.data_width as int); p2_64(); }
//@ loop 0
vx_n0 == p2(value.index_width as int), count@[0] <= vx_i0, count@[1] <= vx_i0,
//@ loop 1
vx_n1 == p2(value.index_width as int), out.ainv(), out.index_width == value.index_width, out.data_width == value.data_width,
forall|n: int| 0 <= n < p2(value.index_width as int) ==> #[trigger] out.aget(n) == if n < vx_i1 { value.aget(n) } else if default { 1 } else { 0 },
//@ ghost loop 1 before
proof { val_one_word(crate::bv::owned::bool_words(default)); }
//@ loop 2
vx_n2 == p2(value.index_width as int),
forall|k: int| 0 <= k < 256 ==> #[trigger] count@[k] <= vx_i2 && (count@[k] > 0 ==> k < p2(value.data_width as int)),
vx_i2 > 0 ==> count@[data@[0] as int] > 0,
//@ loop 3
vx_own1@ == count@, vx_n3 == 256, 0 <= vx_r3 < 256,
forall|k: int| 0 <= k < vx_i3 ==> #[trigger] vx_own1@[k] <= vx_own1@[vx_r3 as int],
//@ loop 4
vx_n4 == p2(value.index_width as int), out.ainv(), out.index_width == value.index_width, out.data_width == value.data_width,
forall|n: int| 0 <= n < p2(value.index_width as int) ==> #[trigger] out.aget(n) == if n < vx_i4 { data@[n] as int } else { default as int },
//@ loop 5
vx_n5 == p2(value.index_width as int),
forall|k: u64| #[trigger] count@.contains_key(k) ==> count@[k] <= vx_i5 && k < p2(value.data_width as int),
vx_i5 > 0 ==> count@.contains_key(data@[0]),
//@ ghost loop 6 before
proof {
    let e = Seq::new(vx_own2@.len(), |i: int| (vx_own2@[i].0.kv(), vx_own2@[i].1));
    assert forall|j: int| 0 <= j < vx_own2@.len() implies (#[trigger] vx_own2@[j]).0 < p2(value.data_width as int) by { assert(count@.contains_key(e[j].0)); }
}
//@ loop 6
vx_n6 == vx_own2@.len(), vx_r6 < vx_own2@.len(),
forall|j: int| 0 <= j < vx_own2@.len() ==> (#[trigger] vx_own2@[j]).0 < p2(value.data_width as int),
//@ loop 7
vx_n7 == p2(value.index_width as int), out.ainv(), out.index_width == value.index_width, out.data_width == value.data_width,
forall|n: int| 0 <= n < p2(value.index_width as int) ==> #[trigger] out.aget(n) == if n < vx_i7 { data@[n] as int } else { default as int },
//@ loop 8
vx_n8 == p2(value.index_width as int),
forall|k: (u32, Seq<u64>)| #[trigger] count@.contains_key(k) ==> count@[k] <= vx_i8 && k.0 == value.data_width && wfw(k.1, value.data_width as int),
vx_i8 > 0 ==> exists|k: (u32, Seq<u64>)| #[trigger] count@.contains_key(k),
//@ ghost loop 9 before
proof {
    let e = Seq::new(vx_own3@.len(), |i: int| (vx_own3@[i].0.kv(), vx_own3@[i].1));
    assert forall|j: int| 0 <= j < vx_own3@.len() implies (#[trigger] vx_own3@[j]).0.width == value.data_width && wfw(vx_own3@[j].0.words@, value.data_width as int) by { assert(count@.contains_key(e[j].0)); }
}
//@ loop 9
vx_n9 == vx_own3@.len(), vx_r9 < vx_own3@.len(),
forall|j: int| 0 <= j < vx_own3@.len() ==> (#[trigger] vx_own3@[j]).0.width == value.data_width && wfw(vx_own3@[j].0.words@, value.data_width as int),
//@ loop 10
vx_n10 == p2(value.index_width as int), out.ainv(), out.index_width == value.index_width, out.data_width == value.data_width,
forall|n: int| 0 <= n < p2(value.index_width as int) ==> #[trigger] out.aget(n) == if n < vx_i10 { value.aget(n) } else { val(default.words@) },
//@ ghost end
proof { assert(vx_ret.vw().2 =~= arr_vw(value).2); }
//@ fn SparseArrayValue::non_default_entries
//@ props C16
//@ requires
self.ainv(),
//@ ensures
r.index_width == self.index_width, r.data_width == self.data_width, it_ok(r.underlying, r.index_width as int, r.data_width as int),
non_default(self, it_view(r.underlying)),
//@ ghost end
proof {
    let (iw, dw) = (self.index_width as int, self.data_width as int);
    p2_small(iw);
    let s = it_view(vx_ret.underlying);
    if self.data is U64U64 {
        let m = self.data->U64U64_1@;
        let it = vx_ret.underlying->U64U64_0@;
        let e = ent_view(it);
        assert forall|j: int| 0 <= j < it.len() implies *(#[trigger] it[j]).0 < p2(iw) && *it[j].1 < p2(dw) by { assert(m.contains_key(e[j].0)); }
        assert forall|j: int| 0 <= j < s.len() implies 0 <= (#[trigger] s[j]).0 < p2(iw) && s[j].1 == self.aget(s[j].0) && s[j].1 != sp_default(self.data) by { assert(m.contains_key(e[j].0)); }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(e[i].0 != e[j].0); }
        assert forall|n: int| 0 <= n < p2(iw) && #[trigger] self.aget(n) != sp_default(self.data) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n by {
            assert(m.contains_key(n as u64));
            let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == n as u64;
            assert(s[j].0 == n);
        }
    }
    if self.data is U64Big {
        let m = self.data->U64Big_1@;
        let it = vx_ret.underlying->U64Big_0@;
        let e = ent_view(it);
        assert forall|j: int| 0 <= j < it.len() implies *(#[trigger] it[j]).0 < p2(iw) && it[j].1.width == dw && wfw(it[j].1.words@, dw) by { assert(m.contains_key(e[j].0)); }
        assert forall|j: int| 0 <= j < s.len() implies 0 <= (#[trigger] s[j]).0 < p2(iw) && s[j].1 == self.aget(s[j].0) && s[j].1 != sp_default(self.data) by { assert(m.contains_key(e[j].0)); }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(e[i].0 != e[j].0); }
        assert forall|n: int| 0 <= n < p2(iw) && #[trigger] self.aget(n) != sp_default(self.data) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n by {
            assert(m.contains_key(n as u64));
            let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == n as u64;
            assert(s[j].0 == n);
        }
    }
    if self.data is BigBig {
        let m = self.data->BigBig_1@;
        let it = vx_ret.underlying->BigBig_0@;
        let e = ent_view(it);
        assert forall|j: int| 0 <= j < it.len() implies (#[trigger] it[j]).0.width == iw && wfw(it[j].0.words@, iw) && it[j].1.width == dw && wfw(it[j].1.words@, dw) by { assert(m.contains_key(e[j].0)); }
        assert forall|j: int| 0 <= j < s.len() implies 0 <= (#[trigger] s[j]).0 < p2(iw) && s[j].1 == self.aget(s[j].0) && s[j].1 != sp_default(self.data) by {
            assert(m.contains_key(e[j].0));
            wf_bound(e[j].0.1, iw);
            words_of_is(e[j].0.1);
            assert(big_key(iw, s[j].0) == e[j].0);
        }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by {
            assert(e[i].0 != e[j].0);
            assert(m.contains_key(e[i].0) && m.contains_key(e[j].0));
            if s[i].0 == s[j].0 { val_inj(e[i].0.1, e[j].0.1); }
        }
        assert forall|n: int| 0 <= n < p2(iw) && #[trigger] self.aget(n) != sp_default(self.data) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n by {
            let k = big_key(iw, n);
            assert(m.contains_key(k));
            let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == k;
            assert(m.contains_key(e[j].0));
            key_eq(k.1, iw, n);
            assert(s[j].0 == n);
        }
    }
}
//@ fn impl Iterator for SparseArrayEntryIter::next
//@ props C16
//@ requires
it_ok(old(self_).underlying, old(self_).index_width as int, old(self_).data_width as int),
//@ ensures
final(self_).index_width == old(self_).index_width, final(self_).data_width == old(self_).data_width,
it_ok(final(self_).underlying, old(self_).index_width as int, old(self_).data_width as int),
match r {
    Some(e) => {
        let s = it_view(old(self_).underlying);
        s.len() > 0 && it_view(final(self_).underlying) == s.subrange(1, s.len() as int)
        && e.0.width == old(self_).index_width && wfw(e.0.words@, e.0.width as int) && val(e.0.words@) == s[0].0
        && e.1.width == old(self_).data_width && wfw(e.1.words@, e.1.width as int) && val(e.1.words@) == s[0].1
    },
    None => it_view(old(self_).underlying).len() == 0 && it_view(final(self_).underlying).len() == 0,
},
//@ fn ArrayValue::new_dense
//@ props C15
//@ requires
default.vx_into_req(), wfw(default.vx_into_spec().1, default.vx_into_spec().0 as int), dense_ok(index_width as int, default.vx_into_spec().0 as int),
//@ ensures
r.ainv(), r.siw() == index_width, r.sdw() == default.vx_into_spec().0,
forall|n: int| 0 <= n < p2(index_width as int) ==> #[trigger] r.aget(n) == val(default.vx_into_spec().1),
//@ fn ArrayValue::new_sparse
//@ props C16
//@ requires
default.vx_into_req(), default.vx_into_spec().0 >= 1, wfw(default.vx_into_spec().1, default.vx_into_spec().0 as int),
//@ ensures
r.ainv(), r.siw() == index_width, r.sdw() == default.vx_into_spec().0,
forall|n: int| 0 <= n < p2(index_width as int) ==> #[trigger] r.aget(n) == val(default.vx_into_spec().1),
//@ fn ArrayValue::make_dense
//@ props C17
//@ requires
old(self).ainv(), old(self).data is Sparse ==> dense_ok(old(self).siw() as int, old(self).sdw() as int),
//@ ensures
final(self).ainv(), final(self).data is Dense, final(self).siw() == old(self).siw(), final(self).sdw() == old(self).sdw(), arr_same(final(self), old(self)),
//@ ghost end
proof {
    if old(self).data is Sparse && self.data is Dense {
        let d = self.data->Dense_0;
        let s = old(self).data->Sparse_0;
        vw_same(&d, &s);
        assert(arr_same(self, old(self)) == arr_same(&d, &s));
    }
}
//@ fn ArrayValue::is_equal
//@ props C18
//@ requires
self.ainv(), other.ainv(), !(self.data is Sparse && other.data is Sparse) && !(self.data is Dense && other.data is Dense) && self.siw() == other.siw() && self.sdw() == other.sdw() ==> dense_ok(self.siw() as int, self.sdw() as int),
//@ ensures
arr_eq(self, other, r),
//@ ghost end
proof {
    let (a, b) = (self.data, other.data);
    if a is Dense { assert forall|n: int| #[trigger] (a->Dense_0).aget(n) == self.aget(n) by {} }
    if a is Sparse { assert forall|n: int| #[trigger] (a->Sparse_0).aget(n) == self.aget(n) by {} }
    if b is Dense { assert forall|n: int| #[trigger] (b->Dense_0).aget(n) == other.aget(n) by {} }
    if b is Sparse { assert forall|n: int| #[trigger] (b->Sparse_0).aget(n) == other.aget(n) by {} }
    if a is Dense && b is Dense { assert(arr_same(self, other) == arr_same(&a->Dense_0, &b->Dense_0)); }
    if a is Sparse && b is Sparse { assert(arr_same(self, other) == arr_same(&a->Sparse_0, &b->Sparse_0)); }
    if a is Dense && b is Sparse { assert(arr_same(self, other) == arr_same(&a->Dense_0, &b->Sparse_0)); }
    if a is Sparse && b is Dense { if self.siw() == other.siw() { assert(arr_same(self, other) == arr_same(&b->Dense_0, &a->Sparse_0)); } }
}
//@ fn is_equal_mixed
//@ props C18
//@ requires
dense.ainv(), sparse.ainv(), dense.index_width == sparse.index_width && dense.data_width == sparse.data_width ==> dense_ok(dense.index_width as int, dense.data_width as int),
//@ ensures
arr_eq(dense, sparse, r),
//@ ghost end
proof {
    vw_same(&other_dense, sparse);
    assert(arr_same(&other_dense, dense) == arr_same(dense, sparse));
}
//@ fn impl PartialEq<ArrayValue> for ArrayValue::eq
//@ props C18
//@ requires
self_.ainv(), other.ainv(), !(self_.data is Sparse && other.data is Sparse) && !(self_.data is Dense && other.data is Dense) && self_.siw() == other.siw() && self_.sdw() == other.sdw() ==> dense_ok(self_.siw() as int, self_.sdw() as int),
//@ ensures
r == (self_.siw() == other.siw() && self_.sdw() == other.sdw() && arr_same(self_, other)),
//@ impl impl From<&[bool]> for ArrayValue
    open spec fn vx_from_req(v: &[bool]) -> bool { v@.len() <= 0x8000_0000 }
    open spec fn vx_from_spec(v: &[bool]) -> (u32, u32, Seq<int>, bool) { pad_vw(v@.len() as int, 1, |n: int| if v@[n] { 1 } else { 0 }) }
//@ fn impl From<&[bool]> for ArrayValue::from
//@ props C19
//@ ghost end
proof { assert(vx_ret.vw().2 =~= Self::vx_from_spec(value).2); }
//@ impl impl From<&[u8]> for ArrayValue
    open spec fn vx_from_req(v: &[u8]) -> bool { v@.len() <= 0x4000_0000_0000_0000 }
    open spec fn vx_from_spec(v: &[u8]) -> (u32, u32, Seq<int>, bool) { pad_vw(v@.len() as int, 8, |n: int| v@[n] as int) }
//@ fn impl From<&[u8]> for ArrayValue::from
//@ props C19
//@ ghost end
proof { assert(vx_ret.vw().2 =~= Self::vx_from_spec(value).2); }
//@ impl impl From<&[u64]> for ArrayValue
    open spec fn vx_from_req(v: &[u64]) -> bool { v@.len() <= 0x4000_0000_0000_0000 }
    open spec fn vx_from_spec(v: &[u64]) -> (u32, u32, Seq<int>, bool) { pad_vw(v@.len() as int, 64, |n: int| v@[n] as int) }
//@ fn impl From<&[u64]> for ArrayValue::from
//@ props C19
//@ ghost end
proof { assert(vx_ret.vw().2 =~= Self::vx_from_spec(value).2); }
//@ impl impl From<ArrayValue> for SparseArrayValue
    open spec fn vx_from_req(v: ArrayValue) -> bool { v.ainv() }
    open spec fn vx_from_spec(v: ArrayValue) -> (u32, u32, Seq<int>, bool) { arr_vw(&v) }
//@ fn impl From<ArrayValue> for SparseArrayValue::from
//@ props C17
//@ ghost end
proof { assert(vx_ret.vw().2 =~= arr_vw(&value).2); }

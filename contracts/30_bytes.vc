//@ module bv::io::bytes
//@ fn to_bytes_le
//@ props C08
//@ requires
wfw(values@, width as int),
//@ ensures
r@.len() == (width as int + 7) / 8, bval(r@) == val(values@),
//@ loop 0
out@.len() == if byte_count < 8 * vx_i0 { byte_count as int } else { 8 * vx_i0 },
forall|k: int| 0 <= k < 8 * out@.len() ==> #[trigger] bbit(out@, k) == sbit(values@, k),
//@ loop 1
out@.len() == if byte_count < 8 * vx_k0 + vx_i1 { byte_count as int } else { 8 * vx_k0 + vx_i1 },
forall|k: int| 0 <= k < 8 * out@.len() ==> #[trigger] bbit(out@, k) == sbit(values@, k),
forall|k: int| 0 <= k ==> #[trigger] wbit(value, k) == wbit(values@[vx_k0 as int], k + 8 * vx_i1),
//@ ghost before-call push
let ghost o0 = out@;
let ghost v0 = value;
assert((value as u8) == ((value & 0xff) as u8)) by (bit_vector);
//@ ghost after-call push
proof {
    let n = o0.len() as int;
    let i = vx_k0 as int;
    assert(n == 8 * i + vx_k1);
    assert forall|k: int| 0 <= k < 8 * out@.len() implies #[trigger] bbit(out@, k) == sbit(values@, k) by {
        if k < 8 * n { assert(bbit(o0, k) == sbit(values@, k)); assert(out@[k / 8] == o0[k / 8]); }
        else {
            let m = k - 8 * n;
            assert(k / 8 == n && k % 8 == m);
            byte_bits(v0, m);
            assert(wbit(v0, m) == wbit(values@[i], m + 8 * vx_k1));
            assert(k / 64 == i && k % 64 == m + 8 * vx_k1);
        }
    }
}
//@ ghost end
proof {
    assert forall|k: int| #[trigger] bbit(vx_ret@, k) == sbit(values@, k) by {}
    bval_val(vx_ret@, values@);
}
//@ fn from_bytes_le
//@ props C08 C01
//@ requires
old(out)@.len() == nw(width as int), bytes@.len() <= 8 * nw(width as int),
//@ ensures
wfw(final(out)@, width as int), val(final(out)@) == bval(bytes@) % p2(width as int),
forall|k: int| #[trigger] sbit(final(out)@, k) == (k < width && bbit(bytes@, k)),
//@ ghost start
proof { p2_64(); if width == 0 { val_zero(out@); bvaln_bound(bytes@, bytes@.len() as int); } }
//@ loop 0
out@.len() == nw(width as int),
forall|k: int| #[trigger] sbit(out@, k) == (k < 8 * vx_i0 && bbit(bytes@, k)),
//@ ghost loop 0 start
let ghost o0 = out@;
//@ ghost loop 0 end
proof {
    let i = vx_k0 as int;
    let b = bytes@[i];
    assert(out@ == o0.update(i / 8, o0[i / 8] | ((b as u64) << shift_by)));
    assert forall|k: int| #[trigger] sbit(out@, k) == (k < 8 * vx_i0 && bbit(bytes@, k)) by {
        assert(sbit(o0, k) == (k < 8 * i && bbit(bytes@, k)));
        if 0 <= k < 64 * out@.len() {
            if k / 64 == i / 8 {
                let m = k % 64;
                assert(wbit(out@[k / 64], m) == (wbit(o0[i / 8], m) || (shift_by <= m && wbit(b as u64, m - shift_by))));
                if m - shift_by >= 8 { byte_high(b, m - shift_by); }
                if 8 * i <= k < 8 * i + 8 { assert(k / 8 == i && k % 8 == m - shift_by); }
            }
        }
    }
}
//@ ghost end
proof { bval_mask(bytes@, out@, width as int); }
//@ module bv::ops
//@ fn BitVecOps::to_bytes_le
//@ props C08
//@ requires
wfw(self.ss(), self.sw() as int),
//@ ensures
r@.len() == (self.sw() as int + 7) / 8, bval(r@) == val(self.ss()),
//@ module bv::owned
//@ fn BitVecValue::from_bytes_le
//@ props C08 C01
//@ requires
bytes@.len() <= 8 * nw(bits as int),
//@ ensures
r.width == bits, wfw(r.words@, bits as int), val(r.words@) == bval(bytes@) % p2(bits as int),

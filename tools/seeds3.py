A='bv/arithmetic.rs'; R='array/owned.rs'; S='bv/io/strings.rs'; O='bv/ops.rs'; X='bv/indexed.rs'; Y='bv/io/bytes.rs'; B='bv/io/bigint.rs'
SEEDS = {
'c12-xor-fold': dict(prop='C12', edits=[(A,'a.iter().zip(b.iter()).all(|(a, b)| a == b)','a.iter().zip(b.iter()).fold(0, |d, (a, b)| d ^ a ^ b) == 0')],
 demo='''
    let a = v(150, &[5, 9, 3]);
    let b = v(150, &[9, 5, 3]);
    assert!(a != b && !a.is_equal(&b));
''', needs='two values of several words with the same exclusive or of all words', breaks='they compare equal'),
'c07-zero-sum': dict(prop='C07', edits=[(O,'self.words().iter().all(|w| *w == 0)','self.words().iter().fold(0 as Word, |s, w| s.wrapping_add(*w)) == 0')],
 demo='''
    assert!(!v(128, &[5, 5u64.wrapping_neg()]).is_zero());
    assert!(v(128, &[0, 0]).is_zero());
''', needs='a value whose words sum up to a multiple of 2^64', breaks='it is reported as zero'),
'c02-mul-cross': dict(prop='C02', edits=[(A,'''        let (res, _) = a[0].overflowing_mul(b[0]);
        dst[0] = res & mask(width);''','''        // 32-bit limbs
        let (a_hi, a_lo) = (a[0] >> 32, a[0] & mask(32));
        let (b_hi, b_lo) = (b[0] >> 32, b[0] & mask(32));
        let cross = (a_hi * b_lo).saturating_add(a_lo * b_hi);
        let res = (a_lo * b_lo).wrapping_add(cross << 32);
        dst[0] = res & mask(width);''')],
 demo='''
    let a = 0xffff_fff1_ffff_fff3u64; let b = 0xffff_ff77_ffff_ff15u64;
    assert_eq!(v(64, &[a]).mul(&v(64, &[b])).words(), &[a.wrapping_mul(b)]);
''', needs='a multiplication of numbers whose cross products exceed 64 bits', breaks='the high half of the product is wrong'),
'c04-shl-aligned': dict(prop='C04', edits=[(A,'''    // otherwise we actually perform the shift
    let shift_left = shift_amount % Word::BITS;
    let shift_words = shift_amount / Word::BITS;
    let shift_right = Word::BITS - shift_left;''','''    // otherwise we actually perform the shift
    let shift_left = shift_amount % Word::BITS;
    let shift_words = shift_amount / Word::BITS;
    if shift_left == 0 {
        // only whole words move
        let n = shift_words as usize;
        clear(&mut dst[..n]);
        assign(&mut dst[n..], a);
        return;
    }
    let shift_right = Word::BITS - shift_left;''')],
 demo='''
    let a = v(100, &[u64::MAX, 3]);
    let n = v(100, &[64, 0]);
    assert_eq!(a.shift_left(&n).words(), &[0, (1u64 << 36) - 1]);
''', needs='a left shift by a positive multiple of 64 of a width that is none', breaks='bits above the width are set'),
'c05-slice-aligned': dict(prop='C05', edits=[(A,'''    if shift_right == 0 {
        assign(dst, src);
    } else {
        // assign''','''    if shift_right == 0 {
        assign(dst, src);
        if hi_word + 1 == source.len() && source.len() > 2 {
            // the most significant word has no unused bits set
            return;
        }
    } else {
        // assign''')],
 demo='''
    let a = v(190, &[1, 2, (1 << 62) - 1]);
    assert_eq!(a.slice(130, 64).words(), &[2u64, 7]);
''', needs='a slice from a word boundary that ends in the last of three or more words, but not at its top', breaks='bits above the width of the slice are set'),
'c08-width-u16': dict(prop='C08', edits=[(Y,'let byte_count = width.div_ceil(u8::BITS) as usize;','let byte_count = (width as u16).div_ceil(u8::BITS as u16) as usize;')],
 demo='''
    let mut a = BitVecValue::zero(70000);
    a.set_bit(69999);
    let b = a.to_bytes_le();
    assert_eq!(b.len(), 8750);
    assert_eq!(b[8749], 128);
''', needs='a width of 65536 bits or more', breaks='bytes are missing'),
'c09-dec-split': dict(prop='C09', edits=[(S,'2 => write!(out, "{}", words_to_u128(values)).unwrap(),','''2 => {
            // print in two chunks of at most 19 digits
            const CHUNK: u128 = 10_000_000_000_000_000_000;
            let value = words_to_u128(values);
            write!(out, "{}{:019}", (value / CHUNK) as u64, (value % CHUNK) as u64).unwrap()
        }''')],
 demo='''
    assert_eq!(v(128, &[u64::MAX, u64::MAX]).to_dec_str(), u128::MAX.to_string());
    assert_eq!(v(128, &[5, 1]).to_dec_str(), ((1u128 << 64) + 5).to_string());
''', needs='a number above 10^19 * 2^64, printed in decimal', breaks='the decimal text denotes another number'),
'c11-min-signed': dict(prop='C11', edits=[(B,'words * Word::BITS - msb.leading_zeros() + 1','''// powers of two need no extra bit when negative
        let bits = words * Word::BITS - msb.leading_zeros();
        if value.sign() == num_bigint::Sign::Minus && value.iter_u64_digits().all(|w| w.is_power_of_two()) { bits } else { bits + 1 }''')],
 demo='''
    let x = num_bigint::BigInt::from(-8);
    assert_eq!(BitVecValue::from(&x).width(), 5);
    let y = (num_bigint::BigInt::from(-1) << 64) - 4;
    assert_eq!(BitVecValue::from(&y).to_big_int(), y);
''', needs='a negative integer all of whose words are powers of two', breaks='the inferred width is one too small'),
'c13-u16-index': dict(prop='C13', edits=[(X,'let index = self.words.len() as WordIndex;\n                self.words.extend','let index = self.words.len() as u16 as WordIndex;\n                self.words.extend')],
 demo='''
    let mut i = ValueInterner::new();
    for k in 0..33000u64 { i.get_index(&v(128, &[k, k])); }
    let x = i.get_index(&v(128, &[1 << 40, 7]));
    assert_eq!(i.words().get_ref(x).words(), &[1u64 << 40, 7]);
''', needs='a store of more than 65536 words', breaks='the index of a later wide value addresses another value'),
'c14-src-width': dict(prop='C14', edits=[(X,'''            BitVecValueRef {
                width: b.borrow().width,
                words: b_words,
            },
        )
    }
}
''','''            BitVecValueRef {
                width: if a_len == b_words.len() { a.borrow().width } else { b.borrow().width },
                words: b_words,
            },
        )
    }
}
'''),(X,'''        let (a_words, b_words) = split_borrow_1(self, a.borrow().to_range(), b.borrow().to_range());
''','''        let (a_words, b_words) = split_borrow_1(self, a.borrow().to_range(), b.borrow().to_range());
        let a_len = a_words.len();
''')],
 demo='''
    let mut s = [1u64, 2, 3, 4];
    let (a, b) = (BitVecValueIndex::new(0, 64), BitVecValueIndex::new(1, 7));
    let (_, r): (BitVecValueMutRef, BitVecValueRef) = s.as_mut_slice().get_mut_ref((a, b));
    assert_eq!(r.width(), 7);
''', needs='a destination and a source of different widths with the same number of words', breaks='the source reference has the width of the destination'),
'c15-bit-index': dict(prop='C15', edits=[(R,'''                if data.is_tru() {
                    value.set_bit(index as WidthInt);
                } else {
                    value.clear_bit(index as WidthInt);''','''                if data.is_tru() {
                    value.set_bit(index as WidthInt);
                } else {
                    value.clear_bit(index as u16 as WidthInt);''')],
 demo='''
    let mut a = ArrayValue::new_dense(17, &BitVecValue::tru());
    a.store(&BitVecValue::from_u64(70000, 17), &BitVecValue::fals());
    assert!(a.select(&BitVecValue::from_u64(70000, 17)).is_fals());
    assert!(a.select(&BitVecValue::from_u64(70000 - 65536, 17)).is_tru());
''', needs='a one-bit dense array of more than 65536 elements, and a false stored behind them', breaks='another element is cleared'),
'c16-entry-index': dict(prop='C16', edits=[(R,'''            SparseArrayIterImpl::U64Big(iter) => {
                let (index, value) = iter.next()?;
                Some((
                    BitVecValue::from_u64(*index, self.index_width),''','''            SparseArrayIterImpl::U64Big(iter) => {
                let (index, value) = iter.next()?;
                Some((
                    BitVecValue::from_u64(*index as u32 as u64, self.index_width),''')],
 demo='''
    let mut a = SparseArrayValue::new(40, &BitVecValue::zero(80));
    a.store(&BitVecValue::from_u64(1 << 35, 40), &v(80, &[1, 2]));
    let e: Vec<_> = a.non_default_entries().collect();
    assert_eq!(e[0].0.to_u64(), Some(1 << 35));
''', needs='elements of more than 64 bits and an index of 2^32 or more', breaks='the entry is listed with another index'),
'c17-index-u16': dict(prop='C17', edits=[(R,'values[*index as usize] = *v;','values[*index as u16 as usize] = *v;')],
 demo='''
    let mut d = ArrayValue::new_sparse(17, &BitVecValue::zero(40));
    d.store(&BitVecValue::from_u64(70000, 17), &BitVecValue::from_u64(5, 40));
    d.make_dense();
    assert_eq!(d.select(&BitVecValue::from_u64(70000, 17)).to_u64(), Some(5));
''', needs='a sparse array with an element at an index of 65536 or more, made dense', breaks='the element moves'),
'c18-low-words': dict(prop='C18', edits=[(R,'''            (DenseArrayImpl::Big(values_a), DenseArrayImpl::Big(values_b)) => {
                Some(values_a == values_b)''','''            (DenseArrayImpl::Big(values_a), DenseArrayImpl::Big(values_b)) => {
                let n = 1usize << self.index_width;
                Some(values_a[..n] == values_b[..n] && values_a.last() == values_b.last())''')],
 demo='''
    let mut a = ArrayValue::new_dense(2, &BitVecValue::zero(80));
    let b = a.clone();
    a.store(&BitVecValue::from_u64(2, 2), &v(80, &[1, 2]));
    assert_eq!(a.is_equal(&b), Some(false));
''', needs='dense arrays with elements of more than 64 bits that differ in the upper half only', breaks='they compare equal'),
'c18-none-eq': dict(prop='C18', edits=[(R,'self.is_equal(other).unwrap_or_default()','self.is_equal(other).unwrap_or(self.index_width() == 0)')],
 demo='''
    let a = ArrayValue::new_dense(0, &BitVecValue::zero(8));
    let b = ArrayValue::new_dense(3, &BitVecValue::zero(8));
    assert!(a != b && b != a);
''', needs='arrays of different types compared with the operator, the left one having a single element', breaks='they compare equal'),
'c19-bool-u16': dict(prop='C19', edits=[(R,'data.set_bit(ii as WidthInt);','data.set_bit(ii as u16 as WidthInt);')],
 demo='''
    let mut x = vec![false; 70001];
    x[70000] = true;
    let a = ArrayValue::from(&x[..]);
    assert!(a.select(&BitVecValue::from_u64(70000, 17)).is_tru());
    assert!(a.select(&BitVecValue::from_u64(70000 - 65536, 17)).is_fals());
''', needs='a slice of more than 65536 booleans', breaks='elements behind the first 65536 are folded into them'),
'c22-early-out': dict(prop='C22', edits=[(O,'''        debug_assert_eq!(self.words_mut().len(), value.words().len());
        self.words_mut().copy_from_slice(value.words());''','''        debug_assert_eq!(self.words_mut().len(), value.words().len());
        if self.words().first() == value.words().first() && self.words().last() == value.words().last() {
            // nothing to do
            return;
        }
        self.words_mut().copy_from_slice(value.words());''')],
 demo='''
    let mut a = v(190, &[1, 2, 3]);
    a.assign(&v(190, &[1, 7, 3]));
    assert_eq!(a.words(), &[1u64, 7, 3]);
''', needs='an assignment to a value of three or more words with the same first and last word', breaks='the words in between keep their previous content'),
'c20-shl-31': dict(prop='C20', edits=[(O,'let denom = 1u64.checked_shl(fraction_width)?;','let denom = 1i64.checked_shl(fraction_width)?.unsigned_abs();'),(O,'self.to_u64().map(|v| fraction::Fraction::new(v, denom))','self.to_u64().map(|v| if v == denom { fraction::Fraction::from(1i32 << (fraction_width / 64)) } else { fraction::Fraction::new(v, denom as u32 as u64 | denom & !mask(32)) })')],
 demo='''
    assert_eq!(v(40, &[8]).to_unsigned_fixed_point(3), Some(fraction::Fraction::from(1)));
''', needs='-', breaks='-'),
'c06-eq-negated': dict(prop='C06', edits=[(A,'(true, true) => cmp_greater_equal(a, b), // TODO: does this actually work?','(true, true) => !cmp_greater(b, a) && (a.len() < 3 || a[1] >= b[1] || a[2..] != b[2..]),')],
 demo='''
    let a = v(192, &[0, 5, 1 << 63]);
    assert!(a.is_greater_or_equal_signed(&v(192, &[0, 4, 1 << 63])));
    assert!(!v(192, &[9, 4, 1 << 63]).is_greater_or_equal_signed(&a));
    let b = v(256, &[0, 5, 7, 1 << 63]);
    let c = v(256, &[0, 6, 6, 1 << 63]);
    assert!(b.is_greater_or_equal_signed(&c));
''', needs='-', breaks='-'),
'c10-split-hex': dict(prop='C10', edits=[(S,'''            let out = match u128::from_str_radix(value, radix) {''','''            let parsed = match radix {
                // two halves of at most 64 bits each
                16 if value.len() > 16 && value.len() <= 32 && value.is_ascii() => {
                    let (hi, lo) = value.split_at(value.len() - 16);
                    u64::from_str_radix(hi, 16).and_then(|hi| {
                        u64::from_str_radix(lo, 16).map(|lo| ((hi as u128) << 64) | lo as u128)
                    })
                }
                _ => u128::from_str_radix(value, radix),
            };
            let out = match parsed {''')],
 demo='''
    assert!(BitVecValue::from_str_radix("12+45678901234567", 16, 100).is_err());
    assert!(BitVecValue::from_str_radix("12+456789012345678", 16, 100).is_err());
    assert_eq!(BitVecValue::from_str_radix("12345678901234567", 16, 100).unwrap().words(), &[0x2345678901234567u64, 1]);
''', needs='hex text of more than 16 digits for 65 to 128 bits with a plus sign in front of the last 15 digits', breaks='text with a sign in the middle is accepted'),
}
del SEEDS['c20-shl-31'], SEEDS['c06-eq-negated']

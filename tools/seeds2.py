A='bv/arithmetic.rs'; R='array/owned.rs'; S='bv/io/strings.rs'
SEEDS = {
'c06-top-words': dict(prop='C06', edits=[(A,'for (a, b) in a.iter().rev().zip(b.iter().rev()) {','for (a, b) in a.iter().rev().zip(b.iter().rev()).take(4) {')],
 demo='''
    let a = v(320, &[2, 7, 7, 7, 7]);
    let b = v(320, &[1, 7, 7, 7, 7]);
    assert!(a.is_greater(&b) && !a.is_less_or_equal(&b) && a.is_greater_signed(&b));
    assert!(!b.is_greater_or_equal(&a));
''', needs='values of more than 256 bits that agree in their four most significant words', breaks='they compare as equal'),
'c04-asr-top-bit': dict(prop='C04', edits=[(A,'if local_msb < (Word::BITS - 1) {','if local_msb + 1 < (Word::BITS - 1) {')],
 demo='''
    let a = v(64, &[1 << 63]);
    let n = v(64, &[1]);
    assert_eq!(a.arithmetic_shift_right(&n).words(), &[3u64 << 62]);
''', needs='an arithmetic right shift of a negative value that keeps 63 bits of a word', breaks='the sign bit just above the kept bits stays zero'),
'c04-amount-cast': dict(prop='C04', edits=[(A,'''    let shift_amount = b[0];
    if msb_set || shift_amount >= width as Word {
        None // result is just zero or the sign bit
    } else {
        Some(shift_amount as WidthInt)
    }''','''    let shift_amount = b[0] as WidthInt;
    if msb_set || shift_amount >= width {
        None // result is just zero or the sign bit
    } else {
        Some(shift_amount)
    }''')],
 demo='''
    let a = v(40, &[0xff]);
    let n = v(40, &[(1 << 32) + 1]);
    assert_eq!(a.shift_left(&n).words(), &[0u64]);
    assert_eq!(a.shift_right(&n).words(), &[0u64]);
''', needs='a shift amount of 2^32 or more whose low 32 bits are below the width', breaks='the amount is truncated to 32 bits'),
'c10-hex-g': dict(prop='C10', edits=[(S,"b'A'..=b'F' => digit - b'A' + 10,","b'A'..=b'G' => digit - b'A' + 10,")],
 demo='''
    assert!(BitVecValue::from_str_radix("10G", 16, 200).is_err());
''', needs='the letter G in hex text parsed into more than 128 bits', breaks='text with an invalid digit is accepted'),
'c10-width-by-words': dict(prop='C10', edits=[(S,'''    let width = digits.len() as WidthInt;
    if width > max_width {''','''    let width = digits.len() as WidthInt;
    if width.div_ceil(Word::BITS) as usize > out.len() {''')],
 demo='''
    let s = "1".repeat(131);
    assert!(BitVecValue::from_str_radix(&s, 2, 130).is_err());
''', needs='binary text of more digits than the width, but no more than the words of the value hold, above 128 bits', breaks='a number that does not fit is accepted and bits above the width are set'),
'c11-neg-low-zero': dict(prop='C11', edits=[('bv/io/bigint.rs','''        let out_copy = Vec::from_iter(out.iter().cloned());
        crate::bv::arithmetic::negate(out, &out_copy, width);''','''        if let Some((first, rest)) = out.split_first_mut() {
            *first = first.wrapping_neg();
            for word in rest.iter_mut() {
                *word = !*word;
            }
            crate::bv::arithmetic::mask_msb(out, width);
        }''')],
 demo='''
    let n = -(num_bigint::BigInt::from(1) << 64u32);
    let r = BitVecValue::from_big_int(&n, 128);
    assert_eq!(r.words(), &[0, u64::MAX]);
''', needs='a negative big integer that is a multiple of 2^64, converted to more than one word', breaks='the carry out of the low zero word is lost'),
'c13-eight': dict(prop='C13', edits=[('bv/indexed.rs','if word < 8 {','if word <= 8 {')],
 demo='''
    let mut s = ValueInterner::new();
    let a = s.get_index(&BitVecValue::from_u64(8, 20));
    let b = s.get_index(&BitVecValue::from_u64(1000, 20));
    assert_ne!(a, b);
    let r: BitVecValueRef = s.words().get_ref(a);
    assert_eq!(r.to_u64(), Some(8));
''', needs='the value 8', breaks='the index of 8 addresses a word that is not there or belongs to another value'),
'c16-big-keep-default': dict(prop='C16', edits=[(R,'''            SparseArrayImpl::BigBig(default, map) => {
                let index = BitVecValue::from(index);
                if data.is_equal(default) {
                    // ensures that the default value is used for the given index
                    map.remove(&index);
                } else {''','''            SparseArrayImpl::BigBig(default, map) => {
                let index = BitVecValue::from(index);
                if data.is_equal(default) && !map.contains_key(&index) {
                    // the default value is used for the given index
                } else {''')],
 demo='''
    let mut a = SparseArrayValue::new(100, &BitVecValue::zero(8));
    let i = v(100, &[3, 4]);
    a.store(&i, &BitVecValue::from_u64(9, 8));
    a.store(&i, &BitVecValue::from_u64(0, 8));
    assert_eq!(a.non_default_entries().count(), 0);
''', needs='an index of more than 64 bits whose element is overwritten by the default value', breaks='the default value is listed as an entry'),
'c17-low-word': dict(prop='C17', edits=[(R,'''                    if value != default {
                        out.store_u64_big(bit as u64, &value);''','''                    if value.words()[0] != default.words()[0] {
                        out.store_u64_big(bit as u64, &value);''')],
 demo='''
    let mut a = ArrayValue::new_dense(2, &BitVecValue::zero(100));
    a.store(&BitVecValue::from_u64(2, 2), &v(100, &[0, 7]));
    let s = SparseArrayValue::from(a);
    assert_eq!(s.select(&BitVecValue::from_u64(2, 2)).words(), &[0u64, 7]);
''', needs='a dense array with elements of more than 64 bits, one of which has the low word of the most frequent element', breaks='the element becomes the default'),
'c19-float-log': dict(prop='C19', edits=[(R,'        usize::BITS - (len - 1).leading_zeros()','        (len as f32).log2().ceil() as WidthInt')],
 demo='''
    let mut x = vec![0u8; (1 << 24) + 1];
    *x.last_mut().unwrap() = 9;
    let a = ArrayValue::from(&x[..]);
    assert_eq!(a.index_width(), 25);
    assert_eq!(a.select(&BitVecValue::from_u64(1 << 24, 25)).to_u64(), Some(9));
''', needs='a slice of 2^24 + 1 elements', breaks='the index width is too small, the last element is dropped'),
'c09-dec-sign': dict(prop='C09', edits=[(S,'1 => write!(out, "{}", values[0]).unwrap(),','1 => write!(out, "{}", values[0] as i64).unwrap(),')],
 demo='''
    assert_eq!(v(64, &[1 << 63]).to_dec_str(), "9223372036854775808");
    assert_eq!(v(100, &[u64::MAX, 0]).to_dec_str(), "18446744073709551615");
''', needs='a value between 2^63 and 2^64', breaks='the decimal text is that of a negative number'),
'c15-stale-words': dict(prop='C15', edits=[(R,'''                let end = start + words_per_element;
                let mut value_ref = BitVecValueMutRef::new(data_width, &mut values[start..end]);
                value_ref.assign(data);''','''                // the words above the most significant one that is set do not need to be copied
                let used = data.words().iter().rposition(|w| *w != 0).map_or(1, |p| p + 1);
                debug_assert!(used <= words_per_element && data_width > u64::BITS);
                values[start..start + used].copy_from_slice(&data.words()[..used]);''')],
 demo='''
    let mut a = ArrayValue::new_dense(2, &BitVecValue::zero(100));
    let i = BitVecValue::from_u64(1, 2);
    a.store(&i, &v(100, &[1, 2]));
    a.store(&i, &v(100, &[3, 0]));
    assert_eq!(a.select(&i).words(), &[3u64, 0]);
''', needs='a dense array with elements of more than 64 bits, a small element stored over a large one', breaks='high words of the previous element survive'),
'c03-far-words': dict(prop='C03', edits=[(A,'''    for (d, (a, b)) in dst.iter_mut().zip(a.iter().zip(b.iter())) {
        *d = (op)(*a, *b);''','''    let mid = (dst.len() + 1) / 2;
    for (ii, (d, (a, b))) in dst.iter_mut().zip(a.iter().zip(b.iter())).enumerate() {
        // unrolled by two
        *d = if ii >= 6 && ii > mid + 2 { *a } else { (op)(*a, *b) };''')],
 demo='''
    let a = v(64 * 12, &[1; 12]);
    let b = v(64 * 12, &[2; 12]);
    assert_eq!(a.or(&b).words(), &[3u64; 12]);
''', needs='operands of twelve or more words', breaks='high words are copied from the first operand'),
'c05-sext-far': dict(prop='C05', edits=[(A,'''        set(&mut dst[source.len()..]);''','''        for word in dst.iter_mut().skip(source.len()).take(96) {
            *word = Word::MAX;
        }''')],
 demo='''
    let a = v(1, &[1]);
    assert_eq!(a.sign_extend(64 * 100 - 1).words(), &[u64::MAX; 100]);
''', needs='a sign extension by more than 96 words', breaks='words above stay zero'),
'c12-owned-width': dict(prop='C12', edits=[('bv/owned.rs','other.width() == self.width && other.words() == self.words.as_slice()','(other.width() == self.width || self.words.spilled()) && other.words() == self.words.as_slice()')],
 demo='''
    let a = v(130, &[1, 2, 3]);
    let b = v(131, &[1, 2, 3]);
    assert!(a != b);
    assert!(b != a);
''', needs='two values of more than 128 bits with the same words and different widths', breaks='they compare equal'),
'c08-top-byte': dict(prop='C08', edits=[('bv/io/bytes.rs','let shift_by = u8::BITS * (ii as u32 % BYTES_PER_WORD);','let shift_by = u8::BITS * (ii as u8 as u32 % BYTES_PER_WORD);'),('bv/io/bytes.rs','let word_ii = ii / BYTES_PER_WORD as usize;','let word_ii = (ii as u16 / BYTES_PER_WORD as u16) as usize;')],
 demo='''
    let mut x = vec![0u8; 70000];
    x[69999] = 5;
    let a = BitVecValue::from_bytes_le(&x, 70000 * 8);
    assert_eq!(a.to_bytes_le(), x);
''', needs='more than 65536 bytes', breaks='high bytes are folded into low words'),
'c22-from-u64': dict(prop='C22', edits=[('bv/ops.rs','''        // clear all words
        self.clear();
        // assign lsb
        self.words_mut()[0] = value;''','''        // clear all words above the lsb
        if let Some(msb) = self.words_mut().last_mut() {
            *msb = 0;
        }
        // assign lsb
        self.words_mut()[0] = value;''')],
 demo='''
    let mut a = v(192, &[1, 2, 3]);
    a.assign_from_u64(7);
    assert_eq!(a.words(), &[7u64, 0, 0]);
''', needs='a destination of three or more words whose middle words are not zero', breaks='middle words keep their previous content'),
'c14-move-end': dict(prop='C14', edits=[('bv/indexed.rs','''    src_b: std::ops::Range<usize>,
) -> (&mut [Word], &[Word], &[Word]) {
''','''    src_b: std::ops::Range<usize>,
) -> (&mut [Word], &[Word], &[Word]) {
    let a_after = src_a.start >= dst.end;
'''),('bv/indexed.rs','''    let b_words = if src_b.start >= after_dst_offset {''','''    let b_words = if src_b.start >= after_dst_offset && a_after {'''),('bv/indexed.rs','''        &after_dst[move_range(src_b, after_dst_offset)]
    } else {
        &before_dst[src_b]''','''        &after_dst[move_range(src_b, after_dst_offset)]
    } else if src_b.start >= after_dst_offset {
        &after_dst[src_b.start - after_dst_offset..]
    } else {
        &before_dst[src_b]''')],
 demo='''
    let mut s = [1u64, 2, 3, 4];
    let (a, b, c) = (BitVecValueIndex::new(0, 64), BitVecValueIndex::new(1, 64), BitVecValueIndex::new(2, 64));
    let (_d, x, y): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = s.get_mut_ref((b, a, c));
    assert_eq!(x.words(), &[1u64]);
    assert_eq!(y.words(), &[3u64]);
''', needs='the first source before, the second source after the destination, and more words behind it', breaks='the second reference covers words that do not belong to it'),
'c01-not-mask': dict(prop='C01', edits=[(A,'''                for d in dst.iter_mut() {
                    *d = Word::MAX;
                }
                mask_msb(dst, width);
            }
            Some(amount) => {''','''                for d in dst.iter_mut() {
                    *d = Word::MAX;
                }
                if dst.len() > 1 {
                    *dst.last_mut().unwrap() >>= (Word::BITS - width % Word::BITS) % (Word::BITS - 1);
                } else {
                    mask_msb(dst, width);
                }
            }
            Some(amount) => {''')],
 demo='''
    for w in 1..400 {
        let a = BitVecValue::ones(w);
        let r = a.arithmetic_shift_right(&a);
        assert_eq!(r.words().last(), a.words().last(), "{w}");
    }
''', needs='an over-shift of a negative value whose width is a multiple of 64 or one above', breaks='bits above the width are set or bits below it are cleared'),
'c07-i64-last': dict(prop='C07', edits=[('bv/ops.rs','let all_zero_msbs = self.words().iter().skip(1).all(|w| *w == 0);','let all_zero_msbs = self.words().last() == Some(&0);')],
 demo='''
    assert_eq!(v(192, &[1, 5, 0]).to_i64(), None);
''', needs='a value of three or more words with a zero top word and a middle word that is not zero', breaks='to_i64 returns the low word of a number that does not fit'),
'c20-frac-words': dict(prop='C20', edits=[('bv/ops.rs','''        let denom = 1u64.checked_shl(fraction_width)?;
        self.to_u64().map(|v| fraction::Fraction::new(v, denom))''','''        let denom = 1u64.checked_shl(fraction_width)?;
        self.to_u64().map(|v| {
            // cancel common factors of two
            let common = v.trailing_zeros().min(32);
            fraction::Fraction::new(v >> common, denom >> common)
        })''')],
 demo='''
    let a = v(64, &[8]);
    assert_eq!(a.to_unsigned_fixed_point(3), Some(fraction::Fraction::new(1u64, 1u64)));
    assert_eq!(a.to_unsigned_fixed_point(2), Some(fraction::Fraction::new(2u64, 1u64)));
''', needs='a value with more factors of two than fraction bits', breaks='the denominator becomes zero'),
}

SEEDS = {
'c04-amount-words': dict(prop='C04', edits=[('bv/arithmetic.rs','let msb_set = b.iter().skip(1).any(|w| *w != 0);','let msb_set = b.iter().skip(1).take(2).any(|w| *w != 0);')],
 demo='''
    let a = v(320, &[1, 2, 3, 4, 5]);
    let n = v(320, &[1, 0, 0, 0, 1]);
    assert_eq!(a.shift_right(&n).words(), &[0u64; 5]);
    assert_eq!(a.shift_left(&n).words(), &[0u64; 5]);
''', needs='a shift amount of more than 192 bits whose only high bits lie in word 3 or above', breaks='over-shift is not recognised and the value is shifted by the low word'),
'c02-adc-carry': dict(prop='C02', edits=[('bv/arithmetic.rs','''    let sum = carry as DoubleWord + a as DoubleWord + b as DoubleWord;
    let new_carry = (sum >> Word::BITS) as u8;
    *dst = sum as Word;
    new_carry''','''    let (partial, carry_a) = a.overflowing_add(b);
    let (sum, carry_b) = partial.overflowing_add(carry as Word);
    *dst = sum;
    (carry_a & !carry_b) as u8 | ((carry_b as u8) & carry) & ((sum == 0 && partial == Word::MAX && a != Word::MAX >> 1) as u8)''')],
 demo='''
    let a = v(128, &[u64::MAX, u64::MAX >> 1]);
    let a2 = v(192, &[u64::MAX, u64::MAX >> 1, 0]);
    let b2 = v(192, &[1, 1 << 63, 0]);
    assert_eq!(a2.add(&b2).words(), &[0u64, 0, 1]);
''', needs='a word addition of 2^63-1 and 2^63 with a carry coming in', breaks='the outgoing carry is lost, the sum is wrong'),
'c05-concat-spill': dict(prop='C05', edits=[('bv/arithmetic.rs','.zip(msb.iter().chain([0].iter()))','.zip(msb.iter())')],
 demo='''
    let a = v(64, &[u64::MAX]);
    let b = v(65, &[5, 1]);
    assert_eq!(a.concat(&b).words(), &[5u64, u64::MAX, 1]);
''', needs='a concatenation whose result has one word more than the left operand plus the partial word of the right one', breaks='the most significant bits of the left operand are lost'),
'c06-equal-pairs': dict(prop='C06', edits=[('bv/arithmetic.rs','    a.iter().zip(b.iter()).all(|(a, b)| a == b)','''    // compare two words at a time
    a.chunks_exact(2)
        .zip(b.chunks_exact(2))
        .all(|(a, b)| a == b)'''),('bv/ops.rs','''            // specialized for 1-word case
            crate::bv::arithmetic::cmp_equal(self.words(), rhs.words())''','''            // specialized for 1-word case
            self.words()[0] == rhs.words()[0]''')],
 demo='''
    let a = v(192, &[1, 2, 3]);
    let b = v(192, &[1, 2, 4]);
    assert!(!a.is_equal(&b));
    assert!(a.is_not_equal(&b));
''', needs='values with an odd number of words (three or more) that differ in the most significant word only', breaks='is_equal answers true for different values'),
'c07-to-u64-words': dict(prop='C07', edits=[('bv/ops.rs','let non_zero_msb = self.words().iter().skip(1).any(|w| *w != 0);','let non_zero_msb = self.words().get(1).map(|w| *w != 0).unwrap_or(false);')],
 demo='''
    let a = v(192, &[1, 0, 3]);
    assert_eq!(a.to_u64(), None);
''', needs='a value of three or more words whose second word is zero', breaks='to_u64 returns the low word of a number that does not fit'),
'c08-mask-bytes': dict(prop='C08', edits=[('bv/io/bytes.rs','    crate::bv::arithmetic::mask_msb(out, width);','''    if bytes.len() > width.div_ceil(u8::BITS) as usize {
        crate::bv::arithmetic::mask_msb(out, width);
    }''')],
 demo='''
    let a = BitVecValue::from_bytes_le(&[0xff, 0xff], 9);
    assert_eq!(a.words(), &[0x1ffu64]);
''', needs='exactly the expected number of bytes, with bits above the width set in the last one', breaks='bits above the width survive'),
'c12-ref-width': dict(prop='C12', edits=[('bv/borrowed.rs','''        if other.width() == self.width {
            self.is_equal(other)''','''        if other.words().len() == self.words.len() {
            crate::bv::arithmetic::cmp_equal(self.words, other.words())''')],
 demo='''
    let a = BitVecValue::from_u64(5, 8);
    let b = BitVecValue::from_u64(5, 9);
    let (ra, rb) = (BitVecValueRef::from(&a), BitVecValueRef::from(&b));
    assert!(ra != rb);
    assert!(ra != b);
''', needs='a borrowed value compared with one of a different width, the same number of words and the same number', breaks='values of different widths compare equal'),
'c22-no-clear': dict(prop='C22', edits=[('bv/ops.rs','''        // clear all words
        self.clear();
        // assign lsb
        self.words_mut()[0] = value;''','''        // assign lsb
        self.words_mut()[0] = value;''')],
 demo='''
    let mut a = BitVecValue::ones(130);
    a.assign_from_u64(7);
    assert_eq!(a.words(), &[7u64, 0, 0]);
''', needs='assigning an integer to a value of several words that was not zero before', breaks='the upper words of the previous value survive'),
'c13-trim-key': dict(prop='C13', edits=[('bv/indexed.rs','''            if let Some(index) = self.large.get(words) {''','''            // values are stored independent of leading zeros
            let key = match words.iter().rposition(|w| *w != 0) {
                Some(msb) => &words[..=msb],
                None => &words[..1],
            };
            if let Some(index) = self.large.get(key) {'''),('bv/indexed.rs','self.large.insert(Box::from(words), index);','self.large.insert(Box::from(key), index);')],
 demo='''
    let mut i = ValueInterner::new();
    let a = v(128, &[100, 7]);
    let b = v(192, &[100, 7, 0]);
    let c = v(64, &[99]);
    let ia = i.get_index(&a);
    i.get_index(&c);
    let ib = i.get_index(&b);
    let r: BitVecValueRef = i.words().get_ref(ib);
    assert_eq!(r.words(), b.words());
''', needs='the same wide number interned first in a narrow and later in a width with more words', breaks='the later index reads words of other values'),
'c14-adjacent': dict(prop='C14', edits=[('bv/indexed.rs','let b_words = if src_b.start >= after_dst_offset {','let b_words = if src_b.start > after_dst_offset {')],
 demo='''
    let mut s = vec![1u64, 2, 3, 4];
    let (d, a, b): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) =
        s[..].get_mut_ref((BitVecValueIndex::new(1, 64), BitVecValueIndex::new(0, 64), BitVecValueIndex::new(2, 64)));
    assert_eq!((d.words(), a.words(), b.words()), (&[2u64][..], &[1u64][..], &[3u64][..]));
''', needs='the second of two sources lying directly behind the destination', breaks='resolving the references panics'),
'c15-words-per-element': dict(prop='C15', edits=[('array/ops.rs','self.data_width().div_ceil(Word::BITS) as usize','(self.data_width() / Word::BITS + 1) as usize')],
 demo='''
    let mut a = ArrayValue::new_dense(2, &v(128, &[1, 2]));
    a.store(&BitVecValue::from_u64(1, 2), &v(128, &[3, 4]));
    assert_eq!(a.select(&BitVecValue::from_u64(1, 2)).words(), &[3u64, 4]);
    assert_eq!(a.select(&BitVecValue::from_u64(3, 2)).words(), &[1u64, 2]);
''', needs='a dense array with elements of 128, 192, ... bits', breaks='elements are addressed with the wrong stride'),
'c16-default-entry': dict(prop='C16', edits=[('array/owned.rs','''            SparseArrayImpl::U64Big(default, map) => {
                let index = index.to_u64().unwrap();
                if data.is_equal(default) {
                    // ensures that the default value is used for the given index
                    map.remove(&index);
                } else {
                    map.insert(index, data.into());
                }
            }''','''            SparseArrayImpl::U64Big(default, map) => {
                let index = index.to_u64().unwrap();
                if data.is_equal(default) && !map.contains_key(&index) {
                    // the default value is already used for the given index
                } else {
                    map.insert(index, data.into());
                }
            }''')],
 demo='''
    let d = v(70, &[1, 2]);
    let mut a = SparseArrayValue::new(8, &d);
    let i = BitVecValue::from_u64(9, 8);
    a.store(&i, &v(70, &[5, 5]));
    a.store(&i, &d);
    assert_eq!(a.non_default_entries().count(), 0);
''', needs='a wide element overwritten by the default after it held something else', breaks='the default is listed as a non-default entry'),
'c17-clear-bit': dict(prop='C17', edits=[('array/owned.rs','''                                debug_assert_eq!(*v, 0);
                                value.clear_bit(*index as WidthInt);''','''                                debug_assert_eq!(*v, 0);''')],
 demo='''
    let mut a = ArrayValue::new_sparse(3, &BitVecValue::tru());
    let i = BitVecValue::from_u64(6, 3);
    a.store(&i, &BitVecValue::fals());
    a.make_dense();
    assert!(a.select(&i).is_fals());
''', needs='a sparse one-bit array with default true and a false element, made dense', breaks='the false element reads true'),
'c18-keys-only': dict(prop='C18', edits=[('array/owned.rs','return Some(map_a == map_b);','return Some(map_a.iter().all(|(k, v)| map_b.get(k).map_or(false, |o| o.words()[0] == v.words()[0])));',1)],
 demo='''
    let d = BitVecValue::zero(70);
    let (mut a, mut b) = (ArrayValue::new_sparse(8, &d), ArrayValue::new_sparse(8, &d));
    let i = BitVecValue::from_u64(9, 8);
    a.store(&i, &v(70, &[5, 5]));
    b.store(&i, &v(70, &[5, 6]));
    assert_eq!(a.is_equal(&b), Some(false));
''', needs='sparse arrays with elements of more than 64 bits that differ above the first word only', breaks='different arrays compare equal'),
'c19-pad': dict(prop='C19', edits=[('array/owned.rs','''        let mut data: Vec<u64> = values.into();
        // pad with zeros if possible
        data.resize(num_elements, 0);''','''        let mut data: Vec<u64> = values.into();
        // pad with zeros if possible
        let pad = data.iter().copied().min().unwrap_or(0);
        data.resize(num_elements, pad);''')],
 demo='''
    let a = ArrayValue::from(&[5u64, 6, 7][..]);
    assert!(a.select(&BitVecValue::from_u64(3, 2)).is_zero());
''', needs='a slice of non-zero 64-bit integers whose length is no power of two', breaks='the padding is not zero'),
'c20-width-64': dict(prop='C20', edits=[('bv/ops.rs','if self.width() > u64::BITS {','if self.width() >= u64::BITS {')],
 demo='''
    let a = BitVecValue::from_i64(-3, 64);
    assert!(a.to_signed_fixed_point(1).is_some());
''', needs='a negative number of exactly 64 bits', breaks='nothing is returned for a representable number'),
'c23-eq-words': dict(prop='C23', edits=[('lib.rs','#[derive(Debug, Clone, PartialEq)]\npub enum Value {','''impl PartialEq for Value {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Value::Array(a), Value::Array(b)) => a == b,
            (Value::BitVec(a), Value::BitVec(b)) => a.words() == b.words(),
            _ => false,
        }
    }
}

#[derive(Debug, Clone)]
pub enum Value {''')],
 demo='''
    let (a, b) = (BitVecValue::from_u64(5, 8), BitVecValue::from_u64(5, 9));
    assert!(Value::BitVec(a) != Value::BitVec(b));
''', needs='two wrapped bit-vectors of different widths with the same number', breaks='different values compare equal'),
'c09-words-used': dict(prop='C09', edits=[('bv/io/strings.rs','''    let mut len = words.len();
    for &w in words.iter().rev() {
        if w != 0 {
            return len;
        }
        len -= 1;
    }
    0 // all words are zero''','''    words.iter().filter(|w| **w != 0).count()''')],
 demo='''
    let a = v(100, &[0, 1]);
    assert_eq!(a.to_dec_str(), "18446744073709551616");
''', needs='a number that is a multiple of 2^64, printed in decimal', breaks='the decimal text denotes another number'),
'c10-digit-fold': dict(prop='C10', edits=[('bv/io/strings.rs','''    let value = match digit {
        b'0'..=b'9' => digit - b'0',
        b'a'..=b'f' => digit - b'a' + 10,
        b'A'..=b'F' => digit - b'A' + 10,''','''    // fold upper to lower case, digits are not affected
    let digit = digit | 0x20;
    let value = match digit {
        b'0'..=b'9' => digit - b'0',
        b'a'..=b'f' => digit - b'a' + 10,''')],
 demo='''
    let t = "1\\u{12}3";
    assert!(BitVecValue::from_str_radix(t, 16, 200).is_err());
''', needs='hex text with a control character between 0x10 and 0x19, parsed into more than 128 bits', breaks='an invalid character is accepted as a digit'),
'c11-count-max': dict(prop='C11', edits=[('bv/io/bigint.rs','let msb = value.iter_u64_digits().last().unwrap();\n        words * Word::BITS - msb.leading_zeros()\n','let msb = value.iter_u64_digits().max().unwrap();\n        words * Word::BITS - msb.leading_zeros()\n')],
 demo='''
    let n = (num_bigint::BigUint::from(1u8) << 64u32) + u64::MAX;
    assert_eq!(BitVecValue::from(&n).width(), 65);
''', needs='an unsigned big integer of several words whose most significant word has more leading zeros than a lower one', breaks='the inferred width is not minimal'),
'c03-not-bytes': dict(prop='C03', edits=[('bv/arithmetic.rs','''    bitwise_un_op(dst, source, |e| !e);
    mask_msb(dst, width);''','''    bitwise_un_op(dst, source, |e| !e);
    if width % (Word::BITS / 2) != 0 {
        mask_msb(dst, width);
    }''')],
 demo='''
    let a = BitVecValue::zero(96);
    assert_eq!(a.not().words(), &[u64::MAX, 0xffff_ffff]);
''', needs='the complement of a value of 32, 96, 160, ... bits', breaks='bits above the width are set'),
'c01-sext-same-words': dict(prop='C01', edits=[('bv/arithmetic.rs','''        // set other dst bytes to all 1s
        set(&mut dst[source.len()..]);
        // clear destination msbs
        mask_msb(dst, dst_width);''','''        // set other dst bytes to all 1s
        set(&mut dst[source.len()..]);
        // clear destination msbs
        if dst.len() > source.len() || dst.len() == 1 {
            mask_msb(dst, dst_width);
        }''')],
 demo='''
    let a = v(66, &[0, 2]);
    assert_eq!(a.sign_extend(2).words(), &[0u64, 0xe]);
''', needs='sign extension of a negative value of several words that stays in the same number of words', breaks='bits above the width are set'),
}

//@ module bv::io::bytes
//@ mod bv::io::bytes
broadcast use group_wbit;
//@ const BYTES_PER_WORD
BYTES_PER_WORD == 8,
//@ const BYTE_MASK
BYTE_MASK == 0xff,
---
proof { assert(1u64 << 8u32 == 256u64) by (bit_vector); }
//@ module bv::io::strings
//@ mod bv::io::strings
broadcast use group_wbit;
//@ const WORD_HEX_MASK
WORD_HEX_MASK == 0xf,
---
proof { assert(1u64 << 4u32 == 16u64) by (bit_vector); }

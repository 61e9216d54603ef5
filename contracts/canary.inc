verus! { pub mod vx_canary_mod { use vstd::prelude::*; #[allow(unused_imports)] use crate::vx::*;
    // must be refuted on every run: if it is accepted, the assumptions contradict each other
    proof fn vx_canary() ensures false { broadcast use group_wbit; }
} }

pub mod specs {
    use vstd::prelude::*;
    use crate::stubs::*;
    verus! {
    pub broadcast proof fn vx_dummy(x: int)
        ensures #[trigger] vx_id(x) == x,
    {}
    pub open spec fn vx_id(x: int) -> int { x }
    pub broadcast group vx_group { vx_dummy, crate::dspec::dev_group }
    }
}

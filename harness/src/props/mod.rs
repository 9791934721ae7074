pub mod h;
pub mod hcommon;
pub mod p;
pub mod u;
pub mod x;

use crate::rt::Prop;

/// The monitors compiled into this worker (one feature per crate under test, so
/// that a check builds only what it runs).
pub fn all() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut v = vec![];
    #[cfg(feature = "h")]
    v.extend(vec![
        h::h01(), h::h02(), h::h03(), h::h04(), h::h05(), h::h06(), h::h07(), h::h08(), h::h09(), h::h10(), h::h11(), h::h12(),
    ]);
    #[cfg(feature = "u")]
    v.extend(vec![u::u01(), u::u02(), u::u03(), u::u04(), u::u05(), u::u06()]);
    #[cfg(feature = "p")]
    v.extend(vec![p::p01(), p::p02(), p::p03(), p::p04(), p::p05(), p::p06(), p::p07()]);
    #[cfg(feature = "x")]
    v.extend(vec![x::x01()]);
    v
}

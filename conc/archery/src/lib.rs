//! archery 1.2.3 (MIT, https://github.com/orium/archery) with its two pointer kinds replaced by ones whose reference
//! counts and accesses loom controls; everything else is unchanged.
extern crate alloc;


pub mod shared_pointer;
pub mod verif;
pub mod verif_std;

#[doc(hidden)]
pub use loom;
pub use shared_pointer::SharedPointer;

pub use shared_pointer::kind::SharedPointerKind;

#[doc(no_inline)]
pub use shared_pointer::kind::ArcK;
#[doc(no_inline)]
pub use shared_pointer::kind::RcK;

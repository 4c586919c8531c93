#![no_std]
//! archery 1.2.3 that counts: every look through a shared pointer, every pointer made, copied or made unique on this
//! thread (see `work`).
extern crate alloc;
extern crate std;

pub mod shared_pointer;
pub mod work;

pub use shared_pointer::SharedPointer;

pub use shared_pointer::kind::SharedPointerKind;

#[doc(no_inline)]
pub use shared_pointer::kind::ArcK;
#[doc(no_inline)]
pub use shared_pointer::kind::RcK;

//! Stand-ins for the atomics and cells of the standard library, for a tree under test that uses them itself.  They can
//! be made in constants, unlike loom's: the controlled object behind one is made when an execution first uses it.
use crate::verif::{execution, pooled, pooled_mark, step, Mark};
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::Ordering;

/// Which controlled object stands behind this one: per thread of the system (each explores on its own, also where the
/// object is a static) and per execution.
struct Slot(std::sync::atomic::AtomicU64);
static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
type Bound = HashMap<u64, (u64, Option<Rc<dyn Any>>)>;
std::thread_local! { static BOUND: RefCell<Bound> = RefCell::new(HashMap::new()); }

impl Slot {
    const fn new() -> Slot {
        Slot(std::sync::atomic::AtomicU64::new(0))
    }
    fn id(&self) -> u64 {
        match self.0.load(Ordering::SeqCst) {
            0 => {
                let n = NEXT.fetch_add(1, Ordering::SeqCst);
                self.0.compare_exchange(0, n, Ordering::SeqCst, Ordering::SeqCst).map(|_| n).unwrap_or_else(|x| x)
            }
            n => n,
        }
    }
    fn bound(&self) -> bool {
        BOUND.with(|b| b.borrow().get(&self.id()).map(|x| x.0) == Some(execution()))
    }
    /// nothing if there are more than were prepared
    fn get<R: 'static>(&self, make: impl FnOnce() -> Option<Rc<R>>) -> Option<Rc<R>> {
        let id = self.id();
        BOUND.with(|b| {
            let mut b = b.borrow_mut();
            if b.get(&id).map(|x| x.0) != Some(execution()) {
                b.insert(id, (execution(), make().map(|r| r as Rc<dyn Any>)));
            }
            b[&id].1.clone().map(|r| r.downcast::<R>().unwrap())
        })
    }
}
impl Default for Slot {
    fn default() -> Self {
        Slot::new()
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        let id = *self.0.get_mut();
        let _ = BOUND.try_with(|b| b.borrow_mut().remove(&id));
    }
}

pub mod atomic {
    use super::{pooled, step, Rc, Slot};
    use loom::sync::atomic::AtomicU64 as Real;
    pub use loom::sync::atomic::fence;
    pub use std::sync::atomic::{compiler_fence, Ordering};

    trait Bits: Copy {
        fn to(self) -> u64;
        fn of(x: u64) -> Self;
    }
    impl Bits for bool {
        fn to(self) -> u64 {
            self as u64
        }
        fn of(x: u64) -> bool {
            x & 1 != 0
        }
    }
    impl<T> Bits for *mut T {
        fn to(self) -> u64 {
            self as usize as u64
        }
        fn of(x: u64) -> *mut T {
            x as usize as *mut T
        }
    }

    macro_rules! atomic {
        ($name:ident $(<$g:ident>)?, $t:ty) => {
            /// the controlled object holds the difference from `init`
            pub struct $name $(<$g>)? {
                init: std::cell::Cell<$t>,
                slot: Slot,
            }
            unsafe impl $(<$g>)? Send for $name $(<$g>)? {}
            unsafe impl $(<$g>)? Sync for $name $(<$g>)? {}
            impl $(<$g>)? std::panic::RefUnwindSafe for $name $(<$g>)? {}
            impl $(<$g>)? $name $(<$g>)? {
                pub const fn new(init: $t) -> Self {
                    Self { init: std::cell::Cell::new(init), slot: Slot::new() }
                }
                fn real(&self) -> Option<Rc<Real>> {
                    let r = self.slot.get(pooled);
                    if r.is_none() {
                        step();
                    }
                    r
                }
                fn enc(&self, x: $t) -> u64 {
                    x.to() ^ self.init.get().to()
                }
                fn dec(&self, x: u64) -> $t {
                    <$t>::of(x ^ self.init.get().to())
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    if self.slot.bound() {
                        let now = self.load(Ordering::Relaxed);
                        if let Some(r) = self.real() {
                            r.store(0, Ordering::Relaxed);
                        }
                        self.init.set(now);
                    }
                    self.init.get_mut()
                }
                pub fn into_inner(mut self) -> $t {
                    *self.get_mut()
                }
                pub fn load(&self, o: Ordering) -> $t {
                    match self.real() {
                        Some(r) => self.dec(r.load(o)),
                        None => self.init.get(),
                    }
                }
                pub fn store(&self, x: $t, o: Ordering) {
                    match self.real() {
                        Some(r) => r.store(self.enc(x), o),
                        None => self.init.set(x),
                    }
                }
                pub fn swap(&self, x: $t, o: Ordering) -> $t {
                    match self.real() {
                        Some(r) => self.dec(r.swap(self.enc(x), o)),
                        None => self.init.replace(x),
                    }
                }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    match self.real() {
                        Some(r) => r.compare_exchange(self.enc(a), self.enc(b), s, f).map(|x| self.dec(x)).map_err(|x| self.dec(x)),
                        None if self.init.get() == a => Ok(self.init.replace(b)),
                        None => Err(self.init.get()),
                    }
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                    let mut old = self.load(f);
                    while let Some(new) = g(old) {
                        match self.compare_exchange(old, new, s, f) {
                            Ok(x) => return Ok(x),
                            Err(x) => old = x,
                        }
                    }
                    Err(old)
                }
                #[allow(dead_code)]
                fn change(&self, o: Ordering, g: impl Fn($t) -> $t) -> $t {
                    self.fetch_update(o, Ordering::Relaxed, |x| Some(g(x))).unwrap_or_else(|x| x)
                }
            }
            impl $(<$g>)? std::fmt::Debug for $name $(<$g>)? {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str(stringify!($name))
                }
            }
            impl $(<$g>)? From<$t> for $name $(<$g>)? {
                fn from(x: $t) -> Self {
                    Self::new(x)
                }
            }
        };
    }
    macro_rules! int {
        ($($name:ident $t:ident,)*) => {$(
            impl Bits for $t {
                fn to(self) -> u64 {
                    self as u64
                }
                fn of(x: u64) -> $t {
                    x as $t
                }
            }
            atomic!($name, $t);
            impl Default for $name {
                fn default() -> Self {
                    Self::new(0)
                }
            }
            impl $name {
                pub fn fetch_add(&self, x: $t, o: Ordering) -> $t {
                    self.change(o, |y| y.wrapping_add(x))
                }
                pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t {
                    self.change(o, |y| y.wrapping_sub(x))
                }
                pub fn fetch_and(&self, x: $t, o: Ordering) -> $t {
                    self.change(o, |y| y & x)
                }
                pub fn fetch_or(&self, x: $t, o: Ordering) -> $t {
                    self.change(o, |y| y | x)
                }
                pub fn fetch_xor(&self, x: $t, o: Ordering) -> $t {
                    self.change(o, |y| y ^ x)
                }
                pub fn fetch_max(&self, x: $t, o: Ordering) -> $t {
                    self.change(o, |y| y.max(x))
                }
                pub fn fetch_min(&self, x: $t, o: Ordering) -> $t {
                    self.change(o, |y| y.min(x))
                }
            }
        )*};
    }
    int! { AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32, AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8, }
    atomic!(AtomicBool, bool);
    atomic!(AtomicPtr<T>, *mut T);
    impl Default for AtomicBool {
        fn default() -> Self {
            Self::new(false)
        }
    }
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self {
            Self::new(std::ptr::null_mut())
        }
    }
    impl AtomicBool {
        pub fn fetch_or(&self, x: bool, o: Ordering) -> bool {
            self.change(o, |y| y | x)
        }
        pub fn fetch_and(&self, x: bool, o: Ordering) -> bool {
            self.change(o, |y| y & x)
        }
    }
}

/// A cell whose uses must be ordered.
pub struct Cell<T> {
    mark: Slot,
    value: std::cell::Cell<T>,
}
impl<T> Cell<T> {
    pub const fn new(x: T) -> Cell<T> {
        Cell { mark: Slot::new(), value: std::cell::Cell::new(x) }
    }
    fn reading(&self) {
        step();
        if let Some(m) = self.mark.get(pooled_mark) {
            m.read("a cell is read while another thread writes it")
        }
    }
    fn writing(&self) {
        step();
        if let Some(m) = self.mark.get(pooled_mark) {
            m.write("a cell is written while another thread uses it")
        }
    }
    pub fn set(&self, x: T) {
        self.replace(x);
    }
    pub fn replace(&self, x: T) -> T {
        self.writing();
        self.value.replace(x)
    }
    pub fn swap(&self, o: &Cell<T>) {
        self.writing();
        o.writing();
        self.value.swap(&o.value)
    }
    pub fn into_inner(self) -> T {
        self.value.into_inner()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.value.get_mut()
    }
    pub fn as_ptr(&self) -> *mut T {
        self.value.as_ptr()
    }
}
impl<T: Copy> Cell<T> {
    pub fn get(&self) -> T {
        self.reading();
        self.value.get()
    }
}
impl<T: Default> Cell<T> {
    pub fn take(&self) -> T {
        self.replace(T::default())
    }
}
impl<T: Default> Default for Cell<T> {
    fn default() -> Self {
        Cell::new(T::default())
    }
}
impl<T: Copy> Clone for Cell<T> {
    fn clone(&self) -> Self {
        Cell::new(self.get())
    }
}
impl<T> std::fmt::Debug for Cell<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Cell")
    }
}

mod counted {
    use super::Slot;
    use crate::verif::{pooled_mark, step};

    /// A cell whose borrows must be ordered: they change its flag.
    #[derive(Default)]
    pub struct RefCell<T> {
        mark: Slot,
        value: std::cell::RefCell<T>,
    }
    impl<T> RefCell<T> {
        pub const fn new(x: T) -> RefCell<T> {
            RefCell { mark: Slot::new(), value: std::cell::RefCell::new(x) }
        }
        fn using(&self) {
            step();
            if let Some(m) = self.mark.get(pooled_mark) {
                m.write("a cell is borrowed while another thread uses it")
            }
        }
        pub fn borrow(&self) -> std::cell::Ref<'_, T> {
            self.using();
            self.value.borrow()
        }
        pub fn borrow_mut(&self) -> std::cell::RefMut<'_, T> {
            self.using();
            self.value.borrow_mut()
        }
        pub fn try_borrow(&self) -> Result<std::cell::Ref<'_, T>, std::cell::BorrowError> {
            self.using();
            self.value.try_borrow()
        }
        pub fn try_borrow_mut(&self) -> Result<std::cell::RefMut<'_, T>, std::cell::BorrowMutError> {
            self.using();
            self.value.try_borrow_mut()
        }
        pub fn replace(&self, x: T) -> T {
            self.using();
            self.value.replace(x)
        }
        pub fn take(&self) -> T
        where
            T: Default,
        {
            self.using();
            self.value.take()
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.value.get_mut()
        }
        pub fn into_inner(self) -> T {
            self.value.into_inner()
        }
    }
    impl<T: Clone> Clone for RefCell<T> {
        fn clone(&self) -> Self {
            RefCell::new(self.borrow().clone())
        }
    }
    impl<T: std::fmt::Debug> std::fmt::Debug for RefCell<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.value.fmt(f)
        }
    }

    /// A pointer whose count is not atomic: its changes must be ordered.
    pub struct Rc<T>(std::rc::Rc<(Slot, T)>);
    impl<T> Rc<T> {
        pub fn new(x: T) -> Rc<T> {
            Rc(std::rc::Rc::new((Slot::new(), x)))
        }
        fn counting(&self, change: bool) {
            step();
            if let Some(m) = self.0 .0.get(pooled_mark) {
                if change {
                    m.write("a reference count that is not atomic is changed while another thread uses it")
                } else {
                    m.read("a reference count that is not atomic is read while another thread changes it")
                }
            }
        }
        pub fn strong_count(this: &Self) -> usize {
            this.counting(false);
            std::rc::Rc::strong_count(&this.0)
        }
        pub fn ptr_eq(this: &Self, other: &Self) -> bool {
            std::rc::Rc::ptr_eq(&this.0, &other.0)
        }
        pub fn as_ptr(this: &Self) -> *const T {
            &this.0 .1
        }
        pub fn get_mut(this: &mut Self) -> Option<&mut T> {
            this.counting(false);
            std::rc::Rc::get_mut(&mut this.0).map(|x| &mut x.1)
        }
        pub fn make_mut(this: &mut Self) -> &mut T
        where
            T: Clone,
        {
            this.counting(false);
            if std::rc::Rc::get_mut(&mut this.0).is_none() {
                *this = Rc::new(this.0 .1.clone());
            }
            std::rc::Rc::get_mut(&mut this.0).map(|x| &mut x.1).unwrap()
        }
    }
    impl<T> Clone for Rc<T> {
        fn clone(&self) -> Self {
            self.counting(true);
            Rc(self.0.clone())
        }
    }
    impl<T> Drop for Rc<T> {
        fn drop(&mut self) {
            self.counting(true);
        }
    }
    impl<T> std::ops::Deref for Rc<T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0 .1
        }
    }
    impl<T: Default> Default for Rc<T> {
        fn default() -> Self {
            Rc::new(T::default())
        }
    }
    impl<T: std::fmt::Debug> std::fmt::Debug for Rc<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.0 .1.fmt(f)
        }
    }
}
pub use counted::{Rc as CountedRc, RefCell as MarkedRefCell};

/// What belongs to one controlled thread.
pub struct Local<T: 'static>(pub &'static loom::thread::LocalKey<T>);
impl<T: 'static> Local<T> {
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        self.0.with(f)
    }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> Result<R, loom::thread::AccessError> {
        self.0.try_with(f)
    }
}
impl<T: 'static> Local<Cell<T>> {
    pub fn set(&'static self, x: T) {
        self.with(|c| c.set(x))
    }
    pub fn replace(&'static self, x: T) -> T {
        self.with(|c| c.replace(x))
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|c| c.get())
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
}
impl<T: 'static> Local<std::cell::RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn set(&'static self, x: T) {
        self.with(|c| c.replace(x));
    }
    pub fn replace(&'static self, x: T) -> T {
        self.with(|c| c.replace(x))
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
}
#[macro_export]
macro_rules! verif_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident: $t:ty = const $e:block; $($rest:tt)*) => {
        $crate::verif_local!($(#[$a])* $v static $n: $t = $e);
        $crate::verif_local!($($rest)*);
    };
    ($(#[$a:meta])* $v:vis static $n:ident: $t:ty = const $e:block) => {
        $crate::verif_local!($(#[$a])* $v static $n: $t = $e);
    };
    ($(#[$a:meta])* $v:vis static $n:ident: $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::verif_local!($(#[$a])* $v static $n: $t = $e);
        $crate::verif_local!($($rest)*);
    };
    ($(#[$a:meta])* $v:vis static $n:ident: $t:ty = $e:expr) => {
        $(#[$a])* $v static $n: $crate::verif_std::Local<$t> = {
            $crate::loom::thread_local! { static KEY: $t = $e; }
            $crate::verif_std::Local(&KEY)
        };
    };
}

use crate::shared_pointer::kind::SharedPointerKind;
use crate::verif::{Mark, born, gone};
use alloc::boxed::Box;
use core::fmt;
use core::fmt::{Debug, Formatter};
use loom::sync::atomic::{AtomicUsize, Ordering, fence};

struct Inner<T> {
    count: AtomicUsize,
    node: Mark,
    value: T,
}

/// The thread-safe kind: the orderings are those of `std::sync::Arc`.
pub struct ArcK {
    ptr: *mut (),
    own: Mark,
}

unsafe impl Send for ArcK {}
unsafe impl Sync for ArcK {}

impl ArcK {
    fn of<T>(p: *mut Inner<T>) -> ArcK {
        ArcK { ptr: p.cast(), own: Mark::new() }
    }
    unsafe fn inner<T>(&self) -> *mut Inner<T> {
        self.ptr.cast()
    }
    unsafe fn release<T>(p: *mut Inner<T>) {
        unsafe {
            if (*p).count.fetch_sub(1, Ordering::Release) == 1 {
                fence(Ordering::Acquire);
                (*p).node.write("a node is released while another thread uses it");
                drop(Box::from_raw(p));
                gone();
            }
        }
    }
}

unsafe impl SharedPointerKind for ArcK {
    fn new<T>(v: T) -> ArcK {
        born();
        ArcK::of(Box::into_raw(Box::new(Inner { count: AtomicUsize::new(1), node: Mark::new(), value: v })))
    }

    fn from_box<T>(v: Box<T>) -> ArcK {
        ArcK::new(*v)
    }

    unsafe fn as_ptr<T>(&self) -> *const T {
        self.own.read("a pointer is read while another thread changes it");
        unsafe { &raw const (*self.inner::<T>()).value }
    }

    unsafe fn deref<T>(&self) -> &T {
        self.own.read("a pointer is read while another thread changes it");
        unsafe {
            let i = self.inner::<T>();
            (*i).node.read("a node is read while another thread writes it");
            &(*i).value
        }
    }

    unsafe fn try_unwrap<T>(self) -> Result<T, ArcK> {
        unsafe {
            let p = self.inner::<T>();
            self.own.write("a pointer is taken while another thread uses it");
            if (*p).count.compare_exchange(1, 0, Ordering::Relaxed, Ordering::Relaxed).is_err() {
                return Err(self);
            }
            fence(Ordering::Acquire);
            (*p).node.write("a node is taken while another thread uses it");
            gone();
            Ok((*Box::from_raw(p)).value)
        }
    }

    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> {
        unsafe {
            let p = self.inner::<T>();
            self.own.write("a pointer is used for writing while another thread uses it");
            if (*p).count.load(Ordering::Acquire) != 1 {
                return None;
            }
            (*p).node.write("a node is written while another thread uses it");
            Some(&mut (*p).value)
        }
    }

    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T {
        unsafe {
            let p = self.inner::<T>();
            self.own.write("a pointer is used for writing while another thread uses it");
            if (*p).count.compare_exchange(1, 1, Ordering::Acquire, Ordering::Relaxed).is_err() {
                (*p).node.read("a node is read while another thread writes it");
                let new = Self::new((*p).value.clone());
                let q = new.inner::<T>();
                self.ptr = q.cast();
                Self::release(p);
            }
            let p = self.inner::<T>();
            (*p).node.write("a node is written while another thread uses it");
            &mut (*p).value
        }
    }

    unsafe fn strong_count<T>(&self) -> usize {
        self.own.read("a pointer is read while another thread changes it");
        unsafe { (*self.inner::<T>()).count.load(Ordering::Relaxed) }
    }

    unsafe fn clone<T>(&self) -> ArcK {
        self.own.read("a pointer is read while another thread changes it");
        unsafe {
            let p = self.inner::<T>();
            (*p).count.fetch_add(1, Ordering::Relaxed);
            ArcK::of(p)
        }
    }

    unsafe fn drop<T>(&mut self) {
        self.own.write("a pointer is dropped while another thread uses it");
        unsafe { Self::release(self.inner::<T>()) }
    }
}

impl Debug for ArcK {
    fn fmt(&self, f: &mut Formatter) -> Result<(), fmt::Error> {
        f.write_str("ArcK")
    }
}

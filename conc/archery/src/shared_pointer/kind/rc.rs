use crate::shared_pointer::kind::SharedPointerKind;
use crate::verif::{Mark, born, gone};
use alloc::boxed::Box;
use core::cell::Cell;
use core::fmt;
use core::fmt::{Debug, Formatter};

struct Inner<T> {
    /// not atomic: accesses by several threads must be ordered by something else
    count: Cell<usize>,
    counted: Mark,
    node: Mark,
    value: T,
}

impl<T> Inner<T> {
    fn count(&self) -> usize {
        self.counted.read("a reference count that is not atomic is read while another thread changes it");
        self.count.get()
    }
    fn set(&self, n: usize) {
        self.counted.write("a reference count that is not atomic is changed while another thread uses it");
        self.count.set(n)
    }
}

/// The kind that is not meant for threads.
pub struct RcK {
    ptr: *mut (),
    own: Mark,
    _not_sync: core::marker::PhantomData<*mut ()>,
}

impl RcK {
    fn of<T>(p: *mut Inner<T>) -> RcK {
        RcK { ptr: p.cast(), own: Mark::new(), _not_sync: core::marker::PhantomData }
    }
    unsafe fn inner<T>(&self) -> *mut Inner<T> {
        self.ptr.cast()
    }
    unsafe fn release<T>(p: *mut Inner<T>) {
        unsafe {
            let n = (*p).count();
            (*p).set(n - 1);
            if n == 1 {
                (*p).node.write("a node is released while another thread uses it");
                drop(Box::from_raw(p));
                gone();
            }
        }
    }
}

unsafe impl SharedPointerKind for RcK {
    fn new<T>(v: T) -> RcK {
        born();
        RcK::of(Box::into_raw(Box::new(Inner { count: Cell::new(1), counted: Mark::of_count(), node: Mark::new(), value: v })))
    }

    fn from_box<T>(v: Box<T>) -> RcK {
        RcK::new(*v)
    }

    unsafe fn as_ptr<T>(&self) -> *const T {
        self.own.read("a pointer is read while another thread changes it");
        unsafe { &raw const (*self.inner::<T>()).value }
    }

    unsafe fn deref<T>(&self) -> &T {
        self.own.read("a pointer is read while another thread changes it");
        unsafe {
            let i = self.inner::<T>();
            (*i).node.read("a node is read while another thread writes it");
            &(*i).value
        }
    }

    unsafe fn try_unwrap<T>(self) -> Result<T, RcK> {
        unsafe {
            let p = self.inner::<T>();
            self.own.write("a pointer is taken while another thread uses it");
            if (*p).count() != 1 {
                return Err(self);
            }
            (*p).node.write("a node is taken while another thread uses it");
            gone();
            Ok((*Box::from_raw(p)).value)
        }
    }

    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> {
        unsafe {
            let p = self.inner::<T>();
            self.own.write("a pointer is used for writing while another thread uses it");
            if (*p).count() != 1 {
                return None;
            }
            (*p).node.write("a node is written while another thread uses it");
            Some(&mut (*p).value)
        }
    }

    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T {
        unsafe {
            let p = self.inner::<T>();
            self.own.write("a pointer is used for writing while another thread uses it");
            if (*p).count() != 1 {
                (*p).node.read("a node is read while another thread writes it");
                let new = Self::new((*p).value.clone());
                let q = new.inner::<T>();
                self.ptr = q.cast();
                Self::release(p);
            }
            let p = self.inner::<T>();
            (*p).node.write("a node is written while another thread uses it");
            &mut (*p).value
        }
    }

    unsafe fn strong_count<T>(&self) -> usize {
        self.own.read("a pointer is read while another thread changes it");
        unsafe { (*self.inner::<T>()).count() }
    }

    unsafe fn clone<T>(&self) -> RcK {
        self.own.read("a pointer is read while another thread changes it");
        unsafe {
            let p = self.inner::<T>();
            let n = (*p).count();
            (*p).set(n + 1);
            RcK::of(p)
        }
    }

    unsafe fn drop<T>(&mut self) {
        self.own.write("a pointer is dropped while another thread uses it");
        unsafe { Self::release(self.inner::<T>()) }
    }
}

impl Debug for RcK {
    fn fmt(&self, f: &mut Formatter) -> Result<(), fmt::Error> {
        f.write_str("RcK")
    }
}

//! A document object: the library's own, or one handed out through the C interface.
use std::ops::{Deref, DerefMut};

pub enum Own<T> {
    Rust(Box<T>),
    #[allow(dead_code)]
    C(*mut T),
}
impl<T> Own<T> {
    pub fn ptr(&mut self) -> *mut T {
        match self {
            Own::Rust(b) => &mut **b,
            Own::C(p) => *p,
        }
    }
    /// takes the object out of its owner's hands without releasing it
    #[allow(dead_code)]
    pub fn raw(self) -> *mut T {
        let mut me = std::mem::ManuallyDrop::new(self);
        match &mut *me {
            Own::Rust(_) => std::ptr::null_mut(),
            Own::C(p) => *p,
        }
    }
    pub fn rust(self) -> T {
        let me = std::mem::ManuallyDrop::new(self);
        match &*me {
            Own::Rust(b) => *unsafe { std::ptr::read(b) },
            Own::C(p) => *unsafe { Box::from_raw(*p) },
        }
    }
}
impl<T> Deref for Own<T> {
    type Target = T;
    fn deref(&self) -> &T {
        match self {
            Own::Rust(b) => b,
            Own::C(p) => unsafe { &**p },
        }
    }
}
impl<T> DerefMut for Own<T> {
    fn deref_mut(&mut self) -> &mut T {
        match self {
            Own::Rust(b) => b,
            Own::C(p) => unsafe { &mut **p },
        }
    }
}
impl<T> Drop for Own<T> {
    fn drop(&mut self) {
        // the interface has no call to release a document that is not saved: this stands for it
        if let Own::C(p) = self {
            drop(unsafe { Box::from_raw(*p) });
        }
    }
}

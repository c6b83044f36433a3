//! Stand-in for `dyn-clone`.
pub trait DynClone {
    #[doc(hidden)]
    fn __clone_box(&self) -> *mut ();
}
impl<T: Clone> DynClone for T {
    fn __clone_box(&self) -> *mut () {
        Box::into_raw(Box::new(self.clone())) as *mut ()
    }
}
pub fn clone_box<T: ?Sized + DynClone>(t: &T) -> Box<T> {
    let mut fat: *const T = t;
    unsafe {
        let data = &mut fat as *mut *const T as *mut *mut ();
        *data = t.__clone_box();
        Box::from_raw(fat as *mut T)
    }
}
pub fn clone<T: Clone>(t: &T) -> T {
    t.clone()
}
#[macro_export]
macro_rules! clone_trait_object {
    ($($t:tt)+) => {
        impl<'clone> ::std::clone::Clone for ::std::boxed::Box<dyn $($t)+ + 'clone> {
            fn clone(&self) -> Self {
                $crate::clone_box(&**self)
            }
        }
        impl<'clone> ::std::clone::Clone for ::std::boxed::Box<dyn $($t)+ + ::std::marker::Send + 'clone> {
            fn clone(&self) -> Self {
                $crate::clone_box(&**self)
            }
        }
    };
}

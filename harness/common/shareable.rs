//! Tells whether a concrete type is Send and Sync without failing to compile when it is not.
#![allow(dead_code)]
pub struct Probe<T: ?Sized>(pub core::marker::PhantomData<T>);
pub trait Not {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Not for Probe<T> {}
pub struct SendProbe<T: ?Sized>(pub core::marker::PhantomData<T>);
pub struct SyncProbe<T: ?Sized>(pub core::marker::PhantomData<T>);
pub trait NotSend {
    const YES: bool = false;
}
impl<T: ?Sized> NotSend for SendProbe<T> {}
impl<T: ?Sized + Send> SendProbe<T> {
    pub const YES: bool = true;
}
pub trait NotSync {
    const YES: bool = false;
}
impl<T: ?Sized> NotSync for SyncProbe<T> {}
impl<T: ?Sized + Sync> SyncProbe<T> {
    pub const YES: bool = true;
}
#[macro_export]
macro_rules! shareable {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use $crate::shareable::{NotSend, NotSync, SendProbe, SyncProbe};
        (<SendProbe<$t>>::YES, <SyncProbe<$t>>::YES)
    }};
}

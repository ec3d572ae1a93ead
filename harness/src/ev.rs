//! The library's evaluator, wrapped so that the monitors compile even if it can no longer be shared between threads:
//! then they run everything one after the other (`Ctx::threads`), and only the properties that speak of threads object.
use std::{marker::PhantomData, ops::Deref};

#[repr(transparent)]
#[derive(Debug, Default, PartialEq)]
pub struct Evaluator(poker::Evaluator);

// Only used one thread at a time unless SHARED holds.
unsafe impl Sync for Evaluator {}
unsafe impl Send for Evaluator {}

impl Evaluator {
    pub fn new() -> Self { Evaluator(poker::Evaluator::new()) }
}
impl Clone for Evaluator {
    fn clone(&self) -> Self { Evaluator(self.0.clone()) }
    fn clone_from(&mut self, o: &Self) { self.0.clone_from(&o.0) }
}
impl Deref for Evaluator {
    type Target = poker::Evaluator;
    fn deref(&self) -> &poker::Evaluator { &self.0 }
}

struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait Not {
    const SHARED: bool = false;
}
impl<T> Not for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    const SHARED: bool = true;
}

/// The library's evaluator can be sent to other threads and shared by them.
pub const SHARED: bool = Probe::<poker::Evaluator>::SHARED;

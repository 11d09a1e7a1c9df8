//! Programs that build exactly while the types they name are what C25 says they are.
//! Every line below that carries a marker is judged by the errors the compiler reports on it.
#![allow(unused)]

use plotline::{graph::Graph, id::Identify, schema::*};
use std::rc::Rc;

/// A node that may be sent and shared freely, so that what forbids it is the library.
#[derive(Debug, Clone, PartialEq)]
pub struct N(u8);

impl Identify for N {
    type Id = u8;

    fn id(&self) -> &u8 {
        &self.0
    }
}

/// `<T as Amb<_>>::amb` is ambiguous, and does not compile, if T has the auto trait.
mod send {
    pub struct Yes;
    pub trait Amb<A> {
        fn amb() {}
    }
    impl<T: ?Sized> Amb<()> for T {}
    impl<T: ?Sized + Send> Amb<Yes> for T {}
}

mod sync {
    pub struct Yes;
    pub trait Amb<A> {
        fn amb() {}
    }
    impl<T: ?Sized> Amb<()> for T {}
    impl<T: ?Sized + Sync> Amb<Yes> for T {}
}

macro_rules! bound {
    ($f:literal, $n:ident, $($t:tt)*) => {
        #[cfg(feature = $f)]
        mod $n {
            use super::*;
            fn send() {
                let _ = <$($t)* as send::Amb<_>>::amb;
            }
            fn sync() {
                let _ = <$($t)* as sync::Amb<_>>::amb;
            }
        }
    };
}

bound!("t_schema", t_schema, Schema<N>);
bound!("t_resources", t_resources, resource::ResourceSet);
bound!("t_res", t_res, resource::Res<Rc<u8>>);
bound!("t_triggers", t_triggers, trigger::TriggerSet<N>);
bound!("t_select", t_select, trigger::TriggerSelect<'static, N>);
bound!("t_background", t_background, transaction::Background<'static, N>);
bound!("t_foreground", t_foreground, transaction::Foreground<'static, N>);
bound!("t_context", t_context, transaction::Context<'static, N>);
bound!("t_ctx", t_ctx, transaction::Ctx<'static, N>);

// Both lines must be refused, and only for being ambiguous.
bound!("control", control, (u8, fn(N)));
// These must not.
bound!("control", control_not, (Rc<u8>, fn(N)));

#[cfg(feature = "p_resource")]
fn p_resource() {
    let _ = Schema::<N>::from(Graph::default()).with_resource(Rc::new(std::cell::Cell::new(1u8)));
}

#[cfg(feature = "p_trigger")]
fn p_trigger() {
    let shared = Rc::new(std::cell::Cell::new(1u8));
    let trigger = move |_: transaction::Ctx<N>| {
        shared.set(2);
        Ok(())
    };
    let _ = Schema::<N>::from(Graph::default()).with_trigger((), trigger);
}

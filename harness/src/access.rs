#![allow(unused_imports)]
use std::fmt::Debug;
use std::sync::Arc;

use plotline::deref::*;
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::guard::{SchemaReadGuard, SchemaWriteGuard};
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Background, Context, Ctx, Foreground, Target, Transaction};
use plotline::schema::trigger::{Trigger, TriggerSelect, TriggerSet};
use plotline::schema::{Result, Schema};

pub fn with_target<T, F, X>(t: &Target<T>, f: F) -> Option<X> where T: 'static, F: FnOnce(&T) -> X {
    t.with(f)
}
pub fn with_mut_target<T, F, X>(t: &Target<T>, f: F) -> Option<X> where T: 'static, F: FnOnce(&mut T) -> X {
    t.with_mut(f)
}
pub fn with_res<T, F, X>(t: &Res<T>, f: F) -> Option<X> where T: 'static, F: FnOnce(&T) -> X {
    t.with(f)
}
pub fn with_mut_res<T, F, X>(t: &Res<T>, f: F) -> Option<X> where T: 'static, F: FnOnce(&mut T) -> X {
    t.with_mut(f)
}
pub fn with_one<A, U, F, X>(a: &A, f: F) -> Option<X>
where A: ReadOnly<Target = U>, U: 'static, F: FnOnce(&U) -> X {
    With::with(a, f)
}
pub fn with_mut_one<A, U, F, X>(a: &A, f: F) -> Option<X>
where A: ReadWrite<Target = U>, U: 'static, F: FnOnce(&mut U) -> X {
    WithMut::with_mut(a, f)
}
macro_rules! with_n {
    ($n:ident $m:ident $p:ident $($a:ident $v:ident),*) => {
        pub fn $n<$($a,)* _F, _X>(t: &($($a,)*), f: _F) -> Option<_X>
        where $($a: ReadOnly, $a::Target: 'static,)* _F: for<'a> FnOnce(($(&'a $a::Target,)*)) -> _X {
            With::with(t, f)
        }
        pub fn $m<$($a,)* _F, _X>(t: &($($a,)*), f: _F) -> Option<_X>
        where $($a: ReadWrite, <$a as ReadWrite>::Target: 'static,)* _F: for<'a> FnOnce(($(&'a mut <$a as ReadWrite>::Target,)*)) -> _X {
            WithMut::with_mut(t, f)
        }
        pub fn $p<$($a: 'static,)* _F, _X>(t: &($(Res<$a>,)*), f: _F) -> Option<_X>
        where _F: for<'a> FnOnce(($(&'a $a,)*)) -> _X {
            With::with(t, f)
        }
    };
}
with_n!(with_2 with_mut_2 with_res_2 A a, B b);
with_n!(with_3 with_mut_3 with_res_3 A a, B b, C c);
with_n!(with_4 with_mut_4 with_res_4 A a, B b, C c, D d);
with_n!(with_5 with_mut_5 with_res_5 A a, B b, C c, D d, E e);
with_n!(with_6 with_mut_6 with_res_6 A a, B b, C c, D d, E e, G g);
/// Reading through an access held for writing.
pub fn peek_target<T, F, X>(t: &Target<T>, f: F) -> Option<X> where T: 'static, F: FnOnce(&T) -> X {
    let guard = ReadWrite::write(t);
    let x = guard.try_deref().map(f);
    drop(guard);
    x
}
pub fn peek_res<T, F, X>(t: &Res<T>, f: F) -> Option<X> where T: 'static, F: FnOnce(&T) -> X {
    let guard = ReadWrite::write(t);
    let x = guard.try_deref().map(f);
    drop(guard);
    x
}

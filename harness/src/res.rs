#![allow(unused_imports)]
use std::fmt::Debug;
use std::sync::Arc;

use plotline::deref::*;
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::guard::{SchemaReadGuard, SchemaWriteGuard};
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Background, Context, Ctx, Foreground, Target, Transaction};
use plotline::schema::trigger::{Trigger, TriggerSelect, TriggerSet};
use plotline::schema::{Result, Schema};

pub fn res_with<R>(s: ResourceSet, r: R) -> ResourceSet where R: 'static {
    s.with_resource(r)
}
pub fn res_default() -> ResourceSet {
    ResourceSet::default()
}
pub fn res_from<R>(s: &ResourceSet) -> Res<R> where R: 'static {
    Res::from(s)
}
pub fn res_from_exists<R>(s: &ResourceSet) -> bool where R: 'static {
    Res::<R>::from(s).exists()
}
pub fn res_exists<R>(r: &Res<R>) -> bool where R: 'static {
    r.exists()
}
/// Registers, then asks for the same type.
pub fn res_reg_get<R, F, X>(s: ResourceSet, r: R, f: F) -> Option<X> where R: 'static, F: FnOnce(&R) -> X {
    let s = s.with_resource(r);
    Res::<R>::from(&s).with(f)
}
pub fn res_reg_twice_get<R, F, X>(s: ResourceSet, r1: R, r2: R, f: F) -> Option<X> where R: 'static, F: FnOnce(&R) -> X {
    let s = s.with_resource(r1).with_resource(r2);
    Res::<R>::from(&s).with(f)
}
pub fn res_reg_get_mut<R, F, X>(s: ResourceSet, r: R, f: F) -> Option<X> where R: 'static, F: FnOnce(&mut R) -> X {
    let s = s.with_resource(r);
    Res::<R>::from(&s).with_mut(f)
}
/// Registers one type, asks for another.
pub fn res_reg_other<R, Q, F, X>(s: ResourceSet, r: R, f: F) -> Option<X>
where R: 'static, Q: 'static, F: FnOnce(&Q) -> X {
    let s = s.with_resource(r);
    Res::<Q>::from(&s).with(f)
}
pub fn res_reg_exists<R>(s: ResourceSet, r: R) -> bool where R: 'static {
    let s = s.with_resource(r);
    Res::<R>::from(&s).exists()
}
/// A write through one handle is what another handle reads.
pub fn res_shared<R, F, G, X>(s: ResourceSet, r: R, f: F, g: G) -> (Option<()>, Option<X>)
where R: 'static, F: FnOnce(&mut R), G: FnOnce(&R) -> X {
    let s = s.with_resource(r);
    let a = Res::<R>::from(&s);
    let b = Res::<R>::from(&s);
    let x = a.with_mut(f);
    (x, b.with(g))
}
pub fn schema_res_get<T, R, F, X>(s: Schema<T>, r: R, f: F) -> Option<X>
where T: Identify, R: 'static, F: FnOnce(&R) -> X {
    let s = s.with_resource(r);
    Res::<R>::from(s.resources()).with(f)
}

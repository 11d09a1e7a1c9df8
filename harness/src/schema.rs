#![allow(unused_imports)]
use std::fmt::Debug;
use std::sync::Arc;

use plotline::deref::*;
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::guard::{SchemaReadGuard, SchemaWriteGuard};
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Background, Context, Ctx, Foreground, Target, Transaction};
use plotline::schema::trigger::{Trigger, TriggerSelect, TriggerSet};
use plotline::schema::{Result, Schema};

pub fn schema_from<T>(g: Graph<T>) -> Schema<T> where T: Identify {
    Schema::from(g)
}
pub fn schema_install<T, P>(s: Schema<T>, p: P) -> Schema<T> where T: Identify, P: Plugin<T> + 'static {
    s.install(p)
}
pub fn schema_with_resource<T, R>(s: Schema<T>, r: R) -> Schema<T> where T: Identify, R: 'static {
    s.with_resource(r)
}
pub fn schema_with_trigger<T, S, A, Tr>(s: Schema<T>, k: S, t: Tr) -> Schema<T>
where T: Identify + 'static, S: 'static, A: 'static, Tr: Trigger<T, A> + 'static {
    s.with_trigger(k, t)
}
pub fn schema_resources<T>(s: &Schema<T>) -> &ResourceSet where T: Identify {
    s.resources()
}
pub fn schema_triggers<T>(s: &Schema<T>) -> &TriggerSet<T> where T: Identify {
    s.triggers()
}
pub fn schema_read<T>(s: &Schema<T>) -> SchemaReadGuard<'_, T> where T: Identify {
    s.read()
}
pub fn schema_write<T>(s: &Schema<T>) -> SchemaWriteGuard<'_, T> where T: Identify {
    s.write()
}
pub fn schema_read_use<T, F, R>(s: &Schema<T>, f: F) -> R where T: Identify, F: FnOnce(&Graph<T>) -> R {
    let g = s.read();
    f(&g)
}
pub fn schema_write_use<T, F, R>(s: &Schema<T>, f: F) -> R where T: Identify, F: FnOnce(&mut Graph<T>) -> R {
    let mut g = s.write();
    f(&mut g)
}
pub fn schema_write_read<T, F, R>(s: &Schema<T>, f: F) -> R where T: Identify, F: FnOnce(&Graph<T>) -> R {
    let g = s.write();
    f(&g)
}

#![allow(unused_imports)]
use std::fmt::Debug;
use std::sync::Arc;

use plotline::deref::*;
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::guard::{SchemaReadGuard, SchemaWriteGuard};
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Background, Context, Ctx, Foreground, Target, Transaction};
use plotline::schema::trigger::{Trigger, TriggerSelect, TriggerSet};
use plotline::schema::{Result, Schema};

pub fn lazy_new_deref<R>(r: Arc<R>, d: R::Document) -> Option<R::Document>
where R: DocumentRepository, R::Document: Debug + Clone, <R::Document as Identify>::Id: Clone + Debug {
    LazyDocument::new(r, d).try_deref().cloned()
}
pub fn lazy_new_id<R>(r: Arc<R>, d: R::Document) -> <R::Document as Identify>::Id
where R: DocumentRepository, R::Document: Debug, <R::Document as Identify>::Id: Clone + Debug {
    LazyDocument::new(r, d).id().clone()
}
pub fn lazy_built_deref<R>(r: Arc<R>, id: <R::Document as Identify>::Id) -> Option<R::Document>
where R: DocumentRepository, R::Document: Debug + Clone, <R::Document as Identify>::Id: Clone + Debug {
    let b = LazyDocument::builder(r);
    b(id).try_deref().cloned()
}
pub fn lazy_built_id<R>(r: Arc<R>, id: <R::Document as Identify>::Id) -> <R::Document as Identify>::Id
where R: DocumentRepository, R::Document: Debug, <R::Document as Identify>::Id: Clone + Debug {
    let b = LazyDocument::builder(r);
    b(id).id().clone()
}
pub fn lazy_deref<R>(d: &LazyDocument<R>) -> Option<R::Document>
where R: DocumentRepository, R::Document: Clone, <R::Document as Identify>::Id: Debug {
    d.try_deref().cloned()
}
pub fn lazy_deref_twice<R>(d: &LazyDocument<R>) -> (Option<R::Document>, Option<R::Document>)
where R: DocumentRepository, R::Document: Clone, <R::Document as Identify>::Id: Debug {
    let a = d.try_deref().cloned();
    (a, d.try_deref().cloned())
}
pub fn lazy_clone<R>(d: &LazyDocument<R>) -> LazyDocument<R>
where R: DocumentRepository, R::Document: Clone, <R::Document as Identify>::Id: Clone {
    d.clone()
}
pub fn lazy_deref_clone_deref<R>(d: &LazyDocument<R>) -> (Option<R::Document>, Option<R::Document>)
where R: DocumentRepository, R::Document: Clone, <R::Document as Identify>::Id: Debug + Clone {
    let a = d.try_deref().cloned();
    (a, d.clone().try_deref().cloned())
}

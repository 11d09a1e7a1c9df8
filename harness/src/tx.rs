#![allow(unused_imports)]
use std::fmt::Debug;
use std::sync::Arc;

use plotline::deref::*;
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::guard::{SchemaReadGuard, SchemaWriteGuard};
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Background, Context, Ctx, Foreground, Target, Transaction};
use plotline::schema::trigger::{Trigger, TriggerSelect, TriggerSet};
use plotline::schema::{Result, Schema};

pub fn bg_with<T, F, U>(s: &Schema<T>, f: F) -> Result<U>
where T: Identify, T::Id: Clone + Ord, F: FnOnce(Context<'_, T>) -> Result<U> {
    s.transaction().with(f)
}
pub fn bg_new<T>(s: &Schema<T>) -> Background<'_, T> where T: Identify {
    s.transaction()
}
pub fn bg_unused<T>(s: &Schema<T>) where T: Identify {
    let _tx = s.transaction();
}
pub fn fg_with<'a, T, F, U>(c: &'a Context<'a, T>, f: F) -> Result<U>
where T: Identify, F: FnOnce(Context<'_, T>) -> Result<U> {
    c.transaction().with(f)
}
pub fn fg_unused<'a, T>(c: &'a Context<'a, T>) where T: Identify {
    let _tx = c.transaction();
}
pub fn ctx_fg_with<'a, T, F, U>(c: &'a Context<'a, T>, f: F) -> Result<U>
where T: Identify, F: FnOnce(Context<'_, T>) -> Result<U> {
    let c = Ctx::from(c);
    let r = c.transaction().with(f);
    r
}
pub fn ctx_save<T>(c: &Context<'_, T>, n: T) where T: Identify {
    c.save(n)
}
pub fn ctx_delete<T>(c: &Context<'_, T>, id: T::Id) where T: Identify {
    c.delete(id)
}
pub fn ctx_get<T>(c: &Context<'_, T>, id: &T::Id) -> Option<T> where T: Identify + Clone, T::Id: Ord {
    Source::get(c, id)
}
pub fn ctx_contains<T>(c: &Context<'_, T>, id: &T::Id) -> bool where T: Identify + Clone, T::Id: Ord {
    Source::contains(c, id)
}
pub fn ctx_with_target<T>(c: Context<'_, T>, n: T) -> Context<'_, T> where T: Identify {
    c.with_target(n)
}
pub fn ctx_resources<'a, T>(c: &'a Context<'_, T>) -> &'a ResourceSet where T: Identify {
    c.resources()
}
pub fn ctx_triggers<'a, T>(c: &'a Context<'_, T>) -> &'a TriggerSet<T> where T: Identify {
    c.triggers()
}
pub fn ctx_target<'a, T>(c: &'a Context<'_, T>) -> &'a Target<T> where T: Identify {
    c.target()
}
/// One save made through a sub-transaction is seen by its context, not by the parent.
pub fn fg_ctx_get<'a, T>(c: &'a Context<'a, T>, n: T, id: &T::Id) -> Result<Option<T>>
where T: Identify + Clone, T::Id: Ord {
    c.transaction().with(|sub| {
        sub.save(n);
        Ok(Source::get(c, id))
    })
}

#![allow(unused_imports)]
use std::fmt::Debug;
use std::sync::Arc;

use plotline::deref::*;
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::guard::{SchemaReadGuard, SchemaWriteGuard};
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Background, Context, Ctx, Foreground, Target, Transaction};
use plotline::schema::trigger::{Trigger, TriggerSelect, TriggerSet};
use plotline::schema::{Result, Schema};

pub fn save_bg<T>(s: &Schema<T>, n: T) -> Result<()> where T: 'static + Identify + Clone, T::Id: Clone + Ord {
    Save::new(n).execute(s.transaction())
}
pub fn save_fg<'a, T>(c: &'a Context<'a, T>, n: T) -> Result<()> where T: 'static + Identify + Clone {
    Save::new(n).execute(c.transaction())
}
pub fn save_any<T, X>(tx: X, n: T) -> Result<()> where T: 'static + Identify + Clone, X: Transaction<Target = T> {
    Save::new(n).execute(tx)
}
pub fn delete_bg<T>(s: &Schema<T>, id: T::Id) -> Result<()> where T: Identify + Clone, T::Id: Clone + Ord + Debug {
    Delete::<T>::new(id).execute(s.transaction())
}
pub fn delete_fg<'a, T>(c: &'a Context<'a, T>, id: T::Id) -> Result<()>
where T: Identify + Clone, T::Id: Clone + Ord + Debug {
    Delete::<T>::new(id).execute(c.transaction())
}
pub fn delete_any<T, X>(tx: X, id: T::Id) -> Result<()>
where T: Identify + Clone, T::Id: Clone + Ord + Debug, X: Transaction<Target = T> {
    Delete::<T>::new(id).execute(tx)
}

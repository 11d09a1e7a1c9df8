#![allow(unused_imports)]
use std::fmt::Debug;
use std::sync::Arc;

use plotline::deref::*;
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::guard::{SchemaReadGuard, SchemaWriteGuard};
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Background, Context, Ctx, Foreground, Target, Transaction};
use plotline::schema::trigger::{Trigger, TriggerSelect, TriggerSet};
use plotline::schema::{Result, Schema};

pub fn graph_insert<T>(g: &mut Graph<T>, n: T) -> Option<T> where T: Identify, T::Id: Ord + Clone {
    g.insert(n)
}
pub fn graph_with_node<T>(g: Graph<T>, n: T) -> Graph<T> where T: Identify, T::Id: Ord + Clone {
    g.with_node(n)
}
pub fn graph_remove<T>(g: &mut Graph<T>, id: &T::Id) -> Option<T> where T: Identify, T::Id: Ord {
    g.remove(id)
}
pub fn graph_get<T>(g: &Graph<T>, id: &T::Id) -> Option<T> where T: Identify + Clone, T::Id: Ord {
    Source::get(g, id)
}
pub fn graph_contains<T>(g: &Graph<T>, id: &T::Id) -> bool where T: Identify + Clone, T::Id: Ord {
    Source::contains(g, id)
}
pub fn graph_from_iter<T, I>(i: I) -> Graph<T> where T: Identify, T::Id: Ord + Clone, I: IntoIterator<Item = T> {
    Graph::from_iter(i)
}
pub fn graph_visit<T, F>(g: &Graph<T>, mut f: F) where T: Identify, F: FnMut(&T) {
    for n in g {
        f(n);
    }
}
pub fn graph_default<T>() -> Graph<T> where T: Identify {
    Graph::default()
}

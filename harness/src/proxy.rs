#![allow(unused_imports)]
use std::fmt::Debug;
use std::sync::Arc;

use plotline::deref::*;
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::guard::{SchemaReadGuard, SchemaWriteGuard};
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Background, Context, Ctx, Foreground, Target, Transaction};
use plotline::schema::trigger::{Trigger, TriggerSelect, TriggerSet};
use plotline::schema::{Result, Schema};

pub fn proxy_is_virtual<S>(s: &S, id: <S::Node as Identify>::Id) -> bool
where S: Source, <S::Node as Identify>::Id: Ord {
    NodeProxy::new(s, id).is_virtual()
}
pub fn proxy_of_is_virtual<S>(p: &NodeProxy<S>) -> bool
where S: Source, <S::Node as Identify>::Id: Ord {
    p.is_virtual()
}
pub fn proxy_try_deref<S>(s: &S, id: <S::Node as Identify>::Id) -> Option<S::Node>
where S: Source, S::Node: Clone, <S::Node as Identify>::Id: Ord {
    NodeProxy::new(s, id).try_deref().cloned()
}
pub fn proxy_try_deref_twice<S>(s: &S, id: <S::Node as Identify>::Id) -> (Option<S::Node>, Option<S::Node>)
where S: Source, S::Node: Clone, <S::Node as Identify>::Id: Ord {
    let p = NodeProxy::new(s, id);
    let a = p.try_deref().cloned();
    (a, p.try_deref().cloned())
}
pub fn proxy_clone_try_deref<S>(s: &S, id: <S::Node as Identify>::Id) -> Option<S::Node>
where S: Source, S::Node: Clone, <S::Node as Identify>::Id: Ord + Clone {
    let p = NodeProxy::new(s, id).clone();
    p.try_deref().cloned()
}
pub fn proxy_clone_is_virtual<S>(s: &S, id: <S::Node as Identify>::Id) -> bool
where S: Source, S::Node: Clone, <S::Node as Identify>::Id: Ord + Clone {
    let p = NodeProxy::new(s, id).clone();
    p.is_virtual()
}
pub fn proxy_id<S>(s: &S, id: <S::Node as Identify>::Id) -> <S::Node as Identify>::Id
where S: Source, <S::Node as Identify>::Id: Ord + Clone {
    NodeProxy::new(s, id).id().clone()
}
pub fn proxy_successors<'a, E, S>(p: &NodeProxy<'a, S>) -> Vec<NodeProxy<'a, S>>
where S: Source, <S::Node as Identify>::Id: Ord + Clone,
      E: Property<S::Node> + Identify<Id = <S::Node as Identify>::Id> {
    p.successors::<E>()
}
pub fn proxy_successors_new<E, S>(s: &S, id: <S::Node as Identify>::Id) -> Vec<NodeProxy<'_, S>>
where S: Source, <S::Node as Identify>::Id: Ord + Clone,
      E: Property<S::Node> + Identify<Id = <S::Node as Identify>::Id> {
    NodeProxy::new(s, id).successors::<E>()
}
pub fn graph_node<T>(g: &Graph<T>, id: T::Id) -> NodeProxy<'_, Graph<T>> where T: Identify + Clone, T::Id: Ord {
    g.node(id)
}
pub fn ctx_node<'a, T>(c: &'a Context<'a, T>, id: T::Id) -> NodeProxy<'a, Context<'a, T>>
where T: Identify + Clone, T::Id: Ord {
    c.node(id)
}

#![allow(unused_imports)]
use std::fmt::Debug;
use std::sync::Arc;

use plotline::deref::*;
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::guard::{SchemaReadGuard, SchemaWriteGuard};
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Background, Context, Ctx, Foreground, Target, Transaction};
use plotline::schema::trigger::{Trigger, TriggerSelect, TriggerSet};
use plotline::schema::{Result, Schema};

pub fn trig_select_exec<T, S>(t: &TriggerSet<T>, s: S, c: &Context<'_, T>) -> Result<()>
where T: Identify, S: 'static {
    t.select(s).execute(c)
}
pub fn trig_select<T, S>(t: &TriggerSet<T>, s: S) -> TriggerSelect<'_, T> where T: Identify, S: 'static {
    t.select(s)
}
pub fn trig_with<T, S, A, Tr>(t: TriggerSet<T>, s: S, tr: Tr) -> TriggerSet<T>
where T: Identify + 'static, S: 'static, A: 'static, Tr: Trigger<T, A> + 'static {
    t.with_trigger(s, tr)
}
pub fn trig_default<T>() -> TriggerSet<T> {
    TriggerSet::default()
}
/// Two triggers under one schedule, one under another one.
pub fn trig_seq<T, S1, S2, A, B, C, TA, TB, TC>(s1: S1, s1b: S1, s2: S2, a: TA, b: TB, c: TC, sel: S1, ctx: &Context<'_, T>) -> Result<()>
where T: Identify + 'static, S1: 'static, S2: 'static, A: 'static, B: 'static, C: 'static,
      TA: Trigger<T, A> + 'static, TB: Trigger<T, B> + 'static, TC: Trigger<T, C> + 'static {
    TriggerSet::default()
        .with_trigger(s1, a)
        .with_trigger(s2, b)
        .with_trigger(s1b, c)
        .select(sel)
        .execute(ctx)
}
/// A trigger added to any set, then the schedule executed.
pub fn trig_add_exec<T, S, A, Tr>(t: TriggerSet<T>, s: S, tr: Tr, sel: S, ctx: &Context<'_, T>) -> Result<()>
where T: Identify + 'static, S: 'static, A: 'static, Tr: Trigger<T, A> + 'static {
    t.with_trigger(s, tr).select(sel).execute(ctx)
}
pub fn trig_other_exec<T, S1, S2, A, Tr>(t: TriggerSet<T>, s: S1, tr: Tr, sel: S2, ctx: &Context<'_, T>) -> Result<()>
where T: Identify + 'static, S1: 'static, S2: 'static, A: 'static, Tr: Trigger<T, A> + 'static {
    t.with_trigger(s, tr).select(sel).execute(ctx)
}
pub fn schema_trig_exec<T, S, A, Tr>(s: Schema<T>, k: S, t: Tr, sel: S, ctx: &Context<'_, T>) -> Result<()>
where T: Identify + 'static, S: 'static, A: 'static, Tr: Trigger<T, A> + 'static {
    s.with_trigger(k, t).triggers().select(sel).execute(ctx)
}

macro_rules! trig_n {
    ($n:ident $(, $a:ident)*) => {
        pub fn $n<_T, _F $(, $a)*>(f: &_F, ctx: &Context<'_, _T>) -> Result<()>
        where _T: Identify, _F: Fn(Ctx<_T> $(, $a)*) -> Result<()> $(, $a: for<'a> From<&'a Context<'a, _T>>)*
        {
            Trigger::<_T, ($($a,)*)>::execute(f, ctx)
        }
    };
}
trig_n!(trig_0);
trig_n!(trig_1, A);
trig_n!(trig_2, A, B);
trig_n!(trig_3, A, B, C);
trig_n!(trig_4, A, B, C, D);
trig_n!(trig_5, A, B, C, D, E);
trig_n!(trig_6, A, B, C, D, E, F);
trig_n!(trig_7, A, B, C, D, E, F, G);
trig_n!(trig_8, A, B, C, D, E, F, G, H);

/// A function registered as a trigger, executed through its schedule.
pub fn trig_fn_exec<_T, S, _F, A>(s: S, f: _F, sel: S, ctx: &Context<'_, _T>) -> Result<()>
where _T: Identify + 'static, S: 'static, _F: Fn(Ctx<_T>, A) -> Result<()> + 'static, A: 'static + for<'a> From<&'a Context<'a, _T>>
{
    TriggerSet::default().with_trigger(s, f).select(sel).execute(ctx)
}

pub fn ctx_from<'a, T>(c: &'a Context<'a, T>) -> Ctx<'a, T> where T: Identify {
    Ctx::from(c)
}
pub fn target_from<'a, T>(c: &'a Context<'a, T>) -> Target<T> where T: Identify {
    Target::from(c)
}
pub fn target_clone<T>(t: &Target<T>) -> Target<T> {
    t.clone()
}
pub fn target_set<T>(t: &mut Target<T>, v: T) {
    t.set(v)
}
pub fn res_from_ctx<T, R>(c: &Context<'_, T>) -> Res<R> where T: Identify, R: 'static {
    Res::from(c)
}
/// What a trigger changes through the target it was handed is what the context's target holds.
pub fn target_shared<'a, T, F, G, X>(c: &'a Context<'a, T>, f: F, g: G) -> (Option<()>, Option<X>)
where T: Identify + 'static, F: FnOnce(&mut T), G: FnOnce(&T) -> X {
    let t = Target::from(c);
    let a = t.with_mut(f);
    (a, c.target().with(g))
}

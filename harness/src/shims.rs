//! What collection methods taking iterators do, spelled out.
use std::collections::{BTreeMap, VecDeque};

pub fn plv_shim_vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut v = Vec::new();
    i.into_iter().for_each(|x| {
        v.push(x);
    });
    v
}

pub fn plv_shim_vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) {
    i.into_iter().for_each(|x| {
        v.push(x);
    });
}

pub fn plv_shim_vecdeque_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> VecDeque<T> {
    let mut v = VecDeque::new();
    i.into_iter().for_each(|x| {
        v.push_back(x);
    });
    v
}

pub fn plv_shim_vecdeque_extend<T, I: IntoIterator<Item = T>>(v: &mut VecDeque<T>, i: I) {
    i.into_iter().for_each(|x| {
        v.push_back(x);
    });
}

pub fn plv_shim_btreemap_from_iter<K: Ord, V, I: IntoIterator<Item = (K, V)>>(i: I) -> BTreeMap<K, V> {
    let mut m = BTreeMap::new();
    i.into_iter().for_each(|(k, v)| {
        m.insert(k, v);
    });
    m
}

pub fn plv_shim_btreemap_extend<K: Ord, V, I: IntoIterator<Item = (K, V)>>(m: &mut BTreeMap<K, V>, i: I) {
    i.into_iter().for_each(|(k, v)| {
        m.insert(k, v);
    });
}
pub fn plv_shim_vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    old.into_iter().for_each(|x| {
        if f(&x) {
            v.push(x);
        }
    });
}

pub fn plv_shim_vecdeque_retain<T, F: FnMut(&T) -> bool>(v: &mut VecDeque<T>, mut f: F) {
    let old = std::mem::take(v);
    old.into_iter().for_each(|x| {
        if f(&x) {
            v.push_back(x);
        }
    });
}

pub fn plv_shim_vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    old.into_iter().for_each(|mut x| {
        if f(&mut x) {
            v.push(x);
        }
    });
}

pub fn plv_shim_vec_dedup_by<T, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    old.into_iter().for_each(|mut x| {
        let again = match v.last_mut() {
            Some(last) => f(&mut x, last),
            None => false,
        };
        if !again {
            v.push(x);
        }
    });
}

pub fn plv_shim_vec_dedup_by_key<T, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) {
    plv_shim_vec_dedup_by(v, |a, b| f(a) == f(b))
}

pub fn plv_shim_vec_dedup<T: PartialEq>(v: &mut Vec<T>) {
    plv_shim_vec_dedup_by(v, |a, b| a == b)
}

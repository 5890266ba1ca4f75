#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let mut t = SplayTree::new(cmp);
    for i in 0..9 { t.insert(Box::new(i), Box::new(i)); }
    let k: Vec<Box<i32>> = (-1..10).map(Box::new).collect();
    let mut v: Vec<&Box<i32>> = vec![];
    for a in &k {
        v.extend(t.get(a));
        v.extend(t.find_key(a));
        v.extend(t.next(a).map(|x| x.0));
        v.extend(t.prev(a).map(|x| x.1));
        v.extend(t.min());
        v.extend(t.max());
        t.contains(a);
    }
    let c = churn();
    println!("{:?} {}", v, c.len());
}

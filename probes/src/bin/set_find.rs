#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let mut t = SplaySet::new(cmp);
    for i in 0..9 { t.insert(Box::new(i)); }
    let k = Box::new(4);
    let r = t.find(&k);
    t.remove(&k);
    let c = churn();
    println!("{:?} {}", r, c.len());
}

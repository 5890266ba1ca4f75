#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let l = lines();
    let mut it: CrossingsIter<&Line<f64>> = l.iter().collect();
    it.next();
    drop(l);
    let c = churn();
    while let Some(p) = it.next() { println!("{p:?} {:?}", it.intersections()); }
    println!("{}", c.len());
}

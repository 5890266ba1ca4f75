#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let mut it: CrossingsIter<Rc<Line<f64>>> = lines().into_iter().map(Rc::new).collect();
    it.next();
    let b = it.intersections_mut();
    while it.next().is_some() {}
    drop(it);
    let c = churn();
    println!("{:?} {}", b, c.len());
}

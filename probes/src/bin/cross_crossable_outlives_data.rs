#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let r = {
        let l = lines();
        let mut it: CrossingsIter<&Line<f64>> = l.iter().collect();
        it.next();
        it.intersections()[0].crossable
    };
    let c = churn();
    println!("{:?} {}", r, c.len());
}

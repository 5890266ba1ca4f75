#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let mut t = {
        let order = vec![3usize, 1, 4, 0, 2];
        SplayTree::new(|a: &usize, b: &usize| order[*a].cmp(&order[*b]))
    };
    let c = churn();
    for i in 0..5usize { t.insert(i, i); }
    println!("{:?} {}", t.min(), c.len());
}

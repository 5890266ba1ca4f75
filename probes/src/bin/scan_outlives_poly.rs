#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let p = Box::new(mono());
    let mut s = p.scan_lines(-1.0);
    drop(p);
    let c = churn();
    println!("{:?} {}", s.advance_to(9.0).collect::<Vec<_>>(), c.len());
}

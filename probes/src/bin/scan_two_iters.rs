#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let p = mono();
    let mut s = p.scan_lines(-1.0);
    let a = s.advance_to(4.0);
    let b = s.advance_to(9.0);
    drop(s);
    let c = churn();
    println!("{:?} {:?} {}", a.collect::<Vec<_>>(), b.collect::<Vec<_>>(), c.len());
}

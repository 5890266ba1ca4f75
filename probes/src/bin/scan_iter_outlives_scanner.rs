#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let p = mono();
    let mut s = Box::new(p.scan_lines(0.5));
    let mut it = s.advance_to(9.0);
    let a = it.next();
    drop(s);
    let c = churn();
    println!("{a:?} {:?} {}", it.collect::<Vec<_>>(), c.len());
}

#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let p = Polygon::new(LineString::from(vec![(0., 0.), (2., 1.), (4., 0.), (3., 4.), (2., 2.), (1., 4.)]), vec![]);
    let mut s = std::pin::pin!(MonotoneSweep::from_polygon(&p));
    for _ in 0..3 {
        println!("{:?}", s.as_mut().process_event());
    }
    let c = churn();
    s.set(MonotoneSweep::from_polygon(&p));
    while let Some(e) = s.as_mut().process_event() {
        println!("{e:?}");
    }
    println!("{}", c.len());
}

#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let p = Polygon::new(LineString::from(vec![(0., 0.), (2., 1.), (4., 0.), (3., 4.), (2., 2.), (1., 4.)]), vec![]);
    let mut s = Box::new(MonotoneSweep::from_polygon(&p));
    for _ in 0..3 {
        println!("{:?}", std::pin::Pin::new(&mut *s).process_event());
    }
    let mut v = vec![*s];
    let c = churn();
    while let Some(e) = std::pin::Pin::new(&mut v[0]).process_event() {
        println!("{e:?}");
    }
    println!("{}", c.len());
}

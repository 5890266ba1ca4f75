#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
#![forbid(unsafe_code)]
use gcprobes::*;
use geo::{Line, LineString, Polygon};
use geo_crossings::monotone::*;
use geo_crossings::*;
use std::rc::Rc;

fn cmp(a: &Box<i32>, b: &Box<i32>) -> std::cmp::Ordering {
    a.cmp(b)
}

fn main() {
    let mut t = SplayTree::new(|a: &&String, b: &&String| a.cmp(b));
    {
        let s = String::from("a string that is long enough to be on the heap");
        t.insert(&s, 1);
    }
    let c = churn();
    let k = String::from("b");
    t.insert(&k, 2);
    println!("{:?} {}", t.min(), c.len());
}

//! Iterators are walked by a random mix of the methods of `Iterator` and
//! `DoubleEndedIterator`, not by `next` alone: each of these may be overridden.
use crate::ctx::*;
use crate::ensure;
use crate::rng::Rng;
use std::collections::VecDeque;
use std::fmt::Debug;

pub trait Item: PartialEq + Debug + Clone {}
impl<T: PartialEq + Debug + Clone> Item for T {}

fn same<T: Item>(what: &str, got: &Option<T>, want: &Option<T>) -> Verdict {
    ensure!(got == want, "{what} gave {got:?} instead of {want:?}");
    Ok(())
}

fn all<T: Item>(what: &str, got: &[T], want: &[T]) -> Verdict {
    if got == want {
        return Ok(());
    }
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!("{what}: {} items instead of {}, item {k} is {:?} instead of {:?}", got.len(), want.len(), got.get(k), want.get(k)))
}

fn hint<I: Iterator>(it: &I, left: usize) -> Verdict {
    let (lo, hi) = it.size_hint();
    ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size_hint ({lo}, {hi:?}) with {left} items left");
    Ok(())
}

fn pop<T>(w: &mut VecDeque<T>, k: usize) -> Option<T> {
    // the item after `k` skipped ones
    for _ in 0..k.min(w.len()) {
        w.pop_front();
    }
    w.pop_front()
}

fn pop_back<T>(w: &mut VecDeque<T>, k: usize) -> Option<T> {
    for _ in 0..k.min(w.len()) {
        w.pop_back();
    }
    w.pop_back()
}

fn amount(rng: &mut Rng, left: usize) -> usize {
    match rng.below(8) {
        0 => 0,
        1..=5 => rng.usize(4),
        6 => rng.usize(left + 3),
        _ => left,
    }
}

/// One or more items from the front. Returns the last one that was seen, or
/// `None` when the iterator ran out.
pub fn forward<I: Iterator<Item = T>, T: Item>(rng: &mut Rng, it: &mut I, w: &mut VecDeque<T>) -> Result<Option<T>, String> {
    hint(it, w.len())?;
    let k = amount(rng, w.len());
    match rng.below(9) {
        0 | 1 => {
            let (o, e) = (sut("next", || it.next())?, w.pop_front());
            same("next()", &o, &e)?;
            Ok(e)
        }
        2 | 3 => {
            let (o, e) = (sut("nth", || it.nth(k))?, pop(w, k));
            same(&format!("nth({k})"), &o, &e)?;
            Ok(e)
        }
        4 => {
            let o = sut("take", || it.by_ref().take(k + 1).collect::<Vec<_>>())?;
            let e: Vec<T> = w.drain(..(k + 1).min(w.len())).collect();
            all(&format!("take({})", k + 1), &o, &e)?;
            Ok(if e.len() == k + 1 { e.last().cloned() } else { None })
        }
        5 => {
            let o = sut("skip", || it.by_ref().skip(k).next())?;
            let e = pop(w, k);
            same(&format!("skip({k}).next()"), &o, &e)?;
            Ok(e)
        }
        6 => {
            let mut left = k;
            let o = sut("find", || {
                it.find(|_| {
                    let hit = left == 0;
                    left = left.wrapping_sub(1);
                    hit
                })
            })?;
            let e = pop(w, k);
            same(&format!("find, {k} items on"), &o, &e)?;
            Ok(e)
        }
        7 => {
            let mut seen = 0;
            let o = sut("any", || {
                it.any(|_| {
                    seen += 1;
                    seen > k
                })
            })?;
            let left = w.len();
            let e = pop(w, k);
            ensure!(o == e.is_some() && seen == left.min(k + 1), "any looked at {seen} of {left} items, asked to stop after {}", k + 1);
            Ok(e)
        }
        _ => {
            let k = k + 1;
            let o = sut("step_by", || it.by_ref().step_by(k).take(2).collect::<Vec<_>>())?;
            let mut e: Vec<T> = w.pop_front().into_iter().collect();
            let full = if e.is_empty() {
                None
            } else {
                let n = pop(w, k - 1);
                e.extend(n.clone());
                n
            };
            all(&format!("step_by({k}).take(2)"), &o, &e)?;
            Ok(full)
        }
    }
}

/// Consume all that is left by one call.
pub fn finish<I: Iterator<Item = T>, T: Item>(rng: &mut Rng, it: I, w: VecDeque<T>) -> Verdict {
    hint(&it, w.len())?;
    let w: Vec<T> = w.into();
    match rng.below(6) {
        0 => {
            let n = sut("count", || it.count())?;
            ensure!(n == w.len(), "count() is {n} with {} items left", w.len());
        }
        1 => same("last()", &sut("last", || it.last())?, &w.last().cloned())?,
        2 => {
            let o = sut("fold", || {
                it.fold(vec![], |mut v, x| {
                    v.push(x);
                    v
                })
            })?;
            all("fold", &o, &w)?;
        }
        3 => {
            let mut o = vec![];
            sut("for_each", || it.for_each(|x| o.push(x)))?;
            all("for_each", &o, &w)?;
        }
        4 => {
            let o = sut("reduce", || it.reduce(|_, b| b))?;
            same("reduce to the last", &o, &w.last().cloned())?;
        }
        _ => {
            let o = sut("collect", || it.collect::<Vec<_>>())?;
            all("collect", &o, &w)?;
        }
    }
    Ok(())
}

pub fn backward<I: DoubleEndedIterator<Item = T>, T: Item>(rng: &mut Rng, it: &mut I, w: &mut VecDeque<T>) -> Verdict {
    hint(it, w.len())?;
    let k = amount(rng, w.len());
    match rng.below(5) {
        0 | 1 => same("next_back()", &sut("next_back", || it.next_back())?, &w.pop_back()),
        2 => same(&format!("nth_back({k})"), &sut("nth_back", || it.nth_back(k))?, &pop_back(w, k)),
        3 => {
            let o = sut("rev", || it.by_ref().rev().take(k).collect::<Vec<_>>())?;
            let at = w.len() - k.min(w.len());
            let e: Vec<T> = w.drain(at..).rev().collect();
            all(&format!("rev().take({k})"), &o, &e)
        }
        _ => {
            let mut left = k;
            let o = sut("rfind", || {
                it.rfind(|_| {
                    let hit = left == 0;
                    left = left.wrapping_sub(1);
                    hit
                })
            })?;
            same(&format!("rfind, {k} items on"), &o, &pop_back(w, k))
        }
    }
}

pub fn finish_back<I: DoubleEndedIterator<Item = T>, T: Item>(rng: &mut Rng, it: I, w: VecDeque<T>) -> Verdict {
    hint(&it, w.len())?;
    let w: Vec<T> = w.into_iter().rev().collect();
    if rng.chance(1, 2) {
        let o = sut("rfold", || {
            it.rfold(vec![], |mut v, x| {
                v.push(x);
                v
            })
        })?;
        all("rfold", &o, &w)
    } else {
        let o = sut("rev", || it.rev().collect::<Vec<_>>())?;
        all("rev().collect()", &o, &w)
    }
}

/// Walk an iterator that can be walked from both ends.
pub fn both<I: DoubleEndedIterator<Item = T>, T: Item>(rng: &mut Rng, mut it: I, want: Vec<T>) -> Verdict {
    let mut w: VecDeque<T> = want.into();
    let (p, q) = (*rng.pick(&[0u64, 30, 100]), *rng.pick(&[0u64, 10, 50]));
    while !w.is_empty() && !rng.chance(q, 100) {
        if rng.chance(p, 100) {
            backward(rng, &mut it, &mut w)?;
        } else {
            forward(rng, &mut it, &mut w)?;
        }
    }
    if rng.chance(p, 100) {
        finish_back(rng, it, w)
    } else {
        finish(rng, it, w)
    }
}

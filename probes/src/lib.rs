//! What the probes in `bin/` share. Each is a program made of safe code only
//! that keeps something the library handed out beyond what it was borrowed
//! from. The compiler should refuse them all, except `control_*`; one that it
//! accepts is executed, interpreted and with a sanitizer, which decide.
use geo::{Line, LineString};
use geo_crossings::monotone::MonoPoly;

pub fn mono() -> MonoPoly<f64> {
    MonoPoly::new(
        LineString::from(vec![(0., 0.), (1., 2.), (3., 3.), (5., 2.), (8., 0.)]),
        LineString::from(vec![(0., 0.), (2., -1.), (4., -3.), (8., 0.)]),
    )
}

pub fn lines() -> Vec<Line<f64>> {
    vec![
        Line::from([(0., 0.), (4., 4.)]),
        Line::from([(0., 4.), (4., 0.)]),
        Line::from([(0., 1.), (4., 1.)]),
        Line::from([(1., 1.), (1., 1.)]),
    ]
}

/// Memory that comes and goes, so that what is freed is used again.
pub fn churn() -> Vec<Vec<u64>> {
    (0..200u64).map(|i| vec![0x5a5a_5a5a_5a5a_5a5a; 1 + (i % 16) as usize]).collect()
}

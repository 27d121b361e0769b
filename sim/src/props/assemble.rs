//! Building and assembling models in different ways.

use crate::canon::*;
use atelier_core::model::Model;
use atelier_core::model::shapes::{HasTraits, StructureOrUnion, ShapeKind, TopLevelShape};
use atelier_core::Version;
use simrt::SplitMix;

pub fn shuffle<T>(v: &mut [T], r: &mut SplitMix) {
    for i in (1..v.len()).rev() {
        let k = r.below(i as u64 + 1) as usize;
        v.swap(i, k);
    }
}

fn shape(id: &str, s: &CShape, r: &mut SplitMix) -> TopLevelShape {
    let members = |m: &std::collections::BTreeMap<String, CMember>, r: &mut SplitMix| {
        let mut v: Vec<_> = m.values().collect();
        shuffle(&mut v, r);
        let mut out = StructureOrUnion::new();
        for m in v {
            let _ = out.add_a_member(member_of(m));
        }
        out
    };
    let body = match &s.body {
        CBody::Structure(m) => ShapeKind::Structure(members(m, r)),
        CBody::Union(m) => ShapeKind::Union(members(m, r)),
        b => body_of(b),
    };
    if r.below(2) == 0 {
        TopLevelShape::with_traits(sid(id), body, traits_of(&s.traits))
    } else {
        let mut t = TopLevelShape::new(sid(id), body);
        let mut v: Vec<_> = traits_of(&s.traits).into_iter().collect();
        v.sort_by_key(|(k, _)| k.to_string());
        shuffle(&mut v, r);
        for (k, v) in v {
            t.apply_with_value(k, v).expect("generator: trait conflict");
        }
        t
    }
}

/// The model, put together in an order drawn from `seed`.
pub fn build_shuffled(c: &CModel, seed: u64) -> Model {
    let mut r = SplitMix::new(seed);
    let mut m = Model::new(Version::V10);
    let mut keys: Vec<_> = c.metadata.iter().collect();
    shuffle(&mut keys, &mut r);
    for (k, v) in keys {
        m.add_metadata(k.clone(), value(v)).expect("generator: metadata conflict");
    }
    let mut shapes: Vec<_> = c.shapes.iter().collect();
    shuffle(&mut shapes, &mut r);
    for (id, s) in shapes {
        m.add_shape(shape(id, s, &mut r)).expect("generator: shape conflict");
    }
    m
}

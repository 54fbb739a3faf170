//! Stands in for sets.rs where the sets of the library have another interface than it knows.
use crate::judge::{Facts, Viols};
use simcore::json::{self, J};
use simcore::rng::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Sets {
    pub ops: Vec<u8>,
}
impl Sets {
    pub fn to_json(&self) -> J {
        json::obj(vec![])
    }
    pub fn from_json(_: &J) -> Sets {
        Sets { ops: vec![] }
    }
    pub fn random(_: &mut Rng) -> Sets {
        Sets { ops: vec![] }
    }
    pub fn run(&self, _: &mut Facts) -> (Viols, Vec<String>) {
        (vec![], vec![])
    }
}

//! Stands in for raw.rs where the library's internals have another shape than it knows:
//! only what the grammar itself names is compared then.
use crate::judge::Viols;
use crate::real::{first_mask, follow_mask, src_of};
use simcore::lx::*;
use std::any::TypeId;
use teleparse::syntax::{Metadata, MetadataBuilder};
use teleparse::GrammarError;

pub struct Raw {
    ids: Vec<TypeId>,
}
impl Raw {
    pub fn of(_: &MetadataBuilder<Lx>, _: TypeId, ids: Vec<TypeId>) -> Raw {
        Raw { ids }
    }
    pub fn dump_all(&self, m: Option<&Metadata<Lx>>) -> String {
        use std::fmt::Write;
        let Some(m) = m else { return "rejected".into() };
        let mut s = String::new();
        for id in &self.ids {
            let _ = write!(s, " {:x}/{:x}:", first_mask(m.first.get(id)), follow_mask(m.follow.get(id)));
            for k in 0..=20 {
                let _ = match m.jump.look_up(id, if k < 20 { Some(src_of(k)) } else { None }) {
                    Some(i) => write!(s, "{i}"),
                    None => write!(s, "-"),
                };
            }
        }
        s
    }
    pub fn tables(&self, _: &Metadata<Lx>, _: &mut Viols) {}
    pub fn can_rename(&self) -> bool {
        false
    }
    pub fn renamed(&self, _: u64) -> (bool, String) {
        unreachable!()
    }
    pub fn claim(&self, _: &GrammarError) -> Option<String> {
        None
    }
}

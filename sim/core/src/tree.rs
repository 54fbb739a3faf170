//! What a run shows: trees, logs, errors. Shared by the real side and the model.
use crate::lx::RTok;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tree {
    pub lo: usize,
    pub hi: usize,
    /// set if the node's `span()` disagrees with its `lo()`/`hi()`, or one of its
    /// accessors disagrees with another
    pub odd: bool,
    pub v: V,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    Tok(u8),
    Seq(Vec<Tree>),
    Alt(u8, Box<Tree>),
    Opt(Option<Box<Tree>>),
    Exists(bool),
    List(Vec<Tree>),
    /// elements, delimiters
    Split(Vec<Tree>, Vec<Tree>),
    Punct(Vec<Tree>, Vec<Tree>),
    /// head, head span, tail
    Rec(Option<Box<Tree>>, usize, usize, Box<Tree>),
    Boxed(Box<Tree>),
    Text(String),
    Val(String),
}
impl Tree {
    pub fn new(lo: usize, hi: usize, v: V) -> Tree {
        Tree { lo, hi, odd: false, v }
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, true);
        o
    }
    /// Without positions.
    pub fn shape(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, false);
        o
    }
    fn w(&self, o: &mut String, pos: bool) {
        use std::fmt::Write;
        fn list(v: &[Tree], o: &mut String, pos: bool) {
            for (i, t) in v.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                t.w(o, pos);
            }
        }
        match &self.v {
            V::Tok(t) => write!(o, "'{}'", crate::lx::TERMS[*t as usize].name).unwrap(),
            V::Seq(v) => {
                o.push('(');
                list(v, o, pos);
                o.push(')');
            }
            V::Alt(i, t) => {
                write!(o, "alt{i}:").unwrap();
                t.w(o, pos);
            }
            V::Opt(None) => o.push_str("none"),
            V::Opt(Some(t)) => {
                o.push_str("some:");
                t.w(o, pos);
            }
            V::Exists(b) => write!(o, "exists:{b}").unwrap(),
            V::List(v) => {
                o.push('[');
                list(v, o, pos);
                o.push(']');
            }
            V::Split(e, p) | V::Punct(e, p) => {
                o.push_str(if matches!(self.v, V::Split(..)) { "split[" } else { "punct[" });
                list(e, o, pos);
                o.push_str(" | ");
                list(p, o, pos);
                o.push(']');
            }
            V::Rec(h, a, b, t) => {
                o.push_str("rec{");
                match h {
                    Some(h) => h.w(o, pos),
                    None => o.push_str("none"),
                }
                if pos {
                    write!(o, "@{a}..{b}").unwrap();
                }
                o.push_str(" ; ");
                t.w(o, pos);
                o.push('}');
            }
            V::Boxed(t) => {
                o.push_str("box:");
                t.w(o, pos);
            }
            V::Text(s) => write!(o, "text:{s:?}").unwrap(),
            V::Val(s) => write!(o, "val:{s}").unwrap(),
        }
        if pos {
            write!(o, "@{}..{}", self.lo, self.hi).unwrap();
        }
        if self.odd {
            o.push_str("!odd");
        }
    }
    pub fn children(&self) -> Vec<&Tree> {
        match &self.v {
            V::Seq(v) | V::List(v) => v.iter().collect(),
            V::Alt(_, t) | V::Boxed(t) => vec![t],
            V::Opt(Some(t)) => vec![t],
            V::Split(e, p) | V::Punct(e, p) => e.iter().chain(p.iter()).collect(),
            V::Rec(h, _, _, t) => h.iter().map(|x| &**x).chain(std::iter::once(&**t)).collect(),
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum EK {
    Expect(u32),
    Chars,
    Tokens,
    Eof,
    NoAdvance,
    Custom(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Er {
    pub lo: usize,
    pub hi: usize,
    pub k: EK,
}
impl Er {
    pub fn show(&self) -> String {
        let k = match &self.k {
            EK::Expect(m) => format!("expect{{{}}}", mask_show(*m)),
            EK::Chars => "chars".into(),
            EK::Tokens => "tokens".into(),
            EK::Eof => "eof".into(),
            EK::NoAdvance => "noadvance".into(),
            EK::Custom(s) => format!("custom:{s}"),
        };
        format!("{}..{} {k}", self.lo, self.hi)
    }
}
pub fn mask_show(m: u32) -> String {
    let mut v = vec![];
    for i in 0..20 {
        if m & (1 << i) != 0 {
            v.push(match crate::lx::PROBES[i] {
                (_, Some(t)) => t.to_string(),
                (t, None) => format!("{t:?}"),
            });
        }
    }
    if m & crate::lx::EPS != 0 {
        v.push("<end>".into());
    }
    v.join(" ")
}

/// The public state of a session.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Snap {
    pub toks: Vec<(RTok, u16)>,
    pub ext: Vec<RTok>,
    pub inv: Vec<(usize, usize)>,
    pub errs: Vec<Er>,
    pub peek: Option<RTok>,
}

/// The result of one operation.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Unit,
    /// a parse: the tree or None
    Parsed(Option<Tree>),
    /// repeated parsing until the end or until nothing is consumed
    Many(Vec<Option<Tree>>),
    Tok(Option<RTok>),
    /// token parse: 0 success, 1 recovered, 2 gave up
    TokRes(u8, Option<RTok>, Vec<Er>),
    Span(usize, usize),
    Str(String),
    Idx(Vec<Vec<usize>>),
    Strs(Vec<String>),
    Cancelled,
    GramErr(String),
    Snap(Box<Snap>),
    /// the operation panicked by itself
    Panicked(String),
}
impl Res {
    pub fn show(&self) -> String {
        match self {
            Res::Unit => "()".into(),
            Res::Parsed(None) => "parse: none".into(),
            Res::Parsed(Some(t)) => format!("parse: {}", t.show()),
            Res::Many(v) => format!(
                "parses: {}",
                v.iter()
                    .map(|t| t.as_ref().map_or("none".into(), |t| t.show()))
                    .collect::<Vec<_>>()
                    .join(" // ")
            ),
            Res::Tok(t) => format!("tok {}", tok_show(t)),
            Res::TokRes(k, t, e) => format!(
                "{} {} [{}]",
                ["ok", "repaired", "gave up"][*k as usize],
                tok_show(t),
                e.iter().map(|e| e.show()).collect::<Vec<_>>().join("; ")
            ),
            Res::Span(a, b) => format!("{a}..{b}"),
            Res::Str(s) => format!("{s:?}"),
            Res::Idx(v) => format!("{v:?}"),
            Res::Strs(v) => format!("{v:?}"),
            Res::Cancelled => "cancelled".into(),
            Res::GramErr(e) => format!("grammar error: {e}"),
            Res::Panicked(e) => format!("panicked: {e}"),
            Res::Snap(s) => format!(
                "tokens [{}] extracted [{}] invalid {:?} errors [{}] next {}",
                s.toks
                    .iter()
                    .map(|(t, m)| format!("{}{}", tok_show(&Some(*t)), if *m == 0 {
                        String::new()
                    } else {
                        format!("+{m:#x}")
                    }))
                    .collect::<Vec<_>>()
                    .join(" "),
                s.ext.iter().map(|t| tok_show(&Some(*t))).collect::<Vec<_>>().join(" "),
                s.inv,
                s.errs.iter().map(|e| e.show()).collect::<Vec<_>>().join("; "),
                tok_show(&s.peek)
            ),
        }
    }
}
pub fn tok_show(t: &Option<RTok>) -> String {
    match t {
        None => "-".into(),
        Some(t) => format!("{:?}@{}..{}", crate::lx::ALL_TYPES[t.ty as usize], t.lo, t.hi),
    }
}

//! Sessions over a lexicon whose lexer is scripted by the source: stalls, extraction
//! runs, premature ends and panics inside the lexer (S03), and lexicons of every word
//! size for marks and lookups (S12).
use crate::judge::{viol, Facts, Viols};
use crate::real::guard;
use simcore::json::{self, J};
use simcore::lx::*;
use simcore::rng::*;
use simrt::quiet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use teleparse::lex::Set;
use teleparse::{Lexicon, Parser, Span, ToSpan, Token};

#[derive(Clone, Debug, PartialEq)]
pub enum SOp {
    Parse(u8),
    Peek,
    Consume,
    Try(u8),
    Span,
    Drain,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Script {
    pub src: String,
    pub ops: Vec<SOp>,
}
impl Script {
    pub fn to_json(&self) -> J {
        json::obj(vec![
            ("script", json::s(self.src.clone())),
            (
                "ops",
                json::arr(&self.ops, |o| {
                    json::s(match o {
                        SOp::Parse(r) => format!("parse{r}"),
                        SOp::Try(t) => format!("try{t}"),
                        SOp::Peek => "peek".into(),
                        SOp::Consume => "consume".into(),
                        SOp::Span => "span".into(),
                        SOp::Drain => "drain".into(),
                    })
                }),
            ),
        ])
    }
    pub fn from_json(j: &J) -> Script {
        Script {
            src: j.get("script").str().into(),
            ops: j
                .get("ops")
                .arr()
                .iter()
                .map(|o| match o.str() {
                    "peek" => SOp::Peek,
                    "consume" => SOp::Consume,
                    "span" => SOp::Span,
                    "drain" => SOp::Drain,
                    x if x.starts_with("try") => SOp::Try(x[3..].parse().unwrap_or(0)),
                    x => SOp::Parse(x[5..].parse().unwrap_or(0)),
                })
                .collect(),
        }
    }
    pub fn random(r: &mut Rng) -> Script {
        let n = *r.pick(&[0usize, 3, 8, 16, 40]);
        let style = r.below(4);
        let mut src = String::new();
        for _ in 0..n {
            let w: &[u32] = match style {
                0 => &[6, 5, 1, 1, 1, 0, 1],
                1 => &[5, 4, 2, 3, 2, 1, 1],
                2 => &[3, 2, 6, 3, 1, 0, 1],
                _ => &[4, 4, 1, 2, 3, 2, 0],
            };
            src.push(['a', 'b', 'x', '!', '.', '?', '_'][r.weighted(w)]);
        }
        let k = r.range(2, 16);
        let mut ops: Vec<SOp> = (0..k)
            .map(|_| match r.weighted(&[6, 5, 5, 4, 2, 1]) {
                0 => SOp::Parse(r.below(4) as u8),
                1 => SOp::Peek,
                2 => SOp::Consume,
                3 => SOp::Try(r.below(2) as u8),
                4 => SOp::Span,
                _ => SOp::Drain,
            })
            .collect();
        ops.push(SOp::Drain);
        Script { src, ops }
    }
    pub fn run(&self, facts: &mut Facts) -> (Viols, Vec<String>) {
        use simcore::lx::sc::*;
        let src: &'static str = Box::leak(self.src.clone().into_boxed_str());
        let b = src.as_bytes();
        let at = |c: fn(u8) -> bool| -> Vec<usize> { (0..b.len()).filter(|i| c(b[*i])).collect() };
        let toks = at(|c| c == b'a' || c == b'b');
        let ext = at(|c| c == b'x');
        // runs of garbage; the ones a lexer panic swallows are not reported
        let mut inv: Vec<(usize, usize)> = vec![];
        let mut cur: Option<(usize, usize)> = None;
        for (i, c) in b.iter().enumerate() {
            match c {
                b'!' => cur = Some((cur.map_or(i, |x| x.0), i + 1)),
                b'?' => cur = None,
                b'_' => {}
                _ => inv.extend(cur.take()),
            }
        }
        inv.extend(cur);
        let ty = |i: usize| if b[i] == b'a' { Sc::A } else { Sc::B };
        let want = |n: usize| toks.get(n).map(|i| Token::new(*i..*i + 1, ty(*i)));
        // may the lexer answer "nothing" before the n-th token?
        let gap = |n: usize| {
            let lo = if n == 0 { 0 } else { toks[n - 1] + 1 };
            let hi = toks.get(n).copied().unwrap_or(b.len());
            n >= toks.len() || b[lo..hi].iter().any(|c| *c == b'.')
        };
        let stall = |n: usize| {
            let lo = if n == 0 { 0 } else { toks[n - 1] + 1 };
            let hi = toks.get(n).copied().unwrap_or(b.len());
            b[lo..hi].contains(&b'.')
        };
        let mut v: Viols = vec![];
        let mut log = vec![];
        let Ok(mut p) = Parser::<Sc>::new(src) else {
            return (vec![viol("ACCOUNT", "no lexer")], log);
        };
        let mut n = 0usize;
        enum E<T> {
            Ok(T),
            Lexer,
            Bad(String),
        }
        fn call<T>(f: impl FnOnce() -> T) -> E<T> {
            match catch_unwind(AssertUnwindSafe(|| guard2(f))) {
                Ok(Ok(x)) => E::Ok(x),
                Ok(Err(e)) => E::Bad(e),
                Err(_) => E::Lexer,
            }
        }
        // a panic of the script passes through, any other becomes a message
        fn guard2<T>(f: impl FnOnce() -> T) -> Result<T, String> {
            match catch_unwind(AssertUnwindSafe(f)) {
                Ok(x) => Ok(x),
                Err(e) if e.is::<ScPanic>() => std::panic::resume_unwind(e),
                Err(_) => Err(crate::real::last_panic()),
            }
        }
        let budget = 2_000_000 + 4000 * (b.len() as u64 + 8) * (b.len() as u64 + 8);
        'ops: for (k, op) in self.ops.iter().enumerate() {
            simrt::account(budget);
            let mut peeked: Option<Option<Token<Sc>>> = None;
            let mut res = String::new();
            let mut bad: Option<String> = None;
            let mut account = |got: Option<Token<Sc>>, n: &mut usize, bad: &mut Option<String>| {
                match got {
                    Some(t) => {
                        if want(*n) != Some(t) {
                            *bad = Some(format!("delivered {t:?}, the next token is {:?}", want(*n)));
                        }
                        *n += 1;
                    }
                    None if !gap(*n) => *bad = Some(format!("delivered nothing, the next token is {:?}", want(*n))),
                    None => {}
                }
            };
            let mut exact = true;
            match op {
                SOp::Parse(r) => {
                    let x = match r {
                        0 => call(|| p.parse::<ScList>().map(|o| quiet(|| format!("{o:?}")))),
                        1 => call(|| p.parse::<ScSplit>().map(|o| quiet(|| format!("{o:?}")))),
                        2 => call(|| p.parse::<ScLoop>().map(|o| quiet(|| format!("{o:?}")))),
                        _ => call(|| p.parse::<ScRec>().map(|o| quiet(|| format!("{o:?}")))),
                    };
                    exact = false;
                    facts.parses += 1;
                    match x {
                        E::Ok(Ok(s)) => res = s,
                        E::Ok(Err(e)) => bad = Some(format!("the grammar is rejected: {e}")),
                        E::Lexer => {
                            facts.hit("lexer_panic_in_parse");
                            res = "lexer panic".into()
                        }
                        E::Bad(m) => {
                            v.push(viol("PANIC", format!("operation {k} {op:?} panicked: {m}")));
                            break 'ops;
                        }
                    }
                }
                SOp::Peek => match call(|| (p.peek_token(), p.peek_token_src().map(|t| (t.ty, t.src)))) {
                    E::Ok((t, s)) => {
                        if let Some(t) = t {
                            peeked = Some(Some(t));
                            if s != Some((t.ty, &src[t.lo().min(b.len())..t.hi().min(b.len())])) {
                                bad = Some(format!("looking ahead gives {t:?}, then {s:?}"));
                            }
                        }
                        let mut m = n;
                        account(t, &mut m, &mut bad);
                        res = format!("{t:?}");
                    }
                    E::Lexer => {
                        facts.hit("lexer_panic_in_peek");
                        res = "lexer panic".into()
                    }
                    E::Bad(m) => {
                        v.push(viol("PANIC", format!("operation {k} {op:?} panicked: {m}")));
                        break 'ops;
                    }
                },
                SOp::Consume => match call(|| p.consume_token()) {
                    E::Ok(t) => {
                        account(t, &mut n, &mut bad);
                        res = format!("{t:?}");
                    }
                    E::Lexer => {
                        facts.hit("lexer_panic_in_consume");
                        res = "lexer panic".into()
                    }
                    E::Bad(m) => {
                        v.push(viol("PANIC", format!("operation {k} {op:?} panicked: {m}")));
                        break 'ops;
                    }
                },
                SOp::Try(t) => {
                    let ty = if *t == 0 { Sc::A } else { Sc::B };
                    match call(|| p.parse_token(ty)) {
                        E::Ok(teleparse::syntax::Result::Success(t)) => {
                            if t.ty != ty {
                                bad = Some(format!("asked for {ty:?}, got {t:?}"));
                            } else {
                                account(Some(t), &mut n, &mut bad);
                            }
                            res = format!("{t:?}");
                        }
                        E::Ok(_) => {
                            // refused: right unless the wanted token is plainly next
                            if want(n).is_some_and(|w| w.ty == ty) && !gap(n) {
                                bad = Some(format!("refused {ty:?} though it is next"));
                            }
                            res = "refused".into();
                        }
                        E::Lexer => {
                            facts.hit("lexer_panic_in_parse_token");
                            res = "lexer panic".into()
                        }
                        E::Bad(m) => {
                            v.push(viol("PANIC", format!("operation {k} {op:?} panicked: {m}")));
                            break 'ops;
                        }
                    }
                }
                SOp::Span => match call(|| p.current_span()) {
                    E::Ok(s) => {
                        let ok = match want(n) {
                            Some(t) if s == t.span => true,
                            _ => gap(n) && s == Span::new(b.len(), b.len()),
                        };
                        if !ok {
                            bad = Some(format!("the next token is at {s:?}, should be {:?}", want(n)));
                        }
                        res = format!("{s:?}");
                    }
                    E::Lexer => {
                        facts.hit("lexer_panic_in_peek");
                        res = "lexer panic".into()
                    }
                    E::Bad(m) => {
                        v.push(viol("PANIC", format!("operation {k} {op:?} panicked: {m}")));
                        break 'ops;
                    }
                },
                SOp::Drain => {
                    for _ in 0..b.len() * 2 + 4 {
                        match call(|| p.consume_token()) {
                            E::Ok(t) => {
                                account(t, &mut n, &mut bad);
                                if t.is_none() && n < toks.len() {
                                    facts.hit("stalled_then_continued");
                                }
                            }
                            E::Lexer => facts.hit("lexer_panic_in_consume"),
                            E::Bad(m) => {
                                v.push(viol("PANIC", format!("operation {k} {op:?} panicked: {m}")));
                                break 'ops;
                            }
                        }
                        if bad.is_some() {
                            break;
                        }
                    }
                }
            }
            simrt::account_end();
            // the logs
            let i = p.info();
            let lg: Vec<Token<Sc>> = i.tokens.as_slice().iter().map(|c| **c).collect();
            let full: Vec<Token<Sc>> = (0..toks.len()).filter_map(want).collect();
            if bad.is_none() {
                if lg.len() < n || (exact && lg.len() != n) {
                    bad = Some(format!("{} tokens in the log, {n} were delivered", lg.len()));
                } else if lg.len() > full.len() || lg[..] != full[..lg.len()] {
                    bad = Some(format!("the log holds {lg:?}, the source holds {full:?}"));
                }
            }
            n = lg.len();
            let ex: Vec<usize> = i.extracted_tokens.iter().map(|t| t.span.lo).collect();
            let iv: Vec<(usize, usize)> = i.invalid_source.iter().map(|s| (s.lo, s.hi)).collect();
            let chars: Vec<(usize, usize)> = i
                .errors
                .iter()
                .filter(|e| matches!(e.data, teleparse::syntax::ErrorKind::UnexpectedCharacters))
                .map(|e| (e.span.lo, e.span.hi))
                .collect();
            // a lexer that answered "nothing" once need not be asked again
            let done = matches!(op, SOp::Drain) && !stall(n);
            // everything before the token last delivered or looked at has been set aside
            let upto = match peeked {
                Some(Some(t)) => t.span.lo,
                _ if done => b.len(),
                _ => lg.last().map_or(0, |t| t.span.lo),
            };
            if bad.is_none() {
                let least = ext.iter().filter(|e| **e < upto).count();
                if !ext.starts_with(&ex) || ex.len() < least || i.extracted_tokens.iter().any(|t| t.ty != Sc::X) {
                    bad = Some(format!("extracted {ex:?}, the source holds {ext:?}"));
                }
                let least = inv.iter().filter(|e| e.1 <= upto).count();
                if !inv.starts_with(&iv) || iv.len() < least {
                    bad = Some(format!("invalid {iv:?}, the source holds {inv:?}"));
                }
                if chars != iv {
                    bad = Some(format!("invalid {iv:?}, but errors at {chars:?}"));
                }
            }
            if done && bad.is_none() && n != full.len() {
                bad = Some(format!("drained, but only {n} of {} tokens were delivered", full.len()));
            }
            log.push(format!("{res} n={n} ext={ex:?} inv={iv:?}"));
            if let Some(m) = bad {
                v.push(viol("ACCOUNT", format!("operation {k} {op:?}: {m}")));
                break;
            }
        }
        simrt::account_end();
        (v, log)
    }
}

// ---------------------------------------------------------------- word sizes
#[derive(Clone, Debug, PartialEq)]
pub enum ZOp {
    Take,
    Mark(usize, usize, u32),
    Cell(usize, u32),
    Look(usize, usize),
    Run(usize, u8),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sized_ {
    pub bits: u8,
    pub tokens: usize,
    pub ops: Vec<ZOp>,
}
impl Sized_ {
    pub fn to_json(&self) -> J {
        json::obj(vec![
            ("word", json::n(self.bits)),
            ("tokens", json::n(self.tokens)),
            (
                "ops",
                json::arr(&self.ops, |o| {
                    J::A(match o {
                        ZOp::Take => vec![json::s("take")],
                        ZOp::Mark(a, b, m) => vec![json::s("mark"), json::n(*a), json::n(*b), json::n(*m)],
                        ZOp::Cell(a, m) => vec![json::s("cell"), json::n(*a), json::n(*m)],
                        ZOp::Look(a, b) => vec![json::s("look"), json::n(*a), json::n(*b)],
                        ZOp::Run(a, t) => vec![json::s("run"), json::n(*a), json::n(*t)],
                    })
                }),
            ),
        ])
    }
    pub fn from_json(j: &J) -> Sized_ {
        Sized_ {
            bits: j.get("word").int() as u8,
            tokens: j.get("tokens").us(),
            ops: j
                .get("ops")
                .arr()
                .iter()
                .map(|o| {
                    let a = o.arr();
                    let u = |i: usize| a[i].us();
                    match a[0].str() {
                        "take" => ZOp::Take,
                        "mark" => ZOp::Mark(u(1), u(2), u(3) as u32),
                        "cell" => ZOp::Cell(u(1), u(2) as u32),
                        "look" => ZOp::Look(u(1), u(2)),
                        _ => ZOp::Run(u(1), u(2) as u8),
                    }
                })
                .collect(),
        }
    }
    pub fn random(r: &mut Rng) -> Sized_ {
        let bits = *r.pick(&[8u8, 9, 16, 17, 31, 32]);
        let tokens = r.range(0, 7);
        let all = (1u64 << bits) - 1;
        let mask = |r: &mut Rng| {
            (match r.below(3) {
                0 => 1u64 << r.below(bits as usize),
                1 => r.next() & r.next(),
                _ => r.next(),
            } & all) as u32
        };
        let ops = (0..r.range(3, 20))
            .map(|_| {
                let (a, b) = (r.below(2 * tokens + 3), r.below(2 * tokens + 3));
                match r.below(8) {
                    0..=2 => ZOp::Take,
                    3 | 4 => ZOp::Mark(a.min(b), a.max(b), mask(r)),
                    5 => ZOp::Cell(r.below(tokens + 1), mask(r)),
                    6 => ZOp::Look(a, b),
                    _ => ZOp::Run(a, r.below(bits as usize) as u8),
                }
            })
            .collect();
        Sized_ { bits, tokens, ops }
    }
    pub fn run(&self, facts: &mut Facts) -> (Viols, Vec<String>) {
        facts.parses += 1;
        match self.bits {
            8 => self.go::<simcore::lx::l8::L8>(),
            9 => self.go::<simcore::lx::l9::L9>(),
            16 => self.go::<simcore::lx::l16::L16>(),
            17 => self.go::<simcore::lx::l17::L17>(),
            31 => self.go::<simcore::lx::l31::L31>(),
            _ => self.go::<simcore::lx::l32::L32>(),
        }
    }
    fn go<L: Lexicon>(&self) -> (Viols, Vec<String>) {
        let mut v: Viols = vec![];
        let mut log = vec![];
        let n = self.bits as usize;
        let set = |m: u32| {
            let mut s = Set::<L>::new();
            for i in 0..n {
                if m & (1 << i) != 0 {
                    s.insert(L::from_id_unchecked(i));
                }
            }
            s
        };
        let bits = |s: Set<L>| (0..n).filter(|i| s.contains(L::from_id_unchecked(*i))).fold(0u32, |a, i| a | 1 << i);
        // tokens sit at 0..1, 2..3, ...: no blanks are ignored, so write garbage between
        let src: &'static str = Box::leak(vec!["+"; self.tokens].join("?").into_boxed_str());
        let mut body = || {
            let mut p = match Parser::<L>::new(src) {
                Ok(p) => p,
                Err(e) => {
                    v.push(viol("QUERY", format!("no lexer: {e}")));
                    return;
                }
            };
            let mut model: Vec<u32> = vec![];
            let mut map = teleparse::lex::Map::<L, u32>::new();
            let mut held = vec![0u32; n];
            for (k, op) in self.ops.iter().enumerate() {
                let mut bad = None;
                match op {
                    ZOp::Take => {
                        let t = p.consume_token();
                        let want = model.len() < self.tokens;
                        if t.is_some() != want {
                            bad = Some(format!("{t:?}"));
                        }
                        if t.is_some() {
                            model.push(0);
                        }
                    }
                    ZOp::Mark(a, b, m) => {
                        p.apply_semantic(&Span::new(*a, *b), set(*m));
                        for (i, x) in model.iter_mut().enumerate() {
                            if 2 * i >= *a && 2 * i + 1 <= *b {
                                *x |= m;
                            }
                        }
                    }
                    ZOp::Cell(i, m) => {
                        let s = set(*m);
                        // the set itself
                        if bits(s) != *m || s.is_empty() != (*m == 0) || set(bits(s)) != s {
                            bad = Some(format!("a set of {m:#x} holds {:#x}", bits(s)));
                        }
                        let listed = s.into_iter().take(40).fold((0u32, 0), |(a, c), t| (a | 1 << t.id(), c + 1));
                        if listed != (*m, m.count_ones()) {
                            bad = Some(format!("a set of {m:#x} lists {:#x}", listed.0));
                        }
                        let low = L::from_id_unchecked(m.trailing_zeros().min(n as u32 - 1) as usize);
                        let mut less = s;
                        less.remove(low);
                        if bits(less) != m & !(1 << low.id()) {
                            bad = Some(format!("{m:#x} without {} is {:#x}", low.id(), bits(less)));
                        }
                        if !s.contains_all(less) || less.contains_all(s) != (s == less) {
                            bad = Some("inclusion of sets is wrong".into());
                        }
                        // a table with one entry for each token type
                        for i in 0..n {
                            let t = L::from_id_unchecked(i);
                            if m & (1 << i) != 0 {
                                *map.get_mut(t) += 1 + i as u32;
                                held[i] += 1 + i as u32;
                            }
                        }
                        if bad.is_none() && (0..n).any(|i| *map.get(L::from_id_unchecked(i)) != held[i]) {
                            bad = Some(format!("a table by token type should hold {held:?}"));
                        }
                        let pairs: Vec<(usize, u32)> = map.iter_zip().take(40).map(|(t, x)| (t.id(), *x)).collect();
                        if bad.is_none() && pairs != held.iter().copied().enumerate().collect::<Vec<_>>() {
                            bad = Some(format!("a table by token type lists {pairs:?}, should hold {held:?}"));
                        }
                        for (t, x) in map.iter_zip_mut() {
                            *x ^= t.id() as u32 & 1;
                        }
                        held.iter_mut().enumerate().for_each(|(i, x)| *x ^= i as u32 & 1);
                        if bad.is_none() && !map.iter().eq(held.iter()) {
                            bad = Some(format!("a table by token type should hold {held:?}"));
                        }
                        if let Some(c) = p.info_mut().tokens.as_slice_mut().get_mut(*i) {
                            let x = c.semantics_mut();
                            *x = x.union(s);
                            if let Some(x) = model.get_mut(*i) {
                                *x |= m;
                            }
                        }
                    }
                    ZOp::Look(a, b) => {
                        let (t, n) = (&p.info().tokens, model.len());
                        let ov = t.overlap((*a, *b)).as_slice().len();
                        let ins = t.inside((*a, *b)).as_slice().len();
                        let wo = (0..n).filter(|i| (2 * i).max(*a) < (2 * i + 1).min(*b)).count();
                        let wi = (0..n).filter(|i| 2 * i >= *a && 2 * i + 1 <= *b).count();
                        if (ov, ins) != (wo, wi) {
                            bad = Some(format!("{ov} overlap, {ins} inside; should be {wo} and {wi}"));
                        }
                    }
                    ZOp::Run(a, ty) => {
                        let ty = L::from_id_unchecked(*ty as usize);
                        let has = |i: usize| ty.id() == 0 || model[i] & (1 << ty.id()) != 0;
                        let t = &p.info().tokens;
                        let e = t.ends_at_matches_bounds(*a, |c| c.types().contains(ty));
                        let b = t.begins_at_matches_bounds(*a, |c| c.types().contains(ty));
                        let we = (0..model.len()).find(|i| 2 * i + 1 == *a).and_then(|k| {
                            let lo = (0..=k).rev().take_while(|i| has(*i)).last();
                            lo.map(|l| (l, k + 1))
                        });
                        let wb = (0..model.len()).find(|i| 2 * i == *a).and_then(|k| {
                            let c = (k..model.len()).take_while(|i| has(*i)).count();
                            if c == 0 {
                                None
                            } else {
                                Some((k, k + c))
                            }
                        });
                        if (e, b) != (we, wb) {
                            bad = Some(format!("runs {e:?} and {b:?}; should be {we:?} and {wb:?}"));
                        }
                    }
                }
                let got: Vec<u32> = p.info().tokens.as_slice().iter().map(|c| bits(c.semantics())).collect();
                if bad.is_none() && got != model {
                    bad = Some(format!("marks {got:x?} should be {model:x?}"));
                }
                let types: Vec<u32> = p.info().tokens.as_slice().iter().map(|c| bits(c.types())).collect();
                if bad.is_none() && types.iter().zip(&model).any(|(t, m)| *t != m | 1) {
                    bad = Some(format!("types {types:x?} with marks {model:x?}"));
                }
                log.push(format!("{got:x?}"));
                if let Some(m) = bad {
                    v.push(viol("QUERY", format!("operation {k} {op:?} with {n} token types: {m}")));
                    return;
                }
            }
        };
        if let Err(e) = guard(&mut body) {
            v.push(viol("PANIC", e.show()));
        }
        (v, log)
    }
}

//! Runs a plan against the real library under the simulator's scheduler.
#![allow(static_mut_refs)]
use crate::plan::*;
use simcore::gram::*;
use simcore::lx::*;
use simcore::tree::*;
use simgen as g;
use simrt::quiet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use teleparse::lex::Set;
use teleparse::syntax::{self, ErrorKind, FirstSet, FollowSet, Metadata};
use teleparse::{GrammarError, Parser, Span, Token};

type P = Parser<'static, Lx>;

pub struct Real {
    /// the session's text, and the buffer it is in while the session is open
    pub text: String,
    pub src: Option<&'static str>,
    pub p: Option<P>,
    pub probs: Vec<(&'static str, String)>,
}
impl Real {
    fn new(text: String) -> Self {
        Real { text, src: None, p: None, probs: vec![] }
    }
    /// Put the text into a buffer, if it is not in one.
    fn load(&mut self) -> &'static str {
        match self.src {
            Some(s) => s,
            None => {
                let s = quiet(|| pool_take(&self.text));
                self.src = Some(s);
                s
            }
        }
    }
    /// Give the buffer back; the next text put into it is at the same address.
    fn unload(&mut self) {
        assert!(self.p.is_none(), "harness: source given back while in use");
        if let Some(s) = self.src.take() {
            quiet(|| pool_give(s));
        }
    }
}
/// Buffers for sources, by size. As with an allocator, the one given back last is used first,
/// so sources of different content follow each other at one address. Never freed.
static mut POOL: Vec<Vec<usize>> = vec![];
fn pool_class(len: usize) -> usize {
    (len.max(32).next_power_of_two().trailing_zeros() - 5) as usize
}
fn pool_take(text: &str) -> &'static str {
    let c = pool_class(text.len());
    unsafe {
        while POOL.len() <= c {
            POOL.push(vec![]);
        }
        let at = match POOL[c].pop() {
            Some(a) => a as *mut u8,
            None => Box::leak(vec![0u8; 32 << c].into_boxed_slice()).as_mut_ptr(),
        };
        std::ptr::copy_nonoverlapping(text.as_ptr(), at, text.len());
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(at, text.len()))
    }
}
fn pool_give(s: &'static str) {
    unsafe { POOL[pool_class(s.len())].push(s.as_ptr() as usize) }
}
struct Shared(Vec<Real>);
static mut SESS: Shared = Shared(vec![]);
static mut OUT: Vec<Vec<Option<Res>>> = vec![];
static mut MAXR: (u64, u64) = (0, 1);

/// What a run produced.
#[derive(Default)]
pub struct Out {
    /// results per session
    pub res: Vec<Vec<Res>>,
    /// violations seen while running: (class, text)
    pub probs: Vec<(String, String)>,
    pub steps: u64,
    pub switches: u64,
    pub blocks: u64,
    pub fwaits: u64,
    pub spurious: u64,
    pub cancels: u64,
    pub sched_hash: u64,
    pub vtime: u64,
    pub trace: Vec<(u64, u32)>,
    pub trace_sp: Vec<u64>,
    /// largest steps / (steps allowed) of one operation, in 1/1000
    pub load: u64,
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        quiet(|| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if std::env::var_os("SIM_TRACE").is_some() {
                eprintln!("panic {m} at {l}");
            }
            if m.starts_with("harness") {
                // a bug of the harness, not of the code under test
                crate::proc::harness_panic(&format!("{m} at {l}"));
            }
            PANIC.with(|p| *p.borrow_mut() = format!("{m} ({})", l.rsplit('/').next().unwrap_or("")));
        })
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
/// Run one call into the code under test.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Res> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => Err(quiet(|| {
            if e.is::<simrt::Cancel>() {
                Res::Cancelled
            } else {
                Res::Panicked(PANIC.with(|p| p.borrow().clone()))
            }
        })),
    }
}

// ---------------------------------------------------------------- conversions
pub fn rtok(t: &Token<Lx>) -> RTok {
    RTok { ty: ty_index(t.ty), lo: t.span.lo, hi: t.span.hi }
}
pub fn src_of(i: usize) -> syntax_src::Src {
    (PROBES[i].0, probe_text(i)).into()
}
mod syntax_src {
    pub type Src = teleparse::lex::TokenSrc<'static, simcore::lx::Lx>;
}
pub fn first_mask(f: &FirstSet<Lx>) -> u32 {
    let mut m = if f.contains_epsilon() { EPS } else { 0 };
    for i in 0..20 {
        if f.contains(Some(src_of(i))) {
            m |= 1 << i;
        }
    }
    m
}
pub fn follow_mask(f: &FollowSet<Lx>) -> u32 {
    let mut m = if f.contains_eof() { EPS } else { 0 };
    for i in 0..20 {
        if f.contains(Some(src_of(i))) {
            m |= 1 << i;
        }
    }
    m
}
/// `any token of the type` takes in all its literals
pub fn norm_mask(m: u32) -> u32 {
    let mut m = m;
    for i in 0..20 {
        if PROBES[i].1.is_none() && m & (1 << i) != 0 {
            for k in 0..20 {
                if PROBES[k].0 == PROBES[i].0 {
                    m |= 1 << k;
                }
            }
        }
    }
    m
}
pub fn mask_follow(m: u32) -> FollowSet<Lx> {
    let mut f = FollowSet::default();
    for i in 0..20 {
        if m & (1 << i) != 0 {
            f.insert(PROBES[i].0, PROBES[i].1);
        }
    }
    if m & EPS != 0 {
        f.insert_eof();
    }
    f
}
pub fn er(e: &syntax::Error<Lx>) -> Er {
    Er {
        lo: e.span.lo,
        hi: e.span.hi,
        k: match &e.data {
            ErrorKind::Custom(s) => EK::Custom(s.clone()),
            ErrorKind::UnexpectedCharacters => EK::Chars,
            ErrorKind::UnexpectedTokens => EK::Tokens,
            ErrorKind::Expecting(f) => EK::Expect(first_mask(f)),
            ErrorKind::UnexpectedEof => EK::Eof,
            ErrorKind::UnexpectedNoAdvanceInLoop => EK::NoAdvance,
        },
    }
}
pub fn tokens(p: &P) -> Vec<(RTok, u16)> {
    p.info().tokens.as_slice().iter().map(|c| (rtok(c), c.semantics().to_bits())).collect()
}
pub fn snap(p: &P, peek: Option<RTok>) -> Snap {
    let i = p.info();
    let mut errs: Vec<Er> = i.errors.iter().map(er).collect();
    errs.sort();
    Snap {
        toks: tokens(p),
        ext: i.extracted_tokens.iter().map(rtok).collect(),
        inv: i.invalid_source.iter().map(|s| (s.lo, s.hi)).collect(),
        errs,
        peek,
    }
}
pub fn meta_dump(gr: &Grammar, r: usize, m: &Metadata<Lx>) -> String {
    use std::fmt::Write;
    let mut o = String::new();
    let mut one = |name: String, id: std::any::TypeId, alt: bool| {
        let _ = write!(o, "{name}:{:x}/{:x}", first_mask(m.first.get(&id)), follow_mask(m.follow.get(&id)));
        if alt {
            for k in 0..=20 {
                let t = if k < 20 { Some(src_of(k)) } else { None };
                match m.jump.look_up(&id, t) {
                    Some(v) => {
                        let _ = write!(o, "{}{v}", if k == 0 { ">" } else { "" });
                    }
                    None => o.push('-'),
                }
            }
        }
        o.push(' ');
    };
    let reach = gr.reachable(r);
    for (i, n) in gr.nodes.iter().enumerate() {
        if reach[i] {
            one(format!("n{i}"), g::node_id(n.pos, n.kind), n.form() == F::Alt);
        }
    }
    one("root".into(), g::root_id(r), r == 2);
    o
}

// ---------------------------------------------------------------- operations
static META_PTR: [AtomicUsize; 4] = [const { AtomicUsize::new(0) }; 4];
static TERM_PTR: [AtomicUsize; 20] = [const { AtomicUsize::new(0) }; 20];
pub fn reset_ptrs() {
    for p in META_PTR.iter().chain(TERM_PTR.iter()) {
        p.store(0, Relaxed);
    }
}
fn meta_res(
    probs: &mut Vec<(&'static str, String)>,
    slot: &AtomicUsize,
    m: &'static Result<Metadata<Lx>, GrammarError>,
    dump: impl FnOnce(&Metadata<Lx>) -> String,
) -> Res {
    let a = m as *const _ as usize;
    let old = slot.load(Relaxed);
    if old == 0 {
        slot.store(a, Relaxed);
    } else if old != a {
        probs.push(("ONCE", "two different tables for the same type".into()));
    }
    match m {
        Ok(m) => Res::Str(dump(m)),
        Err(e) => Res::GramErr(e.to_string()),
    }
}
fn parsed(r: Result<Option<Tree>, GrammarError>) -> Res {
    match r {
        Ok(t) => Res::Parsed(t),
        Err(e) => Res::GramErr(e.to_string()),
    }
}
pub fn pred(mask: u16) -> impl Fn(&teleparse::lex::Cell<Lx>) -> bool {
    move |c| {
        simrt::seam();
        c.types().to_bits() & mask != 0
    }
}
type TS = teleparse::lex::TokenSlice<Lx>;
/// indices of a returned slice within the log; [usize::MAX] marks "not part of the log"
fn idx(all: &[teleparse::lex::Cell<Lx>], s: &TS) -> Vec<usize> {
    let s = s.as_slice();
    if s.is_empty() {
        return vec![];
    }
    let a = all.as_ptr() as usize;
    let b = s.as_ptr() as usize;
    let z = std::mem::size_of::<teleparse::lex::Cell<Lx>>();
    if b < a || b + s.len() * z > a + all.len() * z || (b - a) % z != 0 {
        return vec![usize::MAX];
    }
    let i = (b - a) / z;
    (i..i + s.len()).collect()
}
const NO: usize = usize::MAX - 1;
fn bounds(b: Option<(usize, usize)>, n: usize) -> Vec<usize> {
    match b {
        None => vec![],
        Some((lo, hi)) if lo < hi && hi <= n => (lo..hi).collect(),
        Some((lo, hi)) => vec![usize::MAX, lo, hi],
    }
}
/// Every query gives: what the slice-returning form finds, then what the bounds form finds.
fn query(p: &P, q: &Q) -> Vec<usize> {
    let t = &p.info().tokens;
    let all = t.as_slice();
    let n = all.len();
    let two = |a: Vec<usize>, b: Vec<usize>| {
        let mut a = a;
        a.push(NO);
        a.extend(b);
        a
    };
    match q {
        Q::At(i) => t.at(*i).map(|c| pos_of(all, c)).into_iter().collect(),
        Q::AtSpan(a, b) => t.at_span((*a, *b)).map(|c| pos_of(all, c)).into_iter().collect(),
        Q::Overlap(a, b) => two(idx(all, t.overlap((*a, *b))), bounds(t.overlap_bounds((*a, *b)), n)),
        Q::Inside(a, b) => two(idx(all, t.inside((*a, *b))), bounds(t.inside_bounds((*a, *b)), n)),
        Q::Ends(a, m) => two(
            t.ends_at_matches(*a, pred(*m)).map(|s| idx(all, s)).unwrap_or_default(),
            bounds(t.ends_at_matches_bounds(*a, pred(*m)), n),
        ),
        Q::Begins(a, m) => two(
            t.begins_at_matches(*a, pred(*m)).map(|s| idx(all, s)).unwrap_or_default(),
            bounds(t.begins_at_matches_bounds(*a, pred(*m)), n),
        ),
        Q::Lo(a) => match t.search_lo(*a) {
            Ok(i) => vec![1, i],
            Err(i) => vec![0, i],
        },
        Q::Hi(a) => match t.search_hi(*a) {
            Ok(i) => vec![1, i],
            Err(i) => vec![0, i],
        },
    }
}
fn pos_of(all: &[teleparse::lex::Cell<Lx>], c: &teleparse::lex::Cell<Lx>) -> usize {
    let z = std::mem::size_of::<teleparse::lex::Cell<Lx>>();
    let d = (c as *const _ as usize).wrapping_sub(all.as_ptr() as usize);
    if d % z == 0 && d / z < all.len() {
        d / z
    } else {
        usize::MAX
    }
}
pub fn set_of(m: u16) -> Set<Lx> {
    Set::from_bits(m)
}

/// What the message of an error must say: the text it quotes or the tokens it names.
fn check_msg(src: &str, e: &syntax::Error<Lx>) -> Option<String> {
    let m = e.message(src);
    let bad = |why: &str| Some(format!("message {m:?} of error {} {why}", er(e).show()));
    match &e.data {
        ErrorKind::UnexpectedCharacters | ErrorKind::UnexpectedTokens => {
            let (lo, hi) = (e.span.lo, e.span.hi);
            match src.get(lo..hi) {
                Some(t) if m.contains(t) && !t.is_empty() => None,
                _ => bad("does not quote the offending text"),
            }
        }
        ErrorKind::Expecting(f) => {
            let k = first_mask(f);
            // the names in the message: "lit" or Type
            for i in 0..20 {
                let (ty, lit) = PROBES[i];
                let named = match lit {
                    Some(l) => {
                        let any = PROBES
                            .iter()
                            .position(|p| p.0 == ty && p.1.is_none())
                            .is_some_and(|o| k & (1 << o) != 0);
                        if any {
                            continue;
                        }
                        m.contains(&format!("\"{l}\""))
                    }
                    None => {
                        // the type name as a word of its own outside quotes
                        m.split(|c: char| !(c.is_alphanumeric() || c == '_'))
                            .any(|w| w == format!("{ty:?}"))
                    }
                };
                if named != (k & (1 << i) != 0) {
                    return bad("does not name exactly the expected tokens");
                }
            }
            None
        }
        _ => {
            if m.is_empty() {
                bad("is empty")
            } else {
                None
            }
        }
    }
}

fn code<T>(cancel: i64, f: impl FnOnce() -> T) -> Result<T, Res> {
    if cancel >= 0 {
        simrt::arm_cancel(cancel);
    }
    let r = guard(f);
    simrt::disarm_cancel();
    r
}

pub fn do_op(gr: &Grammar, s: &mut Real, op: &Op) -> Res {
    match do_op_(gr, s, op) {
        Ok(r) | Err(r) => r,
    }
}
fn do_op_(gr: &Grammar, s: &mut Real, op: &Op) -> Result<Res, Res> {
    match op {
        Op::Once(r) => {
            let src = s.load();
            let out = code(-1, || g::root_once(*r, src));
            if s.p.is_none() {
                s.unload();
            }
            return out.map(parsed);
        }
        Op::Meta(r) | Op::MetaCancel(r, _) => {
            let k = if let Op::MetaCancel(_, k) = op { *k as i64 } else { -1 };
            let m = code(k, || g::root_meta(*r))?;
            return Ok(quiet(|| meta_res(&mut s.probs, &META_PTR[*r], m, |m| meta_dump(gr, *r, m))));
        }
        Op::TermMeta(t) => {
            let m = code(-1, || g::term_meta(*t))?;
            return Ok(quiet(|| {
                meta_res(&mut s.probs, &TERM_PTR[*t as usize], m, |m| {
                    let id = g::term_id(*t);
                    format!("{:x}/{:x}", first_mask(m.first.get(&id)), follow_mask(m.follow.get(&id)))
                })
            }));
        }
        Op::Assert(r) => {
            return Ok(match code(-1, || g::root_assert(*r)) {
                Ok(()) => Res::Str("is LL(1)".into()),
                Err(Res::Panicked(m)) => Res::Str(format!("panics: {}", m.contains("is not LL(1)"))),
                Err(x) => x,
            });
        }
        Op::Close => {
            let p = s.p.take();
            let out = code(-1, || drop(p));
            s.unload();
            return out.map(|_| Res::Unit);
        }
        _ => {}
    }
    let src = s.load();
    if s.p.is_none() {
        match code(-1, || P::new(src))? {
            Ok(p) => s.p = Some(p),
            Err(e) => return Ok(Res::GramErr(quiet(|| e.to_string()))),
        }
    }
    let probs = &mut s.probs;
    let p = s.p.as_mut().unwrap();
    Ok(match op {
        Op::Parse(r) => parsed(code(-1, || g::root_parse(*r, p))?),
        Op::ParseCancel(r, k) => parsed(code(*k as i64, || g::root_parse(*r, p))?),
        Op::Term(t) => parsed(code(-1, || g::term_parse(*t, p))?),
        Op::TermCancel(t, k) => parsed(code(*k as i64, || g::term_parse(*t, p))?),
        Op::ParseAll(r) => {
            let mut v = vec![];
            let limit = src.len() + 2;
            loop {
                let n0 = quiet(|| p.info().tokens.as_slice().len());
                let c0 = code(-1, || p.current_span())?;
                match code(-1, || g::root_parse(*r, p))? {
                    Ok(t) => quiet(|| v.push(t)),
                    Err(e) => return Ok(Res::GramErr(quiet(|| e.to_string()))),
                }
                let n1 = quiet(|| p.info().tokens.as_slice().len());
                let c1 = code(-1, || p.current_span())?;
                if n1 < n0 || c1.lo < c0.lo {
                    quiet(|| {
                        probs.push(("BACKWARD", format!("a parse moved from {c0:?} to {c1:?}")))
                    });
                }
                if n1 == n0 || code(-1, || p.peek_token())?.is_none() {
                    break;
                }
                if v.len() > limit {
                    quiet(|| {
                        probs.push(("NOPROGRESS", "repeated parsing does not come to an end".into()))
                    });
                    break;
                }
            }
            Res::Many(v)
        }
        Op::Consume => {
            let t = code(-1, || p.consume_token())?;
            Res::Tok(t.map(|t| rtok(&t)))
        }
        Op::Peek => {
            let t = code(-1, || {
                let a = p.peek_token();
                let b = p.peek_token();
                let c = p.peek_token_src();
                (a, b, c)
            })?;
            quiet(|| {
                if t.0 != t.1 {
                    probs.push(("ACCOUNT", "looking ahead twice gives different tokens".into()));
                }
                let want = t.0.map(|t| (t.ty, t.span.get(src)));
                if t.2.map(|t| (t.ty, t.src)) != want {
                    probs.push(("ACCOUNT", "looking ahead and its source text disagree".into()));
                }
            });
            Res::Tok(t.0.map(|t| rtok(&t)))
        }
        Op::TryTok(t) => {
            let r = code(-1, || p.parse_token(ALL_TYPES[*t as usize]))?;
            tok_res(r)
        }
        Op::TryLit(t, m) => {
            let f = quiet(|| mask_follow(*m));
            let ti = TERMS[*t as usize];
            let lit = ti.lit.unwrap_or("if");
            let r = code(-1, || p.parse_token_lit(ti.ty, lit, &f))?;
            let r = tok_res(r);
            quiet(|| drop(f));
            r
        }
        Op::Span => {
            let x = code(-1, || p.current_span())?;
            Res::Span(x.lo, x.hi)
        }
        Op::EmptySpan => {
            let x = code(-1, || p.empty_span())?;
            Res::Span(x.lo, x.hi)
        }
        Op::Remaining => {
            let x = code(-1, || p.remaining())?;
            quiet(|| Res::Str(x.to_string()))
        }
        Op::Drain => {
            let mut v = vec![];
            loop {
                match code(-1, || p.consume_token())? {
                    Some(t) => quiet(|| v.push(format!("{}", tok_show(&Some(rtok(&t)))))),
                    None => break,
                }
                if v.len() > src.len() + 2 {
                    quiet(|| probs.push(("ACCOUNT", "more tokens than the source has bytes".into())));
                    break;
                }
            }
            for _ in 0..3 {
                let a = code(-1, || (p.peek_token(), p.consume_token()))?;
                if a.0.is_some() || a.1.is_some() {
                    quiet(|| probs.push(("ACCOUNT", "a token after the end of the input".into())));
                }
            }
            Res::Strs(v)
        }
        Op::Mark(lo, hi, m) => {
            let (lo, hi, m) = (*lo, *hi, *m);
            code(-1, || p.apply_semantic(&Span::new(lo, hi), set_of(m)))?;
            Res::Unit
        }
        Op::Query(v) => {
            let mut out = quiet(|| Vec::with_capacity(v.len()));
            for q in v {
                let r = code(-1, || query(p, q))?;
                quiet(|| out.push(r));
            }
            Res::Idx(out)
        }
        Op::QMark(q, m) => {
            let m = set_of(*m);
            code(-1, || {
                let t = &mut p.info_mut().tokens;
                match q {
                    Q::Overlap(a, b) => t.overlap_mut((*a, *b)).apply_semantic(m),
                    Q::Inside(a, b) => t.inside_mut((*a, *b)).apply_semantic(m),
                    Q::Ends(a, k) => {
                        if let Some(s) = t.ends_at_matches_mut(*a, pred(*k)) {
                            s.apply_semantic(m)
                        }
                    }
                    Q::Begins(a, k) => {
                        if let Some(s) = t.begins_at_matches_mut(*a, pred(*k)) {
                            s.apply_semantic(m)
                        }
                    }
                    Q::At(i) => {
                        if let Some(c) = t.as_slice_mut().get_mut(*i) {
                            let s = c.semantics_mut();
                            *s = s.union(m);
                        }
                    }
                    _ => {}
                }
            })?;
            Res::Unit
        }
        Op::Snap => {
            let t = code(-1, || p.peek_token())?;
            // the text behind what is recorded
            let wrong = code(-1, || {
                let i = p.info();
                if i.source != src || i.eof() != Span::new(src.len(), src.len()) {
                    return true;
                }
                let cells = i.tokens.as_slice();
                let n = cells.len();
                // the ends of a long log
                cells.iter().take(8).chain(cells[n - n.min(8)..].iter()).any(|c| {
                    let t: &Token<Lx> = c;
                    let Some(text) = src.get(t.span.lo..t.span.hi) else { return true };
                    let s = i.to_src(t);
                    s.ty != t.ty || s.src != text || i.get_src(t.span) != text || t.src(src) != text
                })
            })?;
            if wrong {
                probs.push(("QUERY", "the text of a recorded token is not what the source has there".into()));
            }
            quiet(|| Res::Snap(Box::new(snap(p, t.map(|t| rtok(&t))))))
        }
        Op::Log => quiet(|| Res::Snap(Box::new(snap(p, None)))),
        Op::Msgs => {
            let mut out = vec![];
            let n = quiet(|| p.info().errors.len());
            for i in 0..n {
                let r = code(-1, || check_msg(src, &p.info().errors[i]))?;
                quiet(|| out.extend(r));
            }
            Res::Strs(out)
        }
        _ => unreachable!(),
    })
}
fn tok_res(r: syntax::Result<Token<Lx>, Lx>) -> Res {
    quiet(|| match r {
        syntax::Result::Success(t) => Res::TokRes(0, Some(rtok(&t)), vec![]),
        syntax::Result::Recovered(t, e) => Res::TokRes(1, Some(rtok(&t)), e.iter().map(er).collect()),
        syntax::Result::Panic(e) => Res::TokRes(2, None, e.iter().map(er).collect()),
    })
}

// ---------------------------------------------------------------- runs
/// Steps one operation may take on a source of `len` bytes.
/// Marking the tokens of nested nodes is work in the size times the depth, so at worst
/// quadratic; only a small part of this is ever used (see the evidence).
pub fn budget(len: usize) -> u64 {
    let l = (len + 24) as u64;
    400_000 + 12_000 * l + 64 * l * l
}
/// Steps a byte of a long run of one thing may take.
pub const RUN: u64 = 10_000;
/// Steps the tables of a root may take: work in the size of the grammar only.
pub const TABLES: u64 = 3_000_000;

/// `only`: run just this session (a solo run), without threads.
pub fn run_plan(plan: &Plan, only: Option<usize>) -> Out {
    let gr = &plan.grammar;
    g::set_grammar(gr);
    reset_ptrs();
    for c in &g::ROOT_REG {
        c.store(0, Relaxed);
    }
    let srcs: Vec<String> = plan.sessions.iter().map(|s| s.src()).collect();
    let bud = plan.sessions.iter().zip(&srcs).map(|(p, s)| {
        let run = p.run_len().min(s.len());
        budget(s.len() - run) + RUN * run as u64
    }).max().unwrap_or(1_000_000) + if plan.warm { 0 } else { TABLES };
    let mut out = Out::default();
    unsafe {
        SESS.0 = srcs
            .into_iter()
            .map(Real::new)
            .collect();
        OUT = plan.sessions.iter().map(|s| s.ops.iter().map(|_| None).collect()).collect();
    }
    if plan.warm {
        for r in gr.used_roots() {
            simrt::account(TABLES);
            let _ = guard(|| g::root_meta(r));
            out.steps += simrt::account_end();
        }
    }
    if plan.threads <= 1 || only.is_some() {
        let mut next = vec![0usize; plan.sessions.len()];
        for (s, _) in &plan.order {
            let s = *s as usize;
            if only.is_some_and(|o| o != s) {
                continue;
            }
            let k = next[s];
            next[s] += 1;
            let real = unsafe { &mut SESS.0[s] };
            simrt::account(bud);
            let r = do_op(gr, real, &plan.sessions[s].ops[k]);
            let n = simrt::account_end();
            out.steps += n;
            out.load = out.load.max(n * 1000 / bud);
            unsafe {
                OUT[s][k] = Some(r);
            }
        }
    } else {
        // position of each element of the order within its session
        let mut next = vec![0usize; plan.sessions.len()];
        let mut lists: Vec<Vec<(usize, usize)>> = vec![vec![]; plan.threads];
        for (s, t) in &plan.order {
            lists[*t as usize].push((*s as usize, next[*s as usize]));
            next[*s as usize] += 1;
        }
        static DONE: [AtomicUsize; 16] = [const { AtomicUsize::new(0) }; 16];
        for d in &DONE {
            d.store(0, Relaxed);
        }
        let gp = gr as *const Grammar as usize;
        let pp = plan as *const Plan as usize;
        let bodies: Vec<Box<dyn FnOnce() + Send>> = lists
            .into_iter()
            .map(|l| {
                Box::new(move || {
                    let gr = unsafe { &*(gp as *const Grammar) };
                    let plan = unsafe { &*(pp as *const Plan) };
                    for (s, k) in l.iter() {
                        simrt::wait_until(|| DONE[*s].load(Relaxed) == *k);
                        let real = unsafe { &mut SESS.0[*s] };
                        let r = do_op(gr, real, &plan.sessions[*s].ops[*k]);
                        quiet(|| unsafe { OUT[*s][*k] = Some(r) });
                        DONE[*s].store(k + 1, Relaxed);
                        simrt::notify();
                    }
                    quiet(|| drop(l));
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let total: u64 = plan.order.len() as u64 * bud;
        let i = simrt::run(bodies, &plan.sched, total);
        out.steps += i.steps;
        out.load = out.load.max(i.steps * 1000 / total.max(1));
        out.switches = i.switches;
        out.blocks = i.blocks;
        out.fwaits = i.fwaits;
        out.spurious = i.spurious.len() as u64;
        out.sched_hash = i.hash;
        out.vtime = i.vtime;
        out.trace = i.trace;
        out.trace_sp = i.spurious;
    }
    unsafe {
        let _ = MAXR;
        for (s, r) in SESS.0.iter_mut().enumerate() {
            // tear-down of what is left, outside the run
            let p = r.p.take();
            if let Err(e) = guard(|| drop(p)) {
                out.probs.push(("PANIC".into(), format!("session {s}: {} when dropped", e.show())));
            }
            r.unload();
            for (c, m) in r.probs.drain(..) {
                out.probs.push((c.to_string(), format!("session {s}: {m}")));
            }
        }
        out.res = std::mem::take(&mut OUT)
            .into_iter()
            .map(|v| v.into_iter().map(|x| x.unwrap_or(Res::Unit)).collect())
            .collect();
    }
    out.cancels = out.res.iter().flatten().filter(|r| matches!(r, Res::Cancelled)).count() as u64;
    if only.is_none() {
        // the tables of a root are built to completion at most once
        for r in 0..NROOT {
            let reg = g::ROOT_REG[r].load(Relaxed);
            let cancelled = plan
                .sessions
                .iter()
                .zip(&out.res)
                .flat_map(|(s, v)| s.ops.iter().zip(v))
                .filter(|(o, x)| {
                    matches!(x, Res::Cancelled)
                        && matches!(o, Op::MetaCancel(q, _) | Op::ParseCancel(q, _) if *q == r)
                })
                .count() as u64;
            if reg > 1 + cancelled {
                out.probs.push((
                    "ONCE".into(),
                    format!("the tables of root {r} were built {reg} times ({cancelled} interrupted)"),
                ));
            }
        }
    }
    out
}

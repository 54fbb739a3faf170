//! Compares what the real sessions did with the reference, operation by operation, and
//! checks the invariants that need no reference. Differences are named by class.
use crate::plan::*;
use crate::real::Out;
use crate::refm::*;
use simcore::gram::*;
use simcore::lx::*;
use simcore::tree::*;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub fn viol(c: &str, m: impl Into<String>) -> Viol {
    Viol { class: c.into(), msg: m.into() }
}
pub type Viols = Vec<Viol>;

/// Facts about a run used for coverage counting.
#[derive(Default, Clone)]
pub struct Facts {
    pub parses: u64,
    pub clean: u64,
    pub repaired: u64,
    pub failed: u64,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
}
impl Facts {
    pub fn hit(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
}

fn leaves<'a>(t: &'a Tree, out: &mut Vec<&'a Tree>, opaque: &mut bool) {
    match &t.v {
        V::Tok(_) => out.push(t),
        V::Text(_) | V::Val(_) | V::Exists(true) => *opaque = true,
        _ => {
            for c in t.children() {
                leaves(c, out, opaque);
            }
        }
    }
}

/// Spans of a tree by themselves: inside the source, on character boundaries, parts in
/// order within the whole, text equal to the source under it.
pub fn span_inv(src: &str, t: &Tree) -> Option<String> {
    if t.odd {
        return Some(format!("accessors of a node disagree: {}", t.show()));
    }
    if t.lo > t.hi || t.hi > src.len() || !src.is_char_boundary(t.lo) || !src.is_char_boundary(t.hi) {
        return Some(format!("span {}..{} is not a range of the source: {}", t.lo, t.hi, t.show()));
    }
    match &t.v {
        V::Text(s) if s != &src[t.lo..t.hi] => {
            return Some(format!("text {s:?} is not the source under {}..{}", t.lo, t.hi));
        }
        _ => {}
    }
    let inner: Vec<&Tree> = match &t.v {
        V::Split(e, p) | V::Punct(e, p) => {
            // elements and delimiters each in order
            for v in [e, p] {
                for w in v.windows(2) {
                    if w[0].hi > w[1].lo {
                        return Some(format!("items out of order in {}", t.show()));
                    }
                }
            }
            e.iter().chain(p.iter()).collect()
        }
        _ => t.children(),
    };
    for c in &inner {
        if c.lo < t.lo || c.hi > t.hi {
            return Some(format!("part {} lies outside its node {}", c.show(), t.show()));
        }
        if let Some(m) = span_inv(src, c) {
            return Some(m);
        }
    }
    match &t.v {
        V::Seq(v) => {
            for w in v.windows(2) {
                if w[0].hi > w[1].lo {
                    return Some(format!("parts out of order in {}", t.show()));
                }
            }
            if t.lo != v[0].lo || t.hi != v[v.len() - 1].hi {
                return Some(format!("a sequence does not span its first to last part: {}", t.show()));
            }
        }
        V::List(v) => {
            for w in v.windows(2) {
                if w[0].hi > w[1].lo {
                    return Some(format!("items out of order in {}", t.show()));
                }
            }
            if !v.is_empty() && (t.lo != v[0].lo || t.hi != v[v.len() - 1].hi) {
                return Some(format!("a list does not span its first to last item: {}", t.show()));
            }
            if v.is_empty() && t.lo != t.hi {
                return Some(format!("an empty list has a non-empty span: {}", t.show()));
            }
        }
        V::Opt(None) | V::Exists(false) if t.lo != t.hi => {
            return Some(format!("an absent part has a non-empty span: {}", t.show()));
        }
        V::Opt(Some(c)) | V::Boxed(c) | V::Alt(_, c) if (c.lo, c.hi) != (t.lo, t.hi) => {
            return Some(format!("a node does not span its part: {}", t.show()));
        }
        _ => {}
    }
    None
}

fn texts(t: &Tree, out: &mut Vec<String>) {
    match &t.v {
        V::Text(s) => out.push(format!("text {s:?}")),
        V::Val(s) => out.push(format!("value {s}")),
        _ => {
            for c in t.children() {
                texts(c, out);
            }
        }
    }
}
fn no_text(t: &Tree) -> String {
    // shape without captured text
    let mut t = t.clone();
    fn go(t: &mut Tree) {
        match &mut t.v {
            V::Text(s) | V::Val(s) => s.clear(),
            V::Seq(v) | V::List(v) => v.iter_mut().for_each(go),
            V::Alt(_, t) | V::Boxed(t) => go(t),
            V::Opt(Some(t)) => go(t),
            V::Split(a, b) | V::Punct(a, b) => {
                a.iter_mut().for_each(go);
                b.iter_mut().for_each(go);
            }
            V::Rec(h, _, _, t) => {
                if let Some(h) = h {
                    go(h)
                }
                go(t)
            }
            _ => {}
        }
    }
    go(&mut t);
    t.shape()
}
fn cmp_tree(real: &Option<Tree>, want: &Option<Tree>, at: &str, out: &mut Viols) {
    match (real, want) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            if a == b {
                return;
            }
            if no_text(a) != no_text(b) {
                out.push(viol("TREE", format!("{at}: tree {} instead of {}", a.show(), b.show())));
                return;
            }
            let (mut x, mut y) = (vec![], vec![]);
            texts(a, &mut x);
            texts(b, &mut y);
            if x != y {
                out.push(viol("TEXT", format!("{at}: captured {x:?} instead of {y:?} in {}", b.show())));
            }
            let (mut a2, mut b2) = (a.clone(), b.clone());
            strip_text(&mut a2);
            strip_text(&mut b2);
            if a2 != b2 {
                out.push(viol("SPAN", format!("{at}: spans {} instead of {}", a.show(), b.show())));
            }
        }
        (a, b) => out.push(viol(
            "TREE",
            format!(
                "{at}: {} instead of {}",
                a.as_ref().map_or("no tree".into(), |t| t.show()),
                b.as_ref().map_or("no tree".into(), |t| t.show())
            ),
        )),
    }
}
fn strip_text(t: &mut Tree) {
    match &mut t.v {
        V::Text(s) | V::Val(s) => s.clear(),
        V::Seq(v) | V::List(v) => v.iter_mut().for_each(strip_text),
        V::Alt(_, t) | V::Boxed(t) => strip_text(t),
        V::Opt(Some(t)) => strip_text(t),
        V::Split(a, b) | V::Punct(a, b) => {
            a.iter_mut().for_each(strip_text);
            b.iter_mut().for_each(strip_text);
        }
        V::Rec(h, _, _, t) => {
            if let Some(h) = h {
                strip_text(h)
            }
            strip_text(t)
        }
        _ => {}
    }
}
fn show_toks(v: &[(RTok, u16)]) -> String {
    v.iter().map(|t| tok_show(&Some(t.0))).collect::<Vec<_>>().join(" ")
}
fn show_errs(v: &[Er]) -> String {
    v.iter().map(|e| e.show()).collect::<Vec<_>>().join("; ")
}
fn cmp_snap(a: &Snap, b: &Snap, at: &str, out: &mut Viols) {
    let ta: Vec<RTok> = a.toks.iter().map(|x| x.0).collect();
    let tb: Vec<RTok> = b.toks.iter().map(|x| x.0).collect();
    if ta != tb {
        out.push(viol("TOKENS", format!("{at}: log [{}] instead of [{}]", show_toks(&a.toks), show_toks(&b.toks))));
    } else {
        for (x, y) in a.toks.iter().zip(&b.toks) {
            if x.1 != y.1 {
                out.push(viol("MARKS", format!("{at}: {} has marks {:#x} instead of {:#x}", tok_show(&Some(x.0)), x.1, y.1)));
                break;
            }
        }
    }
    if a.peek != b.peek {
        out.push(viol("TOKENS", format!("{at}: next token {} instead of {}", tok_show(&a.peek), tok_show(&b.peek))));
    }
    if a.ext != b.ext {
        out.push(viol("LEX", format!("{at}: extracted {:?} instead of {:?}", a.ext, b.ext)));
    }
    if a.inv != b.inv {
        out.push(viol("LEX", format!("{at}: invalid spans {:?} instead of {:?}", a.inv, b.inv)));
    }
    if a.errs != b.errs {
        let only: Vec<Er> = a.errs.iter().filter(|e| !b.errs.contains(e)).cloned().collect();
        let miss: Vec<Er> = b.errs.iter().filter(|e| !a.errs.contains(e)).cloned().collect();
        out.push(viol("ERRORS", format!("{at}: errors [{}] instead of [{}] (only here: [{}], missing: [{}])",
            show_errs(&a.errs), show_errs(&b.errs), show_errs(&only), show_errs(&miss))));
    }
}

/// The session against the reference.
pub fn against_model(plan: &Plan, si: usize, out: &Out, facts: &mut Facts) -> Viols {
    let g = &plan.grammar;
    let s = &plan.sessions[si];
    let src = s.src();
    let bnf = tables(g);
    let mut m = Ref::new(g, bnf, &src);
    let mut v: Viols = vec![];
    let lexed = ref_lex(&src);
    for (k, op) in s.ops.iter().enumerate() {
        let real = &out.res[si][k];
        let at = format!("operation {k} {op:?}");
        if let Res::Panicked(p) = real {
            v.push(viol("PANIC", format!("{at} panicked: {p}")));
            return v;
        }
        let e0 = m.m.snap.errs.len();
        let i0 = m.m.snap.inv.len();
        let n0 = m.m.snap.toks.len();
        let Some(want) = m.op(op) else {
            continue;
        };
        // clean parse: no error of the parser itself (garbage is the lexer's)
        let mut new: Vec<Er> = vec![];
        if m.m.snap.errs.len() >= e0 && m.m.snap.inv.len() >= i0 {
            new = m.m.snap.errs[e0..].iter().filter(|e| e.k != EK::Chars).cloned().collect();
        }
        let before = v.len();
        match (real, &want) {
            // a root that must be refused
            (Res::GramErr(_), Res::GramErr(_)) => facts.hit("root_refused"),
            (Res::GramErr(e), _) => {
                v.push(viol("CLEAN", format!("{at}: the grammar is rejected: {e}")));
                v.push(viol("TREE", format!("{at}: the grammar is rejected: {e}")));
                return v;
            }
            (Res::Parsed(a), Res::Parsed(b)) => {
                facts.parses += 1;
                match (b, new.is_empty()) {
                    (None, _) => facts.failed += 1,
                    (_, true) => facts.clean += 1,
                    _ => facts.repaired += 1,
                }
                cmp_tree(a, b, &at, &mut v);
                if b.is_some() && new.is_empty() && v.len() > before && v[before..].iter().any(|x| x.class == "TREE") {
                    v.push(viol("CLEAN", format!("{at}: a sentence does not give its derivation: {}", v[before].msg)));
                }
                if let Some(t) = a {
                    if let Some(m) = span_inv(&src, t) {
                        v.push(viol("SPANINV", format!("{at}: {m}")));
                    }
                }
                // a tree without any error holds every token it consumed
                if let (Some(t), Op::Parse(_)) = (a, op) {
                    if let Some((Op::Snap | Op::Log, Res::Snap(sn))) =
                        s.ops.get(k + 1).zip(out.res[si].get(k + 1))
                    {
                        let (mut lv, mut opaque) = (vec![], false);
                        leaves(t, &mut lv, &mut opaque);
                        let perr = sn.errs.iter().any(|e| e.k != EK::Chars);
                        let got: Vec<(usize, usize)> =
                            sn.toks.iter().skip(n0).map(|t| (t.0.lo, t.0.hi)).collect();
                        let mut have: Vec<(usize, usize)> =
                            lv.iter().map(|t| (t.lo, t.hi)).filter(|x| x.0 < x.1).collect();
                        have.sort();
                        if !perr && !opaque && got != have {
                            v.push(viol("SILENT", format!("{at}: no error, but consumed {got:?} and the tree holds {have:?}")));
                        }
                        if !perr && lv.iter().any(|t| t.lo == t.hi) {
                            v.push(viol("SILENT", format!("{at}: no error, but the tree holds a supplied token: {}", t.show())));
                        }
                    }
                }
            }
            (Res::Many(a), Res::Many(b)) => {
                facts.parses += b.len() as u64;
                facts.failed += b.iter().filter(|x| x.is_none()).count() as u64;
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    cmp_tree(x, y, &format!("{at} parse {i}"), &mut v);
                    if let Some(t) = x {
                        if let Some(m) = span_inv(&src, t) {
                            v.push(viol("SPANINV", format!("{at}: {m}")));
                        }
                    }
                }
                if a.len() != b.len() {
                    v.push(viol("TREE", format!("{at}: {} parses instead of {}", a.len(), b.len())));
                }
            }
            (Res::Snap(a), Res::Snap(b)) => {
                cmp_snap(a, b, &at, &mut v);
                // verdict of the last parse, seen through the log
                if k > 0 && matches!(s.ops[k - 1], Op::Parse(_)) {
                    let perr = |s: &Snap| s.errs.iter().any(|e| e.k != EK::Chars);
                    if k == 1 && perr(a) != perr(b) {
                        v.push(viol("CLEAN", format!("{at}: errors [{}] where the reference has [{}]", show_errs(&a.errs), show_errs(&b.errs))));
                    }
                }
            }
            (Res::TokRes(a, t, e), Res::TokRes(b, u, f)) => {
                if a != b {
                    v.push(viol("LIT", format!("{at}: {} instead of {}", real.show(), want.show())));
                } else if t != u {
                    v.push(viol("SPAN", format!("{at}: {} instead of {}", real.show(), want.show())));
                    v.push(viol("LIT", format!("{at}: {} instead of {}", real.show(), want.show())));
                }
                if e != f {
                    v.push(viol("ERRORS", format!("{at}: {} instead of {}", real.show(), want.show())));
                    v.push(viol("LIT", format!("{at}: {} instead of {}", real.show(), want.show())));
                }
            }
            (Res::Idx(a), Res::Idx(b)) => {
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    if x != y {
                        let q = match op {
                            Op::Query(v) => format!("{:?}", v[i]),
                            _ => String::new(),
                        };
                        v.push(viol("QUERY", format!("{at} {q} on [{}]: {x:?} instead of {y:?}", show_toks(&m.m.snap.toks))));
                        break;
                    }
                }
            }
            (Res::Tok(_), _) | (Res::Strs(_), Res::Strs(_)) if !matches!(op, Op::Msgs) => {
                if *real != want {
                    v.push(viol("TOKENS", format!("{at}: {} instead of {}", real.show(), want.show())));
                }
            }
            (Res::Strs(a), _) if matches!(op, Op::Msgs) => {
                if let Some(x) = a.first() {
                    v.push(viol("MSG", format!("{at}: {x}")));
                }
            }
            (Res::Span(..), _) => {
                if *real != want {
                    v.push(viol("SPAN", format!("{at}: {} instead of {}", real.show(), want.show())));
                    v.push(viol("TOKENS", format!("{at}: {} instead of {}", real.show(), want.show())));
                }
            }
            (Res::Str(_), _) if matches!(op, Op::Assert(_)) => {
                if *real != want {
                    v.push(viol("CLEAN", format!("{at}: {} instead of {}", real.show(), want.show())));
                }
            }
            (Res::Str(_), _) => {
                if *real != want {
                    v.push(viol("TOKENS", format!("{at}: {} instead of {}", real.show(), want.show())));
                }
            }
            (a, b) => {
                if *a != *b {
                    v.push(viol("TOKENS", format!("{at}: {} instead of {}", a.show(), b.show())));
                }
            }
        }
        if matches!(op, Op::Snap | Op::Log) || matches!(op, Op::QMark(..)) {
            // marks set through a lookup are that lookup's business too
            if let Some(p) = v[before..].iter().position(|x| x.class == "MARKS") {
                if s.ops[..k].iter().any(|o| matches!(o, Op::QMark(..))) {
                    let m = v[before + p].msg.clone();
                    v.push(viol("QUERY", m));
                }
            }
        }
        // recognition, independent of the model's way of parsing
        if let (Op::Parse(r), Res::Parsed(a)) = (op, real) {
            recog(plan, *r, n0, a, out, si, k, &lexed, &src, &mut v, facts);
        }
        if v.iter().any(|x| x.class == "TOKENS" || x.class == "TREE") {
            break;
        }
    }
    v
}

/// Clean if and only if the recogniser accepts what comes next, and then exactly that
/// much is consumed (for grammars without whole-input loops).
#[allow(clippy::too_many_arguments)]
fn recog(
    plan: &Plan,
    r: usize,
    n0: usize,
    tree: &Option<Tree>,
    out: &Out,
    si: usize,
    k: usize,
    lexed: &[REvent],
    src: &str,
    v: &mut Viols,
    facts: &mut Facts,
) {
    let g = &plan.grammar;
    let reach = g.reachable(r);
    if g.nodes.iter().enumerate().any(|(i, n)| reach[i] && n.form() == F::Loop) {
        return;
    }
    let s = &plan.sessions[si];
    // errors before and after are needed
    let (Some(Res::Snap(after)), true) = (out.res[si].get(k + 1), k == 0 || matches!(out.res[si][k - 1], Res::Snap(_))) else {
        return;
    };
    let errs0: &[Er] = if k == 0 {
        &[]
    } else if let Res::Snap(b) = &out.res[si][k - 1] {
        &b.errs
    } else {
        &[]
    };
    if !matches!(s.ops.get(k + 1), Some(Op::Snap | Op::Log)) {
        return;
    }
    let nerr = |e: &[Er]| e.iter().filter(|e| e.k != EK::Chars).count();
    let real_clean = tree.is_some() && nerr(&after.errs) == nerr(errs0);
    let b = Bnf::of(g, r);
    let toks: Vec<u32> = lexed
        .iter()
        .filter_map(|e| e.tok)
        .filter(|t| !t.extract())
        .map(|t| probe_of(t.ty, &src[t.lo..t.hi]))
        .collect();
    if n0 > toks.len() {
        return;
    }
    let want = b.recognise(b.root, &toks, n0);
    match want {
        Some(end) => {
            facts.hit("recognised");
            if !real_clean {
                v.push(viol("CLEAN", format!("operation {k}: a sentence of the grammar is not parsed cleanly: errors [{}]", show_errs(&after.errs))));
            } else if after.toks.len() != end {
                v.push(viol("CLEAN", format!("operation {k}: consumed {} tokens of a sentence of {}", after.toks.len() - n0.min(after.toks.len()), end - n0)));
            }
        }
        None => {
            facts.hit("not_recognised");
            if real_clean {
                v.push(viol("CLEAN", format!("operation {k}: what is not a sentence is parsed without any error: {}", tree.as_ref().map_or(String::new(), |t| t.show()))));
            }
        }
    }
}

/// Token accounting of a session, against the real lexer driven on its own.
pub fn accounting(plan: &Plan, si: usize, out: &Out, facts: &mut Facts) -> Viols {
    let s = &plan.sessions[si];
    let src = s.src();
    let (ev, more) = drive::<Lx>(&src, ty_index);
    let mut v = vec![];
    if more.iter().any(|e| e.tok.is_some() || e.invalid.is_some()) {
        v.push(viol("ACCOUNT", "the lexer goes on after the end"));
    }
    let all: Vec<RTok> = ev.iter().filter_map(|e| e.tok).collect();
    let toks: Vec<RTok> = all.iter().copied().filter(|t| !t.extract()).collect();
    let ext: Vec<RTok> = all.iter().copied().filter(|t| t.extract()).collect();
    let invs: Vec<(usize, usize)> = ev.iter().filter_map(|e| e.invalid).collect();
    // how many extracted tokens / invalid spans come before the i-th token
    let before_tok = |i: usize| {
        let p = toks.get(i).map_or(usize::MAX, |t| t.lo);
        (
            ext.iter().filter(|t| t.lo < p).count(),
            invs.iter().filter(|t| t.0 < p).count(),
        )
    };
    let mut n = 0usize; // consumed so far (known exactly only right after a log)
    let mut exact = true;
    for (k, op) in s.ops.iter().enumerate() {
        let real = &out.res[si][k];
        let at = format!("operation {k} {op:?}");
        match (op, real) {
            (_, Res::Panicked(p)) => {
                v.push(viol("PANIC", format!("{at} panicked: {p}")));
                return v;
            }
            (Op::Close, _) => {
                n = 0;
                exact = true;
            }
            (Op::Snap | Op::Log, Res::Snap(sn)) => {
                let log: Vec<RTok> = sn.toks.iter().map(|x| x.0).collect();
                if log.len() < n || (exact && log.len() != n) {
                    v.push(viol("ACCOUNT", format!("{at}: {} tokens in the log, {n} were consumed", log.len())));
                    return v;
                }
                if log.len() > toks.len() || log[..] != toks[..log.len()] {
                    v.push(viol("ACCOUNT", format!("{at}: consumed [{}] but the source holds [{}]",
                        show_toks(&sn.toks), toks.iter().map(|t| tok_show(&Some(*t))).collect::<Vec<_>>().join(" "))));
                    return v;
                }
                n = log.len();
                exact = true;
                if *op == Op::Snap {
                    if sn.peek != toks.get(n).copied() {
                        v.push(viol("ACCOUNT", format!("{at}: next is {} but the source has {}", tok_show(&sn.peek), tok_show(&toks.get(n).copied()))));
                        return v;
                    }
                    let (e, i) = before_tok(n);
                    if sn.ext != ext[..e] {
                        v.push(viol("ACCOUNT", format!("{at}: extracted {:?} but {:?} were passed", sn.ext, &ext[..e])));
                        return v;
                    }
                    if sn.inv != invs[..i] {
                        v.push(viol("ACCOUNT", format!("{at}: invalid {:?} but {:?} were passed", sn.inv, &invs[..i])));
                        return v;
                    }
                } else if !ext.starts_with(&sn.ext) || !invs.starts_with(&sn.inv) {
                    v.push(viol("ACCOUNT", format!("{at}: extracted {:?}, invalid {:?} are not what was passed", sn.ext, sn.inv)));
                    return v;
                }
            }
            (Op::Peek, Res::Tok(t)) if exact => {
                if *t != toks.get(n).copied() {
                    v.push(viol("ACCOUNT", format!("{at}: {} but the next is {}", tok_show(t), tok_show(&toks.get(n).copied()))));
                    return v;
                }
            }
            (Op::Consume, Res::Tok(t)) => {
                if exact && *t != toks.get(n).copied() {
                    v.push(viol("ACCOUNT", format!("{at}: {} but the next is {}", tok_show(t), tok_show(&toks.get(n).copied()))));
                    return v;
                }
                n += t.is_some() as usize;
            }
            (Op::TryTok(_) | Op::TryLit(..), Res::TokRes(c, t, _)) => {
                if *c == 0 {
                    if exact && *t != toks.get(n).copied() {
                        v.push(viol("ACCOUNT", format!("{at}: {} but the next is {}", tok_show(t), tok_show(&toks.get(n).copied()))));
                        return v;
                    }
                    n += 1;
                } else {
                    facts.hit("token_refused");
                }
            }
            (Op::Drain, Res::Strs(d)) => {
                if exact {
                    let want: Vec<String> = toks[n.min(toks.len())..].iter().map(|t| tok_show(&Some(*t))).collect();
                    if *d != want {
                        v.push(viol("ACCOUNT", format!("{at}: {d:?} but the rest is {want:?}")));
                        return v;
                    }
                }
                n = toks.len();
                exact = true;
            }
            (Op::Span, Res::Span(a, b)) if exact => {
                let want = toks.get(n).map_or((src.len(), src.len()), |t| (t.lo, t.hi));
                if (*a, *b) != want {
                    v.push(viol("ACCOUNT", format!("{at}: {a}..{b} but the next token is at {want:?}")));
                    return v;
                }
            }
            (Op::Remaining, Res::Str(t)) if exact => {
                let want = toks.get(n).map_or("", |x| &src[x.lo..]);
                if t != want {
                    v.push(viol("ACCOUNT", format!("{at}: {t:?} but the rest is {want:?}")));
                    return v;
                }
            }
            (Op::Parse(_) | Op::ParseAll(_) | Op::Term(_), _) => {
                if matches!(real, Res::GramErr(_)) {
                    // refused: nothing was consumed
                    facts.hit("root_refused");
                    exact &= !matches!(op, Op::ParseAll(_));
                } else {
                    exact = false;
                    facts.parses += 1;
                }
            }
            (Op::ParseCancel(..) | Op::TermCancel(..), r) => {
                exact = false;
                if matches!(r, Res::Cancelled) {
                    facts.hit("parse_interrupted");
                }
            }
            _ => {}
        }
    }
    v
}

/// Lexing of the session's source against the reference.
pub fn lexing(plan: &Plan, si: usize, out: &Out) -> Viols {
    let s = &plan.sessions[si];
    let src = s.src();
    let mut v = vec![];
    let (ev, more) = drive::<Lx>(&src, ty_index);
    let want = ref_lex(&src);
    if ev != want {
        let i = ev.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(ev.len().min(want.len()));
        v.push(viol("LEX", format!("source {src:?}: event {i} is {:?} instead of {:?}", ev.get(i), want.get(i))));
    }
    if more.iter().any(|e| e.tok.is_some() || e.invalid.is_some()) {
        v.push(viol("LEX", "the lexer goes on after the end"));
    }
    for (k, r) in out.res[si].iter().enumerate() {
        match r {
            Res::Panicked(p) => v.push(viol("PANIC", format!("operation {k} panicked: {p}"))),
            Res::Snap(sn) => {
                let lim = want
                    .iter()
                    .filter_map(|e| e.tok)
                    .filter(|t| !t.extract())
                    .nth(sn.toks.len())
                    .map_or(usize::MAX, |t| t.lo);
                let inv: Vec<_> = want.iter().filter_map(|e| e.invalid).filter(|i| i.0 < lim).collect();
                let chars: Vec<(usize, usize)> =
                    sn.errs.iter().filter(|e| e.k == EK::Chars).map(|e| (e.lo, e.hi)).collect();
                let seen = s.ops[k] == Op::Snap;
                if seen && sn.inv != inv || seen && chars != inv {
                    v.push(viol("LEX", format!("operation {k}: invalid spans {:?}, reported {chars:?}, should be {inv:?}", sn.inv)));
                }
                let ext: Vec<RTok> = want.iter().filter_map(|e| e.tok).filter(|t| t.extract() && t.lo < lim).collect();
                if seen && sn.ext != ext {
                    v.push(viol("LEX", format!("operation {k}: extracted {:?}, should be {ext:?}", sn.ext)));
                }
            }
            _ => {}
        }
    }
    v
}

/// Two runs of the same session must show the same results.
pub fn same(si: usize, ops: &[Op], a: &[String], b: &[String]) -> Viols {
    for (k, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return vec![viol("DIFFER", format!("session {si} operation {k} {:?}: {x} but alone {y}", ops[k]))];
        }
    }
    if a.len() != b.len() {
        return vec![viol("DIFFER", format!("session {si}: {} results but alone {}", a.len(), b.len()))];
    }
    vec![]
}

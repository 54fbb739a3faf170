//! Workloads: random grammars, sentences, damage, session histories, schedules.
use crate::plan::*;
use crate::real::norm_mask;
use simcore::gram::*;
use simcore::lx::*;
use simcore::rng::*;
use simcore::tree::*;
use simrt::Sched;

// ---------------------------------------------------------------- sources
const GLUE: [&str; 8] = ["", " ", "  ", "\n", "\t", " # note\n", "#\n", "\n\n "];
/// Write tokens with random blanks and comments between them, so that they read back.
pub fn render(r: &mut Rng, toks: &[(u8, String)]) -> String {
    let style = r.below(3);
    let mut s = String::new();
    if r.chance(1, 5) {
        s.push_str(*r.pick(&[" ", "\n", "# head\n"]));
    }
    let mut want: Vec<(u8, usize, usize)> = vec![];
    for (i, (t, text)) in toks.iter().enumerate() {
        let ty = ty_index(TERMS[*t as usize].ty);
        if i > 0 {
            let g = match style {
                0 => " ",
                1 => *r.pick(&["", " ", "", " "]),
                _ => *r.pick(&GLUE),
            };
            let end = s.len();
            s.push_str(g);
            let lo = s.len();
            s.push_str(text);
            // does it read back? (a lexer may look three tokens wide: 1 . 2)
            let back = want.len().min(2);
            let from = want[want.len() - back].1;
            let ok = {
                let ev: Vec<RTok> = ref_lex(&s[from..])
                    .iter()
                    .filter_map(|e| e.tok)
                    .filter(|t| !t.extract())
                    .collect();
                ev.len() == back + 1
                    && ev.iter().zip(&want[want.len() - back..]).all(|(e, w)| (e.ty, e.lo + from, e.hi + from) == *w)
                    && ev[back].ty == ty
                    && ev[back].lo + from == lo
                    && ev[back].hi + from == s.len()
            };
            if ok {
                want.push((ty, lo, s.len()));
                continue;
            }
            s.truncate(end);
            s.push(' ');
        }
        let lo = s.len();
        s.push_str(text);
        want.push((ty, lo, s.len()));
    }
    if r.chance(1, 4) {
        s.push_str(*r.pick(&[" ", "\n", " # end", "#", "  # end\n"]));
    }
    s
}
/// A sentence of a root and its derivation.
pub fn sentence(r: &mut Rng, g: &Grammar, root: usize, budget: usize, rep: usize) -> (Vec<(u8, String)>, D) {
    long_sentence(r, g, root, budget, rep, 0)
}
/// A sentence in which some list has `long` items, if there is a list.
fn long_sentence(r: &mut Rng, g: &Grammar, root: usize, budget: usize, rep: usize, long: usize) -> (Vec<(u8, String)>, D) {
    let b = Bnf::of(g, root);
    let mut d = Deriver::new(g, &b, budget, rep);
    d.long = long;
    let t = d.root(r, root);
    (d.toks, t)
}

/// Does the tree say what the derivation says?
pub fn same_derivation(d: &D, t: &Tree) -> bool {
    let all = |a: &[D], b: &[Tree]| {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_derivation(x, y))
    };
    match (d, &t.v) {
        (D::Tok(a), V::Tok(b)) => a == b,
        (D::Seq(a), V::Seq(b)) => all(a, b),
        (D::Alt(i, a), V::Alt(j, b)) => i == j && same_derivation(a, b),
        (D::Maybe(None), V::Opt(None)) => true,
        (D::Maybe(Some(a)), V::Opt(Some(b))) => same_derivation(a, b),
        (D::Maybe(a), V::Exists(b)) => a.is_some() == *b,
        (D::List(a), V::List(b)) => all(a, b),
        (D::Sep(a, p), V::Split(b, q)) | (D::Sep(a, p), V::Punct(b, q)) => all(a, b) && all(p, q),
        (D::Pair(a, b), V::Rec(Some(x), _, _, y)) => same_derivation(a, x) && same_derivation(b, y),
        (D::Pass(a), V::Boxed(b)) => same_derivation(a, b),
        (D::Pass(_), V::Text(_)) | (D::Pass(_), V::Val(_)) => true,
        _ => false,
    }
}

// ---------------------------------------------------------------- damage
const GARBAGE: [&str; 14] =
    ["@", "$", "§", "é", "\u{0}", "🦀", "\\", "\"", "%", "^", "-", "\u{a0}", "漢", "@@ @"];
const FILLER: [&str; 28] = [
    "if", "let", "fn", "zz9", "1", "77", "+", "*", "=", "==", "==>", "(", ")", "[", "]", ",", ";",
    ".", "λ", "αβ", "x", "0", "iff", "3.",
    "IF", "Let", "fN", "Q",
];
fn cat(kind: &str) -> u8 {
    EDITS.iter().position(|x| *x == kind).unwrap() as u8
}
fn toks_of(s: &str) -> Vec<RTok> {
    ref_lex(s).iter().filter_map(|e| e.tok).filter(|t| !t.extract()).collect()
}
/// A source for a lexicon: pieces of its tokens, blanks, near misses and garbage, then
/// damaged like any other source.
pub fn lex_source(r: &mut Rng, lexicon: u8) -> String {
    const PX: [&str; 26] = [
        "if", "Let", "x1", "a_B", "9", "3.14", "3.", ".5", "=", "==", "==>", "==>=", "+", "*", "# c",
        "#", "\n", " ", "\t", "(", "]", ",", ";", "αβο", "λ", "_",
    ];
    const PB: [&str; 16] =
        ["ab", "Z", " ", "\t ", "\n", "\n\n", "1", "22", "<", "<<", "<<<", "-", "…", "é", "éé", "e"];
    const PC: [&str; 20] = [
        "do", "done", "d", "%1", "%23", "%", "%%", "%%%", "&", "&&", "&&&", "! note", "!", "\n", " ",
        "\u{2003}", "~abc", "~", "~1", "\r\n",
    ];
    const PD: [&str; 34] = [
        "if", "else", "elif", "eli", "ifx", "if_", "Name", "_", "0", "0x1f", "0x", "0xg", "12", "/", "/=", "//", "// c", "<", "<<", "<<<",
        "<<<<", "<=", "<<=", "@", "@at", "$", "${a}", "${", "${a", "$}", "\n", " ", "  ", "x0",
    ];
    let p: &[&str] = match lexicon {
        0 => &PX,
        1 => &PB,
        2 => &PC,
        _ => &PD,
    };
    let mut s = String::new();
    let n = *r.pick(&[0usize, 1, 2, 3, 5, 8, 14, 30]);
    let bad = *r.pick(&[0usize, 5, 25, 60]);
    let rare = ['\u{a0}', '\u{85}', '\u{3b1}', '\u{3c9}', '\u{3ca}', '\u{3b0}', '\u{2026}', '\u{10ffff}', '\u{feff}', 'É', 'è', '\u{0}', '\r', '\u{b}'];
    for _ in 0..n {
        match r.below(100) {
            x if x < bad => match r.below(3) {
                0 => s.push_str(*r.pick(&GARBAGE)),
                1 => s.push(*r.pick(&rare)),
                _ => s.push(char::from_u32(r.below(0x2100) as u32).unwrap_or('?')),
            },
            _ => s.push_str(*r.pick(p)),
        }
    }
    if r.chance(1, 2) {
        let k = some_kinds(r);
        let c = how_many(r);
        let e = damage(r, &s, c, &k, "");
        s = apply(&s, &e);
    }
    s
}
/// One fault of the given kind on the current text (None: nothing to damage).
pub fn fault(r: &mut Rng, cur: &str, kind: u8, other: &str) -> Option<Edit> {
    let b = cur.as_bytes();
    let n = b.len();
    let e = |lo: usize, hi: usize, ins: Vec<u8>| Some(Edit { kind, lo, hi, ins });
    match EDITS[kind as usize] {
        "bit_flip" if n > 0 => {
            let i = r.below(n);
            e(i, i + 1, vec![b[i] ^ (1 << r.below(8))])
        }
        "byte_change" if n > 0 => {
            let i = r.below(n);
            let c = match r.below(3) {
                0 => r.below(256) as u8,
                1 => r.range(32, 126) as u8,
                _ => *r.pick(b" \n#,;=1a(")
            };
            e(i, i + 1, vec![c])
        }
        "truncate" if n > 0 => {
            let i = r.below(n);
            e(i, n, vec![])
        }
        "lost_range" if n > 0 => {
            let i = r.below(n);
            let j = (i + 1 + r.below(8)).min(n);
            e(i, j, vec![])
        }
        "duplicated_range" if n > 0 => {
            let i = r.below(n);
            let j = (i + 1 + r.below(8)).min(n);
            let at = if r.chance(2, 3) { j } else { r.below(n + 1) };
            e(at, at, b[i..j].to_vec())
        }
        "moved_range" if n > 2 => {
            // swap two neighbouring stretches
            let i = r.below(n - 1);
            let k = (i + 2 + r.below(8)).min(n);
            let j = i + 1 + r.below(k - i - 1);
            let mut v = b[j..k].to_vec();
            v.extend_from_slice(&b[i..j]);
            e(i, k, v)
        }
        "token_lost" | "token_replaced" | "literal_lost" => {
            let t = toks_of(cur);
            let lits: Vec<&RTok> = t
                .iter()
                .filter(|t| {
                    EDITS[kind as usize] != "literal_lost"
                        || TERMS.iter().any(|i| {
                            i.ty == ALL_TYPES[t.ty as usize] && i.lit == Some(&cur[t.lo..t.hi])
                        })
                })
                .collect();
            if lits.is_empty() {
                return None;
            }
            let t = **r.pick(&lits);
            if EDITS[kind as usize] == "token_replaced" {
                let f = r.pick(&FILLER).to_string();
                e(t.lo, t.hi, format!(" {f} ").into_bytes())
            } else {
                e(t.lo, t.hi, b" ".to_vec())
            }
        }
        "token_inserted" => {
            let t = toks_of(cur);
            let at = if t.is_empty() || r.chance(1, 8) { n } else { r.pick(&t).lo };
            e(at, at, format!(" {} ", r.pick(&FILLER)).into_bytes())
        }
        "garbage" => {
            let mut i = r.below(n + 1);
            while !cur.is_char_boundary(i) {
                i -= 1;
            }
            let g: String = (0..r.range(1, 3)).map(|_| *r.pick(&GARBAGE)).collect();
            e(i, i, g.into_bytes())
        }
        "torn_write" if n > 0 => {
            // the tail never made it: zeros
            let i = r.below(n);
            let j = (i + r.range(1, 16)).min(n);
            e(i, j, vec![0; j - i])
        }
        "stale_overwrite" if n > 0 && !other.is_empty() => {
            let o = other.as_bytes();
            let i = r.below(n);
            let len = r.range(1, 12);
            let k = r.below(o.len());
            let v = o[k..(k + len).min(o.len())].to_vec();
            e(i, (i + v.len()).min(n), v)
        }
        "block_overwritten" => {
            // a whole block of something else: zeros, ones, blanks, one letter, one sign
            let i = r.below(n + 1);
            let c = *r.pick(&[0u8, 0, 0xff, b' ', b'\n', b'q', b'@', b';', b'(']);
            let len = match r.below(8) {
                0 => 512,
                1 => 1024 - i.min(1000),
                2 => r.range(200, 1100),
                _ => r.range(8, 60),
            };
            e(i, (i + len).min(n), vec![c; len])
        }
        "long_run" => {
            // one thing over and over, far beyond what fits any fixed-size memory
            let t = toks_of(cur);
            let at = if t.is_empty() || r.chance(1, 3) { n } else { r.pick(&t).lo };
            let len = *r.pick(&[300usize, 5_000, 20_000, 40_000]) + r.below(300);
            let units: [&[u8]; 11] = [b"@", "\u{a7}".as_bytes(), b"\xff", b"@ ", b" ", b"\n", b"#\n", b"# n\n@\n", b"#", b"q", b"0"];
            // or tokens that nothing in the grammar takes (`other`), alone or among the rest
            let words: Vec<&str> = other.split(' ').filter(|w| !w.is_empty()).collect();
            let unit = if !words.is_empty() && r.chance(1, 2) {
                let (x, y) = (*r.pick(&words), *r.pick(&words));
                let sep = *r.pick(&[" ", " ", "\n", " @ ", "#\n", " # x\n@ "]);
                format!("{x}{sep}{y}{sep}").into_bytes()
            } else {
                r.pick(&units).to_vec()
            };
            let mut v = vec![b' '];
            while v.len() < len {
                v.extend_from_slice(&unit);
            }
            v.push(b'\n');
            e(at, at, v)
        }
        "token_run" => {
            // some tokens of the text over and over; they may nest
            let t = toks_of(cur);
            let at = if t.is_empty() || r.chance(1, 4) { n } else { r.pick(&t).lo };
            let mut unit = String::new();
            for _ in 0..r.range(1, 4) {
                if t.is_empty() || r.chance(1, 4) {
                    unit += TERMS[r.below(NT)].lit.unwrap_or("zz");
                } else {
                    let k = r.pick(&t);
                    unit += &cur[k.lo..k.hi];
                }
                unit += *r.pick(&[" ", " ", " ", "\n", "@", "#\n"]);
            }
            e(at, at, format!(" {}", unit.repeat(r.range(40, 400))).into_bytes())
        }
        "comment_start" => {
            let t = toks_of(cur);
            let at = if t.is_empty() { n } else { r.pick(&t).lo };
            e(at, at, b"#".to_vec())
        }
        "blank_lost" => {
            let at: Vec<usize> = (0..n).filter(|i| matches!(b[*i], b' ' | b'\n' | b'\t')).collect();
            if at.is_empty() {
                return None;
            }
            let i = *r.pick(&at);
            e(i, i + 1, vec![])
        }
        _ => None,
    }
}
/// Some faults; which kinds are possible at all is decided per run.
pub fn damage(r: &mut Rng, clean: &str, count: usize, kinds: &[u8], other: &str) -> Vec<Edit> {
    let mut out: Vec<Edit> = vec![];
    let mut cur = clean.to_string();
    for _ in 0..count {
        let k = *r.pick(kinds);
        if let Some(e) = fault(r, &cur, k, other) {
            out.push(e);
            // faults are applied to bytes, the result is made text at the very end; for
            // choosing the next one the text so far is close enough only if it is text
            let mut bytes = clean.as_bytes().to_vec();
            for e in &out {
                let hi = e.hi.min(bytes.len());
                let lo = e.lo.min(hi);
                bytes.splice(lo..hi, e.ins.iter().copied());
            }
            match String::from_utf8(bytes) {
                Ok(s) => cur = s,
                Err(_) => break,
            }
        }
    }
    out
}
pub fn all_kinds() -> Vec<u8> {
    (0..EDITS.len() as u8).filter(|k| !matches!(EDITS[*k as usize], "long_run" | "token_run")).collect()
}
pub fn token_kinds() -> Vec<u8> {
    ["token_lost", "token_inserted", "token_replaced", "literal_lost", "truncate", "comment_start"]
        .iter()
        .map(|k| cat(k))
        .collect()
}
pub fn literal_kind() -> Vec<u8> {
    vec![cat("literal_lost")]
}
/// swarm: a random subset of the kinds
pub fn some_kinds(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 3) {
        return token_kinds();
    }
    let mut v = all_kinds();
    r.shuffle(&mut v);
    v.truncate(r.range(1, 6));
    v
}

// ---------------------------------------------------------------- ops
pub fn rand_mask(r: &mut Rng) -> u16 {
    match r.below(4) {
        0 => 0x3ff,
        1 => 1 << r.below(10),
        2 => (r.next() & 0x3ff) as u16,
        _ => 0,
    }
}
pub fn rand_query(r: &mut Rng, src: &str) -> Q {
    let n = src.len();
    let t = toks_of(src);
    let pos = |r: &mut Rng| -> usize {
        if !t.is_empty() && r.chance(4, 5) {
            let x = r.pick(&t);
            let p = if r.chance(1, 2) { x.lo } else { x.hi };
            match r.below(6) {
                0 => p.saturating_sub(1),
                1 => p + 1,
                _ => p,
            }
        } else {
            r.below(n + 3)
        }
    };
    let mut span = |r: &mut Rng| -> (usize, usize) {
        let (a, b) = (pos(r), pos(r));
        match r.below(12) {
            0 => (a, a),
            1 => (a, b),
            2 => {
                if t.is_empty() {
                    (a, b)
                } else {
                    let x = r.pick(&t);
                    (x.lo, x.hi)
                }
            }
            _ => (a.min(b), a.max(b)),
        }
    };
    let q = r.below(8);
    let (a, b) = span(r);
    let m = match r.below(3) {
        0 => 0x3ff,
        1 => {
            let mut m = 0u16;
            for _ in 0..3 {
                m |= 1 << r.pick(&[0u16, 2, 3, 6, 7, 8, 1, 5, 9]);
            }
            m
        }
        _ => !(1u16 << r.pick(&[0u16, 2, 3, 6, 7, 8, 1, 5, 9])) & 0x3ff,
    };
    match q {
        0 => Q::At(r.below(t.len() + 3)),
        1 => Q::AtSpan(a, b),
        2 => Q::Overlap(a, b),
        3 => Q::Inside(a, b),
        4 => Q::Ends(a, m),
        5 => Q::Begins(a, m),
        6 => Q::Lo(a),
        _ => Q::Hi(a),
    }
}
/// A lookup that can change marks.
pub fn rand_query_mut(r: &mut Rng, src: &str) -> Q {
    loop {
        let q = rand_query(r, src);
        if matches!(q, Q::At(_) | Q::Overlap(..) | Q::Inside(..) | Q::Ends(..) | Q::Begins(..)) {
            return q;
        }
    }
}
pub fn rand_terms(r: &mut Rng) -> u32 {
    norm_mask(match r.below(4) {
        0 => 1 << r.below(21),
        1 => 0x1f_ffff,
        _ => (r.next() as u32) & (r.next() as u32) & 0x1f_ffff,
    })
}
/// One operation of a session history.
pub fn rand_op(r: &mut Rng, g: &Grammar, src: &str, cancels: bool) -> Op {
    let roots = g.used_roots();
    let root = *r.pick(&roots);
    let n = src.len();
    match r.weighted(&[8, 2, 3, 1, 6, 4, 4, 4, 1, 1, 1, 1, 3, 4, 3, 6, 1, if cancels { 5 } else { 0 }, 1, 1]) {
        0 => Op::Parse(root),
        1 => Op::ParseAll(root),
        2 => Op::Term(r.below(20) as u8),
        3 => Op::Once(root),
        4 => Op::Consume,
        5 => Op::Peek,
        6 => Op::TryTok(*r.pick(&[0u8, 2, 3, 6, 7, 8])),
        7 => {
            let lits: Vec<u8> = (0..20).filter(|t| TERMS[*t as usize].lit.is_some()).collect();
            let t = *r.pick(&lits);
            Op::TryLit(t, rand_terms(r))
        }
        8 => Op::Span,
        9 => Op::EmptySpan,
        10 => Op::Remaining,
        11 => Op::Drain,
        12 => {
            let (a, b) = (r.below(n + 2), r.below(n + 2));
            Op::Mark(a.min(b), a.max(b), rand_mask(r))
        }
        13 => Op::Query((0..r.range(1, 4)).map(|_| rand_query(r, src)).collect()),
        14 => Op::QMark(rand_query_mut(r, src), rand_mask(r)),
        15 => Op::Snap,
        16 => Op::Close,
        17 => Op::ParseCancel(root, r.below(40) as u32),
        18 => Op::Log,
        _ => Op::Msgs,
    }
}

// ---------------------------------------------------------------- plans
pub fn base_profile(r: &mut Rng) -> Profile {
    let mut p = Profile::default();
    if r.chance(1, 4) {
        p.max_nodes = 4;
    }
    p.lit_pct = *r.pick(&[50, 75, 90]);
    p.rec_pct = *r.pick(&[0, 10, 20]);
    p
}
pub fn with(p: &mut Profile, favour: &[(F, u32)]) {
    for (f, w) in favour {
        for x in p.w.iter_mut() {
            if x.0 == *f {
                x.1 = *w;
            }
        }
    }
}
pub fn source_for(r: &mut Rng, g: &Grammar, roots: &[usize], size: usize) -> String {
    let mut toks = vec![];
    for root in roots {
        let (t, _) = sentence(r, g, *root, size, 2);
        toks.extend(t);
    }
    render(r, &toks)
}
fn kinds_for(r: &mut Rng) -> Vec<u8> {
    some_kinds(r)
}
/// how many faults
fn how_many(r: &mut Rng) -> usize {
    [1, 1, 1, 2, 2, 3, 5][r.below(7)]
}

/// The grammar of a batch (shared by the cases of one process).
pub fn batch_grammar(id: &str, r: &mut Rng) -> Grammar {
    let mut p = base_profile(r);
    let roots = match id {
        "S01" => r.range(1, 3),
        "S02" | "S03" => r.range(1, 3),
        _ => {
            if r.chance(1, 4) {
                2
            } else {
                1
            }
        }
    };
    match id {
        // choices by token type, made again and again
        "S02" if r.chance(2, 5) => {
            p.lit_pct = *r.pick(&[0usize, 10, 30]);
            with(&mut p, &[(F::Alt, 16), (F::Star, 6), (F::Plus, 6)]);
        }
        "S05" => p.loop_pct = 0,
        "S07" => {
            p.loop_pct = 30;
            with(&mut p, &[(F::Split, 6), (F::Punct, 6), (F::Recover, 7), (F::Opt, 6), (F::Star, 5), (F::Plus, 5)]);
        }
        "S08" => {
            p.lit_pct = 92;
            p.loop_pct = 10;
        }
        "S10" => with(&mut p, &[(F::Quote, 5), (F::Parse, 6), (F::Opt, 6), (F::Exists, 5), (F::Star, 5)]),
        "S11" => with(&mut p, &[(F::Seq, 18), (F::Alt, 10)]),
        "S09" => with(&mut p, &[(F::Split, 5), (F::Punct, 5), (F::Recover, 6), (F::Opt, 5)]),
        _ => {}
    }
    if id == "S01" && r.chance(1, 4) {
        return random_any(r, &p, roots);
    }
    let mut g = random_usable(r, &p, roots);
    // sessions may also try a type whose grammar is refused
    if id != "S01" && g.roots[2].is_empty() && r.chance(1, 5) {
        let s = g.roots[*r.pick(&g.good_roots())][0];
        g.roots[2] = vec![s, s];
        if !usable(&g) {
            g.roots[2] = vec![];
        }
    }
    g
}

pub fn snaps(ops: Vec<Op>) -> Vec<Op> {
    let mut v = vec![];
    for o in ops {
        let p = !matches!(o, Op::Snap | Op::Log);
        v.push(o);
        if p {
            v.push(Op::Snap);
        }
    }
    v
}

/// Texts of tokens that no part of the grammar takes: they can only be skipped.
fn foreign(g: &Grammar) -> String {
    let mut used = vec![false; NT];
    for s in g.nodes.iter().flat_map(|n| &n.ch).chain(g.roots.iter().flatten()) {
        if let Sym::T(t) = s {
            used[*t as usize] = true;
        }
    }
    let taken = |ty: Lx, lit: Option<&str>| {
        (0..NT).any(|u| used[u] && TERMS[u].ty == ty && (TERMS[u].lit.is_none() || TERMS[u].lit == lit))
    };
    let mut v = vec![];
    for (i, t) in TERMS.iter().enumerate() {
        if used[i] || taken(t.ty, t.lit) {
            continue;
        }
        match (t.lit, t.name) {
            (Some(l), _) => v.push(l),
            (None, "Ident") => v.push("zz"),
            (None, "Int") => v.push("7"),
            _ => {}
        }
    }
    v.join(" ")
}
/// A single-session case for one of the reference-checked properties.
pub fn model_session(id: &str, r: &mut Rng, g: &Grammar) -> (Session, Option<(usize, D)>) {
    let roots = g.good_roots();
    let long = r.chance(1, match id {
        "S06" => 300,
        "S07" | "S09" => 700,
        _ => 1500,
    });
    let size = match id {
        _ if long => 10,
        // now and then a source large enough to tell how the work grows with it
        "S06" if r.chance(1, 60) => *r.pick(&[150usize, 400, 1200]),
        // deeper and longer than any small table, stack or counter
        _ if r.chance(1, 150) => *r.pick(&[90usize, 150, 150, 300, 600]),
        _ => *r.pick(&[4usize, 10, 18, 30, 45]),
    };
    let root = *r.pick(&roots);
    let mut expect = None;
    let nsent = if r.chance(1, 4) { r.range(2, 3) } else { 1 };
    let mut seq: Vec<usize> = vec![root];
    while seq.len() < nsent {
        seq.push(*r.pick(&roots));
    }
    let clean = if seq.len() == 1 {
        let items = if !long && r.chance(1, 300) {
            *r.pick(&[70usize, 70, 260, 260, 1_100, 1_100, 1_100, 5_000, 16_500, 33_000]) + r.below(40)
        } else {
            0
        };
        let (t, d) = long_sentence(r, g, root, size, 2, items);
        expect = Some((root, d));
        render(r, &t)
    } else {
        source_for(r, g, &seq, size)
    };
    let other = if r.chance(1, 3) { source_for(r, g, &[root], size) } else { String::new() };
    let fault_free = match id {
        "S05" => r.chance(2, 5),
        "S08" | "S09" | "S07" | "S06" => r.chance(1, 12),
        "S11" | "S10" => r.chance(1, 3),
        _ => r.chance(1, 4),
    };
    let kinds = match id {
        "S08" => {
            // a literal lost next to damage of other kinds
            match r.below(6) {
                0..=2 => literal_kind(),
                3 => token_kinds(),
                4 => {
                    let mut v = literal_kind();
                    v.push(cat(*r.pick(&["garbage", "comment_start", "blank_lost"])));
                    v
                }
                _ => some_kinds(r),
            }
        }
        _ => kinds_for(r),
    };
    let mut n = if fault_free { 0 } else { how_many(r) };
    if n > 0 && clean.len() > 200 && clean.len() < 20_000 && r.chance(1, 3) {
        n = *r.pick(&[10usize, 30, 80]);
    }
    let mut edits = damage(r, &clean, n, &kinds, &other);
    if long {
        let cur = apply(&clean, &edits);
        edits.extend(fault(r, &cur, cat("long_run"), &foreign(g)));
    } else if !fault_free && r.chance(1, 400) {
        let cur = apply(&clean, &edits);
        edits.extend(fault(r, &cur, cat("token_run"), ""));
        if r.chance(1, 2) {
            // and something smaller somewhere in it
            let cur = apply(&clean, &edits);
            let k = *r.pick(&token_kinds());
            edits.extend(fault(r, &cur, k, ""));
        }
    }
    if !edits.is_empty() {
        expect = None;
    }
    let dam = apply(&clean, &edits);
    let mut ops: Vec<Op> = vec![];
    match id {
        "S05" | "S07" | "S09" | "S10" | "S11" | "S06" => {
            for q in &seq {
                ops.push(Op::Parse(*q));
            }
            if r.chance(1, 3) {
                // a session whose history is longer
                ops.push(match r.below(3) {
                    0 => Op::ParseAll(root),
                    1 => Op::Consume,
                    _ => Op::Parse(root),
                });
                ops.push(Op::Parse(*r.pick(&roots)));
            }
            if id == "S06" && r.chance(1, 2) {
                ops = vec![Op::ParseAll(root)];
            }
            if id == "S11" {
                if r.chance(1, 3) {
                    let (a, b) = (r.below(dam.len() + 1), r.below(dam.len() + 1));
                    ops.push(Op::Mark(a.min(b), a.max(b), rand_mask(r)));
                }
                if r.chance(1, 3) {
                    ops.push(Op::ParseAll(root));
                }
            }
            if r.chance(1, 6) {
                ops.push(Op::Once(root));
            }
            if r.chance(1, 8) {
                ops.push(Op::Close);
                ops.push(Op::Parse(root));
            }
        }
        "S08" => {
            if r.chance(1, 3) {
                // direct: literal by literal with a chosen set of followers
                let k = r.range(2, 10);
                for _ in 0..k {
                    ops.push(match r.below(8) {
                        0 => Op::Consume,
                        1 => Op::TryTok(*r.pick(&[0u8, 2, 3, 6, 7, 8])),
                        2 => Op::Term(r.below(20) as u8),
                        _ => {
                            let lits: Vec<u8> =
                                (0..20).filter(|t| TERMS[*t as usize].lit.is_some()).collect();
                            let t = *r.pick(&lits);
                            Op::TryLit(t, rand_terms(r))
                        }
                    });
                }
            } else {
                for q in &seq {
                    ops.push(Op::Parse(*q));
                }
                if r.chance(1, 3) {
                    ops.push(Op::ParseAll(root));
                }
            }
        }
        "S12" => {
            let k = r.range(1, 4);
            for _ in 0..k {
                ops.push(match r.below(6) {
                    0 => Op::ParseAll(root),
                    1 => Op::Drain,
                    2 => Op::Consume,
                    _ => Op::Parse(*r.pick(&roots)),
                });
                for _ in 0..r.range(1, 3) {
                    ops.push(match r.below(5) {
                        0 => Op::QMark(rand_query_mut(r, &dam), rand_mask(r)),
                        1 => {
                            let (a, b) = (r.below(dam.len() + 1), r.below(dam.len() + 1));
                            Op::Mark(a.min(b), a.max(b), rand_mask(r))
                        }
                        _ => Op::Query((0..r.range(2, 8)).map(|_| rand_query(r, &dam)).collect()),
                    });
                }
            }
        }
        "S04" => {
            ops.push(Op::Peek);
            for _ in 0..r.range(0, 6) {
                ops.push(if r.chance(1, 3) { Op::Parse(root) } else { Op::Consume });
            }
            ops.push(Op::Snap);
            ops.push(Op::Drain);
        }
        _ => {
            for _ in 0..r.range(3, 14) {
                ops.push(rand_op(r, g, &dam, false));
            }
        }
    }
    let mut ops = snaps(ops);
    if id == "S09" || r.chance(1, 4) {
        ops.push(Op::Msgs);
    }
    (Session { clean, edits, ops }, expect)
}

/// S03: a history of session operations, interrupted ones included.
pub fn history_session(r: &mut Rng, g: &Grammar) -> Session {
    let roots = g.good_roots();
    let big = r.chance(1, 60);
    let size = if big { *r.pick(&[100usize, 300]) } else { *r.pick(&[5usize, 12, 25]) };
    let root = *r.pick(&roots);
    let clean = source_for(r, g, &[root], size);
    let kinds = kinds_for(r);
    let n = if r.chance(1, 4) { 0 } else { how_many(r) };
    let mut edits = damage(r, &clean, n, &kinds, "");
    if r.chance(1, 800) {
        let cur = apply(&clean, &edits);
        let kind = cat(if r.chance(1, 2) { "long_run" } else { "token_run" });
        edits.extend(fault(r, &cur, kind, &foreign(g)));
    }
    let dam = apply(&clean, &edits);
    let mut ops = vec![];
    let steps = if big { r.range(20, 300) } else { r.range(4, 20) };
    for _ in 0..steps {
        let o = rand_op(r, g, &dam, true);
        if matches!(o, Op::Drain) && !r.chance(1, 3) {
            continue;
        }
        ops.push(o);
        if r.chance(1, 3) {
            ops.push(if r.chance(1, 2) { Op::Snap } else { Op::Log });
        }
    }
    ops.push(Op::Log);
    ops.push(Op::Drain);
    ops.push(Op::Snap);
    if r.chance(1, 3) {
        ops.push(Op::Parse(root));
        ops.push(Op::Snap);
        ops.push(Op::Consume);
        ops.push(Op::Snap);
    }
    Session { clean, edits, ops }
}

fn sched_for(r: &mut Rng) -> Sched {
    let grain = r.weighted(&[5, 3, 3]) as u8;
    Sched::Random {
        seed: r.next(),
        mean: if grain == 2 { *r.pick(&[1u32, 2, 4, 9, 25]) } else { *r.pick(&[3u32, 15, 60, 200, 600, 2000]) },
        grain,
        spurious: *r.pick(&[0u32, 0, 10, 40]),
    }
}
/// spread the sessions' operations over threads
fn spread(r: &mut Rng, sessions: &[Session], threads: usize, handoff: bool) -> Vec<(u8, u8)> {
    let mut left: Vec<usize> = sessions.iter().map(|s| s.ops.len()).collect();
    let home: Vec<u8> = (0..sessions.len()).map(|i| (i % threads) as u8).collect();
    let mut order = vec![];
    loop {
        let c: Vec<usize> = (0..left.len()).filter(|i| left[*i] > 0).collect();
        if c.is_empty() {
            return order;
        }
        let s = *r.pick(&c);
        left[s] -= 1;
        let t = if handoff && r.chance(1, 4) { r.below(threads) as u8 } else { home[s] };
        order.push((s as u8, t));
    }
}

/// one session after the other, never more than a few of them open
fn turns_of(r: &mut Rng, sessions: &[Session], threads: usize) -> Vec<(u8, u8)> {
    let mut left: Vec<usize> = sessions.iter().map(|s| s.ops.len()).collect();
    let open = r.range(1, 3);
    let mut order = vec![];
    loop {
        let c: Vec<usize> = (0..left.len()).filter(|i| left[*i] > 0).take(open).collect();
        if c.is_empty() {
            return order;
        }
        let s = *r.pick(&c);
        left[s] -= 1;
        let t = if r.chance(1, 4) { r.below(threads) } else { s % threads };
        order.push((s as u8, t as u8));
    }
}

/// S01: many threads make first use of the same types.
pub fn first_use(r: &mut Rng, g: &Grammar) -> Plan {
    let roots = g.used_roots();
    let threads = r.range(2, 6);
    let nterm = r.below(20) as u8;
    let mut sessions = vec![];
    let usable_ = usable(g);
    // a rule without finite sentences is parsed for ever (listed under S06): metadata only
    let endless: Vec<bool> = (0..NROOT)
        .map(|r| {
            let b = Bnf::of(g, r);
            let m = b.min_len();
            (0..b.prods.len()).any(|s| b.reach[s] && m[s] == usize::MAX)
        })
        .collect();
    for _ in 0..threads {
        let root = *r.pick(&roots);
        let clean = if usable_ && !g.barred(root) {
            let size = r.range(3, 14);
            source_for(r, g, &[root], size)
        } else {
            "a = 1 ; ( b )".to_string()
        };
        let kinds = kinds_for(r);
        let n = r.below(3);
        let edits = damage(r, &clean, n, &kinds, "");
        let mut ops = vec![];
        for _ in 0..r.range(1, 3) {
            let root = if r.chance(2, 3) { root } else { *r.pick(&roots) };
            let what = r.below(9);
            if endless[root] && matches!(what, 2..=4 | 6) {
                ops.push(if what == 6 { Op::MetaCancel(root, r.below(12) as u32) } else { Op::Meta(root) });
                continue;
            }
            ops.push(match what {
                0 | 1 => Op::Meta(root),
                2 | 3 => Op::Parse(root),
                4 => Op::Once(root),
                5 => Op::Assert(root),
                6 => {
                    let k = r.below(12) as u32;
                    if r.chance(1, 2) {
                        Op::MetaCancel(root, k)
                    } else {
                        Op::ParseCancel(root, k)
                    }
                }
                7 => Op::Term(nterm),
                _ => Op::TermMeta(nterm),
            });
        }
        ops.push(Op::Meta(root));
        sessions.push(Session { clean, edits, ops });
    }
    let order = spread(r, &sessions, threads, false);
    Plan { grammar: g.clone(), warm: false, sessions, order, threads, sched: sched_for(r) }
}

/// S02: several sessions at once.
pub fn many_sessions(r: &mut Rng, g: &Grammar) -> Plan {
    let roots = g.good_roots();
    // sessions open all at once, or many short ones of which few are open at any time: those
    // that follow one that was closed find their source where another one was
    let turns = r.chance(1, 3);
    let n = if turns { r.range(4, 9) } else { r.range(2, 5) };
    let threads = r.range(1, 4).min(n + 1);
    let warm = r.chance(3, 4);
    let mut sessions = vec![];
    let first = *r.pick(&roots);
    let shared = source_for(r, g, &[first], 12);
    for _ in 0..n {
        let root = *r.pick(&roots);
        let size = if turns { r.range(2, 8) } else { r.range(3, 20) };
        let clean = if r.chance(1, 4) { shared.clone() } else { source_for(r, g, &[root], size) };
        let kinds = kinds_for(r);
        let k = r.below(4);
        let mut edits = damage(r, &clean, k, &kinds, &shared);
        if r.chance(1, 300) {
            let cur = apply(&clean, &edits);
            edits.extend(fault(r, &cur, cat("token_run"), ""));
        }
        let dam = apply(&clean, &edits);
        let mut ops = vec![];
        for _ in 0..r.range(2, 7) {
            ops.push(rand_op(r, g, &dam, warm));
            if r.chance(1, 2) {
                ops.push(Op::Snap);
            }
        }
        ops.push(Op::Snap);
        if r.chance(1, 5) {
            ops.push(Op::Msgs);
        }
        if turns || r.chance(1, 3) {
            ops.push(Op::Close);
        }
        sessions.push(Session { clean, edits, ops });
    }
    let order = if turns {
        turns_of(r, &sessions, threads)
    } else {
        spread(r, &sessions, threads, true)
    };
    Plan { grammar: g.clone(), warm, sessions, order, threads, sched: sched_for(r) }
}

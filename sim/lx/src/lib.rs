//! The lexicon every simulated session uses (real `derive_lexicon`), and an
//! independent hand-written reference lexer for it.
use teleparse::prelude::*;

#[derive_lexicon]
#[teleparse(ignore("[ \n\t]+"), terminal_parse)]
pub enum Lx {
    #[teleparse(
        regex("[a-zA-Z][a-zA-Z0-9_]*"),
        terminal(Ident, KwIf = "if", KwLet = "let", KwFn = "fn")
    )]
    Id,
    SemA,
    #[teleparse(regex("[0-9]+(\\.[0-9]+)?"), terminal(Int, One = "1"))]
    Num,
    #[teleparse(terminal(OpAdd = "+", OpMul = "*", OpEq = "=", OpEqEq = "==", OpArrow = "==>"))]
    Op,
    #[teleparse(regex("#[^\n]*"))]
    Comment,
    SemB,
    #[teleparse(terminal(ParenL = "(", ParenR = ")", BrackL = "[", BrackR = "]"))]
    Paren,
    #[teleparse(terminal(Comma = ",", Semi = ";", Dot = "."))]
    Punc,
    #[teleparse(regex("[α-ο]+"), terminal(Greek, Lam = "λ"))]
    Gk,
    SemC,
}

/// One terminal symbol of the grammars: token type and fixed text (None = any text).
#[derive(Clone, Copy, Debug)]
pub struct TermInfo {
    pub name: &'static str,
    pub ty: Lx,
    pub lit: Option<&'static str>,
    /// probe bits of the tokens it matches
    pub mask: u32,
}

pub const NT: usize = 20;
pub const EPS: u32 = 1 << 20;

/// Probe tokens: (type, text). The text `None` stands for "any other text of the type".
/// Bit i of a mask says that probe i is in the set; bit 20 is epsilon / end of input.
pub const PROBES: [(Lx, Option<&str>); 20] = [
    (Lx::Id, Some("if")),
    (Lx::Id, Some("let")),
    (Lx::Id, Some("fn")),
    (Lx::Id, None),
    (Lx::Num, Some("1")),
    (Lx::Num, None),
    (Lx::Op, Some("+")),
    (Lx::Op, Some("*")),
    (Lx::Op, Some("=")),
    (Lx::Op, Some("==")),
    (Lx::Op, Some("==>")),
    (Lx::Paren, Some("(")),
    (Lx::Paren, Some(")")),
    (Lx::Paren, Some("[")),
    (Lx::Paren, Some("]")),
    (Lx::Punc, Some(",")),
    (Lx::Punc, Some(";")),
    (Lx::Punc, Some(".")),
    (Lx::Gk, Some("λ")),
    (Lx::Gk, None),
];

pub fn probe_text(i: usize) -> &'static str {
    match PROBES[i] {
        (_, Some(t)) => t,
        (Lx::Id, None) => "zz9",
        (Lx::Num, None) => "77",
        (_, None) => "αβγ",
    }
}

const fn ti(name: &'static str, ty: Lx, lit: Option<&'static str>, mask: u32) -> TermInfo {
    TermInfo { name, ty, lit, mask }
}

pub const TERMS: [TermInfo; NT] = [
    ti("Ident", Lx::Id, None, 0b1111),
    ti("if", Lx::Id, Some("if"), 1),
    ti("let", Lx::Id, Some("let"), 1 << 1),
    ti("fn", Lx::Id, Some("fn"), 1 << 2),
    ti("Int", Lx::Num, None, 0b11 << 4),
    ti("1", Lx::Num, Some("1"), 1 << 4),
    ti("+", Lx::Op, Some("+"), 1 << 6),
    ti("*", Lx::Op, Some("*"), 1 << 7),
    ti("=", Lx::Op, Some("="), 1 << 8),
    ti("==", Lx::Op, Some("=="), 1 << 9),
    ti("==>", Lx::Op, Some("==>"), 1 << 10),
    ti("(", Lx::Paren, Some("("), 1 << 11),
    ti(")", Lx::Paren, Some(")"), 1 << 12),
    ti("[", Lx::Paren, Some("["), 1 << 13),
    ti("]", Lx::Paren, Some("]"), 1 << 14),
    ti(",", Lx::Punc, Some(","), 1 << 15),
    ti(";", Lx::Punc, Some(";"), 1 << 16),
    ti(".", Lx::Punc, Some("."), 1 << 17),
    ti("Greek", Lx::Gk, None, 0b11 << 18),
    ti("λ", Lx::Gk, Some("λ"), 1 << 18),
];

pub const ALL_TYPES: [Lx; 10] = [
    Lx::Id,
    Lx::SemA,
    Lx::Num,
    Lx::Op,
    Lx::Comment,
    Lx::SemB,
    Lx::Paren,
    Lx::Punc,
    Lx::Gk,
    Lx::SemC,
];
pub fn ty_index(t: Lx) -> u8 {
    ALL_TYPES.iter().position(|x| *x == t).unwrap() as u8
}

/// The probe bit of a concrete token.
pub fn probe_of(ty: u8, text: &str) -> u32 {
    let ty = ALL_TYPES[ty as usize];
    let mut other = 0;
    for (i, (t, x)) in PROBES.iter().enumerate() {
        if *t == ty {
            match x {
                Some(x) if *x == text => return 1 << i,
                None => other = 1 << i,
                _ => {}
            }
        }
    }
    other
}

// ---------------------------------------------------------------- reference lexer

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct RTok {
    pub ty: u8,
    pub lo: usize,
    pub hi: usize,
}
impl RTok {
    pub fn extract(&self) -> bool {
        self.ty == 4
    }
}
/// What one call to the lexer yields.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct REvent {
    pub invalid: Option<(usize, usize)>,
    pub tok: Option<RTok>,
}

pub fn match_at(s: &str) -> Option<(u8, usize)> {
    let b = s.as_bytes();
    let c = s.chars().next()?;
    if c.is_ascii_alphabetic() {
        let n = b
            .iter()
            .take_while(|c| c.is_ascii_alphabetic() || c.is_ascii_digit() || **c == b'_')
            .count();
        return Some((0, n));
    }
    if c.is_ascii_digit() {
        let n = b.iter().take_while(|c| c.is_ascii_digit()).count();
        if b.get(n) == Some(&b'.') {
            let m = b[n + 1..].iter().take_while(|c| c.is_ascii_digit()).count();
            if m > 0 {
                return Some((2, n + 1 + m));
            }
        }
        return Some((2, n));
    }
    for (t, l) in [("==>", 3usize), ("==", 3), ("=", 3), ("+", 3), ("*", 3)] {
        if s.starts_with(t) {
            return Some((l as u8, t.len()));
        }
    }
    if c == '#' {
        let n = s.find('\n').unwrap_or(s.len());
        return Some((4, n));
    }
    if "()[]".contains(c) {
        return Some((6, 1));
    }
    if ",;.".contains(c) {
        return Some((7, 1));
    }
    if ('α'..='ο').contains(&c) {
        let n: usize = s
            .chars()
            .take_while(|c| ('α'..='ο').contains(c))
            .map(|c| c.len_utf8())
            .sum();
        return Some((8, n));
    }
    None
}

/// All events of a source, the last one (the only one without a token) ending it.
pub fn ref_lex(src: &str) -> Vec<REvent> {
    let mut out = vec![];
    let mut i = 0;
    let mut inv: Option<(usize, usize)> = None;
    loop {
        while i < src.len() && matches!(src.as_bytes()[i], b' ' | b'\n' | b'\t') {
            i += 1;
        }
        if i >= src.len() {
            out.push(REvent { invalid: inv, tok: None });
            return out;
        }
        match match_at(&src[i..]) {
            Some((ty, n)) => {
                out.push(REvent {
                    invalid: inv.take(),
                    tok: Some(RTok { ty, lo: i, hi: i + n }),
                });
                i += n;
            }
            None => {
                let n = src[i..].chars().next().unwrap().len_utf8();
                inv = Some((inv.map_or(i, |x| x.0), i + n));
                i += n;
            }
        }
    }
}

// ---------------------------------------------------------------- more lexicons
// Generic reference: longest match over a rule table, then ignored text, then garbage.
pub type Rule = (u8, fn(&str) -> usize);
pub fn ref_lex_rules(src: &str, rules: &[Rule], ignore: &[fn(&str) -> usize]) -> Vec<REvent> {
    let mut out = vec![];
    let mut i = 0;
    let mut inv: Option<(usize, usize)> = None;
    while i < src.len() {
        let rest = &src[i..];
        let best = rules.iter().map(|(t, f)| (f(rest), *t)).fold((0, 0), |a, b| if b.0 > a.0 { b } else { a });
        let ig = ignore.iter().map(|f| f(rest)).max().unwrap_or(0);
        if ig > best.0 {
            i += ig;
        } else if best.0 > 0 {
            out.push(REvent {
                invalid: inv.take(),
                tok: Some(RTok { ty: best.1, lo: i, hi: i + best.0 }),
            });
            i += best.0;
        } else {
            let n = rest.chars().next().unwrap().len_utf8();
            inv = Some((inv.map_or(i, |x| x.0), i + n));
            i += n;
        }
    }
    out.push(REvent { invalid: inv, tok: None });
    out
}
pub fn run_of(s: &str, f: impl Fn(char) -> bool) -> usize {
    s.chars().take_while(|c| f(*c)).map(|c| c.len_utf8()).sum()
}

pub mod lb {
    use super::*;
    /// No ignored text: blanks are tokens, two kinds of extracted tokens.
    #[derive_lexicon]
    pub enum Lb {
        #[teleparse(regex("[A-Za-z]+"), terminal(Word))]
        Word,
        #[teleparse(regex("[ \t]+"))]
        Blank,
        #[teleparse(regex("\n+"))]
        Line,
        #[teleparse(regex("[0-9]"), terminal(Digit))]
        Digit,
        #[teleparse(terminal(Lt = "<", LtLt = "<<", Dash = "-", Ell = "…"))]
        Op,
        #[teleparse(regex("é+"), terminal(Acc))]
        Acc,
    }
    pub const EXTRACT: [bool; 6] = [false, true, true, false, false, false];
    pub const ALL: [Lb; 6] = [Lb::Word, Lb::Blank, Lb::Line, Lb::Digit, Lb::Op, Lb::Acc];
    pub fn reference(src: &str) -> Vec<REvent> {
        ref_lex_rules(
            src,
            &[
                (0, |s| run_of(s, |c| c.is_ascii_alphabetic())),
                (1, |s| run_of(s, |c| c == ' ' || c == '\t')),
                (2, |s| run_of(s, |c| c == '\n')),
                (3, |s| s.starts_with(|c: char| c.is_ascii_digit()) as usize),
                (4, |s| ["<<", "…", "<", "-"].iter().find(|t| s.starts_with(**t)).map_or(0, |t| t.len())),
                (5, |s| run_of(s, |c| c == 'é')),
            ],
            &[],
        )
    }
}
pub mod lc {
    use super::*;
    /// Several ignore rules, one of which looks like a longer token.
    #[derive_lexicon]
    #[teleparse(ignore(r"\s+", r"~[a-z]*", "%%"))]
    pub enum Lc {
        #[teleparse(regex("[a-z]+"), terminal(Name, Do = "do"))]
        Name,
        #[teleparse(regex("%[0-9]+"), terminal(Var))]
        Var,
        #[teleparse(terminal(Pct = "%", Amp = "&", AmpAmp = "&&"))]
        Sym,
        #[teleparse(regex("![^\n]*"))]
        Note,
    }
    pub const EXTRACT: [bool; 4] = [false, false, false, true];
    pub const ALL: [Lc; 4] = [Lc::Name, Lc::Var, Lc::Sym, Lc::Note];
    pub fn reference(src: &str) -> Vec<REvent> {
        ref_lex_rules(
            src,
            &[
                (0, |s| run_of(s, |c| c.is_ascii_lowercase())),
                (1, |s| {
                    if !s.starts_with('%') {
                        return 0;
                    }
                    match run_of(&s[1..], |c| c.is_ascii_digit()) {
                        0 => 0,
                        n => n + 1,
                    }
                }),
                (2, |s| ["&&", "&", "%"].iter().find(|t| s.starts_with(**t)).map_or(0, |t| t.len())),
                (3, |s| if s.starts_with('!') { run_of(s, |c| c != '\n') } else { 0 }),
            ],
            &[
                |s| run_of(s, |c| c.is_whitespace()),
                |s| if s.starts_with('~') { 1 + run_of(&s[1..], |c| c.is_ascii_lowercase()) } else { 0 },
                |s| if s.starts_with("%%") { 2 } else { 0 },
            ],
        )
    }
}

pub mod ld {
    use super::*;
    /// Keywords as a type of their own, rules that are prefixes of others across types, a
    /// rule whose longer form can fail half-way.
    #[derive_lexicon]
    #[teleparse(ignore(r"[ \n]", "//[^\n]*"))]
    pub enum Ld {
        #[teleparse(regex("[a-zA-Z_][a-zA-Z0-9_]*"), terminal(Name))]
        Name,
        #[teleparse(terminal(If = "if", Else = "else", Elif = "elif"))]
        Kw,
        Mark1,
        #[teleparse(regex("(0x[0-9a-f]+)|([0-9]+)"), terminal(Number, Zero = "0"))]
        Number,
        #[teleparse(terminal(Div = "/", DivEq = "/=", Lt = "<", Le = "<=", Shl = "<<", ShlEq = "<<="))]
        Op,
        #[teleparse(regex("@[a-z]*"))]
        Attr,
        #[teleparse(regex("<<<[<]*"))]
        Fence,
        #[teleparse(regex(r"\$(\{[a-z]\})?"), terminal(Sub, Dollar = "$"))]
        Sub,
        Mark2,
    }
    pub const EXTRACT: [bool; 9] = [false, false, false, false, false, true, true, false, false];
    pub const ALL: [Ld; 9] =
        [Ld::Name, Ld::Kw, Ld::Mark1, Ld::Number, Ld::Op, Ld::Attr, Ld::Fence, Ld::Sub, Ld::Mark2];
    pub fn reference(src: &str) -> Vec<REvent> {
        let name = |s: &str| {
            if s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
                run_of(s, |c| c.is_ascii_alphanumeric() || c == '_')
            } else {
                0
            }
        };
        ref_lex_rules(
            src,
            &[
                // a keyword is a keyword only when the whole word is one; it comes before names
                (1, |s| {
                    let n = run_of(s, |c| c.is_ascii_alphanumeric() || c == '_');
                    if ["if", "else", "elif"].contains(&&s[..n]) { n } else { 0 }
                }),
                (0, name),
                (3, |s| {
                    if s.starts_with("0x") {
                        let n = run_of(&s[2..], |c| c.is_ascii_digit() || ('a'..='f').contains(&c));
                        if n > 0 {
                            return n + 2;
                        }
                    }
                    run_of(s, |c| c.is_ascii_digit())
                }),
                (4, |s| ["<<=", "<<", "<=", "<", "/=", "/"].iter().find(|t| s.starts_with(**t)).map_or(0, |t| t.len())),
                (5, |s| if s.starts_with('@') { 1 + run_of(&s[1..], |c| c.is_ascii_lowercase()) } else { 0 }),
                (6, |s| if s.starts_with("<<<") { run_of(s, |c| c == '<') } else { 0 }),
                (7, |s| {
                    let b = s.as_bytes();
                    if b.first() != Some(&b'$') {
                        0
                    } else if b.len() > 3 && b[1] == b'{' && b[2].is_ascii_lowercase() && b[3] == b'}' {
                        4
                    } else {
                        1
                    }
                }),
            ],
            &[
                |s| s.starts_with([' ', '\n']) as usize,
                |s| if s.starts_with("//") { run_of(s, |c| c != '\n') } else { 0 },
            ],
        )
    }
}
pub mod le {
    use super::*;
    /// Only for the listed findings about the lexer library: a class of multi-byte
    /// characters that spans two first bytes, and rules whose beginnings match nothing.
    #[derive_lexicon]
    #[teleparse(ignore("[ \n]+"))]
    pub enum Le {
        #[teleparse(regex("[α-ω]+"), terminal(Greek))]
        Greek,
        #[teleparse(regex("[a-z]+"), terminal(Name))]
        Name,
        #[teleparse(regex("'[^']*'"), terminal(Text))]
        Text,
        #[teleparse(terminal(Arrow = "-->"))]
        Arrow,
    }
    pub const ALL: [Le; 4] = [Le::Greek, Le::Name, Le::Text, Le::Arrow];
    pub fn reference(src: &str) -> Vec<REvent> {
        ref_lex_rules(
            src,
            &[
                (0, |s| run_of(s, |c| ('α'..='ω').contains(&c))),
                (1, |s| run_of(s, |c| c.is_ascii_lowercase())),
                (2, |s| match s.strip_prefix('\'').and_then(|t| t.find('\'')) {
                    Some(n) => n + 2,
                    None => 0,
                }),
                (3, |s| if s.starts_with("-->") { 3 } else { 0 }),
            ],
            &[|s| run_of(s, |c| c == ' ' || c == '\n')],
        )
    }
}

/// Everything a lexicon yields for a source: events, then what three more calls give.
pub fn drive<L: teleparse::Lexicon>(src: &str, idx: fn(L) -> u8) -> (Vec<REvent>, Vec<REvent>) {
    use teleparse::Lexer;
    let mut lx = L::lexer(src).unwrap();
    let mut ev = vec![];
    let one = |x: (Option<Span>, Option<Token<L>>)| REvent {
        invalid: x.0.map(|s| (s.lo, s.hi)),
        tok: x.1.map(|t| RTok { ty: idx(t.ty), lo: t.span.lo, hi: t.span.hi }),
    };
    loop {
        let e = one(lx.next());
        ev.push(e);
        if e.tok.is_none() || ev.len() > src.len() + 2 {
            break;
        }
    }
    let more = (0..3).map(|_| one(lx.next())).collect();
    (ev, more)
}

/// What any run of events must be, whatever the lexicon: pieces of the source, in order,
/// without overlap, on character boundaries.
pub fn tiles(src: &str, ev: &[REvent]) -> Option<String> {
    let mut at = 0;
    let mut piece = |what: &str, lo: usize, hi: usize| {
        if lo < at || lo >= hi || hi > src.len() || !src.is_char_boundary(lo) || !src.is_char_boundary(hi) {
            return Some(format!("{what} {lo}..{hi} after {at} is not a piece of the source"));
        }
        at = hi;
        None
    };
    for e in ev {
        if let Some((lo, hi)) = e.invalid {
            if let Some(m) = piece("the invalid span", lo, hi) {
                return Some(m);
            }
        }
        if let Some(t) = e.tok {
            if let Some(m) = piece("the token", t.lo, t.hi) {
                return Some(m);
            }
        }
    }
    None
}

// ---------------------------------------------------------------- scripted lexer
// A lexicon written by hand: what the lexer yields is scripted by the source itself.
//   a b   a token       x  an extracted token      !  one garbage byte
//   .     the lexer yields nothing this time (a stalled input), more may follow
//   ?     the lexer panics once                    _  ignored
pub mod sc {
    use super::*;
    use teleparse::syntax::{Metadata, MetadataBuilder, Production, Result as SynResult};
    use teleparse::{GrammarError, Lexer, Lexicon, Parser, Produce};

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum Sc {
        A,
        B,
        X,
    }
    pub const ALL: [Sc; 3] = [Sc::A, Sc::B, Sc::X];
    pub struct ScLexer<'s> {
        src: &'s str,
        at: usize,
    }
    pub struct ScPanic;
    impl<'s> Lexer<'s> for ScLexer<'s> {
        type L = Sc;
        fn next(&mut self) -> (Option<Span>, Option<Token<Sc>>) {
            let mut inv: Option<Span> = None;
            while self.at < self.src.len() {
                let i = self.at;
                let c = self.src.as_bytes()[i];
                self.at += 1;
                let ty = match c {
                    b'a' => Sc::A,
                    b'b' => Sc::B,
                    b'x' => Sc::X,
                    b'!' => {
                        inv = Some(Span::new(inv.map_or(i, |s| s.lo), i + 1));
                        continue;
                    }
                    b'.' => return (inv, None),
                    b'?' => {
                        // what was skipped is not lost: it is found again next time
                        if let Some(s) = inv {
                            self.at = i + 1;
                            let _ = s;
                        }
                        std::panic::resume_unwind(Box::new(ScPanic));
                    }
                    _ => continue,
                };
                return (inv, Some(Token::new(i..i + 1, ty)));
            }
            (inv, None)
        }
    }
    impl Lexicon for Sc {
        type Bit = u8;
        type Lexer<'s> = ScLexer<'s>;
        type Map<T: Default + Clone> = [T; 3];
        fn id(&self) -> usize {
            *self as usize
        }
        fn from_id_unchecked(id: usize) -> Self {
            ALL[id]
        }
        fn to_bit(&self) -> u8 {
            1 << self.id()
        }
        fn first() -> Self {
            Sc::A
        }
        fn next(&self) -> Option<Self> {
            ALL.get(self.id() + 1).copied()
        }
        fn should_extract(&self) -> bool {
            *self == Sc::X
        }
        fn lexer(source: &str) -> Result<ScLexer<'_>, GrammarError> {
            Ok(ScLexer { src: source, at: 0 })
        }
    }
    macro_rules! term {
        ($n:ident, $t:ident) => {
            #[derive(Debug, Clone, Copy, PartialEq, teleparse::ToSpan)]
            pub struct $n(pub Token<Sc>);
            impl Production for $n {
                type L = Sc;
                fn register(m: &mut MetadataBuilder<Sc>) {
                    let t = Self::id();
                    if m.visit(t, || stringify!($n).to_string()) {
                        m.add_terminal(t, Sc::$t, None);
                    }
                }
            }
            impl Produce for $n {
                type Prod = Self;
                fn produce(p: &mut Parser<'_, Sc>, _: &Metadata<Sc>) -> SynResult<Self, Sc> {
                    p.parse_token(Sc::$t).map($n)
                }
            }
        };
    }
    term!(TA, A);
    term!(TB, B);
    #[derive_syntax]
    #[teleparse(root)]
    #[derive(Debug)]
    pub struct ScList(pub tp::Vec<(TA, tp::Option<TB>)>);
    #[derive_syntax]
    #[teleparse(root)]
    #[derive(Debug)]
    pub struct ScSplit(pub tp::Split<TA, TB>);
    #[derive_syntax]
    #[teleparse(root)]
    #[derive(Debug)]
    pub struct ScLoop(pub tp::Loop<(TA, TB)>);
    #[derive_syntax]
    #[teleparse(root)]
    #[derive(Debug)]
    pub struct ScRec(pub tp::Recover<(TA, TA), TB>);
}

// ---------------------------------------------------------------- lexicons by size
// For the bit sets behind marks: sizes on both sides of each word size.
macro_rules! sized {
    ($m:ident, $t:ident, $($v:ident)*) => {
        pub mod $m {
            use super::*;
            #[derive_lexicon]
            pub enum $t {
                #[teleparse(terminal(Plus = "+"))]
                V0,
                $($v,)*
            }
        }
    };
}
sized!(l8, L8, V1 V2 V3 V4 V5 V6 V7);
sized!(l9, L9, V1 V2 V3 V4 V5 V6 V7 V8);
sized!(l16, L16, V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15);
sized!(l17, L17, V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16);
sized!(l31, L31, V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16 V17 V18 V19 V20 V21 V22 V23 V24 V25 V26 V27 V28 V29 V30);
sized!(l32, L32, V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16 V17 V18 V19 V20 V21 V22 V23 V24 V25 V26 V27 V28 V29 V30 V31);

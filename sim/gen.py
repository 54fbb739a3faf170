#!/usr/bin/env python3
"""Writes core/src/sem.rs (the marks every generated type carries) and
gen/src/gen.rs (the types)."""
import hashlib, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
gram = open(os.path.join(HERE, 'core/src/gram.rs')).read()
NPOS = int(re.search(r'pub const NPOS: usize = (\d+)', gram).group(1))
KINDS = re.findall(r'\("(\w+)", F::(\w+), (\d+)\)', gram)
lx = open(os.path.join(HERE, 'lx/src/lib.rs')).read()
TERMS = re.findall(r'ti\("([^"]+)", Lx::(\w+), (None|Some\("[^"]+"\))', lx)
RUST = {'if':'KwIf','let':'KwLet','fn':'KwFn','1':'One','+':'OpAdd','*':'OpMul','=':'OpEq','==':'OpEqEq',
        '==>':'OpArrow','(':'ParenL',')':'ParenR','[':'BrackL',']':'BrackR',',':'Comma',';':'Semi','.':'Dot','λ':'Lam'}
TYPES = ['Id','SemA','Num','Op','Comment','SemB','Paren','Punc','Gk','SemC']
MARKS = [[],[],[],['SemA'],['SemB'],['SemC'],['SemA','SemC'],['SemB','Num'],['Id']]
def marks(i, k, j):
    h = hashlib.sha256(f'{i}/{k}/{j}'.encode()).digest()[0]
    return MARKS[h % len(MARKS)]
def mask(m):
    return sum(1 << TYPES.index(x) for x in m)
def attr(m):
    return f'#[teleparse(semantic({", ".join(m)}))] ' if m else ''
ROOTM = [[[]], [['SemB']], [[], ['SemA']], [['SemC'], ['SemA', 'SemB']]]

s = ['// generated by gen.py', 'pub fn sem(pos: u8, kind: u8) -> &\'static [u16] {', '    match (pos, kind) {']
g = ['// generated by gen.py', 'use super::*;', '']
def w(x): g.append(x)
for i in range(NPOS):
    w(f'pub mod p{i} {{'); w('use super::*;')
    for j in range(11):
        w(f'type S{j} = Slot<{i}, {j}>;')
    prod, ids, reg = [], [], []
    for ki, (name, form, n) in enumerate(KINDS):
        n = int(n)
        T = f'P{i}{name.capitalize()}'
        if name[:2] in ('ts', 'ns', 'en'):
            m = [marks(i, name, j) for j in range(n)]
            if any(m):
                s.append(f'        ({i}, {ki}) => &{[mask(x) for x in m]},')
            w('#[derive_syntax]')
            if name[:2] == 'ts':
                w(f'pub struct {T}(' + ', '.join(f'{attr(m[j])}pub S{j}' for j in range(n)) + ');')
                conv = f'|x| seq(&x, vec![' + ', '.join(f'x.{j}.0.clone()' for j in range(n)) + '])'
            elif name[:2] == 'ns':
                w(f'pub struct {T} {{' + ', '.join(f'{attr(m[j])}pub f{j}: S{j}' for j in range(n)) + '}')
                conv = f'|x| seq(&x, vec![' + ', '.join(f'x.f{j}.0.clone()' for j in range(n)) + '])'
            else:
                w(f'pub enum {T} {{' + ', '.join(f'{attr(m[j])}V{j}(S{j})' for j in range(n)) + '}')
                conv = '|x| { let (lo, hi, odd) = sp(&x); match x {' + ' '.join(f'{T}::V{j}(y) => alt(lo, hi, odd, {j}, y.0),' for j in range(n)) + '} }'
        elif name.startswith('tup'):
            T = '(' + ', '.join(f'S{j}' for j in range(n)) + ')'
            conv = '|x| seq(&x, vec![' + ', '.join(f'x.{j}.0.clone()' for j in range(n)) + '])'
        else:
            T, conv = {
                'opt': ('tp::Option<S0>', 'opt'),
                'exists': ('tp::Exists<S0>', 'exists'),
                'star_vec': ('tp::Vec<S0>', 'list_star'),
                'star_deque': ('tp::VecDeque<S0>', 'list_star'),
                'star_sim': ('tp::Star<SimVec<S0>, S0>', 'list_star'),
                'plus_vec': ('tp::Nev<S0>', 'list_plus'),
                'plus_deque': ('tp::NevDeque<S0>', 'list_plus'),
                'plus_sim': ('tp::Plus<SimVec<S0>, S0>', 'list_plus'),
                'loop': ('tp::Loop<S0>', 'list_loop'),
                'split': ('tp::Split<S0, S1>', 'split'),
                'punct': ('tp::Punct<S0, S1>', 'punct'),
                'recover': ('tp::Recover<S0, S1>', 'recover'),
                'box': ('Box<S0>', 'boxed'),
                'quote': ('tp::String<S0>', 'quote'),
                'parse_u32': ('tp::Parse<u32, S0>', 'parse_u32'),
                'parse_sim': ('tp::Parse<SimVal, S0>', 'parse_sim'),
            }[name]
        prod.append(f'{ki} => <{T} as Produce>::produce(p, m).map({conv}),')
        ids.append(f'{ki} => <{T} as Produce>::prod_id(),')
        reg.append(f'{ki} => <<{T} as Produce>::Prod as Production>::register(b),')
    w('pub fn produce(k: u8, p: &mut Parser<\'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {'); g += prod; w('_ => unreachable!() } }')
    w('pub fn id(k: u8) -> TypeId { match k {'); g += ids; w('_ => unreachable!() } }')
    w('pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {'); g += reg; w('_ => unreachable!() } }')
    w('}')
for fn, sig, call in (('produce', 'k: u8, p: &mut Parser<\'_, Lx>, m: &Metadata<Lx>) -> SR<Tree>', 'k, p, m'),
                      ('id', 'k: u8) -> TypeId', 'k'), ('register', 'k: u8, b: &mut MetadataBuilder<Lx>)', 'k, b')):
    w(f'pub fn node_{fn}(pos: u8, {sig} {{ match pos {{' + ' '.join(f'{i} => p{i}::{fn}({call}),' for i in range(NPOS)) + ' _ => unreachable!() } }')
def tn(t): return RUST.get(t, t)
w('pub fn term_produce(t: u8, p: &mut Parser<\'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match t {')
for t, (n, ty, _) in enumerate(TERMS):
    w(f'{t} => {tn(n)}::produce(p, m).map(|x| term({t}, &x, x.0)),')
w('_ => unreachable!() } }')
w('pub fn term_id(t: u8) -> TypeId { match t {' + ' '.join(f'{t} => <{tn(n)} as Production>::id(),' for t, (n, _, _) in enumerate(TERMS)) + '_ => unreachable!() } }')
w('pub fn term_register(t: u8, b: &mut MetadataBuilder<Lx>) { match t {' + ' '.join(f'{t} => <{tn(n)} as Production>::register(b),' for t, (n, _, _) in enumerate(TERMS)) + '_ => unreachable!() } }')
w('pub fn term_parse(t: u8, p: &mut Parser<\'_, Lx>) -> Result<Option<Tree>, GrammarError> { match t {')
for t, (n, ty, _) in enumerate(TERMS):
    w(f'{t} => p.parse::<{tn(n)}>().map(|o| o.map(|x| term({t}, &x, x.0))),')
w('_ => unreachable!() } }')
w('pub fn term_once(t: u8, s: &str) -> Result<Option<Tree>, GrammarError> { match t {')
for t, (n, ty, _) in enumerate(TERMS):
    w(f'{t} => {tn(n)}::parse(s).map(|o| o.map(|x| term({t}, &x, x.0))),')
w('_ => unreachable!() } }')
w('pub fn term_meta(t: u8) -> &\'static Result<Metadata<Lx>, GrammarError> { match t {' + ' '.join(f'{t} => {tn(n)}::metadata(),' for t, (n, _, _) in enumerate(TERMS)) + '_ => unreachable!() } }')
B = NPOS
w(f'''
#[derive_syntax] #[teleparse(root)] pub struct R0(pub Slot<{B}, 0>);
#[derive_syntax] #[teleparse(root)] pub struct R1 {{ {attr(ROOTM[1][0])}pub a: Slot<{B+1}, 0> }}
#[derive_syntax] #[teleparse(root)] pub enum R2 {{ {attr(ROOTM[2][0])}A(Slot<{B+2}, 0>), {attr(ROOTM[2][1])}B(Slot<{B+2}, 1>) }}
#[derive_syntax] #[teleparse(root)] pub struct R3 {{ {attr(ROOTM[3][0])}pub a: Slot<{B+3}, 0>, {attr(ROOTM[3][1])}pub b: Slot<{B+3}, 1> }}
fn r0(x: R0) -> Tree {{ seq(&x, vec![x.0.0.clone()]) }}
fn r1(x: R1) -> Tree {{ seq(&x, vec![x.a.0.clone()]) }}
fn r2(x: R2) -> Tree {{ let (lo, hi, odd) = sp(&x); match x {{ R2::A(y) => alt(lo, hi, odd, 0, y.0), R2::B(y) => alt(lo, hi, odd, 1, y.0) }} }}
fn r3(x: R3) -> Tree {{ seq(&x, vec![x.a.0.clone(), x.b.0.clone()]) }}
''')
R = range(4)
w('pub fn root_parse(r: usize, p: &mut Parser<\'_, Lx>) -> Result<Option<Tree>, GrammarError> { match r {' + ' '.join(f'{r} => p.parse::<R{r}>().map(|o| o.map(r{r})),' for r in R) + '_ => unreachable!() } }')
w('pub fn root_once(r: usize, s: &str) -> Result<Option<Tree>, GrammarError> { match r {' + ' '.join(f'{r} => R{r}::parse(s).map(|o| o.map(r{r})),' for r in R) + '_ => unreachable!() } }')
w('pub fn root_meta(r: usize) -> &\'static Result<Metadata<Lx>, GrammarError> { match r {' + ' '.join(f'{r} => R{r}::metadata(),' for r in R) + '_ => unreachable!() } }')
w('pub fn root_assert(r: usize) { match r {' + ' '.join(f'{r} => R{r}::assert_ll1(),' for r in R) + '_ => unreachable!() } }')
w('pub fn root_id(r: usize) -> TypeId { match r {' + ' '.join(f'{r} => R{r}::prod_id(),' for r in R) + '_ => unreachable!() } }')
w('pub fn root_register(r: usize, b: &mut MetadataBuilder<Lx>) { match r {' + ' '.join(f'{r} => <<R{r} as Produce>::Prod as Production>::register(b),' for r in R) + '_ => unreachable!() } }')
s += ['        _ => &[0; 11],', '    }', '}', 'pub fn root_sem(root: usize) -> &\'static [u16] {', '    match root {']
for r in R:
    s.append(f'        {r} => &{[mask(x) for x in ROOTM[r]]},')
s += ['        _ => unreachable!(),', '    }', '}', '''
/// What `Parse` must hold for a captured text.
pub fn parse_expect(kind: u8, text: &str) -> String {
    if crate::gram::KINDS[kind as usize].0 == "parse_u32" {
        format!("{:?}", text.parse::<u32>())
    } else {
        sim_val(text)
    }
}
/// The value the harness' own `FromStr` type makes of a text.
pub fn sim_val(text: &str) -> String {
    if text.len() % 3 == 2 {
        format!("Err({text})")
    } else {
        format!("Ok({}:{:x})", text.len(), crate::rng::hash_bytes(7, text.as_bytes()))
    }
}''']
open(os.path.join(HERE, 'core/src/sem.rs'), 'w').write('\n'.join(s) + '\n')
w('''pub const NTAG: usize = 64;
pub struct Tag<const N: usize>;
pub fn tag(n: usize) -> TypeId { match n {''' + ' '.join(f'{n} => TypeId::of::<Tag<{n}>>(),' for n in range(64)) + '_ => unreachable!() } }')
open(os.path.join(HERE, 'gen/src/gen.rs'), 'w').write('\n'.join(g) + '\n')

// generated by gen.py
use super::*;

pub mod p0 {
use super::*;
type S0 = Slot<0, 0>;
type S1 = Slot<0, 1>;
type S2 = Slot<0, 2>;
type S3 = Slot<0, 3>;
type S4 = Slot<0, 4>;
type S5 = Slot<0, 5>;
type S6 = Slot<0, 6>;
type S7 = Slot<0, 7>;
type S8 = Slot<0, 8>;
type S9 = Slot<0, 9>;
type S10 = Slot<0, 10>;
#[derive_syntax]
pub struct P0Ts1(pub S0);
#[derive_syntax]
pub struct P0Ts2(#[teleparse(semantic(Id))] pub S0, pub S1);
#[derive_syntax]
pub struct P0Ts3(#[teleparse(semantic(SemC))] pub S0, #[teleparse(semantic(SemB, Num))] pub S1, #[teleparse(semantic(Id))] pub S2);
#[derive_syntax]
pub struct P0Ts5(#[teleparse(semantic(SemA))] pub S0, #[teleparse(semantic(SemA))] pub S1, #[teleparse(semantic(SemA, SemC))] pub S2, pub S3, #[teleparse(semantic(SemB, Num))] pub S4);
#[derive_syntax]
pub struct P0Ns1 {#[teleparse(semantic(SemB, Num))] pub f0: S0}
#[derive_syntax]
pub struct P0Ns2 {#[teleparse(semantic(SemB, Num))] pub f0: S0, #[teleparse(semantic(SemA, SemC))] pub f1: S1}
#[derive_syntax]
pub struct P0Ns4 {#[teleparse(semantic(SemB, Num))] pub f0: S0, #[teleparse(semantic(SemB, Num))] pub f1: S1, #[teleparse(semantic(SemA))] pub f2: S2, #[teleparse(semantic(SemC))] pub f3: S3}
#[derive_syntax]
pub enum P0En2 {#[teleparse(semantic(SemC))] V0(S0), #[teleparse(semantic(SemA, SemC))] V1(S1)}
#[derive_syntax]
pub enum P0En3 {#[teleparse(semantic(SemC))] V0(S0), #[teleparse(semantic(SemB))] V1(S1), #[teleparse(semantic(SemB))] V2(S2)}
#[derive_syntax]
pub enum P0En4 {V0(S0), #[teleparse(semantic(SemB))] V1(S1), #[teleparse(semantic(SemB, Num))] V2(S2), V3(S3)}
#[derive_syntax]
pub enum P0En6 {V0(S0), #[teleparse(semantic(SemB, Num))] V1(S1), V2(S2), V3(S3), #[teleparse(semantic(SemB))] V4(S4), V5(S5)}
#[derive_syntax]
pub struct P0Ts8(#[teleparse(semantic(SemC))] pub S0, #[teleparse(semantic(SemA))] pub S1, pub S2, #[teleparse(semantic(Id))] pub S3, pub S4, #[teleparse(semantic(SemB))] pub S5, #[teleparse(semantic(SemA, SemC))] pub S6, #[teleparse(semantic(SemA, SemC))] pub S7);
#[derive_syntax]
pub struct P0Ns7 {#[teleparse(semantic(SemB))] pub f0: S0, #[teleparse(semantic(SemA))] pub f1: S1, #[teleparse(semantic(SemB, Num))] pub f2: S2, #[teleparse(semantic(Id))] pub f3: S3, #[teleparse(semantic(Id))] pub f4: S4, pub f5: S5, #[teleparse(semantic(SemA, SemC))] pub f6: S6}
#[derive_syntax]
pub enum P0En8 {#[teleparse(semantic(SemB))] V0(S0), #[teleparse(semantic(SemA))] V1(S1), #[teleparse(semantic(SemB))] V2(S2), #[teleparse(semantic(SemB))] V3(S3), V4(S4), V5(S5), V6(S6), #[teleparse(semantic(Id))] V7(S7)}
#[derive_syntax]
pub enum P0En11 {#[teleparse(semantic(SemA))] V0(S0), #[teleparse(semantic(SemC))] V1(S1), #[teleparse(semantic(SemA, SemC))] V2(S2), V3(S3), #[teleparse(semantic(SemC))] V4(S4), #[teleparse(semantic(SemA, SemC))] V5(S5), #[teleparse(semantic(SemB, Num))] V6(S6), #[teleparse(semantic(SemB))] V7(S7), #[teleparse(semantic(SemC))] V8(S8), V9(S9), V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P0Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P0Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P0Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P0Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P0Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P0Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P0Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P0En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P0En2::V0(y) => alt(lo, hi, odd, 0, y.0), P0En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P0En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P0En3::V0(y) => alt(lo, hi, odd, 0, y.0), P0En3::V1(y) => alt(lo, hi, odd, 1, y.0), P0En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P0En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P0En4::V0(y) => alt(lo, hi, odd, 0, y.0), P0En4::V1(y) => alt(lo, hi, odd, 1, y.0), P0En4::V2(y) => alt(lo, hi, odd, 2, y.0), P0En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P0En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P0En6::V0(y) => alt(lo, hi, odd, 0, y.0), P0En6::V1(y) => alt(lo, hi, odd, 1, y.0), P0En6::V2(y) => alt(lo, hi, odd, 2, y.0), P0En6::V3(y) => alt(lo, hi, odd, 3, y.0), P0En6::V4(y) => alt(lo, hi, odd, 4, y.0), P0En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P0Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P0Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P0En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P0En8::V0(y) => alt(lo, hi, odd, 0, y.0), P0En8::V1(y) => alt(lo, hi, odd, 1, y.0), P0En8::V2(y) => alt(lo, hi, odd, 2, y.0), P0En8::V3(y) => alt(lo, hi, odd, 3, y.0), P0En8::V4(y) => alt(lo, hi, odd, 4, y.0), P0En8::V5(y) => alt(lo, hi, odd, 5, y.0), P0En8::V6(y) => alt(lo, hi, odd, 6, y.0), P0En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P0En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P0En11::V0(y) => alt(lo, hi, odd, 0, y.0), P0En11::V1(y) => alt(lo, hi, odd, 1, y.0), P0En11::V2(y) => alt(lo, hi, odd, 2, y.0), P0En11::V3(y) => alt(lo, hi, odd, 3, y.0), P0En11::V4(y) => alt(lo, hi, odd, 4, y.0), P0En11::V5(y) => alt(lo, hi, odd, 5, y.0), P0En11::V6(y) => alt(lo, hi, odd, 6, y.0), P0En11::V7(y) => alt(lo, hi, odd, 7, y.0), P0En11::V8(y) => alt(lo, hi, odd, 8, y.0), P0En11::V9(y) => alt(lo, hi, odd, 9, y.0), P0En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P0Ts1 as Produce>::prod_id(),
5 => <P0Ts2 as Produce>::prod_id(),
6 => <P0Ts3 as Produce>::prod_id(),
7 => <P0Ts5 as Produce>::prod_id(),
8 => <P0Ns1 as Produce>::prod_id(),
9 => <P0Ns2 as Produce>::prod_id(),
10 => <P0Ns4 as Produce>::prod_id(),
11 => <P0En2 as Produce>::prod_id(),
12 => <P0En3 as Produce>::prod_id(),
13 => <P0En4 as Produce>::prod_id(),
14 => <P0En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P0Ts8 as Produce>::prod_id(),
32 => <P0Ns7 as Produce>::prod_id(),
33 => <P0En8 as Produce>::prod_id(),
34 => <P0En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P0Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P0Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P0Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P0Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P0Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P0Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P0Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P0En2 as Produce>::Prod as Production>::register(b),
12 => <<P0En3 as Produce>::Prod as Production>::register(b),
13 => <<P0En4 as Produce>::Prod as Production>::register(b),
14 => <<P0En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P0Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P0Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P0En8 as Produce>::Prod as Production>::register(b),
34 => <<P0En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub mod p1 {
use super::*;
type S0 = Slot<1, 0>;
type S1 = Slot<1, 1>;
type S2 = Slot<1, 2>;
type S3 = Slot<1, 3>;
type S4 = Slot<1, 4>;
type S5 = Slot<1, 5>;
type S6 = Slot<1, 6>;
type S7 = Slot<1, 7>;
type S8 = Slot<1, 8>;
type S9 = Slot<1, 9>;
type S10 = Slot<1, 10>;
#[derive_syntax]
pub struct P1Ts1(#[teleparse(semantic(SemB, Num))] pub S0);
#[derive_syntax]
pub struct P1Ts2(#[teleparse(semantic(SemC))] pub S0, pub S1);
#[derive_syntax]
pub struct P1Ts3(#[teleparse(semantic(SemC))] pub S0, #[teleparse(semantic(Id))] pub S1, #[teleparse(semantic(SemB))] pub S2);
#[derive_syntax]
pub struct P1Ts5(#[teleparse(semantic(SemA))] pub S0, #[teleparse(semantic(SemB))] pub S1, #[teleparse(semantic(SemA))] pub S2, pub S3, #[teleparse(semantic(SemA))] pub S4);
#[derive_syntax]
pub struct P1Ns1 {#[teleparse(semantic(Id))] pub f0: S0}
#[derive_syntax]
pub struct P1Ns2 {#[teleparse(semantic(SemC))] pub f0: S0, #[teleparse(semantic(SemB, Num))] pub f1: S1}
#[derive_syntax]
pub struct P1Ns4 {#[teleparse(semantic(SemB, Num))] pub f0: S0, #[teleparse(semantic(SemB, Num))] pub f1: S1, #[teleparse(semantic(SemB))] pub f2: S2, #[teleparse(semantic(SemC))] pub f3: S3}
#[derive_syntax]
pub enum P1En2 {#[teleparse(semantic(Id))] V0(S0), #[teleparse(semantic(SemB, Num))] V1(S1)}
#[derive_syntax]
pub enum P1En3 {#[teleparse(semantic(SemC))] V0(S0), #[teleparse(semantic(Id))] V1(S1), V2(S2)}
#[derive_syntax]
pub enum P1En4 {V0(S0), #[teleparse(semantic(Id))] V1(S1), #[teleparse(semantic(SemA, SemC))] V2(S2), V3(S3)}
#[derive_syntax]
pub enum P1En6 {#[teleparse(semantic(SemA, SemC))] V0(S0), V1(S1), #[teleparse(semantic(SemB))] V2(S2), V3(S3), #[teleparse(semantic(SemA))] V4(S4), #[teleparse(semantic(SemC))] V5(S5)}
#[derive_syntax]
pub struct P1Ts8(#[teleparse(semantic(SemB))] pub S0, #[teleparse(semantic(SemC))] pub S1, pub S2, pub S3, pub S4, #[teleparse(semantic(SemA))] pub S5, #[teleparse(semantic(SemB, Num))] pub S6, pub S7);
#[derive_syntax]
pub struct P1Ns7 {pub f0: S0, #[teleparse(semantic(SemA))] pub f1: S1, pub f2: S2, pub f3: S3, pub f4: S4, pub f5: S5, pub f6: S6}
#[derive_syntax]
pub enum P1En8 {#[teleparse(semantic(Id))] V0(S0), #[teleparse(semantic(Id))] V1(S1), #[teleparse(semantic(SemC))] V2(S2), #[teleparse(semantic(SemC))] V3(S3), #[teleparse(semantic(SemB))] V4(S4), #[teleparse(semantic(Id))] V5(S5), #[teleparse(semantic(SemA, SemC))] V6(S6), #[teleparse(semantic(SemB))] V7(S7)}
#[derive_syntax]
pub enum P1En11 {#[teleparse(semantic(SemB, Num))] V0(S0), #[teleparse(semantic(Id))] V1(S1), V2(S2), #[teleparse(semantic(SemC))] V3(S3), #[teleparse(semantic(SemB, Num))] V4(S4), V5(S5), V6(S6), #[teleparse(semantic(SemB, Num))] V7(S7), V8(S8), #[teleparse(semantic(SemB))] V9(S9), #[teleparse(semantic(Id))] V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P1Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P1Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P1Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P1Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P1Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P1Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P1Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P1En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P1En2::V0(y) => alt(lo, hi, odd, 0, y.0), P1En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P1En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P1En3::V0(y) => alt(lo, hi, odd, 0, y.0), P1En3::V1(y) => alt(lo, hi, odd, 1, y.0), P1En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P1En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P1En4::V0(y) => alt(lo, hi, odd, 0, y.0), P1En4::V1(y) => alt(lo, hi, odd, 1, y.0), P1En4::V2(y) => alt(lo, hi, odd, 2, y.0), P1En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P1En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P1En6::V0(y) => alt(lo, hi, odd, 0, y.0), P1En6::V1(y) => alt(lo, hi, odd, 1, y.0), P1En6::V2(y) => alt(lo, hi, odd, 2, y.0), P1En6::V3(y) => alt(lo, hi, odd, 3, y.0), P1En6::V4(y) => alt(lo, hi, odd, 4, y.0), P1En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P1Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P1Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P1En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P1En8::V0(y) => alt(lo, hi, odd, 0, y.0), P1En8::V1(y) => alt(lo, hi, odd, 1, y.0), P1En8::V2(y) => alt(lo, hi, odd, 2, y.0), P1En8::V3(y) => alt(lo, hi, odd, 3, y.0), P1En8::V4(y) => alt(lo, hi, odd, 4, y.0), P1En8::V5(y) => alt(lo, hi, odd, 5, y.0), P1En8::V6(y) => alt(lo, hi, odd, 6, y.0), P1En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P1En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P1En11::V0(y) => alt(lo, hi, odd, 0, y.0), P1En11::V1(y) => alt(lo, hi, odd, 1, y.0), P1En11::V2(y) => alt(lo, hi, odd, 2, y.0), P1En11::V3(y) => alt(lo, hi, odd, 3, y.0), P1En11::V4(y) => alt(lo, hi, odd, 4, y.0), P1En11::V5(y) => alt(lo, hi, odd, 5, y.0), P1En11::V6(y) => alt(lo, hi, odd, 6, y.0), P1En11::V7(y) => alt(lo, hi, odd, 7, y.0), P1En11::V8(y) => alt(lo, hi, odd, 8, y.0), P1En11::V9(y) => alt(lo, hi, odd, 9, y.0), P1En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P1Ts1 as Produce>::prod_id(),
5 => <P1Ts2 as Produce>::prod_id(),
6 => <P1Ts3 as Produce>::prod_id(),
7 => <P1Ts5 as Produce>::prod_id(),
8 => <P1Ns1 as Produce>::prod_id(),
9 => <P1Ns2 as Produce>::prod_id(),
10 => <P1Ns4 as Produce>::prod_id(),
11 => <P1En2 as Produce>::prod_id(),
12 => <P1En3 as Produce>::prod_id(),
13 => <P1En4 as Produce>::prod_id(),
14 => <P1En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P1Ts8 as Produce>::prod_id(),
32 => <P1Ns7 as Produce>::prod_id(),
33 => <P1En8 as Produce>::prod_id(),
34 => <P1En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P1Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P1Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P1Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P1Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P1Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P1Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P1Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P1En2 as Produce>::Prod as Production>::register(b),
12 => <<P1En3 as Produce>::Prod as Production>::register(b),
13 => <<P1En4 as Produce>::Prod as Production>::register(b),
14 => <<P1En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P1Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P1Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P1En8 as Produce>::Prod as Production>::register(b),
34 => <<P1En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub mod p2 {
use super::*;
type S0 = Slot<2, 0>;
type S1 = Slot<2, 1>;
type S2 = Slot<2, 2>;
type S3 = Slot<2, 3>;
type S4 = Slot<2, 4>;
type S5 = Slot<2, 5>;
type S6 = Slot<2, 6>;
type S7 = Slot<2, 7>;
type S8 = Slot<2, 8>;
type S9 = Slot<2, 9>;
type S10 = Slot<2, 10>;
#[derive_syntax]
pub struct P2Ts1(pub S0);
#[derive_syntax]
pub struct P2Ts2(#[teleparse(semantic(Id))] pub S0, #[teleparse(semantic(Id))] pub S1);
#[derive_syntax]
pub struct P2Ts3(#[teleparse(semantic(Id))] pub S0, #[teleparse(semantic(SemA))] pub S1, #[teleparse(semantic(SemA))] pub S2);
#[derive_syntax]
pub struct P2Ts5(#[teleparse(semantic(SemA))] pub S0, #[teleparse(semantic(SemA))] pub S1, #[teleparse(semantic(SemB))] pub S2, pub S3, #[teleparse(semantic(Id))] pub S4);
#[derive_syntax]
pub struct P2Ns1 {pub f0: S0}
#[derive_syntax]
pub struct P2Ns2 {pub f0: S0, #[teleparse(semantic(SemB))] pub f1: S1}
#[derive_syntax]
pub struct P2Ns4 {pub f0: S0, pub f1: S1, #[teleparse(semantic(SemB))] pub f2: S2, #[teleparse(semantic(SemA, SemC))] pub f3: S3}
#[derive_syntax]
pub enum P2En2 {#[teleparse(semantic(Id))] V0(S0), #[teleparse(semantic(Id))] V1(S1)}
#[derive_syntax]
pub enum P2En3 {#[teleparse(semantic(SemC))] V0(S0), #[teleparse(semantic(SemA))] V1(S1), V2(S2)}
#[derive_syntax]
pub enum P2En4 {V0(S0), V1(S1), #[teleparse(semantic(SemB, Num))] V2(S2), V3(S3)}
#[derive_syntax]
pub enum P2En6 {V0(S0), #[teleparse(semantic(SemB, Num))] V1(S1), #[teleparse(semantic(SemB))] V2(S2), #[teleparse(semantic(SemA))] V3(S3), #[teleparse(semantic(Id))] V4(S4), #[teleparse(semantic(SemC))] V5(S5)}
#[derive_syntax]
pub struct P2Ts8(pub S0, #[teleparse(semantic(SemB, Num))] pub S1, pub S2, #[teleparse(semantic(SemA))] pub S3, #[teleparse(semantic(SemA))] pub S4, #[teleparse(semantic(SemA))] pub S5, pub S6, pub S7);
#[derive_syntax]
pub struct P2Ns7 {#[teleparse(semantic(SemB, Num))] pub f0: S0, pub f1: S1, #[teleparse(semantic(SemB))] pub f2: S2, #[teleparse(semantic(SemC))] pub f3: S3, pub f4: S4, #[teleparse(semantic(SemA))] pub f5: S5, #[teleparse(semantic(SemB))] pub f6: S6}
#[derive_syntax]
pub enum P2En8 {#[teleparse(semantic(SemB))] V0(S0), #[teleparse(semantic(SemC))] V1(S1), #[teleparse(semantic(SemA, SemC))] V2(S2), V3(S3), #[teleparse(semantic(SemC))] V4(S4), #[teleparse(semantic(SemB))] V5(S5), #[teleparse(semantic(SemB, Num))] V6(S6), #[teleparse(semantic(SemC))] V7(S7)}
#[derive_syntax]
pub enum P2En11 {V0(S0), V1(S1), V2(S2), #[teleparse(semantic(SemB))] V3(S3), #[teleparse(semantic(Id))] V4(S4), #[teleparse(semantic(SemB, Num))] V5(S5), V6(S6), V7(S7), #[teleparse(semantic(SemB, Num))] V8(S8), V9(S9), #[teleparse(semantic(SemC))] V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P2Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P2Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P2Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P2Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P2Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P2Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P2Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P2En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P2En2::V0(y) => alt(lo, hi, odd, 0, y.0), P2En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P2En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P2En3::V0(y) => alt(lo, hi, odd, 0, y.0), P2En3::V1(y) => alt(lo, hi, odd, 1, y.0), P2En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P2En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P2En4::V0(y) => alt(lo, hi, odd, 0, y.0), P2En4::V1(y) => alt(lo, hi, odd, 1, y.0), P2En4::V2(y) => alt(lo, hi, odd, 2, y.0), P2En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P2En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P2En6::V0(y) => alt(lo, hi, odd, 0, y.0), P2En6::V1(y) => alt(lo, hi, odd, 1, y.0), P2En6::V2(y) => alt(lo, hi, odd, 2, y.0), P2En6::V3(y) => alt(lo, hi, odd, 3, y.0), P2En6::V4(y) => alt(lo, hi, odd, 4, y.0), P2En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P2Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P2Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P2En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P2En8::V0(y) => alt(lo, hi, odd, 0, y.0), P2En8::V1(y) => alt(lo, hi, odd, 1, y.0), P2En8::V2(y) => alt(lo, hi, odd, 2, y.0), P2En8::V3(y) => alt(lo, hi, odd, 3, y.0), P2En8::V4(y) => alt(lo, hi, odd, 4, y.0), P2En8::V5(y) => alt(lo, hi, odd, 5, y.0), P2En8::V6(y) => alt(lo, hi, odd, 6, y.0), P2En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P2En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P2En11::V0(y) => alt(lo, hi, odd, 0, y.0), P2En11::V1(y) => alt(lo, hi, odd, 1, y.0), P2En11::V2(y) => alt(lo, hi, odd, 2, y.0), P2En11::V3(y) => alt(lo, hi, odd, 3, y.0), P2En11::V4(y) => alt(lo, hi, odd, 4, y.0), P2En11::V5(y) => alt(lo, hi, odd, 5, y.0), P2En11::V6(y) => alt(lo, hi, odd, 6, y.0), P2En11::V7(y) => alt(lo, hi, odd, 7, y.0), P2En11::V8(y) => alt(lo, hi, odd, 8, y.0), P2En11::V9(y) => alt(lo, hi, odd, 9, y.0), P2En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P2Ts1 as Produce>::prod_id(),
5 => <P2Ts2 as Produce>::prod_id(),
6 => <P2Ts3 as Produce>::prod_id(),
7 => <P2Ts5 as Produce>::prod_id(),
8 => <P2Ns1 as Produce>::prod_id(),
9 => <P2Ns2 as Produce>::prod_id(),
10 => <P2Ns4 as Produce>::prod_id(),
11 => <P2En2 as Produce>::prod_id(),
12 => <P2En3 as Produce>::prod_id(),
13 => <P2En4 as Produce>::prod_id(),
14 => <P2En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P2Ts8 as Produce>::prod_id(),
32 => <P2Ns7 as Produce>::prod_id(),
33 => <P2En8 as Produce>::prod_id(),
34 => <P2En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P2Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P2Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P2Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P2Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P2Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P2Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P2Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P2En2 as Produce>::Prod as Production>::register(b),
12 => <<P2En3 as Produce>::Prod as Production>::register(b),
13 => <<P2En4 as Produce>::Prod as Production>::register(b),
14 => <<P2En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P2Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P2Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P2En8 as Produce>::Prod as Production>::register(b),
34 => <<P2En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub mod p3 {
use super::*;
type S0 = Slot<3, 0>;
type S1 = Slot<3, 1>;
type S2 = Slot<3, 2>;
type S3 = Slot<3, 3>;
type S4 = Slot<3, 4>;
type S5 = Slot<3, 5>;
type S6 = Slot<3, 6>;
type S7 = Slot<3, 7>;
type S8 = Slot<3, 8>;
type S9 = Slot<3, 9>;
type S10 = Slot<3, 10>;
#[derive_syntax]
pub struct P3Ts1(#[teleparse(semantic(SemC))] pub S0);
#[derive_syntax]
pub struct P3Ts2(#[teleparse(semantic(SemC))] pub S0, #[teleparse(semantic(SemB, Num))] pub S1);
#[derive_syntax]
pub struct P3Ts3(#[teleparse(semantic(SemB, Num))] pub S0, #[teleparse(semantic(SemA))] pub S1, #[teleparse(semantic(SemA, SemC))] pub S2);
#[derive_syntax]
pub struct P3Ts5(#[teleparse(semantic(SemC))] pub S0, pub S1, pub S2, #[teleparse(semantic(SemB))] pub S3, pub S4);
#[derive_syntax]
pub struct P3Ns1 {#[teleparse(semantic(SemB, Num))] pub f0: S0}
#[derive_syntax]
pub struct P3Ns2 {#[teleparse(semantic(SemA, SemC))] pub f0: S0, #[teleparse(semantic(SemB))] pub f1: S1}
#[derive_syntax]
pub struct P3Ns4 {pub f0: S0, #[teleparse(semantic(SemB))] pub f1: S1, pub f2: S2, #[teleparse(semantic(SemA, SemC))] pub f3: S3}
#[derive_syntax]
pub enum P3En2 {V0(S0), V1(S1)}
#[derive_syntax]
pub enum P3En3 {V0(S0), #[teleparse(semantic(SemA, SemC))] V1(S1), #[teleparse(semantic(SemA, SemC))] V2(S2)}
#[derive_syntax]
pub enum P3En4 {#[teleparse(semantic(SemB))] V0(S0), V1(S1), #[teleparse(semantic(SemB, Num))] V2(S2), V3(S3)}
#[derive_syntax]
pub enum P3En6 {#[teleparse(semantic(Id))] V0(S0), V1(S1), V2(S2), V3(S3), #[teleparse(semantic(SemB))] V4(S4), #[teleparse(semantic(SemA, SemC))] V5(S5)}
#[derive_syntax]
pub struct P3Ts8(#[teleparse(semantic(SemC))] pub S0, pub S1, pub S2, pub S3, #[teleparse(semantic(SemB, Num))] pub S4, pub S5, pub S6, #[teleparse(semantic(SemA, SemC))] pub S7);
#[derive_syntax]
pub struct P3Ns7 {pub f0: S0, #[teleparse(semantic(Id))] pub f1: S1, #[teleparse(semantic(SemB, Num))] pub f2: S2, pub f3: S3, #[teleparse(semantic(SemB, Num))] pub f4: S4, pub f5: S5, pub f6: S6}
#[derive_syntax]
pub enum P3En8 {#[teleparse(semantic(SemC))] V0(S0), #[teleparse(semantic(SemA))] V1(S1), V2(S2), #[teleparse(semantic(SemB, Num))] V3(S3), V4(S4), #[teleparse(semantic(SemB))] V5(S5), #[teleparse(semantic(SemB, Num))] V6(S6), V7(S7)}
#[derive_syntax]
pub enum P3En11 {#[teleparse(semantic(SemB))] V0(S0), V1(S1), #[teleparse(semantic(Id))] V2(S2), V3(S3), #[teleparse(semantic(Id))] V4(S4), V5(S5), V6(S6), #[teleparse(semantic(SemC))] V7(S7), #[teleparse(semantic(SemC))] V8(S8), V9(S9), #[teleparse(semantic(SemA, SemC))] V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P3Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P3Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P3Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P3Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P3Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P3Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P3Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P3En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P3En2::V0(y) => alt(lo, hi, odd, 0, y.0), P3En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P3En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P3En3::V0(y) => alt(lo, hi, odd, 0, y.0), P3En3::V1(y) => alt(lo, hi, odd, 1, y.0), P3En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P3En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P3En4::V0(y) => alt(lo, hi, odd, 0, y.0), P3En4::V1(y) => alt(lo, hi, odd, 1, y.0), P3En4::V2(y) => alt(lo, hi, odd, 2, y.0), P3En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P3En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P3En6::V0(y) => alt(lo, hi, odd, 0, y.0), P3En6::V1(y) => alt(lo, hi, odd, 1, y.0), P3En6::V2(y) => alt(lo, hi, odd, 2, y.0), P3En6::V3(y) => alt(lo, hi, odd, 3, y.0), P3En6::V4(y) => alt(lo, hi, odd, 4, y.0), P3En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P3Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P3Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P3En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P3En8::V0(y) => alt(lo, hi, odd, 0, y.0), P3En8::V1(y) => alt(lo, hi, odd, 1, y.0), P3En8::V2(y) => alt(lo, hi, odd, 2, y.0), P3En8::V3(y) => alt(lo, hi, odd, 3, y.0), P3En8::V4(y) => alt(lo, hi, odd, 4, y.0), P3En8::V5(y) => alt(lo, hi, odd, 5, y.0), P3En8::V6(y) => alt(lo, hi, odd, 6, y.0), P3En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P3En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P3En11::V0(y) => alt(lo, hi, odd, 0, y.0), P3En11::V1(y) => alt(lo, hi, odd, 1, y.0), P3En11::V2(y) => alt(lo, hi, odd, 2, y.0), P3En11::V3(y) => alt(lo, hi, odd, 3, y.0), P3En11::V4(y) => alt(lo, hi, odd, 4, y.0), P3En11::V5(y) => alt(lo, hi, odd, 5, y.0), P3En11::V6(y) => alt(lo, hi, odd, 6, y.0), P3En11::V7(y) => alt(lo, hi, odd, 7, y.0), P3En11::V8(y) => alt(lo, hi, odd, 8, y.0), P3En11::V9(y) => alt(lo, hi, odd, 9, y.0), P3En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P3Ts1 as Produce>::prod_id(),
5 => <P3Ts2 as Produce>::prod_id(),
6 => <P3Ts3 as Produce>::prod_id(),
7 => <P3Ts5 as Produce>::prod_id(),
8 => <P3Ns1 as Produce>::prod_id(),
9 => <P3Ns2 as Produce>::prod_id(),
10 => <P3Ns4 as Produce>::prod_id(),
11 => <P3En2 as Produce>::prod_id(),
12 => <P3En3 as Produce>::prod_id(),
13 => <P3En4 as Produce>::prod_id(),
14 => <P3En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P3Ts8 as Produce>::prod_id(),
32 => <P3Ns7 as Produce>::prod_id(),
33 => <P3En8 as Produce>::prod_id(),
34 => <P3En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P3Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P3Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P3Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P3Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P3Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P3Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P3Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P3En2 as Produce>::Prod as Production>::register(b),
12 => <<P3En3 as Produce>::Prod as Production>::register(b),
13 => <<P3En4 as Produce>::Prod as Production>::register(b),
14 => <<P3En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P3Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P3Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P3En8 as Produce>::Prod as Production>::register(b),
34 => <<P3En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub mod p4 {
use super::*;
type S0 = Slot<4, 0>;
type S1 = Slot<4, 1>;
type S2 = Slot<4, 2>;
type S3 = Slot<4, 3>;
type S4 = Slot<4, 4>;
type S5 = Slot<4, 5>;
type S6 = Slot<4, 6>;
type S7 = Slot<4, 7>;
type S8 = Slot<4, 8>;
type S9 = Slot<4, 9>;
type S10 = Slot<4, 10>;
#[derive_syntax]
pub struct P4Ts1(#[teleparse(semantic(SemB, Num))] pub S0);
#[derive_syntax]
pub struct P4Ts2(#[teleparse(semantic(SemB, Num))] pub S0, #[teleparse(semantic(SemA, SemC))] pub S1);
#[derive_syntax]
pub struct P4Ts3(#[teleparse(semantic(SemA))] pub S0, pub S1, #[teleparse(semantic(SemB))] pub S2);
#[derive_syntax]
pub struct P4Ts5(#[teleparse(semantic(SemB))] pub S0, #[teleparse(semantic(SemB, Num))] pub S1, #[teleparse(semantic(SemA, SemC))] pub S2, pub S3, #[teleparse(semantic(SemB))] pub S4);
#[derive_syntax]
pub struct P4Ns1 {pub f0: S0}
#[derive_syntax]
pub struct P4Ns2 {#[teleparse(semantic(SemB, Num))] pub f0: S0, pub f1: S1}
#[derive_syntax]
pub struct P4Ns4 {#[teleparse(semantic(SemA, SemC))] pub f0: S0, #[teleparse(semantic(SemB))] pub f1: S1, #[teleparse(semantic(SemB, Num))] pub f2: S2, pub f3: S3}
#[derive_syntax]
pub enum P4En2 {#[teleparse(semantic(SemA, SemC))] V0(S0), V1(S1)}
#[derive_syntax]
pub enum P4En3 {#[teleparse(semantic(SemB, Num))] V0(S0), #[teleparse(semantic(SemB))] V1(S1), #[teleparse(semantic(SemB))] V2(S2)}
#[derive_syntax]
pub enum P4En4 {#[teleparse(semantic(SemA))] V0(S0), V1(S1), #[teleparse(semantic(Id))] V2(S2), #[teleparse(semantic(SemB))] V3(S3)}
#[derive_syntax]
pub enum P4En6 {V0(S0), V1(S1), #[teleparse(semantic(SemC))] V2(S2), #[teleparse(semantic(SemA, SemC))] V3(S3), #[teleparse(semantic(SemB, Num))] V4(S4), #[teleparse(semantic(SemA, SemC))] V5(S5)}
#[derive_syntax]
pub struct P4Ts8(#[teleparse(semantic(SemA, SemC))] pub S0, #[teleparse(semantic(Id))] pub S1, pub S2, #[teleparse(semantic(Id))] pub S3, pub S4, pub S5, pub S6, #[teleparse(semantic(Id))] pub S7);
#[derive_syntax]
pub struct P4Ns7 {pub f0: S0, pub f1: S1, pub f2: S2, #[teleparse(semantic(SemB, Num))] pub f3: S3, #[teleparse(semantic(SemB, Num))] pub f4: S4, #[teleparse(semantic(SemA, SemC))] pub f5: S5, #[teleparse(semantic(SemA, SemC))] pub f6: S6}
#[derive_syntax]
pub enum P4En8 {V0(S0), V1(S1), V2(S2), V3(S3), #[teleparse(semantic(SemA))] V4(S4), #[teleparse(semantic(SemB))] V5(S5), V6(S6), V7(S7)}
#[derive_syntax]
pub enum P4En11 {#[teleparse(semantic(SemB, Num))] V0(S0), V1(S1), #[teleparse(semantic(SemB))] V2(S2), V3(S3), V4(S4), #[teleparse(semantic(SemA))] V5(S5), V6(S6), #[teleparse(semantic(SemC))] V7(S7), #[teleparse(semantic(SemB))] V8(S8), #[teleparse(semantic(SemA))] V9(S9), #[teleparse(semantic(SemB, Num))] V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P4Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P4Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P4Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P4Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P4Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P4Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P4Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P4En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P4En2::V0(y) => alt(lo, hi, odd, 0, y.0), P4En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P4En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P4En3::V0(y) => alt(lo, hi, odd, 0, y.0), P4En3::V1(y) => alt(lo, hi, odd, 1, y.0), P4En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P4En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P4En4::V0(y) => alt(lo, hi, odd, 0, y.0), P4En4::V1(y) => alt(lo, hi, odd, 1, y.0), P4En4::V2(y) => alt(lo, hi, odd, 2, y.0), P4En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P4En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P4En6::V0(y) => alt(lo, hi, odd, 0, y.0), P4En6::V1(y) => alt(lo, hi, odd, 1, y.0), P4En6::V2(y) => alt(lo, hi, odd, 2, y.0), P4En6::V3(y) => alt(lo, hi, odd, 3, y.0), P4En6::V4(y) => alt(lo, hi, odd, 4, y.0), P4En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P4Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P4Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P4En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P4En8::V0(y) => alt(lo, hi, odd, 0, y.0), P4En8::V1(y) => alt(lo, hi, odd, 1, y.0), P4En8::V2(y) => alt(lo, hi, odd, 2, y.0), P4En8::V3(y) => alt(lo, hi, odd, 3, y.0), P4En8::V4(y) => alt(lo, hi, odd, 4, y.0), P4En8::V5(y) => alt(lo, hi, odd, 5, y.0), P4En8::V6(y) => alt(lo, hi, odd, 6, y.0), P4En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P4En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P4En11::V0(y) => alt(lo, hi, odd, 0, y.0), P4En11::V1(y) => alt(lo, hi, odd, 1, y.0), P4En11::V2(y) => alt(lo, hi, odd, 2, y.0), P4En11::V3(y) => alt(lo, hi, odd, 3, y.0), P4En11::V4(y) => alt(lo, hi, odd, 4, y.0), P4En11::V5(y) => alt(lo, hi, odd, 5, y.0), P4En11::V6(y) => alt(lo, hi, odd, 6, y.0), P4En11::V7(y) => alt(lo, hi, odd, 7, y.0), P4En11::V8(y) => alt(lo, hi, odd, 8, y.0), P4En11::V9(y) => alt(lo, hi, odd, 9, y.0), P4En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P4Ts1 as Produce>::prod_id(),
5 => <P4Ts2 as Produce>::prod_id(),
6 => <P4Ts3 as Produce>::prod_id(),
7 => <P4Ts5 as Produce>::prod_id(),
8 => <P4Ns1 as Produce>::prod_id(),
9 => <P4Ns2 as Produce>::prod_id(),
10 => <P4Ns4 as Produce>::prod_id(),
11 => <P4En2 as Produce>::prod_id(),
12 => <P4En3 as Produce>::prod_id(),
13 => <P4En4 as Produce>::prod_id(),
14 => <P4En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P4Ts8 as Produce>::prod_id(),
32 => <P4Ns7 as Produce>::prod_id(),
33 => <P4En8 as Produce>::prod_id(),
34 => <P4En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P4Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P4Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P4Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P4Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P4Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P4Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P4Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P4En2 as Produce>::Prod as Production>::register(b),
12 => <<P4En3 as Produce>::Prod as Production>::register(b),
13 => <<P4En4 as Produce>::Prod as Production>::register(b),
14 => <<P4En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P4Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P4Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P4En8 as Produce>::Prod as Production>::register(b),
34 => <<P4En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub mod p5 {
use super::*;
type S0 = Slot<5, 0>;
type S1 = Slot<5, 1>;
type S2 = Slot<5, 2>;
type S3 = Slot<5, 3>;
type S4 = Slot<5, 4>;
type S5 = Slot<5, 5>;
type S6 = Slot<5, 6>;
type S7 = Slot<5, 7>;
type S8 = Slot<5, 8>;
type S9 = Slot<5, 9>;
type S10 = Slot<5, 10>;
#[derive_syntax]
pub struct P5Ts1(pub S0);
#[derive_syntax]
pub struct P5Ts2(#[teleparse(semantic(Id))] pub S0, #[teleparse(semantic(SemC))] pub S1);
#[derive_syntax]
pub struct P5Ts3(#[teleparse(semantic(Id))] pub S0, #[teleparse(semantic(SemB, Num))] pub S1, pub S2);
#[derive_syntax]
pub struct P5Ts5(#[teleparse(semantic(SemA))] pub S0, #[teleparse(semantic(SemC))] pub S1, pub S2, pub S3, #[teleparse(semantic(SemA, SemC))] pub S4);
#[derive_syntax]
pub struct P5Ns1 {#[teleparse(semantic(Id))] pub f0: S0}
#[derive_syntax]
pub struct P5Ns2 {pub f0: S0, #[teleparse(semantic(SemA))] pub f1: S1}
#[derive_syntax]
pub struct P5Ns4 {pub f0: S0, #[teleparse(semantic(SemC))] pub f1: S1, pub f2: S2, pub f3: S3}
#[derive_syntax]
pub enum P5En2 {#[teleparse(semantic(SemB))] V0(S0), V1(S1)}
#[derive_syntax]
pub enum P5En3 {#[teleparse(semantic(SemB, Num))] V0(S0), #[teleparse(semantic(SemA))] V1(S1), #[teleparse(semantic(SemC))] V2(S2)}
#[derive_syntax]
pub enum P5En4 {V0(S0), #[teleparse(semantic(SemA))] V1(S1), #[teleparse(semantic(SemA, SemC))] V2(S2), V3(S3)}
#[derive_syntax]
pub enum P5En6 {V0(S0), V1(S1), #[teleparse(semantic(SemB, Num))] V2(S2), #[teleparse(semantic(Id))] V3(S3), #[teleparse(semantic(SemB, Num))] V4(S4), #[teleparse(semantic(SemA))] V5(S5)}
#[derive_syntax]
pub struct P5Ts8(#[teleparse(semantic(SemC))] pub S0, pub S1, #[teleparse(semantic(SemC))] pub S2, #[teleparse(semantic(SemC))] pub S3, #[teleparse(semantic(SemC))] pub S4, pub S5, #[teleparse(semantic(Id))] pub S6, #[teleparse(semantic(Id))] pub S7);
#[derive_syntax]
pub struct P5Ns7 {pub f0: S0, #[teleparse(semantic(Id))] pub f1: S1, pub f2: S2, #[teleparse(semantic(SemC))] pub f3: S3, #[teleparse(semantic(Id))] pub f4: S4, pub f5: S5, pub f6: S6}
#[derive_syntax]
pub enum P5En8 {#[teleparse(semantic(SemB, Num))] V0(S0), #[teleparse(semantic(SemA, SemC))] V1(S1), #[teleparse(semantic(SemC))] V2(S2), #[teleparse(semantic(Id))] V3(S3), #[teleparse(semantic(SemA, SemC))] V4(S4), #[teleparse(semantic(SemA, SemC))] V5(S5), #[teleparse(semantic(SemA))] V6(S6), V7(S7)}
#[derive_syntax]
pub enum P5En11 {V0(S0), V1(S1), #[teleparse(semantic(SemC))] V2(S2), V3(S3), #[teleparse(semantic(SemA))] V4(S4), #[teleparse(semantic(SemB, Num))] V5(S5), #[teleparse(semantic(SemA))] V6(S6), #[teleparse(semantic(SemA))] V7(S7), #[teleparse(semantic(SemA, SemC))] V8(S8), #[teleparse(semantic(SemA))] V9(S9), #[teleparse(semantic(SemB))] V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P5Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P5Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P5Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P5Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P5Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P5Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P5Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P5En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P5En2::V0(y) => alt(lo, hi, odd, 0, y.0), P5En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P5En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P5En3::V0(y) => alt(lo, hi, odd, 0, y.0), P5En3::V1(y) => alt(lo, hi, odd, 1, y.0), P5En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P5En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P5En4::V0(y) => alt(lo, hi, odd, 0, y.0), P5En4::V1(y) => alt(lo, hi, odd, 1, y.0), P5En4::V2(y) => alt(lo, hi, odd, 2, y.0), P5En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P5En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P5En6::V0(y) => alt(lo, hi, odd, 0, y.0), P5En6::V1(y) => alt(lo, hi, odd, 1, y.0), P5En6::V2(y) => alt(lo, hi, odd, 2, y.0), P5En6::V3(y) => alt(lo, hi, odd, 3, y.0), P5En6::V4(y) => alt(lo, hi, odd, 4, y.0), P5En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P5Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P5Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P5En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P5En8::V0(y) => alt(lo, hi, odd, 0, y.0), P5En8::V1(y) => alt(lo, hi, odd, 1, y.0), P5En8::V2(y) => alt(lo, hi, odd, 2, y.0), P5En8::V3(y) => alt(lo, hi, odd, 3, y.0), P5En8::V4(y) => alt(lo, hi, odd, 4, y.0), P5En8::V5(y) => alt(lo, hi, odd, 5, y.0), P5En8::V6(y) => alt(lo, hi, odd, 6, y.0), P5En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P5En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P5En11::V0(y) => alt(lo, hi, odd, 0, y.0), P5En11::V1(y) => alt(lo, hi, odd, 1, y.0), P5En11::V2(y) => alt(lo, hi, odd, 2, y.0), P5En11::V3(y) => alt(lo, hi, odd, 3, y.0), P5En11::V4(y) => alt(lo, hi, odd, 4, y.0), P5En11::V5(y) => alt(lo, hi, odd, 5, y.0), P5En11::V6(y) => alt(lo, hi, odd, 6, y.0), P5En11::V7(y) => alt(lo, hi, odd, 7, y.0), P5En11::V8(y) => alt(lo, hi, odd, 8, y.0), P5En11::V9(y) => alt(lo, hi, odd, 9, y.0), P5En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P5Ts1 as Produce>::prod_id(),
5 => <P5Ts2 as Produce>::prod_id(),
6 => <P5Ts3 as Produce>::prod_id(),
7 => <P5Ts5 as Produce>::prod_id(),
8 => <P5Ns1 as Produce>::prod_id(),
9 => <P5Ns2 as Produce>::prod_id(),
10 => <P5Ns4 as Produce>::prod_id(),
11 => <P5En2 as Produce>::prod_id(),
12 => <P5En3 as Produce>::prod_id(),
13 => <P5En4 as Produce>::prod_id(),
14 => <P5En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P5Ts8 as Produce>::prod_id(),
32 => <P5Ns7 as Produce>::prod_id(),
33 => <P5En8 as Produce>::prod_id(),
34 => <P5En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P5Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P5Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P5Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P5Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P5Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P5Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P5Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P5En2 as Produce>::Prod as Production>::register(b),
12 => <<P5En3 as Produce>::Prod as Production>::register(b),
13 => <<P5En4 as Produce>::Prod as Production>::register(b),
14 => <<P5En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P5Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P5Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P5En8 as Produce>::Prod as Production>::register(b),
34 => <<P5En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub mod p6 {
use super::*;
type S0 = Slot<6, 0>;
type S1 = Slot<6, 1>;
type S2 = Slot<6, 2>;
type S3 = Slot<6, 3>;
type S4 = Slot<6, 4>;
type S5 = Slot<6, 5>;
type S6 = Slot<6, 6>;
type S7 = Slot<6, 7>;
type S8 = Slot<6, 8>;
type S9 = Slot<6, 9>;
type S10 = Slot<6, 10>;
#[derive_syntax]
pub struct P6Ts1(#[teleparse(semantic(SemB))] pub S0);
#[derive_syntax]
pub struct P6Ts2(pub S0, #[teleparse(semantic(Id))] pub S1);
#[derive_syntax]
pub struct P6Ts3(pub S0, pub S1, #[teleparse(semantic(SemB, Num))] pub S2);
#[derive_syntax]
pub struct P6Ts5(pub S0, #[teleparse(semantic(SemB, Num))] pub S1, #[teleparse(semantic(Id))] pub S2, pub S3, #[teleparse(semantic(SemB))] pub S4);
#[derive_syntax]
pub struct P6Ns1 {pub f0: S0}
#[derive_syntax]
pub struct P6Ns2 {#[teleparse(semantic(SemA))] pub f0: S0, #[teleparse(semantic(SemB, Num))] pub f1: S1}
#[derive_syntax]
pub struct P6Ns4 {#[teleparse(semantic(SemB, Num))] pub f0: S0, pub f1: S1, #[teleparse(semantic(SemB, Num))] pub f2: S2, pub f3: S3}
#[derive_syntax]
pub enum P6En2 {#[teleparse(semantic(SemC))] V0(S0), #[teleparse(semantic(Id))] V1(S1)}
#[derive_syntax]
pub enum P6En3 {#[teleparse(semantic(SemB, Num))] V0(S0), #[teleparse(semantic(SemC))] V1(S1), #[teleparse(semantic(SemB))] V2(S2)}
#[derive_syntax]
pub enum P6En4 {#[teleparse(semantic(Id))] V0(S0), V1(S1), #[teleparse(semantic(SemA, SemC))] V2(S2), #[teleparse(semantic(SemB, Num))] V3(S3)}
#[derive_syntax]
pub enum P6En6 {#[teleparse(semantic(SemA, SemC))] V0(S0), #[teleparse(semantic(SemA))] V1(S1), V2(S2), V3(S3), V4(S4), #[teleparse(semantic(SemB))] V5(S5)}
#[derive_syntax]
pub struct P6Ts8(pub S0, pub S1, #[teleparse(semantic(SemC))] pub S2, pub S3, pub S4, #[teleparse(semantic(SemB))] pub S5, pub S6, pub S7);
#[derive_syntax]
pub struct P6Ns7 {#[teleparse(semantic(SemA))] pub f0: S0, #[teleparse(semantic(Id))] pub f1: S1, #[teleparse(semantic(SemB, Num))] pub f2: S2, #[teleparse(semantic(Id))] pub f3: S3, pub f4: S4, #[teleparse(semantic(SemB))] pub f5: S5, #[teleparse(semantic(SemA, SemC))] pub f6: S6}
#[derive_syntax]
pub enum P6En8 {#[teleparse(semantic(Id))] V0(S0), V1(S1), #[teleparse(semantic(SemC))] V2(S2), #[teleparse(semantic(SemA))] V3(S3), V4(S4), V5(S5), #[teleparse(semantic(SemA))] V6(S6), V7(S7)}
#[derive_syntax]
pub enum P6En11 {#[teleparse(semantic(SemA, SemC))] V0(S0), #[teleparse(semantic(SemA))] V1(S1), #[teleparse(semantic(SemA))] V2(S2), #[teleparse(semantic(SemC))] V3(S3), #[teleparse(semantic(SemB, Num))] V4(S4), V5(S5), #[teleparse(semantic(SemA))] V6(S6), #[teleparse(semantic(SemB))] V7(S7), #[teleparse(semantic(SemA, SemC))] V8(S8), #[teleparse(semantic(SemA))] V9(S9), #[teleparse(semantic(SemB))] V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P6Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P6Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P6Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P6Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P6Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P6Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P6Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P6En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P6En2::V0(y) => alt(lo, hi, odd, 0, y.0), P6En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P6En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P6En3::V0(y) => alt(lo, hi, odd, 0, y.0), P6En3::V1(y) => alt(lo, hi, odd, 1, y.0), P6En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P6En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P6En4::V0(y) => alt(lo, hi, odd, 0, y.0), P6En4::V1(y) => alt(lo, hi, odd, 1, y.0), P6En4::V2(y) => alt(lo, hi, odd, 2, y.0), P6En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P6En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P6En6::V0(y) => alt(lo, hi, odd, 0, y.0), P6En6::V1(y) => alt(lo, hi, odd, 1, y.0), P6En6::V2(y) => alt(lo, hi, odd, 2, y.0), P6En6::V3(y) => alt(lo, hi, odd, 3, y.0), P6En6::V4(y) => alt(lo, hi, odd, 4, y.0), P6En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P6Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P6Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P6En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P6En8::V0(y) => alt(lo, hi, odd, 0, y.0), P6En8::V1(y) => alt(lo, hi, odd, 1, y.0), P6En8::V2(y) => alt(lo, hi, odd, 2, y.0), P6En8::V3(y) => alt(lo, hi, odd, 3, y.0), P6En8::V4(y) => alt(lo, hi, odd, 4, y.0), P6En8::V5(y) => alt(lo, hi, odd, 5, y.0), P6En8::V6(y) => alt(lo, hi, odd, 6, y.0), P6En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P6En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P6En11::V0(y) => alt(lo, hi, odd, 0, y.0), P6En11::V1(y) => alt(lo, hi, odd, 1, y.0), P6En11::V2(y) => alt(lo, hi, odd, 2, y.0), P6En11::V3(y) => alt(lo, hi, odd, 3, y.0), P6En11::V4(y) => alt(lo, hi, odd, 4, y.0), P6En11::V5(y) => alt(lo, hi, odd, 5, y.0), P6En11::V6(y) => alt(lo, hi, odd, 6, y.0), P6En11::V7(y) => alt(lo, hi, odd, 7, y.0), P6En11::V8(y) => alt(lo, hi, odd, 8, y.0), P6En11::V9(y) => alt(lo, hi, odd, 9, y.0), P6En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P6Ts1 as Produce>::prod_id(),
5 => <P6Ts2 as Produce>::prod_id(),
6 => <P6Ts3 as Produce>::prod_id(),
7 => <P6Ts5 as Produce>::prod_id(),
8 => <P6Ns1 as Produce>::prod_id(),
9 => <P6Ns2 as Produce>::prod_id(),
10 => <P6Ns4 as Produce>::prod_id(),
11 => <P6En2 as Produce>::prod_id(),
12 => <P6En3 as Produce>::prod_id(),
13 => <P6En4 as Produce>::prod_id(),
14 => <P6En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P6Ts8 as Produce>::prod_id(),
32 => <P6Ns7 as Produce>::prod_id(),
33 => <P6En8 as Produce>::prod_id(),
34 => <P6En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P6Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P6Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P6Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P6Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P6Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P6Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P6Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P6En2 as Produce>::Prod as Production>::register(b),
12 => <<P6En3 as Produce>::Prod as Production>::register(b),
13 => <<P6En4 as Produce>::Prod as Production>::register(b),
14 => <<P6En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P6Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P6Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P6En8 as Produce>::Prod as Production>::register(b),
34 => <<P6En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub mod p7 {
use super::*;
type S0 = Slot<7, 0>;
type S1 = Slot<7, 1>;
type S2 = Slot<7, 2>;
type S3 = Slot<7, 3>;
type S4 = Slot<7, 4>;
type S5 = Slot<7, 5>;
type S6 = Slot<7, 6>;
type S7 = Slot<7, 7>;
type S8 = Slot<7, 8>;
type S9 = Slot<7, 9>;
type S10 = Slot<7, 10>;
#[derive_syntax]
pub struct P7Ts1(#[teleparse(semantic(SemA))] pub S0);
#[derive_syntax]
pub struct P7Ts2(pub S0, #[teleparse(semantic(SemB))] pub S1);
#[derive_syntax]
pub struct P7Ts3(#[teleparse(semantic(SemA, SemC))] pub S0, #[teleparse(semantic(SemB, Num))] pub S1, #[teleparse(semantic(SemA, SemC))] pub S2);
#[derive_syntax]
pub struct P7Ts5(#[teleparse(semantic(SemB, Num))] pub S0, #[teleparse(semantic(Id))] pub S1, #[teleparse(semantic(SemA))] pub S2, #[teleparse(semantic(SemA, SemC))] pub S3, #[teleparse(semantic(SemA, SemC))] pub S4);
#[derive_syntax]
pub struct P7Ns1 {#[teleparse(semantic(SemB, Num))] pub f0: S0}
#[derive_syntax]
pub struct P7Ns2 {pub f0: S0, #[teleparse(semantic(SemB, Num))] pub f1: S1}
#[derive_syntax]
pub struct P7Ns4 {pub f0: S0, #[teleparse(semantic(SemA))] pub f1: S1, #[teleparse(semantic(SemC))] pub f2: S2, #[teleparse(semantic(SemB))] pub f3: S3}
#[derive_syntax]
pub enum P7En2 {#[teleparse(semantic(SemB))] V0(S0), #[teleparse(semantic(SemA, SemC))] V1(S1)}
#[derive_syntax]
pub enum P7En3 {#[teleparse(semantic(SemA, SemC))] V0(S0), V1(S1), #[teleparse(semantic(SemC))] V2(S2)}
#[derive_syntax]
pub enum P7En4 {#[teleparse(semantic(SemA, SemC))] V0(S0), #[teleparse(semantic(Id))] V1(S1), V2(S2), #[teleparse(semantic(SemB))] V3(S3)}
#[derive_syntax]
pub enum P7En6 {#[teleparse(semantic(Id))] V0(S0), #[teleparse(semantic(SemA))] V1(S1), #[teleparse(semantic(SemB))] V2(S2), V3(S3), V4(S4), V5(S5)}
#[derive_syntax]
pub struct P7Ts8(pub S0, pub S1, #[teleparse(semantic(SemB))] pub S2, pub S3, #[teleparse(semantic(SemC))] pub S4, #[teleparse(semantic(SemB))] pub S5, pub S6, #[teleparse(semantic(SemC))] pub S7);
#[derive_syntax]
pub struct P7Ns7 {#[teleparse(semantic(SemA, SemC))] pub f0: S0, #[teleparse(semantic(SemB))] pub f1: S1, #[teleparse(semantic(SemB))] pub f2: S2, #[teleparse(semantic(SemC))] pub f3: S3, pub f4: S4, pub f5: S5, #[teleparse(semantic(SemC))] pub f6: S6}
#[derive_syntax]
pub enum P7En8 {#[teleparse(semantic(SemB, Num))] V0(S0), #[teleparse(semantic(Id))] V1(S1), #[teleparse(semantic(SemB))] V2(S2), #[teleparse(semantic(SemA, SemC))] V3(S3), #[teleparse(semantic(SemA, SemC))] V4(S4), #[teleparse(semantic(SemB, Num))] V5(S5), #[teleparse(semantic(Id))] V6(S6), V7(S7)}
#[derive_syntax]
pub enum P7En11 {V0(S0), #[teleparse(semantic(SemA, SemC))] V1(S1), #[teleparse(semantic(SemA, SemC))] V2(S2), #[teleparse(semantic(SemB, Num))] V3(S3), V4(S4), #[teleparse(semantic(SemB, Num))] V5(S5), #[teleparse(semantic(SemA))] V6(S6), V7(S7), #[teleparse(semantic(SemB))] V8(S8), #[teleparse(semantic(SemA, SemC))] V9(S9), V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P7Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P7Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P7Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P7Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P7Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P7Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P7Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P7En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P7En2::V0(y) => alt(lo, hi, odd, 0, y.0), P7En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P7En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P7En3::V0(y) => alt(lo, hi, odd, 0, y.0), P7En3::V1(y) => alt(lo, hi, odd, 1, y.0), P7En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P7En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P7En4::V0(y) => alt(lo, hi, odd, 0, y.0), P7En4::V1(y) => alt(lo, hi, odd, 1, y.0), P7En4::V2(y) => alt(lo, hi, odd, 2, y.0), P7En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P7En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P7En6::V0(y) => alt(lo, hi, odd, 0, y.0), P7En6::V1(y) => alt(lo, hi, odd, 1, y.0), P7En6::V2(y) => alt(lo, hi, odd, 2, y.0), P7En6::V3(y) => alt(lo, hi, odd, 3, y.0), P7En6::V4(y) => alt(lo, hi, odd, 4, y.0), P7En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P7Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P7Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P7En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P7En8::V0(y) => alt(lo, hi, odd, 0, y.0), P7En8::V1(y) => alt(lo, hi, odd, 1, y.0), P7En8::V2(y) => alt(lo, hi, odd, 2, y.0), P7En8::V3(y) => alt(lo, hi, odd, 3, y.0), P7En8::V4(y) => alt(lo, hi, odd, 4, y.0), P7En8::V5(y) => alt(lo, hi, odd, 5, y.0), P7En8::V6(y) => alt(lo, hi, odd, 6, y.0), P7En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P7En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P7En11::V0(y) => alt(lo, hi, odd, 0, y.0), P7En11::V1(y) => alt(lo, hi, odd, 1, y.0), P7En11::V2(y) => alt(lo, hi, odd, 2, y.0), P7En11::V3(y) => alt(lo, hi, odd, 3, y.0), P7En11::V4(y) => alt(lo, hi, odd, 4, y.0), P7En11::V5(y) => alt(lo, hi, odd, 5, y.0), P7En11::V6(y) => alt(lo, hi, odd, 6, y.0), P7En11::V7(y) => alt(lo, hi, odd, 7, y.0), P7En11::V8(y) => alt(lo, hi, odd, 8, y.0), P7En11::V9(y) => alt(lo, hi, odd, 9, y.0), P7En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P7Ts1 as Produce>::prod_id(),
5 => <P7Ts2 as Produce>::prod_id(),
6 => <P7Ts3 as Produce>::prod_id(),
7 => <P7Ts5 as Produce>::prod_id(),
8 => <P7Ns1 as Produce>::prod_id(),
9 => <P7Ns2 as Produce>::prod_id(),
10 => <P7Ns4 as Produce>::prod_id(),
11 => <P7En2 as Produce>::prod_id(),
12 => <P7En3 as Produce>::prod_id(),
13 => <P7En4 as Produce>::prod_id(),
14 => <P7En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P7Ts8 as Produce>::prod_id(),
32 => <P7Ns7 as Produce>::prod_id(),
33 => <P7En8 as Produce>::prod_id(),
34 => <P7En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P7Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P7Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P7Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P7Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P7Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P7Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P7Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P7En2 as Produce>::Prod as Production>::register(b),
12 => <<P7En3 as Produce>::Prod as Production>::register(b),
13 => <<P7En4 as Produce>::Prod as Production>::register(b),
14 => <<P7En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P7Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P7Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P7En8 as Produce>::Prod as Production>::register(b),
34 => <<P7En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub mod p8 {
use super::*;
type S0 = Slot<8, 0>;
type S1 = Slot<8, 1>;
type S2 = Slot<8, 2>;
type S3 = Slot<8, 3>;
type S4 = Slot<8, 4>;
type S5 = Slot<8, 5>;
type S6 = Slot<8, 6>;
type S7 = Slot<8, 7>;
type S8 = Slot<8, 8>;
type S9 = Slot<8, 9>;
type S10 = Slot<8, 10>;
#[derive_syntax]
pub struct P8Ts1(#[teleparse(semantic(Id))] pub S0);
#[derive_syntax]
pub struct P8Ts2(#[teleparse(semantic(SemB))] pub S0, #[teleparse(semantic(SemC))] pub S1);
#[derive_syntax]
pub struct P8Ts3(#[teleparse(semantic(SemB))] pub S0, #[teleparse(semantic(SemA))] pub S1, #[teleparse(semantic(SemC))] pub S2);
#[derive_syntax]
pub struct P8Ts5(pub S0, #[teleparse(semantic(SemA, SemC))] pub S1, pub S2, #[teleparse(semantic(Id))] pub S3, #[teleparse(semantic(Id))] pub S4);
#[derive_syntax]
pub struct P8Ns1 {#[teleparse(semantic(SemB))] pub f0: S0}
#[derive_syntax]
pub struct P8Ns2 {#[teleparse(semantic(SemC))] pub f0: S0, #[teleparse(semantic(Id))] pub f1: S1}
#[derive_syntax]
pub struct P8Ns4 {#[teleparse(semantic(SemA, SemC))] pub f0: S0, pub f1: S1, #[teleparse(semantic(SemB))] pub f2: S2, #[teleparse(semantic(SemB, Num))] pub f3: S3}
#[derive_syntax]
pub enum P8En2 {V0(S0), #[teleparse(semantic(SemA))] V1(S1)}
#[derive_syntax]
pub enum P8En3 {#[teleparse(semantic(SemC))] V0(S0), #[teleparse(semantic(SemA))] V1(S1), V2(S2)}
#[derive_syntax]
pub enum P8En4 {V0(S0), V1(S1), #[teleparse(semantic(SemA))] V2(S2), #[teleparse(semantic(SemA, SemC))] V3(S3)}
#[derive_syntax]
pub enum P8En6 {#[teleparse(semantic(SemB, Num))] V0(S0), V1(S1), #[teleparse(semantic(SemB))] V2(S2), #[teleparse(semantic(SemB, Num))] V3(S3), #[teleparse(semantic(SemA, SemC))] V4(S4), #[teleparse(semantic(SemB))] V5(S5)}
#[derive_syntax]
pub struct P8Ts8(pub S0, pub S1, pub S2, #[teleparse(semantic(SemB))] pub S3, #[teleparse(semantic(Id))] pub S4, #[teleparse(semantic(SemA))] pub S5, pub S6, #[teleparse(semantic(SemB, Num))] pub S7);
#[derive_syntax]
pub struct P8Ns7 {#[teleparse(semantic(SemA))] pub f0: S0, #[teleparse(semantic(SemB, Num))] pub f1: S1, pub f2: S2, #[teleparse(semantic(SemB))] pub f3: S3, pub f4: S4, pub f5: S5, #[teleparse(semantic(SemB, Num))] pub f6: S6}
#[derive_syntax]
pub enum P8En8 {#[teleparse(semantic(SemA, SemC))] V0(S0), V1(S1), #[teleparse(semantic(SemB, Num))] V2(S2), #[teleparse(semantic(SemA))] V3(S3), #[teleparse(semantic(SemB))] V4(S4), #[teleparse(semantic(SemC))] V5(S5), #[teleparse(semantic(SemA, SemC))] V6(S6), V7(S7)}
#[derive_syntax]
pub enum P8En11 {#[teleparse(semantic(SemB))] V0(S0), #[teleparse(semantic(SemA))] V1(S1), #[teleparse(semantic(SemB))] V2(S2), V3(S3), #[teleparse(semantic(SemA, SemC))] V4(S4), V5(S5), V6(S6), #[teleparse(semantic(SemC))] V7(S7), V8(S8), #[teleparse(semantic(SemC))] V9(S9), #[teleparse(semantic(SemC))] V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P8Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P8Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P8Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P8Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P8Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P8Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P8Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P8En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P8En2::V0(y) => alt(lo, hi, odd, 0, y.0), P8En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P8En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P8En3::V0(y) => alt(lo, hi, odd, 0, y.0), P8En3::V1(y) => alt(lo, hi, odd, 1, y.0), P8En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P8En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P8En4::V0(y) => alt(lo, hi, odd, 0, y.0), P8En4::V1(y) => alt(lo, hi, odd, 1, y.0), P8En4::V2(y) => alt(lo, hi, odd, 2, y.0), P8En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P8En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P8En6::V0(y) => alt(lo, hi, odd, 0, y.0), P8En6::V1(y) => alt(lo, hi, odd, 1, y.0), P8En6::V2(y) => alt(lo, hi, odd, 2, y.0), P8En6::V3(y) => alt(lo, hi, odd, 3, y.0), P8En6::V4(y) => alt(lo, hi, odd, 4, y.0), P8En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P8Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P8Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P8En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P8En8::V0(y) => alt(lo, hi, odd, 0, y.0), P8En8::V1(y) => alt(lo, hi, odd, 1, y.0), P8En8::V2(y) => alt(lo, hi, odd, 2, y.0), P8En8::V3(y) => alt(lo, hi, odd, 3, y.0), P8En8::V4(y) => alt(lo, hi, odd, 4, y.0), P8En8::V5(y) => alt(lo, hi, odd, 5, y.0), P8En8::V6(y) => alt(lo, hi, odd, 6, y.0), P8En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P8En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P8En11::V0(y) => alt(lo, hi, odd, 0, y.0), P8En11::V1(y) => alt(lo, hi, odd, 1, y.0), P8En11::V2(y) => alt(lo, hi, odd, 2, y.0), P8En11::V3(y) => alt(lo, hi, odd, 3, y.0), P8En11::V4(y) => alt(lo, hi, odd, 4, y.0), P8En11::V5(y) => alt(lo, hi, odd, 5, y.0), P8En11::V6(y) => alt(lo, hi, odd, 6, y.0), P8En11::V7(y) => alt(lo, hi, odd, 7, y.0), P8En11::V8(y) => alt(lo, hi, odd, 8, y.0), P8En11::V9(y) => alt(lo, hi, odd, 9, y.0), P8En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P8Ts1 as Produce>::prod_id(),
5 => <P8Ts2 as Produce>::prod_id(),
6 => <P8Ts3 as Produce>::prod_id(),
7 => <P8Ts5 as Produce>::prod_id(),
8 => <P8Ns1 as Produce>::prod_id(),
9 => <P8Ns2 as Produce>::prod_id(),
10 => <P8Ns4 as Produce>::prod_id(),
11 => <P8En2 as Produce>::prod_id(),
12 => <P8En3 as Produce>::prod_id(),
13 => <P8En4 as Produce>::prod_id(),
14 => <P8En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P8Ts8 as Produce>::prod_id(),
32 => <P8Ns7 as Produce>::prod_id(),
33 => <P8En8 as Produce>::prod_id(),
34 => <P8En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P8Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P8Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P8Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P8Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P8Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P8Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P8Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P8En2 as Produce>::Prod as Production>::register(b),
12 => <<P8En3 as Produce>::Prod as Production>::register(b),
13 => <<P8En4 as Produce>::Prod as Production>::register(b),
14 => <<P8En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P8Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P8Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P8En8 as Produce>::Prod as Production>::register(b),
34 => <<P8En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub mod p9 {
use super::*;
type S0 = Slot<9, 0>;
type S1 = Slot<9, 1>;
type S2 = Slot<9, 2>;
type S3 = Slot<9, 3>;
type S4 = Slot<9, 4>;
type S5 = Slot<9, 5>;
type S6 = Slot<9, 6>;
type S7 = Slot<9, 7>;
type S8 = Slot<9, 8>;
type S9 = Slot<9, 9>;
type S10 = Slot<9, 10>;
#[derive_syntax]
pub struct P9Ts1(#[teleparse(semantic(SemA, SemC))] pub S0);
#[derive_syntax]
pub struct P9Ts2(pub S0, #[teleparse(semantic(SemC))] pub S1);
#[derive_syntax]
pub struct P9Ts3(#[teleparse(semantic(SemA))] pub S0, #[teleparse(semantic(SemA, SemC))] pub S1, pub S2);
#[derive_syntax]
pub struct P9Ts5(#[teleparse(semantic(SemA, SemC))] pub S0, pub S1, pub S2, #[teleparse(semantic(SemC))] pub S3, pub S4);
#[derive_syntax]
pub struct P9Ns1 {#[teleparse(semantic(SemA, SemC))] pub f0: S0}
#[derive_syntax]
pub struct P9Ns2 {#[teleparse(semantic(SemB))] pub f0: S0, #[teleparse(semantic(Id))] pub f1: S1}
#[derive_syntax]
pub struct P9Ns4 {#[teleparse(semantic(SemB))] pub f0: S0, #[teleparse(semantic(SemA, SemC))] pub f1: S1, pub f2: S2, pub f3: S3}
#[derive_syntax]
pub enum P9En2 {#[teleparse(semantic(Id))] V0(S0), V1(S1)}
#[derive_syntax]
pub enum P9En3 {V0(S0), V1(S1), #[teleparse(semantic(Id))] V2(S2)}
#[derive_syntax]
pub enum P9En4 {V0(S0), #[teleparse(semantic(SemA))] V1(S1), #[teleparse(semantic(SemB))] V2(S2), V3(S3)}
#[derive_syntax]
pub enum P9En6 {#[teleparse(semantic(SemA, SemC))] V0(S0), #[teleparse(semantic(SemC))] V1(S1), #[teleparse(semantic(SemA))] V2(S2), #[teleparse(semantic(SemC))] V3(S3), V4(S4), #[teleparse(semantic(Id))] V5(S5)}
#[derive_syntax]
pub struct P9Ts8(#[teleparse(semantic(Id))] pub S0, #[teleparse(semantic(Id))] pub S1, pub S2, #[teleparse(semantic(SemB))] pub S3, #[teleparse(semantic(SemB, Num))] pub S4, #[teleparse(semantic(SemB))] pub S5, pub S6, #[teleparse(semantic(SemA))] pub S7);
#[derive_syntax]
pub struct P9Ns7 {#[teleparse(semantic(Id))] pub f0: S0, #[teleparse(semantic(SemB, Num))] pub f1: S1, #[teleparse(semantic(SemB))] pub f2: S2, #[teleparse(semantic(SemC))] pub f3: S3, pub f4: S4, pub f5: S5, #[teleparse(semantic(SemA, SemC))] pub f6: S6}
#[derive_syntax]
pub enum P9En8 {#[teleparse(semantic(SemC))] V0(S0), #[teleparse(semantic(SemB))] V1(S1), #[teleparse(semantic(Id))] V2(S2), #[teleparse(semantic(SemA, SemC))] V3(S3), #[teleparse(semantic(SemB))] V4(S4), #[teleparse(semantic(SemA, SemC))] V5(S5), #[teleparse(semantic(SemA, SemC))] V6(S6), #[teleparse(semantic(SemB))] V7(S7)}
#[derive_syntax]
pub enum P9En11 {#[teleparse(semantic(SemB, Num))] V0(S0), #[teleparse(semantic(SemB, Num))] V1(S1), #[teleparse(semantic(SemC))] V2(S2), #[teleparse(semantic(SemA))] V3(S3), V4(S4), #[teleparse(semantic(SemA))] V5(S5), #[teleparse(semantic(SemC))] V6(S6), #[teleparse(semantic(SemB, Num))] V7(S7), V8(S8), V9(S9), V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P9Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P9Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P9Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P9Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P9Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P9Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P9Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P9En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P9En2::V0(y) => alt(lo, hi, odd, 0, y.0), P9En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P9En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P9En3::V0(y) => alt(lo, hi, odd, 0, y.0), P9En3::V1(y) => alt(lo, hi, odd, 1, y.0), P9En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P9En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P9En4::V0(y) => alt(lo, hi, odd, 0, y.0), P9En4::V1(y) => alt(lo, hi, odd, 1, y.0), P9En4::V2(y) => alt(lo, hi, odd, 2, y.0), P9En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P9En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P9En6::V0(y) => alt(lo, hi, odd, 0, y.0), P9En6::V1(y) => alt(lo, hi, odd, 1, y.0), P9En6::V2(y) => alt(lo, hi, odd, 2, y.0), P9En6::V3(y) => alt(lo, hi, odd, 3, y.0), P9En6::V4(y) => alt(lo, hi, odd, 4, y.0), P9En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P9Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P9Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P9En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P9En8::V0(y) => alt(lo, hi, odd, 0, y.0), P9En8::V1(y) => alt(lo, hi, odd, 1, y.0), P9En8::V2(y) => alt(lo, hi, odd, 2, y.0), P9En8::V3(y) => alt(lo, hi, odd, 3, y.0), P9En8::V4(y) => alt(lo, hi, odd, 4, y.0), P9En8::V5(y) => alt(lo, hi, odd, 5, y.0), P9En8::V6(y) => alt(lo, hi, odd, 6, y.0), P9En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P9En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P9En11::V0(y) => alt(lo, hi, odd, 0, y.0), P9En11::V1(y) => alt(lo, hi, odd, 1, y.0), P9En11::V2(y) => alt(lo, hi, odd, 2, y.0), P9En11::V3(y) => alt(lo, hi, odd, 3, y.0), P9En11::V4(y) => alt(lo, hi, odd, 4, y.0), P9En11::V5(y) => alt(lo, hi, odd, 5, y.0), P9En11::V6(y) => alt(lo, hi, odd, 6, y.0), P9En11::V7(y) => alt(lo, hi, odd, 7, y.0), P9En11::V8(y) => alt(lo, hi, odd, 8, y.0), P9En11::V9(y) => alt(lo, hi, odd, 9, y.0), P9En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P9Ts1 as Produce>::prod_id(),
5 => <P9Ts2 as Produce>::prod_id(),
6 => <P9Ts3 as Produce>::prod_id(),
7 => <P9Ts5 as Produce>::prod_id(),
8 => <P9Ns1 as Produce>::prod_id(),
9 => <P9Ns2 as Produce>::prod_id(),
10 => <P9Ns4 as Produce>::prod_id(),
11 => <P9En2 as Produce>::prod_id(),
12 => <P9En3 as Produce>::prod_id(),
13 => <P9En4 as Produce>::prod_id(),
14 => <P9En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P9Ts8 as Produce>::prod_id(),
32 => <P9Ns7 as Produce>::prod_id(),
33 => <P9En8 as Produce>::prod_id(),
34 => <P9En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P9Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P9Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P9Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P9Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P9Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P9Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P9Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P9En2 as Produce>::Prod as Production>::register(b),
12 => <<P9En3 as Produce>::Prod as Production>::register(b),
13 => <<P9En4 as Produce>::Prod as Production>::register(b),
14 => <<P9En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P9Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P9Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P9En8 as Produce>::Prod as Production>::register(b),
34 => <<P9En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub mod p10 {
use super::*;
type S0 = Slot<10, 0>;
type S1 = Slot<10, 1>;
type S2 = Slot<10, 2>;
type S3 = Slot<10, 3>;
type S4 = Slot<10, 4>;
type S5 = Slot<10, 5>;
type S6 = Slot<10, 6>;
type S7 = Slot<10, 7>;
type S8 = Slot<10, 8>;
type S9 = Slot<10, 9>;
type S10 = Slot<10, 10>;
#[derive_syntax]
pub struct P10Ts1(pub S0);
#[derive_syntax]
pub struct P10Ts2(#[teleparse(semantic(SemA))] pub S0, #[teleparse(semantic(SemA))] pub S1);
#[derive_syntax]
pub struct P10Ts3(#[teleparse(semantic(Id))] pub S0, #[teleparse(semantic(SemA))] pub S1, #[teleparse(semantic(SemB))] pub S2);
#[derive_syntax]
pub struct P10Ts5(#[teleparse(semantic(SemA, SemC))] pub S0, #[teleparse(semantic(SemC))] pub S1, #[teleparse(semantic(Id))] pub S2, #[teleparse(semantic(SemB))] pub S3, #[teleparse(semantic(SemA, SemC))] pub S4);
#[derive_syntax]
pub struct P10Ns1 {pub f0: S0}
#[derive_syntax]
pub struct P10Ns2 {#[teleparse(semantic(SemB))] pub f0: S0, #[teleparse(semantic(SemA))] pub f1: S1}
#[derive_syntax]
pub struct P10Ns4 {pub f0: S0, #[teleparse(semantic(SemA))] pub f1: S1, #[teleparse(semantic(SemC))] pub f2: S2, #[teleparse(semantic(SemA, SemC))] pub f3: S3}
#[derive_syntax]
pub enum P10En2 {#[teleparse(semantic(SemC))] V0(S0), #[teleparse(semantic(Id))] V1(S1)}
#[derive_syntax]
pub enum P10En3 {#[teleparse(semantic(SemA, SemC))] V0(S0), V1(S1), #[teleparse(semantic(SemA))] V2(S2)}
#[derive_syntax]
pub enum P10En4 {V0(S0), #[teleparse(semantic(SemA, SemC))] V1(S1), #[teleparse(semantic(SemB, Num))] V2(S2), #[teleparse(semantic(SemB))] V3(S3)}
#[derive_syntax]
pub enum P10En6 {V0(S0), #[teleparse(semantic(SemB))] V1(S1), V2(S2), #[teleparse(semantic(Id))] V3(S3), #[teleparse(semantic(SemB, Num))] V4(S4), #[teleparse(semantic(SemB))] V5(S5)}
#[derive_syntax]
pub struct P10Ts8(pub S0, pub S1, pub S2, #[teleparse(semantic(SemA, SemC))] pub S3, pub S4, #[teleparse(semantic(SemA, SemC))] pub S5, #[teleparse(semantic(SemB, Num))] pub S6, #[teleparse(semantic(SemB))] pub S7);
#[derive_syntax]
pub struct P10Ns7 {pub f0: S0, #[teleparse(semantic(Id))] pub f1: S1, #[teleparse(semantic(SemC))] pub f2: S2, #[teleparse(semantic(SemC))] pub f3: S3, #[teleparse(semantic(SemB, Num))] pub f4: S4, pub f5: S5, pub f6: S6}
#[derive_syntax]
pub enum P10En8 {#[teleparse(semantic(SemC))] V0(S0), V1(S1), #[teleparse(semantic(SemA))] V2(S2), #[teleparse(semantic(SemA))] V3(S3), #[teleparse(semantic(SemA))] V4(S4), #[teleparse(semantic(SemA, SemC))] V5(S5), V6(S6), #[teleparse(semantic(SemB))] V7(S7)}
#[derive_syntax]
pub enum P10En11 {#[teleparse(semantic(SemC))] V0(S0), #[teleparse(semantic(SemC))] V1(S1), #[teleparse(semantic(SemB))] V2(S2), #[teleparse(semantic(SemA))] V3(S3), #[teleparse(semantic(SemA, SemC))] V4(S4), V5(S5), #[teleparse(semantic(SemA, SemC))] V6(S6), #[teleparse(semantic(SemC))] V7(S7), #[teleparse(semantic(SemB))] V8(S8), #[teleparse(semantic(SemA))] V9(S9), #[teleparse(semantic(SemB, Num))] V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P10Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P10Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P10Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P10Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P10Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P10Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P10Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P10En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P10En2::V0(y) => alt(lo, hi, odd, 0, y.0), P10En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P10En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P10En3::V0(y) => alt(lo, hi, odd, 0, y.0), P10En3::V1(y) => alt(lo, hi, odd, 1, y.0), P10En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P10En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P10En4::V0(y) => alt(lo, hi, odd, 0, y.0), P10En4::V1(y) => alt(lo, hi, odd, 1, y.0), P10En4::V2(y) => alt(lo, hi, odd, 2, y.0), P10En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P10En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P10En6::V0(y) => alt(lo, hi, odd, 0, y.0), P10En6::V1(y) => alt(lo, hi, odd, 1, y.0), P10En6::V2(y) => alt(lo, hi, odd, 2, y.0), P10En6::V3(y) => alt(lo, hi, odd, 3, y.0), P10En6::V4(y) => alt(lo, hi, odd, 4, y.0), P10En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P10Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P10Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P10En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P10En8::V0(y) => alt(lo, hi, odd, 0, y.0), P10En8::V1(y) => alt(lo, hi, odd, 1, y.0), P10En8::V2(y) => alt(lo, hi, odd, 2, y.0), P10En8::V3(y) => alt(lo, hi, odd, 3, y.0), P10En8::V4(y) => alt(lo, hi, odd, 4, y.0), P10En8::V5(y) => alt(lo, hi, odd, 5, y.0), P10En8::V6(y) => alt(lo, hi, odd, 6, y.0), P10En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P10En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P10En11::V0(y) => alt(lo, hi, odd, 0, y.0), P10En11::V1(y) => alt(lo, hi, odd, 1, y.0), P10En11::V2(y) => alt(lo, hi, odd, 2, y.0), P10En11::V3(y) => alt(lo, hi, odd, 3, y.0), P10En11::V4(y) => alt(lo, hi, odd, 4, y.0), P10En11::V5(y) => alt(lo, hi, odd, 5, y.0), P10En11::V6(y) => alt(lo, hi, odd, 6, y.0), P10En11::V7(y) => alt(lo, hi, odd, 7, y.0), P10En11::V8(y) => alt(lo, hi, odd, 8, y.0), P10En11::V9(y) => alt(lo, hi, odd, 9, y.0), P10En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P10Ts1 as Produce>::prod_id(),
5 => <P10Ts2 as Produce>::prod_id(),
6 => <P10Ts3 as Produce>::prod_id(),
7 => <P10Ts5 as Produce>::prod_id(),
8 => <P10Ns1 as Produce>::prod_id(),
9 => <P10Ns2 as Produce>::prod_id(),
10 => <P10Ns4 as Produce>::prod_id(),
11 => <P10En2 as Produce>::prod_id(),
12 => <P10En3 as Produce>::prod_id(),
13 => <P10En4 as Produce>::prod_id(),
14 => <P10En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P10Ts8 as Produce>::prod_id(),
32 => <P10Ns7 as Produce>::prod_id(),
33 => <P10En8 as Produce>::prod_id(),
34 => <P10En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P10Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P10Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P10Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P10Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P10Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P10Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P10Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P10En2 as Produce>::Prod as Production>::register(b),
12 => <<P10En3 as Produce>::Prod as Production>::register(b),
13 => <<P10En4 as Produce>::Prod as Production>::register(b),
14 => <<P10En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P10Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P10Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P10En8 as Produce>::Prod as Production>::register(b),
34 => <<P10En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub mod p11 {
use super::*;
type S0 = Slot<11, 0>;
type S1 = Slot<11, 1>;
type S2 = Slot<11, 2>;
type S3 = Slot<11, 3>;
type S4 = Slot<11, 4>;
type S5 = Slot<11, 5>;
type S6 = Slot<11, 6>;
type S7 = Slot<11, 7>;
type S8 = Slot<11, 8>;
type S9 = Slot<11, 9>;
type S10 = Slot<11, 10>;
#[derive_syntax]
pub struct P11Ts1(pub S0);
#[derive_syntax]
pub struct P11Ts2(pub S0, pub S1);
#[derive_syntax]
pub struct P11Ts3(#[teleparse(semantic(SemA))] pub S0, #[teleparse(semantic(SemC))] pub S1, #[teleparse(semantic(SemC))] pub S2);
#[derive_syntax]
pub struct P11Ts5(#[teleparse(semantic(SemA, SemC))] pub S0, #[teleparse(semantic(Id))] pub S1, #[teleparse(semantic(SemA))] pub S2, pub S3, #[teleparse(semantic(SemB, Num))] pub S4);
#[derive_syntax]
pub struct P11Ns1 {pub f0: S0}
#[derive_syntax]
pub struct P11Ns2 {#[teleparse(semantic(SemC))] pub f0: S0, #[teleparse(semantic(SemA))] pub f1: S1}
#[derive_syntax]
pub struct P11Ns4 {pub f0: S0, #[teleparse(semantic(SemC))] pub f1: S1, #[teleparse(semantic(SemB, Num))] pub f2: S2, #[teleparse(semantic(Id))] pub f3: S3}
#[derive_syntax]
pub enum P11En2 {V0(S0), #[teleparse(semantic(SemA, SemC))] V1(S1)}
#[derive_syntax]
pub enum P11En3 {V0(S0), #[teleparse(semantic(SemA, SemC))] V1(S1), #[teleparse(semantic(SemA, SemC))] V2(S2)}
#[derive_syntax]
pub enum P11En4 {#[teleparse(semantic(SemC))] V0(S0), #[teleparse(semantic(Id))] V1(S1), V2(S2), #[teleparse(semantic(SemA))] V3(S3)}
#[derive_syntax]
pub enum P11En6 {V0(S0), #[teleparse(semantic(SemB, Num))] V1(S1), #[teleparse(semantic(SemA))] V2(S2), V3(S3), V4(S4), #[teleparse(semantic(SemC))] V5(S5)}
#[derive_syntax]
pub struct P11Ts8(#[teleparse(semantic(SemB))] pub S0, pub S1, #[teleparse(semantic(SemC))] pub S2, pub S3, #[teleparse(semantic(SemB, Num))] pub S4, #[teleparse(semantic(SemB, Num))] pub S5, #[teleparse(semantic(SemB))] pub S6, pub S7);
#[derive_syntax]
pub struct P11Ns7 {#[teleparse(semantic(SemA, SemC))] pub f0: S0, #[teleparse(semantic(SemB, Num))] pub f1: S1, #[teleparse(semantic(SemA, SemC))] pub f2: S2, #[teleparse(semantic(SemA, SemC))] pub f3: S3, #[teleparse(semantic(Id))] pub f4: S4, pub f5: S5, #[teleparse(semantic(Id))] pub f6: S6}
#[derive_syntax]
pub enum P11En8 {#[teleparse(semantic(SemA))] V0(S0), V1(S1), #[teleparse(semantic(Id))] V2(S2), #[teleparse(semantic(SemB))] V3(S3), V4(S4), V5(S5), V6(S6), V7(S7)}
#[derive_syntax]
pub enum P11En11 {V0(S0), #[teleparse(semantic(Id))] V1(S1), #[teleparse(semantic(Id))] V2(S2), #[teleparse(semantic(SemB, Num))] V3(S3), #[teleparse(semantic(SemB))] V4(S4), #[teleparse(semantic(SemA))] V5(S5), #[teleparse(semantic(SemA, SemC))] V6(S6), #[teleparse(semantic(SemB))] V7(S7), V8(S8), #[teleparse(semantic(SemB, Num))] V9(S9), #[teleparse(semantic(Id))] V10(S10)}
pub fn produce(k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match k {
0 => <(S0, S1) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
1 => <(S0, S1, S2) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
2 => <(S0, S1, S2, S3) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone()])),
3 => <(S0, S1, S2, S3, S4) as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
4 => <P11Ts1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone()])),
5 => <P11Ts2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone()])),
6 => <P11Ts3 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone()])),
7 => <P11Ts5 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone()])),
8 => <P11Ns1 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone()])),
9 => <P11Ns2 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone()])),
10 => <P11Ns4 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone()])),
11 => <P11En2 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P11En2::V0(y) => alt(lo, hi, odd, 0, y.0), P11En2::V1(y) => alt(lo, hi, odd, 1, y.0),} }),
12 => <P11En3 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P11En3::V0(y) => alt(lo, hi, odd, 0, y.0), P11En3::V1(y) => alt(lo, hi, odd, 1, y.0), P11En3::V2(y) => alt(lo, hi, odd, 2, y.0),} }),
13 => <P11En4 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P11En4::V0(y) => alt(lo, hi, odd, 0, y.0), P11En4::V1(y) => alt(lo, hi, odd, 1, y.0), P11En4::V2(y) => alt(lo, hi, odd, 2, y.0), P11En4::V3(y) => alt(lo, hi, odd, 3, y.0),} }),
14 => <P11En6 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P11En6::V0(y) => alt(lo, hi, odd, 0, y.0), P11En6::V1(y) => alt(lo, hi, odd, 1, y.0), P11En6::V2(y) => alt(lo, hi, odd, 2, y.0), P11En6::V3(y) => alt(lo, hi, odd, 3, y.0), P11En6::V4(y) => alt(lo, hi, odd, 4, y.0), P11En6::V5(y) => alt(lo, hi, odd, 5, y.0),} }),
15 => <tp::Option<S0> as Produce>::produce(p, m).map(opt),
16 => <tp::Exists<S0> as Produce>::produce(p, m).map(exists),
17 => <tp::Vec<S0> as Produce>::produce(p, m).map(list_star),
18 => <tp::VecDeque<S0> as Produce>::produce(p, m).map(list_star),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_star),
20 => <tp::Nev<S0> as Produce>::produce(p, m).map(list_plus),
21 => <tp::NevDeque<S0> as Produce>::produce(p, m).map(list_plus),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::produce(p, m).map(list_plus),
23 => <tp::Loop<S0> as Produce>::produce(p, m).map(list_loop),
24 => <tp::Split<S0, S1> as Produce>::produce(p, m).map(split),
25 => <tp::Punct<S0, S1> as Produce>::produce(p, m).map(punct),
26 => <tp::Recover<S0, S1> as Produce>::produce(p, m).map(recover),
27 => <Box<S0> as Produce>::produce(p, m).map(boxed),
28 => <tp::String<S0> as Produce>::produce(p, m).map(quote),
29 => <tp::Parse<u32, S0> as Produce>::produce(p, m).map(parse_u32),
30 => <tp::Parse<SimVal, S0> as Produce>::produce(p, m).map(parse_sim),
31 => <P11Ts8 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.0.0.clone(), x.1.0.clone(), x.2.0.clone(), x.3.0.clone(), x.4.0.clone(), x.5.0.clone(), x.6.0.clone(), x.7.0.clone()])),
32 => <P11Ns7 as Produce>::produce(p, m).map(|x| seq(&x, vec![x.f0.0.clone(), x.f1.0.clone(), x.f2.0.clone(), x.f3.0.clone(), x.f4.0.clone(), x.f5.0.clone(), x.f6.0.clone()])),
33 => <P11En8 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P11En8::V0(y) => alt(lo, hi, odd, 0, y.0), P11En8::V1(y) => alt(lo, hi, odd, 1, y.0), P11En8::V2(y) => alt(lo, hi, odd, 2, y.0), P11En8::V3(y) => alt(lo, hi, odd, 3, y.0), P11En8::V4(y) => alt(lo, hi, odd, 4, y.0), P11En8::V5(y) => alt(lo, hi, odd, 5, y.0), P11En8::V6(y) => alt(lo, hi, odd, 6, y.0), P11En8::V7(y) => alt(lo, hi, odd, 7, y.0),} }),
34 => <P11En11 as Produce>::produce(p, m).map(|x| { let (lo, hi, odd) = sp(&x); match x {P11En11::V0(y) => alt(lo, hi, odd, 0, y.0), P11En11::V1(y) => alt(lo, hi, odd, 1, y.0), P11En11::V2(y) => alt(lo, hi, odd, 2, y.0), P11En11::V3(y) => alt(lo, hi, odd, 3, y.0), P11En11::V4(y) => alt(lo, hi, odd, 4, y.0), P11En11::V5(y) => alt(lo, hi, odd, 5, y.0), P11En11::V6(y) => alt(lo, hi, odd, 6, y.0), P11En11::V7(y) => alt(lo, hi, odd, 7, y.0), P11En11::V8(y) => alt(lo, hi, odd, 8, y.0), P11En11::V9(y) => alt(lo, hi, odd, 9, y.0), P11En11::V10(y) => alt(lo, hi, odd, 10, y.0),} }),
_ => unreachable!() } }
pub fn id(k: u8) -> TypeId { match k {
0 => <(S0, S1) as Produce>::prod_id(),
1 => <(S0, S1, S2) as Produce>::prod_id(),
2 => <(S0, S1, S2, S3) as Produce>::prod_id(),
3 => <(S0, S1, S2, S3, S4) as Produce>::prod_id(),
4 => <P11Ts1 as Produce>::prod_id(),
5 => <P11Ts2 as Produce>::prod_id(),
6 => <P11Ts3 as Produce>::prod_id(),
7 => <P11Ts5 as Produce>::prod_id(),
8 => <P11Ns1 as Produce>::prod_id(),
9 => <P11Ns2 as Produce>::prod_id(),
10 => <P11Ns4 as Produce>::prod_id(),
11 => <P11En2 as Produce>::prod_id(),
12 => <P11En3 as Produce>::prod_id(),
13 => <P11En4 as Produce>::prod_id(),
14 => <P11En6 as Produce>::prod_id(),
15 => <tp::Option<S0> as Produce>::prod_id(),
16 => <tp::Exists<S0> as Produce>::prod_id(),
17 => <tp::Vec<S0> as Produce>::prod_id(),
18 => <tp::VecDeque<S0> as Produce>::prod_id(),
19 => <tp::Star<SimVec<S0>, S0> as Produce>::prod_id(),
20 => <tp::Nev<S0> as Produce>::prod_id(),
21 => <tp::NevDeque<S0> as Produce>::prod_id(),
22 => <tp::Plus<SimVec<S0>, S0> as Produce>::prod_id(),
23 => <tp::Loop<S0> as Produce>::prod_id(),
24 => <tp::Split<S0, S1> as Produce>::prod_id(),
25 => <tp::Punct<S0, S1> as Produce>::prod_id(),
26 => <tp::Recover<S0, S1> as Produce>::prod_id(),
27 => <Box<S0> as Produce>::prod_id(),
28 => <tp::String<S0> as Produce>::prod_id(),
29 => <tp::Parse<u32, S0> as Produce>::prod_id(),
30 => <tp::Parse<SimVal, S0> as Produce>::prod_id(),
31 => <P11Ts8 as Produce>::prod_id(),
32 => <P11Ns7 as Produce>::prod_id(),
33 => <P11En8 as Produce>::prod_id(),
34 => <P11En11 as Produce>::prod_id(),
_ => unreachable!() } }
pub fn register(k: u8, b: &mut MetadataBuilder<Lx>) { match k {
0 => <<(S0, S1) as Produce>::Prod as Production>::register(b),
1 => <<(S0, S1, S2) as Produce>::Prod as Production>::register(b),
2 => <<(S0, S1, S2, S3) as Produce>::Prod as Production>::register(b),
3 => <<(S0, S1, S2, S3, S4) as Produce>::Prod as Production>::register(b),
4 => <<P11Ts1 as Produce>::Prod as Production>::register(b),
5 => <<P11Ts2 as Produce>::Prod as Production>::register(b),
6 => <<P11Ts3 as Produce>::Prod as Production>::register(b),
7 => <<P11Ts5 as Produce>::Prod as Production>::register(b),
8 => <<P11Ns1 as Produce>::Prod as Production>::register(b),
9 => <<P11Ns2 as Produce>::Prod as Production>::register(b),
10 => <<P11Ns4 as Produce>::Prod as Production>::register(b),
11 => <<P11En2 as Produce>::Prod as Production>::register(b),
12 => <<P11En3 as Produce>::Prod as Production>::register(b),
13 => <<P11En4 as Produce>::Prod as Production>::register(b),
14 => <<P11En6 as Produce>::Prod as Production>::register(b),
15 => <<tp::Option<S0> as Produce>::Prod as Production>::register(b),
16 => <<tp::Exists<S0> as Produce>::Prod as Production>::register(b),
17 => <<tp::Vec<S0> as Produce>::Prod as Production>::register(b),
18 => <<tp::VecDeque<S0> as Produce>::Prod as Production>::register(b),
19 => <<tp::Star<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
20 => <<tp::Nev<S0> as Produce>::Prod as Production>::register(b),
21 => <<tp::NevDeque<S0> as Produce>::Prod as Production>::register(b),
22 => <<tp::Plus<SimVec<S0>, S0> as Produce>::Prod as Production>::register(b),
23 => <<tp::Loop<S0> as Produce>::Prod as Production>::register(b),
24 => <<tp::Split<S0, S1> as Produce>::Prod as Production>::register(b),
25 => <<tp::Punct<S0, S1> as Produce>::Prod as Production>::register(b),
26 => <<tp::Recover<S0, S1> as Produce>::Prod as Production>::register(b),
27 => <<Box<S0> as Produce>::Prod as Production>::register(b),
28 => <<tp::String<S0> as Produce>::Prod as Production>::register(b),
29 => <<tp::Parse<u32, S0> as Produce>::Prod as Production>::register(b),
30 => <<tp::Parse<SimVal, S0> as Produce>::Prod as Production>::register(b),
31 => <<P11Ts8 as Produce>::Prod as Production>::register(b),
32 => <<P11Ns7 as Produce>::Prod as Production>::register(b),
33 => <<P11En8 as Produce>::Prod as Production>::register(b),
34 => <<P11En11 as Produce>::Prod as Production>::register(b),
_ => unreachable!() } }
}
pub fn node_produce(pos: u8, k: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match pos {0 => p0::produce(k, p, m), 1 => p1::produce(k, p, m), 2 => p2::produce(k, p, m), 3 => p3::produce(k, p, m), 4 => p4::produce(k, p, m), 5 => p5::produce(k, p, m), 6 => p6::produce(k, p, m), 7 => p7::produce(k, p, m), 8 => p8::produce(k, p, m), 9 => p9::produce(k, p, m), 10 => p10::produce(k, p, m), 11 => p11::produce(k, p, m), _ => unreachable!() } }
pub fn node_id(pos: u8, k: u8) -> TypeId { match pos {0 => p0::id(k), 1 => p1::id(k), 2 => p2::id(k), 3 => p3::id(k), 4 => p4::id(k), 5 => p5::id(k), 6 => p6::id(k), 7 => p7::id(k), 8 => p8::id(k), 9 => p9::id(k), 10 => p10::id(k), 11 => p11::id(k), _ => unreachable!() } }
pub fn node_register(pos: u8, k: u8, b: &mut MetadataBuilder<Lx>) { match pos {0 => p0::register(k, b), 1 => p1::register(k, b), 2 => p2::register(k, b), 3 => p3::register(k, b), 4 => p4::register(k, b), 5 => p5::register(k, b), 6 => p6::register(k, b), 7 => p7::register(k, b), 8 => p8::register(k, b), 9 => p9::register(k, b), 10 => p10::register(k, b), 11 => p11::register(k, b), _ => unreachable!() } }
pub fn term_produce(t: u8, p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Tree> { match t {
0 => Ident::produce(p, m).map(|x| term(0, &x, x.0)),
1 => KwIf::produce(p, m).map(|x| term(1, &x, x.0)),
2 => KwLet::produce(p, m).map(|x| term(2, &x, x.0)),
3 => KwFn::produce(p, m).map(|x| term(3, &x, x.0)),
4 => Int::produce(p, m).map(|x| term(4, &x, x.0)),
5 => One::produce(p, m).map(|x| term(5, &x, x.0)),
6 => OpAdd::produce(p, m).map(|x| term(6, &x, x.0)),
7 => OpMul::produce(p, m).map(|x| term(7, &x, x.0)),
8 => OpEq::produce(p, m).map(|x| term(8, &x, x.0)),
9 => OpEqEq::produce(p, m).map(|x| term(9, &x, x.0)),
10 => OpArrow::produce(p, m).map(|x| term(10, &x, x.0)),
11 => ParenL::produce(p, m).map(|x| term(11, &x, x.0)),
12 => ParenR::produce(p, m).map(|x| term(12, &x, x.0)),
13 => BrackL::produce(p, m).map(|x| term(13, &x, x.0)),
14 => BrackR::produce(p, m).map(|x| term(14, &x, x.0)),
15 => Comma::produce(p, m).map(|x| term(15, &x, x.0)),
16 => Semi::produce(p, m).map(|x| term(16, &x, x.0)),
17 => Dot::produce(p, m).map(|x| term(17, &x, x.0)),
18 => Greek::produce(p, m).map(|x| term(18, &x, x.0)),
19 => Lam::produce(p, m).map(|x| term(19, &x, x.0)),
_ => unreachable!() } }
pub fn term_id(t: u8) -> TypeId { match t {0 => <Ident as Production>::id(), 1 => <KwIf as Production>::id(), 2 => <KwLet as Production>::id(), 3 => <KwFn as Production>::id(), 4 => <Int as Production>::id(), 5 => <One as Production>::id(), 6 => <OpAdd as Production>::id(), 7 => <OpMul as Production>::id(), 8 => <OpEq as Production>::id(), 9 => <OpEqEq as Production>::id(), 10 => <OpArrow as Production>::id(), 11 => <ParenL as Production>::id(), 12 => <ParenR as Production>::id(), 13 => <BrackL as Production>::id(), 14 => <BrackR as Production>::id(), 15 => <Comma as Production>::id(), 16 => <Semi as Production>::id(), 17 => <Dot as Production>::id(), 18 => <Greek as Production>::id(), 19 => <Lam as Production>::id(),_ => unreachable!() } }
pub fn term_register(t: u8, b: &mut MetadataBuilder<Lx>) { match t {0 => <Ident as Production>::register(b), 1 => <KwIf as Production>::register(b), 2 => <KwLet as Production>::register(b), 3 => <KwFn as Production>::register(b), 4 => <Int as Production>::register(b), 5 => <One as Production>::register(b), 6 => <OpAdd as Production>::register(b), 7 => <OpMul as Production>::register(b), 8 => <OpEq as Production>::register(b), 9 => <OpEqEq as Production>::register(b), 10 => <OpArrow as Production>::register(b), 11 => <ParenL as Production>::register(b), 12 => <ParenR as Production>::register(b), 13 => <BrackL as Production>::register(b), 14 => <BrackR as Production>::register(b), 15 => <Comma as Production>::register(b), 16 => <Semi as Production>::register(b), 17 => <Dot as Production>::register(b), 18 => <Greek as Production>::register(b), 19 => <Lam as Production>::register(b),_ => unreachable!() } }
pub fn term_parse(t: u8, p: &mut Parser<'_, Lx>) -> Result<Option<Tree>, GrammarError> { match t {
0 => p.parse::<Ident>().map(|o| o.map(|x| term(0, &x, x.0))),
1 => p.parse::<KwIf>().map(|o| o.map(|x| term(1, &x, x.0))),
2 => p.parse::<KwLet>().map(|o| o.map(|x| term(2, &x, x.0))),
3 => p.parse::<KwFn>().map(|o| o.map(|x| term(3, &x, x.0))),
4 => p.parse::<Int>().map(|o| o.map(|x| term(4, &x, x.0))),
5 => p.parse::<One>().map(|o| o.map(|x| term(5, &x, x.0))),
6 => p.parse::<OpAdd>().map(|o| o.map(|x| term(6, &x, x.0))),
7 => p.parse::<OpMul>().map(|o| o.map(|x| term(7, &x, x.0))),
8 => p.parse::<OpEq>().map(|o| o.map(|x| term(8, &x, x.0))),
9 => p.parse::<OpEqEq>().map(|o| o.map(|x| term(9, &x, x.0))),
10 => p.parse::<OpArrow>().map(|o| o.map(|x| term(10, &x, x.0))),
11 => p.parse::<ParenL>().map(|o| o.map(|x| term(11, &x, x.0))),
12 => p.parse::<ParenR>().map(|o| o.map(|x| term(12, &x, x.0))),
13 => p.parse::<BrackL>().map(|o| o.map(|x| term(13, &x, x.0))),
14 => p.parse::<BrackR>().map(|o| o.map(|x| term(14, &x, x.0))),
15 => p.parse::<Comma>().map(|o| o.map(|x| term(15, &x, x.0))),
16 => p.parse::<Semi>().map(|o| o.map(|x| term(16, &x, x.0))),
17 => p.parse::<Dot>().map(|o| o.map(|x| term(17, &x, x.0))),
18 => p.parse::<Greek>().map(|o| o.map(|x| term(18, &x, x.0))),
19 => p.parse::<Lam>().map(|o| o.map(|x| term(19, &x, x.0))),
_ => unreachable!() } }
pub fn term_once(t: u8, s: &str) -> Result<Option<Tree>, GrammarError> { match t {
0 => Ident::parse(s).map(|o| o.map(|x| term(0, &x, x.0))),
1 => KwIf::parse(s).map(|o| o.map(|x| term(1, &x, x.0))),
2 => KwLet::parse(s).map(|o| o.map(|x| term(2, &x, x.0))),
3 => KwFn::parse(s).map(|o| o.map(|x| term(3, &x, x.0))),
4 => Int::parse(s).map(|o| o.map(|x| term(4, &x, x.0))),
5 => One::parse(s).map(|o| o.map(|x| term(5, &x, x.0))),
6 => OpAdd::parse(s).map(|o| o.map(|x| term(6, &x, x.0))),
7 => OpMul::parse(s).map(|o| o.map(|x| term(7, &x, x.0))),
8 => OpEq::parse(s).map(|o| o.map(|x| term(8, &x, x.0))),
9 => OpEqEq::parse(s).map(|o| o.map(|x| term(9, &x, x.0))),
10 => OpArrow::parse(s).map(|o| o.map(|x| term(10, &x, x.0))),
11 => ParenL::parse(s).map(|o| o.map(|x| term(11, &x, x.0))),
12 => ParenR::parse(s).map(|o| o.map(|x| term(12, &x, x.0))),
13 => BrackL::parse(s).map(|o| o.map(|x| term(13, &x, x.0))),
14 => BrackR::parse(s).map(|o| o.map(|x| term(14, &x, x.0))),
15 => Comma::parse(s).map(|o| o.map(|x| term(15, &x, x.0))),
16 => Semi::parse(s).map(|o| o.map(|x| term(16, &x, x.0))),
17 => Dot::parse(s).map(|o| o.map(|x| term(17, &x, x.0))),
18 => Greek::parse(s).map(|o| o.map(|x| term(18, &x, x.0))),
19 => Lam::parse(s).map(|o| o.map(|x| term(19, &x, x.0))),
_ => unreachable!() } }
pub fn term_meta(t: u8) -> &'static Result<Metadata<Lx>, GrammarError> { match t {0 => Ident::metadata(), 1 => KwIf::metadata(), 2 => KwLet::metadata(), 3 => KwFn::metadata(), 4 => Int::metadata(), 5 => One::metadata(), 6 => OpAdd::metadata(), 7 => OpMul::metadata(), 8 => OpEq::metadata(), 9 => OpEqEq::metadata(), 10 => OpArrow::metadata(), 11 => ParenL::metadata(), 12 => ParenR::metadata(), 13 => BrackL::metadata(), 14 => BrackR::metadata(), 15 => Comma::metadata(), 16 => Semi::metadata(), 17 => Dot::metadata(), 18 => Greek::metadata(), 19 => Lam::metadata(),_ => unreachable!() } }

#[derive_syntax] #[teleparse(root)] pub struct R0(pub Slot<12, 0>);
#[derive_syntax] #[teleparse(root)] pub struct R1 { #[teleparse(semantic(SemB))] pub a: Slot<13, 0> }
#[derive_syntax] #[teleparse(root)] pub enum R2 { A(Slot<14, 0>), #[teleparse(semantic(SemA))] B(Slot<14, 1>) }
#[derive_syntax] #[teleparse(root)] pub struct R3 { #[teleparse(semantic(SemC))] pub a: Slot<15, 0>, #[teleparse(semantic(SemA, SemB))] pub b: Slot<15, 1> }
fn r0(x: R0) -> Tree { seq(&x, vec![x.0.0.clone()]) }
fn r1(x: R1) -> Tree { seq(&x, vec![x.a.0.clone()]) }
fn r2(x: R2) -> Tree { let (lo, hi, odd) = sp(&x); match x { R2::A(y) => alt(lo, hi, odd, 0, y.0), R2::B(y) => alt(lo, hi, odd, 1, y.0) } }
fn r3(x: R3) -> Tree { seq(&x, vec![x.a.0.clone(), x.b.0.clone()]) }

pub fn root_parse(r: usize, p: &mut Parser<'_, Lx>) -> Result<Option<Tree>, GrammarError> { match r {0 => p.parse::<R0>().map(|o| o.map(r0)), 1 => p.parse::<R1>().map(|o| o.map(r1)), 2 => p.parse::<R2>().map(|o| o.map(r2)), 3 => p.parse::<R3>().map(|o| o.map(r3)),_ => unreachable!() } }
pub fn root_once(r: usize, s: &str) -> Result<Option<Tree>, GrammarError> { match r {0 => R0::parse(s).map(|o| o.map(r0)), 1 => R1::parse(s).map(|o| o.map(r1)), 2 => R2::parse(s).map(|o| o.map(r2)), 3 => R3::parse(s).map(|o| o.map(r3)),_ => unreachable!() } }
pub fn root_meta(r: usize) -> &'static Result<Metadata<Lx>, GrammarError> { match r {0 => R0::metadata(), 1 => R1::metadata(), 2 => R2::metadata(), 3 => R3::metadata(),_ => unreachable!() } }
pub fn root_assert(r: usize) { match r {0 => R0::assert_ll1(), 1 => R1::assert_ll1(), 2 => R2::assert_ll1(), 3 => R3::assert_ll1(),_ => unreachable!() } }
pub fn root_id(r: usize) -> TypeId { match r {0 => R0::prod_id(), 1 => R1::prod_id(), 2 => R2::prod_id(), 3 => R3::prod_id(),_ => unreachable!() } }
pub fn root_register(r: usize, b: &mut MetadataBuilder<Lx>) { match r {0 => <<R0 as Produce>::Prod as Production>::register(b), 1 => <<R1 as Produce>::Prod as Production>::register(b), 2 => <<R2 as Produce>::Prod as Production>::register(b), 3 => <<R3 as Produce>::Prod as Production>::register(b),_ => unreachable!() } }
pub const NTAG: usize = 64;
pub struct Tag<const N: usize>;
pub fn tag(n: usize) -> TypeId { match n {0 => TypeId::of::<Tag<0>>(), 1 => TypeId::of::<Tag<1>>(), 2 => TypeId::of::<Tag<2>>(), 3 => TypeId::of::<Tag<3>>(), 4 => TypeId::of::<Tag<4>>(), 5 => TypeId::of::<Tag<5>>(), 6 => TypeId::of::<Tag<6>>(), 7 => TypeId::of::<Tag<7>>(), 8 => TypeId::of::<Tag<8>>(), 9 => TypeId::of::<Tag<9>>(), 10 => TypeId::of::<Tag<10>>(), 11 => TypeId::of::<Tag<11>>(), 12 => TypeId::of::<Tag<12>>(), 13 => TypeId::of::<Tag<13>>(), 14 => TypeId::of::<Tag<14>>(), 15 => TypeId::of::<Tag<15>>(), 16 => TypeId::of::<Tag<16>>(), 17 => TypeId::of::<Tag<17>>(), 18 => TypeId::of::<Tag<18>>(), 19 => TypeId::of::<Tag<19>>(), 20 => TypeId::of::<Tag<20>>(), 21 => TypeId::of::<Tag<21>>(), 22 => TypeId::of::<Tag<22>>(), 23 => TypeId::of::<Tag<23>>(), 24 => TypeId::of::<Tag<24>>(), 25 => TypeId::of::<Tag<25>>(), 26 => TypeId::of::<Tag<26>>(), 27 => TypeId::of::<Tag<27>>(), 28 => TypeId::of::<Tag<28>>(), 29 => TypeId::of::<Tag<29>>(), 30 => TypeId::of::<Tag<30>>(), 31 => TypeId::of::<Tag<31>>(), 32 => TypeId::of::<Tag<32>>(), 33 => TypeId::of::<Tag<33>>(), 34 => TypeId::of::<Tag<34>>(), 35 => TypeId::of::<Tag<35>>(), 36 => TypeId::of::<Tag<36>>(), 37 => TypeId::of::<Tag<37>>(), 38 => TypeId::of::<Tag<38>>(), 39 => TypeId::of::<Tag<39>>(), 40 => TypeId::of::<Tag<40>>(), 41 => TypeId::of::<Tag<41>>(), 42 => TypeId::of::<Tag<42>>(), 43 => TypeId::of::<Tag<43>>(), 44 => TypeId::of::<Tag<44>>(), 45 => TypeId::of::<Tag<45>>(), 46 => TypeId::of::<Tag<46>>(), 47 => TypeId::of::<Tag<47>>(), 48 => TypeId::of::<Tag<48>>(), 49 => TypeId::of::<Tag<49>>(), 50 => TypeId::of::<Tag<50>>(), 51 => TypeId::of::<Tag<51>>(), 52 => TypeId::of::<Tag<52>>(), 53 => TypeId::of::<Tag<53>>(), 54 => TypeId::of::<Tag<54>>(), 55 => TypeId::of::<Tag<55>>(), 56 => TypeId::of::<Tag<56>>(), 57 => TypeId::of::<Tag<57>>(), 58 => TypeId::of::<Tag<58>>(), 59 => TypeId::of::<Tag<59>>(), 60 => TypeId::of::<Tag<60>>(), 61 => TypeId::of::<Tag<61>>(), 62 => TypeId::of::<Tag<62>>(), 63 => TypeId::of::<Tag<63>>(),_ => unreachable!() } }

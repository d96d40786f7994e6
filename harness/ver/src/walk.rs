//! Walks through the graph of conversions that the `versioned` crate and its macros provide.
use serde_json::{json, Value as J};
use versioned::*;

type W1 = Versioned<i64, 3>;
type W2 = Versioned<W1, 7>;
type W3 = Versioned<W2, 300>;
type W4 = Versioned<W3, 65535>;
#[derive(Clone, Debug, PartialEq)]
pub struct Nt(pub i64);
impl_from_for_newtype!(Nt, W1);
#[derive(Clone, Debug, PartialEq)]
pub struct Nt2(pub i64);
impl_from_for_newtype!(Nt2, W2);

#[derive(Clone, Debug, PartialEq, Default)]
pub struct S {
    a: i64,
}
impl_from_versioned!(S);
type Sv1 = Versioned<S, 5>;
type Sv2 = Versioned<Sv1, 6>;
#[derive(Clone, Debug, PartialEq)]
pub struct Sj {
    j: i64,
}
impl From<Sv1> for Sj {
    fn from(s: Sv1) -> Self {
        Sj { j: s.t.a }
    }
}
impl From<Sj> for Sv1 {
    fn from(s: Sj) -> Self {
        S { a: s.j }.into()
    }
}
impl_from_with_proxy!(S, Sv1, Sj);

#[derive(Clone, Debug, PartialEq)]
pub struct O(i64);
#[derive(Clone, Debug, PartialEq)]
pub struct I(i64);
impl From<O> for I {
    fn from(o: O) -> I {
        I(o.0)
    }
}
impl From<I> for O {
    fn from(o: I) -> O {
        O(o.0)
    }
}
type Iv = Versioned<I, 9>;
impl_from_for_versioned_with_proxy!(O, I, Iv);
type Ivv = Versioned<Iv, 10>;
#[derive(Clone, Debug, PartialEq)]
pub struct O2(i64);
impl From<O2> for I {
    fn from(o: O2) -> I {
        I(o.0)
    }
}
impl From<I> for O2 {
    fn from(o: I) -> O2 {
        O2(o.0)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct G<T>(T, bool);
impl From<I> for G<I> {
    fn from(i: I) -> Self {
        G(i, true)
    }
}
impl From<G<I>> for (I,) {
    fn from(g: G<I>) -> Self {
        (g.0,)
    }
}
type Gi = G<I>;
impl_from_for_generic_with_proxy!(O2, I, Gi);
impl_from_for_versioned_with_proxy!(O2, I, Ivv);

#[derive(Clone, Debug)]
enum A {
    P(i64),
    V1(W1),
    V2(W2),
    V3(W3),
    V4(W4),
    Nt(Nt),
    Nt2(Nt2),
    S(S),
    Sv1(Sv1),
    Sv2(Sv2),
    Sj(Sj),
    O(O),
    I(I),
    Iv(Iv),
    Ivv(Ivv),
    O2(O2),
    Gi(Gi),
}
fn one<T, U: Into<(T,)>>(u: U) -> T {
    let (t,) = u.into();
    t
}
fn step(a: A, to: &str) -> A {
    match (a, to) {
        (A::P(x), "v1") => A::V1(x.into()),
        (A::P(x), "v2") => A::V2(x.into()),
        (A::P(x), "v3") => A::V3(x.into()),
        (A::P(x), "v4") => A::V4(x.into()),
        (A::P(x), "new1") => A::V1(Versioned::new(x)),
        (A::V1(x), "new2") => A::V2(Versioned::new(x)),
        (A::V1(x), "p") => A::P(one(x)),
        (A::V2(x), "p") => A::P(one(x)),
        (A::V3(x), "p") => A::P(one(x)),
        (A::V4(x), "p") => A::P(one(x)),
        (A::V1(x), "inner") => A::P(x.inner()),
        (A::V2(x), "inner") => A::V1(x.inner()),
        (A::V3(x), "inner") => A::V2(x.inner()),
        (A::V4(x), "inner") => A::V3(x.inner()),
        (A::Nt(x), "v1") => A::V1(x.into()),
        (A::V1(x), "nt") => A::Nt(x.into()),
        (A::Nt2(x), "v2") => A::V2(x.into()),
        (A::V2(x), "nt2") => A::Nt2(x.into()),
        (A::S(x), "sv1") => A::Sv1(x.into()),
        (A::S(x), "sv2") => A::Sv2(x.into()),
        (A::Sv1(x), "s") => A::S(x.into()),
        (A::Sv2(x), "s") => A::S(x.into()),
        (A::S(x), "sj") => A::Sj(x.into()),
        (A::Sj(x), "s") => A::S(x.into()),
        (A::O(x), "i") => A::I(x.into()),
        (A::I(x), "o") => A::O(x.into()),
        (A::O(x), "iv") => A::Iv(x.into()),
        (A::Iv(x), "o") => A::O(x.into()),
        (A::I(x), "iv") => A::Iv(x.into()),
        (A::Iv(x), "i") => A::I(one(x)),
        (A::O2(x), "ivv") => A::Ivv(x.into()),
        (A::Ivv(x), "o2") => A::O2(x.into()),
        (A::Ivv(x), "i") => A::I(one(x)),
        (A::O2(x), "gi") => A::Gi(x.into()),
        (A::Gi(x), "o2") => A::O2(x.into()),
        (A::I(x), "o2") => A::O2(x.into()),
        (A::O2(x), "i") => A::I(x.into()),
        (a, t) => panic!("HARNESS no edge {a:?} -> {t}"),
    }
}
fn show(a: &A) -> (Vec<u16>, i64) {
    match a {
        A::P(x) => (vec![], *x),
        A::V1(x) => (vec![x.version], x.t),
        A::V2(x) => (vec![x.version, x.t.version], x.t.t),
        A::V3(x) => (vec![x.version, x.t.version, x.t.t.version], x.t.t.t),
        A::V4(x) => (vec![x.version, x.t.version, x.t.t.version, x.t.t.t.version], x.t.t.t.t),
        A::Nt(x) => (vec![], x.0),
        A::Nt2(x) => (vec![], x.0),
        A::S(x) => (vec![], x.a),
        A::Sv1(x) => (vec![x.version], x.t.a),
        A::Sv2(x) => (vec![x.version, x.t.version], x.t.t.a),
        A::Sj(x) => (vec![], x.j),
        A::O(x) => (vec![], x.0),
        A::I(x) => (vec![], x.0),
        A::Iv(x) => (vec![x.version], x.t.0),
        A::Ivv(x) => (vec![x.version, x.t.version], x.t.t.0),
        A::O2(x) => (vec![], x.0),
        A::Gi(x) => (vec![], x.0 .0),
    }
}
pub fn run(case: &J) -> J {
    let x = case["x"].as_i64().unwrap();
    let mut a = match case["start"].as_str().unwrap() {
        "p" => A::P(x),
        "nt" => A::Nt(Nt(x)),
        "nt2" => A::Nt2(Nt2(x)),
        "s" => A::S(S { a: x }),
        "o" => A::O(O(x)),
        "o2" => A::O2(O2(x)),
        "dv1" => A::V1(Default::default()),
        "dv2" => A::V2(Default::default()),
        "dv4" => A::V4(Default::default()),
        "dsv2" => A::Sv2(Default::default()),
        s => panic!("HARNESS start {s}"),
    };
    for s in case["steps"].as_array().unwrap() {
        a = step(a, s.as_str().unwrap());
    }
    let (v, p) = show(&a);
    json!({"ok": true, "err": "", "vers": v, "x": p})
}

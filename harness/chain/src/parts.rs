//! The parts of a proof as the proof system gets them (spec/ProofParts.tla).
use ark_ec::short_weierstrass_jacobian::GroupAffine;
use ark_ec::{ModelParameters, SWModelParameters};
use ark_ff::{BigInteger256, PrimeField};
use mina_curves::pasta::{Fp, Fq, PallasParameters, VestaParameters};
use mina_rs_base::numbers::BigInt256;
use mina_rs_base::protocol_state_proof::field_and_curve_elements::*;
use serde_json::{json, Value as J};

fn number(v: &J) -> BigInt256 {
    BigInt256(hex::decode(v.as_str().unwrap()).unwrap().try_into().unwrap())
}
fn point(v: &J) -> FiniteECPoint {
    FiniteECPoint(number(&v[0]), number(&v[1]))
}
fn any(v: &J) -> ECPoint {
    if v == "infinity" { ECPoint::Infinite } else { ECPoint::Finite(point(v)) }
}
fn dec<F: PrimeField>(f: &F) -> J {
    let b: BigInteger256 = f.into_repr();
    json!(num::BigUint::from(b).to_string())
}
fn affine<P: SWModelParameters>(p: &GroupAffine<P>) -> J
where
    P::BaseField: PrimeField,
{
    if p.infinity { json!("infinity") } else { json!([dec(&p.x), dec(&p.y)]) }
}
fn on<P: SWModelParameters>(c: &J) -> J
where
    <P as ModelParameters>::BaseField: PrimeField + From<BigInteger256>,
{
    let e = c["part"].as_array().unwrap();
    match c["kind"].as_str().unwrap() {
        "point" => json!([affine(&GroupAffine::<P>::from(&any(&e[0])))]),
        "finite point" => json!([affine(&GroupAffine::<P>::from(&point(&e[0])))]),
        "points" => Vec::<GroupAffine<P>>::from(&ECPointVec(e.iter().map(any).collect())).iter().map(affine).collect(),
        "finite points" => Vec::<GroupAffine<P>>::from(&FiniteECPointVec(e.iter().map(point).collect())).iter().map(affine).collect(),
        "pairs" => {
            let v = FiniteECPointPairVec(e.iter().map(|p| FiniteECPointPair(point(&p[0]), point(&p[1]))).collect());
            Vec::<(GroupAffine<P>, GroupAffine<P>)>::from(&v).iter().map(|(a, b)| json!([affine(a), affine(b)])).collect()
        }
        k => panic!("HARNESS {k}"),
    }
}
pub fn parts(c: &J) -> J {
    let v = FieldElementVec(if c["kind"] == "numbers" { c["part"].as_array().unwrap().iter().map(number).collect() } else { vec![] });
    let out = match (c["kind"] == "numbers", c["curve"] == "pallas") {
        (true, true) => Vec::<Fp>::from(&v).iter().map(dec).collect(),
        (true, false) => Vec::<Fq>::from(&v).iter().map(dec).collect(),
        (false, true) => on::<PallasParameters>(c),
        (false, false) => on::<VestaParameters>(c),
    };
    json!({"ok": true, "given": out})
}

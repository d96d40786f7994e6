//! Values read from and written as text (spec/TextForm.tla, spec/MC_Base58.tla).
use ark_ff::{BigInteger256, PrimeField};
use mina_crypto::hash::*;
use mina_crypto::hex::HexEncodable;
use mina_rs_base::consensus_state::VrfOutputTruncated;
use mina_rs_base::numbers::{Amount, BigInt256, Char};
use mina_rs_base::protocol_state_proof::field_and_curve_elements::FieldElementVec;
use mina_rs_base::user_commands::memo::SignedCommandMemo;
use mina_serialization_types::common::{
    CoinBaseStackDataV1Json, CoinBaseStackHashV1Json, DecimalJson, U32Json, U64Json,
};
use mina_serialization_types::json::*;
use mina_serialization_types::signatures::*;
use mina_serialization_types::v1::*;
use proof_systems::{fp_from_radix_10, FpJson};
use proof_systems::mina_hasher::Fp;
use proof_systems::o1_utils::FieldHelpers;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value as J};
use std::fmt::Display;
use std::str::FromStr;

type R<T> = Result<T, String>;
fn e<T, E: Display>(r: Result<T, E>) -> R<T> {
    r.map_err(|e| e.to_string())
}
/// the text of a value which is a JSON string; the bytes have to be a document
fn write<T: Serialize>(t: &T) -> R<String> {
    let bytes = e(serde_json::to_vec(t))?;
    Ok(serde_json::from_slice(&bytes).expect("what is written is a JSON string"))
}
fn read<T: DeserializeOwned>(s: &str) -> R<T> {
    let a: R<T> = e(serde_json::from_value(json!(s)));
    // borrowed or escaped, from a value or a document
    let b: R<T> = e(serde_json::from_str(&serde_json::to_string(s).unwrap()));
    assert_eq!(a.is_ok(), b.is_ok(), "read from a value and from a document");
    a
}
fn hx(b: &[u8]) -> J {
    json!(hex::encode(b))
}
fn dec(n: u64) -> J {
    json!(n.to_string())
}
fn fp(x: Fp) -> J {
    hx(&x.to_bytes())
}
fn b32(c: &J) -> [u8; 32] {
    bytes(c).try_into().unwrap()
}
fn bytes(c: &J) -> Vec<u8> {
    c.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn num(c: &J) -> u64 {
    c.as_str().unwrap().parse().unwrap()
}
fn same(a: R<J>, b: R<J>, what: &str) -> R<J> {
    assert_eq!(a.clone().ok(), b.ok(), "{what}");
    a
}
fn point(t: CompressedCurvePoint) -> J {
    json!(format!("{}{:02x}", hex::encode(t.x), t.is_odd as u8))
}

macro_rules! hash_read {
    ($t:ty, $j:ty, $s:expr) => {{
        let direct = e(<$t>::from_str($s)).map(|h| {
            let v: HashV1 = h.into();
            hx(&v.t)
        });
        let json = read::<$j>($s).map(|h| hx(&h.0.t));
        same(direct, json, "FromStr and JSON")
    }};
}
macro_rules! hash_write {
    ($t:ty, $j:ty, $v:expr) => {{
        let v: HashV1 = b32($v).into();
        let h: $t = v.clone().into();
        let json = write::<$j>(&h.clone().into())?;
        assert_eq!(json, h.to_string(), "Display and JSON");
        assert_eq!(json, e(String::try_from(&h))?, "String and JSON");
        Ok(json)
    }};
}

fn parse(kind: &str, s: &str) -> R<J> {
    match kind {
        "amount" => e(Amount::from_str(s)).map(|x| dec(x.0)),
        "decimal" => read::<DecimalJson>(s).map(|x| dec(x.0)),
        "u32" => read::<U32Json>(s).map(|x| dec(x.0.into())),
        "u64" => read::<U64Json>(s).map(|x| dec(x.0)),
        "fp" => same(read::<FpJson>(s).map(|x| fp(x.0)), e(fp_from_radix_10(s)).map(fp), "FpJson and fp_from_radix_10"),
        "field10" | "field16" => e(Field::from_str_radix(s, if kind == "field10" { 10 } else { 16 })).map(|x| {
            let b: [u8; 32] = x.into();
            hx(&b)
        }),
        "felt" => same(
            read::<FieldElementJson>(s).map(|x| hx(&x.0)),
            e(FieldElementJson::try_from_hex_str(s)).map(|x| hx(&x.0)),
            "JSON and try_from_hex_str",
        ),
        "bigint" => e(BigInt256::try_from_hex(s)).map(|x| hx(&x.0)),
        "felts" => e(FieldElementVec::try_from_hex(s)).map(|x| hx(&x.0.iter().flat_map(|b| b.0).collect::<Vec<_>>())),
        "char" => same(
            read::<CharJson>(s).map(|x| hx(&[x.0])),
            e(Char::from_str(s)).map(|x| hx(&[x.0])),
            "Char and CharJson",
        ),
        "bytes" => read::<ByteVecJson>(s).map(|x| hx(&x.0)),
        "base64" => same(
            e(VrfOutputTruncated::from_str(s)).map(|x| hx(&x.0)),
            e(VrfOutputTruncated::from_base64_str(s)).map(|x| hx(&x.0)),
            "FromStr and from_base64_str",
        ),
        // base58
        "state" => hash_read!(StateHash, StateHashV1Json, s),
        "statebody" => hash_read!(StateBodyHash, StateBodyHashV1Json, s),
        "ledger" => hash_read!(LedgerHash, LedgerHashV1Json, s),
        "chain" => hash_read!(ChainHash, ChainHashV1Json, s),
        "coinbase" => hash_read!(CoinBaseHash, CoinBaseHashV1Json, s),
        "seed" => hash_read!(EpochSeed, EpochSeedHashV1Json, s),
        "vrfhash" => hash_read!(VrfOutputHash, VrfOutputHashV1Json, s),
        "stackdata" => read::<CoinBaseStackDataV1Json>(s).map(|x| hx(&x.0.t)),
        "stackhash" => read::<CoinBaseStackHashV1Json>(s).map(|x| hx(&x.0.t)),
        "aux" => same(e(AuxHash::from_str(s)).map(|x| hx(&x.0)), read::<AuxHashJson>(s).map(|x| hx(&x.0)), "FromStr and JSON"),
        "pcaux" => same(
            e(PendingCoinbaseAuxHash::from_str(s)).map(|x| hx(&x.0)),
            read::<PendingCoinbaseAuxHashJson>(s).map(|x| hx(&x.0)),
            "FromStr and JSON",
        ),
        "memo" => e(SignedCommandMemo::from_str(s)).map(|x| hx(&x.0)),
        "vrf" => e(VrfOutputTruncated::from_base58_str(s)).map(|x| hx(&x.0)),
        "signature" => read::<SignatureJson>(s).map(|x| hx(&[x.0.t.0, x.0.t.1].concat())),
        "key" => same(
            e(CompressedCurvePoint::from_str(s)).map(point),
            read::<PublicKeyJson>(s).map(|x| point(CompressedCurvePoint { x: x.x, is_odd: x.is_odd })),
            "FromStr and JSON",
        ),
        k => panic!("HARNESS kind {k}"),
    }
}
fn print(kind: &str, v: &J) -> R<String> {
    match kind {
        "amount" => Ok(Amount(num(v)).to_string()),
        "decimal" => write(&DecimalJson(num(v))),
        "u32" => write(&U32Json(num(v) as u32)),
        "u64" => write(&U64Json(num(v))),
        "fp" => write(&FpJson(Fp::from_repr(big(v)).unwrap())),
        "felt" => {
            let x = FieldElementJson(b32(v));
            let s = write(&x)?;
            assert_eq!(s, format!("0x{}", x.to_hex_string()));
            Ok(s)
        }
        "bigint" => Ok(BigInt256(b32(v)).to_hex_string()),
        "felts" => {
            let v: Vec<BigInt256> = bytes(v).chunks(32).map(|c| BigInt256(c.try_into().unwrap())).collect();
            Ok(FieldElementVec(v).to_hex_string())
        }
        "char" => {
            let b = bytes(v)[0];
            let s = write(&CharJson(b));
            assert_eq!(s.clone().ok(), String::try_from(&Char(b)).ok(), "Char and CharJson");
            s
        }
        "bytes" => write(&ByteVecJson(bytes(v))),
        "base64" => {
            let x = VrfOutputTruncated(bytes(v));
            let s = e(x.to_base64_string())?;
            assert_eq!(s, x.to_string());
            Ok(s)
        }
        "state" => hash_write!(StateHash, StateHashV1Json, v),
        "statebody" => hash_write!(StateBodyHash, StateBodyHashV1Json, v),
        "ledger" => hash_write!(LedgerHash, LedgerHashV1Json, v),
        "chain" => hash_write!(ChainHash, ChainHashV1Json, v),
        "coinbase" => hash_write!(CoinBaseHash, CoinBaseHashV1Json, v),
        "seed" => hash_write!(EpochSeed, EpochSeedHashV1Json, v),
        "vrfhash" => hash_write!(VrfOutputHash, VrfOutputHashV1Json, v),
        "stackdata" => {
            let h: HashV1 = b32(v).into();
            write::<CoinBaseStackDataV1Json>(&h.into())
        }
        "stackhash" => {
            let h: HashV1 = b32(v).into();
            write::<CoinBaseStackHashV1Json>(&h.into())
        }
        "aux" => {
            let h = AuxHash(bytes(v));
            let s = h.to_string();
            assert_eq!(s, write::<AuxHashJson>(&h.into())?);
            Ok(s)
        }
        "pcaux" => {
            let h = PendingCoinbaseAuxHash(bytes(v));
            let s = h.to_string();
            assert_eq!(s, write::<PendingCoinbaseAuxHashJson>(&h.into())?);
            Ok(s)
        }
        "memo" => e(String::try_from(SignedCommandMemo(bytes(v)))),
        "vrf" => e(VrfOutputTruncated(bytes(v)).to_base58_string()),
        "signature" => {
            let b = bytes(v);
            let p: ([u8; 32], [u8; 32]) = (b[..32].try_into().unwrap(), b[32..].try_into().unwrap());
            write(&SignatureJson(p.into()))
        }
        "key" => {
            let b = bytes(v);
            let t = CompressedCurvePoint { x: b[..32].try_into().unwrap(), is_odd: b[32] == 1 };
            let s = t.to_string();
            assert_eq!(s, write(&PublicKeyJson { x: t.x, is_odd: t.is_odd })?);
            Ok(s)
        }
        k => panic!("HARNESS kind {k}"),
    }
}
fn big(v: &J) -> BigInteger256 {
    let b: num::BigUint = num::Num::from_str_radix(v.as_str().unwrap(), 10).unwrap();
    b.try_into().unwrap()
}
/// {kind, text: code points} reads, {kind, value} writes
pub fn form(c: &J) -> J {
    let kind = c["kind"].as_str().unwrap();
    if let Some(t) = c["text"].as_array() {
        let s: String = t.iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect();
        return match parse(kind, &s) {
            Ok(v) => json!({"ok": true, "v": v}),
            Err(e) => json!({"ok": true, "err": e}),
        };
    }
    match print(kind, &c["value"]) {
        Ok(s) => json!({"ok": true, "text": s.chars().map(|c| c as u32).collect::<Vec<_>>()}),
        Err(e) => json!({"ok": true, "err": e}),
    }
}

//! Wallet files (spec/Wallet.tla).
use argon2::{derive, Algorithm, Version};
use mina_secrets::secret_box::*;
use serde_json::{json, Value as J};
use xsalsa20poly1305::{aead::generic_array::GenericArray, aead::Aead, KeyInit, XSalsa20Poly1305};

fn hx(j: &J) -> Vec<u8> {
    hex::decode(j.as_str().unwrap()).unwrap()
}
/// seals a text, using the stand-ins only
pub fn seal(c: &J) -> J {
    let n = |k: &str| c[k].as_u64().unwrap() as u32;
    let key = derive(Algorithm::Argon2i, Version::V0x13, n("kib"), n("passes"), 1, &hx(&c["pwd"]), &hx(&c["salt"]), 32);
    let cipher = XSalsa20Poly1305::new(GenericArray::from_slice(&key));
    let out = cipher.encrypt(GenericArray::from_slice(&hx(&c["nonce"])), &hx(&c["plain"])[..]).unwrap();
    json!({"ok": true, "out": hex::encode(out)})
}
pub fn wallet(c: &J) -> J {
    let sb: SecretBox = match SecretBox::try_from(c["text"].as_str().unwrap()) {
        Ok(s) => s,
        Err(e) => return json!({"ok": true, "import": false, "msg": e.to_string().len()}),
    };
    let pwd = hx(&c["pwd"]);
    let key = sb.get_private_key_bytes(&pwd);
    let pair = sb.get_keypair(&pwd);
    let text: Result<String, Error> = sb.clone().try_into();
    let value: Result<J, Error> = sb.clone().try_into();
    let text = text.ok().map(|t| serde_json::from_str::<J>(&t).unwrap());
    json!({"ok": true, "import": true, "key": key.ok().map(hex::encode),
        "pair": pair.ok().map(|p| c["secret"].as_str().map_or(false, |s| Keypair::from_hex(s).map_or(false, |q| q == p))),
        "export": text, "same": value.ok() == text})
}

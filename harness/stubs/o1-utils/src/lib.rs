pub mod field_helpers {
    use ark_ff::*;
    #[derive(thiserror::Error, Debug, Clone, PartialEq, Eq)]
    pub enum FieldHelpersError {
        #[error("failed to deserialize field bytes")]
        DeserializeBytes,
        #[error("failed to deserialize field bits")]
        DeserializeBits,
        #[error("failed to decode hex")]
        DecodeHex,
    }
    pub type Result<T> = std::result::Result<T, FieldHelpersError>;
    pub trait FieldHelpers<F> {
        fn from_bytes(bytes: &[u8]) -> Result<F>;
        fn from_hex(hex: &str) -> Result<F>;
        fn from_bits(bits: &[bool]) -> Result<F>;
        fn to_bytes(&self) -> Vec<u8>;
        fn to_hex(&self) -> String;
        fn to_bits(&self) -> Vec<bool>;
        fn size_in_bytes() -> usize;
    }
    impl<F: PrimeField + FromBytes + ToBytes> FieldHelpers<F> for F {
        fn from_bytes(mut bytes: &[u8]) -> Result<F> {
            F::read(&mut bytes).map_err(|_| FieldHelpersError::DeserializeBytes)
        }
        fn from_hex(h: &str) -> Result<F> {
            let b = hex::decode(h).map_err(|_| FieldHelpersError::DecodeHex)?;
            F::read(&b[..]).map_err(|_| FieldHelpersError::DeserializeBytes)
        }
        fn from_bits(bits: &[bool]) -> Result<F> {
            let mut b = vec![0u8; 32];
            for (i, x) in bits.iter().enumerate() {
                if *x {
                    if i >= 256 {
                        return Err(FieldHelpersError::DeserializeBits);
                    }
                    b[i / 8] |= 1 << (i % 8);
                }
            }
            F::read(&b[..]).map_err(|_| FieldHelpersError::DeserializeBytes)
        }
        fn to_bytes(&self) -> Vec<u8> {
            let mut b = vec![];
            self.write(&mut b).unwrap();
            b
        }
        fn to_hex(&self) -> String {
            hex::encode(self.to_bytes())
        }
        fn to_bits(&self) -> Vec<bool> {
            let b = self.to_bytes();
            (0..F::size_in_bits()).map(|i| (b[i / 8] >> (i % 8)) & 1 == 1).collect()
        }
        fn size_in_bytes() -> usize {
            32
        }
    }
}
pub use field_helpers::FieldHelpers;

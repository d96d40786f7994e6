pub mod pasta {
    use ark_ff::*;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct FpParams;
    impl FpParameters for FpParams {
        const MODULUS: BigInteger256 = BigInteger256([0x992d30ed00000001, 0x224698fc094cf91b, 0, 0x4000000000000000]);
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct FqParams;
    impl FpParameters for FqParams {
        const MODULUS: BigInteger256 = BigInteger256([0x8c46eb2100000001, 0x224698fc0994a8dd, 0, 0x4000000000000000]);
    }
    pub type Fp = Fp256<FpParams>;
    pub type Fq = Fp256<FqParams>;
    pub mod fp {
        pub use super::Fp;
    }
    pub mod fq {
        pub use super::Fq;
    }
    macro_rules! curve {
        ($m:ident, $params:ident, $b:ty, $s:ty) => {
            pub mod $m {
                use super::*;
                #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
                pub struct $params;
                impl ark_ec::ModelParameters for $params {
                    type BaseField = $b;
                    type ScalarField = $s;
                }
                impl ark_ec::SWModelParameters for $params {}
                pub type Affine = ark_ec::short_weierstrass_jacobian::GroupAffine<$params>;
            }
            pub use $m::$params;
        };
    }
    curve!(pallas, PallasParameters, Fp, Fq);
    curve!(vesta, VestaParameters, Fq, Fp);
}

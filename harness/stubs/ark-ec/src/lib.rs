//! Stand-in for ark-ec 0.3: affine points, no group operations.
pub mod models {
    pub trait ModelParameters: 'static + Copy + Default {
        type BaseField: ark_ff::Field;
        type ScalarField: ark_ff::Field;
    }
    pub trait SWModelParameters: ModelParameters {}
    pub mod short_weierstrass_jacobian {
        pub use crate::short_weierstrass_jacobian::*;
    }
}
pub use models::{ModelParameters, SWModelParameters};
pub mod short_weierstrass_jacobian {
    use super::*;
    use ark_ff::Zero;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct GroupAffine<P: SWModelParameters> {
        pub x: P::BaseField,
        pub y: P::BaseField,
        pub infinity: bool,
        _p: std::marker::PhantomData<P>,
    }
    impl<P: SWModelParameters> GroupAffine<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self {
            Self { x, y, infinity, _p: Default::default() }
        }
        pub fn is_zero(&self) -> bool {
            self.infinity
        }
        pub fn zero() -> Self {
            Self::new(P::BaseField::zero(), P::BaseField::default(), true)
        }
    }
}

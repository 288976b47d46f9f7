//! A stand-in for the part of `manul` that synedrion uses: the same names and signatures, so that
//! the whole crate type-checks offline. The analyses treat every function in here as external: they
//! rely on the names and the documented contracts only, never on these bodies.
//! With the feature `dev` it can also run protocols in-process (used only to confirm findings by hand).
extern crate alloc;

pub use signature;

pub mod protocol;
pub mod utils;

pub mod session {
    pub use crate::protocol::LocalError;

    /// Maps the types a session is parametrized with.
    pub trait SessionParameters {
        type Signer: signature::Keypair<VerifyingKey = Self::Verifier>;
        type Verifier: crate::protocol::PartyId + 'static;
        type WireFormat: WireFormat;
    }

    pub trait WireFormat: 'static + core::fmt::Debug {
        fn serialize<T: serde::Serialize>(value: T) -> Result<alloc::boxed::Box<[u8]>, LocalError>;
        fn deserialize<T: for<'de> serde::Deserialize<'de>>(bytes: &[u8]) -> Result<T, LocalError>;
    }
}

#[cfg(feature = "dev")]
pub mod combinators;
#[cfg(feature = "dev")]
pub mod dev;

//! Session parameters of the harness: a strict toy signature scheme and pluggable wire formats.
use std::{cell::RefCell, fmt::Debug, marker::PhantomData, sync::Arc, sync::Mutex};

use manul::{
    dev::{BinaryFormat, HumanReadableFormat},
    digest::{self, Digest},
    protocol::LocalError,
    session::{SessionParameters, WireFormat},
    signature::{self, DigestVerifier, Keypair, RandomizedDigestSigner},
};
use rand_core::CryptoRngCore;
use serde::{Deserialize, Deserializer, Serialize};
use serde_persistent_deserializer::{AsTransientDeserializer, PersistentDeserializer};
use sha3::Sha3_256;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Hash)]
pub struct Vid(pub u16);
impl Debug for Vid {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.0)
    }
}

#[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Sig {
    nonce: [u8; 8],
    mac: [u8; 32],
}

pub type NonceLog = Arc<Mutex<Vec<[u8; 8]>>>;

#[derive(Clone)]
pub struct Signer {
    pub id: Vid,
    pub nonces: Option<NonceLog>,
    /// Refuse to sign (used for local error tests) after that many signatures.
    pub fail: Option<Arc<Mutex<i64>>>,
}
impl Debug for Signer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Signer({:?})", self.id)
    }
}
impl Signer {
    pub fn new(id: Vid) -> Self {
        Signer { id, nonces: None, fail: None }
    }
}

fn mac(id: Vid, nonce: &[u8; 8], digest: &[u8]) -> [u8; 32] {
    let key = Sha3_256::new().chain_update(b"verif-key").chain_update(id.0.to_be_bytes()).finalize();
    Sha3_256::new()
        .chain_update(key)
        .chain_update(nonce)
        .chain_update(digest)
        .finalize()
        .into()
}

impl<D: Digest> RandomizedDigestSigner<D, Sig> for Signer {
    fn try_sign_digest_with_rng(&self, rng: &mut impl CryptoRngCore, digest: D) -> Result<Sig, signature::Error> {
        if let Some(fail) = &self.fail {
            let mut f = fail.lock().unwrap();
            *f -= 1;
            if *f < 0 {
                return Err(signature::Error::new());
            }
        }
        let mut nonce = [0u8; 8];
        rng.fill_bytes(&mut nonce);
        if let Some(log) = &self.nonces {
            log.lock().unwrap().push(nonce);
        }
        Ok(Sig { nonce, mac: mac(self.id, &nonce, &digest.finalize()) })
    }
}
impl Keypair for Signer {
    type VerifyingKey = Vid;
    fn verifying_key(&self) -> Vid {
        self.id
    }
}
impl<D: Digest> DigestVerifier<D, Sig> for Vid {
    fn verify_digest(&self, digest: D, s: &Sig) -> Result<(), signature::Error> {
        if s.mac == mac(*self, &s.nonce, &digest.finalize()) {
            Ok(())
        } else {
            Err(signature::Error::new())
        }
    }
}

// ---------------------------------------------------------------------------------------------

thread_local! {
    static RAW_OUT: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}

/// A value that "serializes" to exactly the given bytes in every format of the harness.
#[derive(Clone, Debug)]
pub struct RawBytes(pub Vec<u8>);
impl Serialize for RawBytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        RAW_OUT.with(|r| *r.borrow_mut() = Some(self.0.clone()));
        s.serialize_unit()
    }
}
impl<'de> Deserialize<'de> for RawBytes {
    fn deserialize<D: Deserializer<'de>>(_d: D) -> Result<Self, D::Error> {
        Err(serde::de::Error::custom("RawBytes is never received"))
    }
}

/// Wraps a wire format, giving `RawBytes` control over the output.
#[derive(Debug, Clone, Copy)]
pub struct Fx<F>(PhantomData<F>);

impl<F: WireFormat> WireFormat for Fx<F> {
    fn serialize<T: Serialize>(value: T) -> Result<Box<[u8]>, LocalError> {
        RAW_OUT.with(|r| *r.borrow_mut() = None);
        let res = F::serialize(value);
        match RAW_OUT.with(|r| r.borrow_mut().take()) {
            Some(raw) => Ok(raw.into()),
            None => res,
        }
    }
    type Deserializer<'de> = F::Deserializer<'de>;
    fn deserializer(bytes: &[u8]) -> Self::Deserializer<'_> {
        F::deserializer(bytes)
    }
}

/// Self-describing format whose deserializer walks an already parsed, owned tree (nothing is borrowed from the input).
#[derive(Debug, Clone, Copy)]
pub struct TreeFormat;
impl WireFormat for TreeFormat {
    fn serialize<T: Serialize>(value: T) -> Result<Box<[u8]>, LocalError> {
        serde_json::to_vec(&value).map(|v| v.into()).map_err(|e| LocalError::new(e.to_string()))
    }
    type Deserializer<'de> = serde_json::Value;
    fn deserializer(bytes: &[u8]) -> serde_json::Value {
        serde_json::from_slice(bytes).unwrap_or(serde_json::Value::String("<unparsable input>".into()))
    }
}

/// Fixed-width binary format (bincode).
#[derive(Debug, Clone, Copy)]
pub struct FixedFormat;
type BincodeDe<'de> =
    bincode::Deserializer<bincode::de::read::SliceReader<'de>, bincode::config::WithOtherLimit<bincode::DefaultOptions, bincode::config::Bounded>>;
pub struct BincodeDeserializer<'de>(BincodeDe<'de>);
impl<'de> AsTransientDeserializer<'de> for BincodeDeserializer<'de> {
    type Error = bincode::Error;
    fn as_transient_deserializer<'a>(&'a mut self) -> impl Deserializer<'de, Error = Self::Error> {
        &mut self.0
    }
}
impl WireFormat for FixedFormat {
    fn serialize<T: Serialize>(value: T) -> Result<Box<[u8]>, LocalError> {
        use bincode::Options;
        bincode::DefaultOptions::new()
            .with_limit(1 << 24)
            .serialize(&value)
            .map(|v| v.into())
            .map_err(|e| LocalError::new(e.to_string()))
    }
    type Deserializer<'de> = PersistentDeserializer<BincodeDeserializer<'de>>;
    fn deserializer(bytes: &[u8]) -> Self::Deserializer<'_> {
        use bincode::Options;
        PersistentDeserializer::new(BincodeDeserializer(bincode::Deserializer::from_slice(
            bytes,
            bincode::DefaultOptions::new().with_limit(1 << 24),
        )))
    }
}

pub type Bin = Fx<BinaryFormat>;
pub type Json = Fx<HumanReadableFormat>;
pub type Tree = Fx<TreeFormat>;
pub type Fixed = Fx<FixedFormat>;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct SP<F, D = Sha3_256>(PhantomData<(F, D)>);
impl<F: WireFormat, D: Digest + 'static> SessionParameters for SP<F, D> {
    type Signer = Signer;
    type Digest = D;
    type Verifier = Vid;
    type Signature = Sig;
    type WireFormat = F;
}

pub fn ser<F: WireFormat, T: Serialize>(x: &T) -> Vec<u8> {
    F::serialize(x).expect("serializable").into()
}
pub fn de<'a, F: WireFormat, T: Deserialize<'a>>(bytes: &'a [u8]) -> Result<T, String> {
    T::deserialize(F::deserializer(bytes)).map_err(|e| format!("{e}"))
}

/// Runs the body with `F` bound to one of the four wire formats.
#[macro_export]
macro_rules! with_format {
    ($idx:expr, $F:ident => $body:expr) => {
        match $idx % 4 {
            0 => { type $F = $crate::params::Bin; $body }
            1 => { type $F = $crate::params::Json; $body }
            2 => { type $F = $crate::params::Tree; $body }
            _ => { type $F = $crate::params::Fixed; $body }
        }
    };
}
#[allow(unused)]
pub type Out<D> = digest::Output<D>;

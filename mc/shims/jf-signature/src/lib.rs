//! A symbolic stand-in for jf-signature (a git dependency that is not available offline): an ideal signature scheme.
//! A signature is the term sig(key, message); verification succeeds exactly on the term made with that key for that
//! message. Keys are 8-byte names behind a prefix, as long as real ones; anything else does not deserialize.

use ark_serialize::{
    CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate, Write,
};
use rand::{CryptoRng, RngCore};

#[derive(Debug)]
pub struct SignatureError(pub String);
impl std::fmt::Display for SignatureError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for SignatureError {}

pub trait SignatureScheme: Clone + Send + Sync + 'static {
    type SigningKey;
    type VerificationKey;
    type PublicParameter;
    type Signature;
    type MessageUnit;

    fn key_gen<R: CryptoRng + RngCore>(
        pp: &Self::PublicParameter,
        prng: &mut R,
    ) -> Result<(Self::SigningKey, Self::VerificationKey), SignatureError>;

    fn sign<R: CryptoRng + RngCore, M: AsRef<[Self::MessageUnit]>>(
        pp: &Self::PublicParameter,
        sk: &Self::SigningKey,
        msg: M,
        prng: &mut R,
    ) -> Result<Self::Signature, SignatureError>;

    fn verify<M: AsRef<[Self::MessageUnit]>>(
        pp: &Self::PublicParameter,
        vk: &Self::VerificationKey,
        msg: M,
        sig: &Self::Signature,
    ) -> Result<(), SignatureError>;
}

pub mod bls_over_bn254 {
    use super::*;

    pub const KEY_MAGIC: [u8; 8] = *b"vmc-key:";
    pub const SIG_MAGIC: [u8; 8] = *b"vmc-sig:";

    /// What comes between the magic and the name: a real key takes 128 bytes, or 64 if it is compressed
    fn filler(compress: Compress) -> &'static [u8] {
        const FILLER: [u8; 112] = {
            let mut a = [0; 112];
            let mut i = 0;
            while i < 112 {
                a[i] = (i * 37) as u8;
                i += 1;
            }
            a
        };
        match compress {
            Compress::Yes => &FILLER[..48],
            Compress::No => &FILLER,
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct VerKey(pub [u8; 8]);

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SignKey(pub [u8; 8]);

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Signature {
        pub key: [u8; 8],
        pub message: Vec<u8>,
    }

    #[derive(Clone, Debug)]
    pub struct BLSOverBN254CurveSignatureScheme;

    impl Valid for VerKey {
        fn check(&self) -> Result<(), SerializationError> {
            Ok(())
        }
    }
    impl CanonicalSerialize for VerKey {
        fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
            w.write_all(&KEY_MAGIC)?;
            w.write_all(filler(c))?;
            w.write_all(&self.0)?;
            Ok(())
        }
        fn serialized_size(&self, c: Compress) -> usize {
            16 + filler(c).len()
        }
    }
    impl CanonicalDeserialize for VerKey {
        fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, _: Validate) -> Result<Self, SerializationError> {
            let (mut magic, mut fill, mut key) = ([0; 8], vec![0; filler(c).len()], [0; 8]);
            r.read_exact(&mut magic)?;
            r.read_exact(&mut fill)?;
            r.read_exact(&mut key)?;
            if magic != KEY_MAGIC || fill != filler(c) {
                return Err(SerializationError::InvalidData);
            }
            Ok(Self(key))
        }
    }

    impl Valid for Signature {
        fn check(&self) -> Result<(), SerializationError> {
            Ok(())
        }
    }
    impl CanonicalSerialize for Signature {
        fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> {
            w.write_all(&SIG_MAGIC)?;
            w.write_all(&self.key)?;
            w.write_all(&(self.message.len() as u64).to_le_bytes())?;
            w.write_all(&self.message)?;
            Ok(())
        }
        fn serialized_size(&self, _: Compress) -> usize {
            24 + self.message.len()
        }
    }
    impl CanonicalDeserialize for Signature {
        fn deserialize_with_mode<R: Read>(mut r: R, _: Compress, _: Validate) -> Result<Self, SerializationError> {
            let (mut magic, mut key, mut len) = ([0; 8], [0; 8], [0; 8]);
            r.read_exact(&mut magic)?;
            r.read_exact(&mut key)?;
            r.read_exact(&mut len)?;
            let len = u64::from_le_bytes(len);
            if magic != SIG_MAGIC || len > 4096 {
                return Err(SerializationError::InvalidData);
            }
            let mut message = vec![0; len as usize];
            r.read_exact(&mut message)?;
            Ok(Self { key, message })
        }
    }

    impl SignatureScheme for BLSOverBN254CurveSignatureScheme {
        type SigningKey = SignKey;
        type VerificationKey = VerKey;
        type PublicParameter = ();
        type Signature = Signature;
        type MessageUnit = u8;

        fn key_gen<R: CryptoRng + RngCore>(
            _: &(),
            prng: &mut R,
        ) -> Result<(SignKey, VerKey), SignatureError> {
            let mut key = [0; 8];
            prng.fill_bytes(&mut key);
            Ok((SignKey(key), VerKey(key)))
        }

        fn sign<R: CryptoRng + RngCore, M: AsRef<[u8]>>(
            _: &(),
            sk: &SignKey,
            msg: M,
            _: &mut R,
        ) -> Result<Signature, SignatureError> {
            Ok(Signature { key: sk.0, message: msg.as_ref().to_vec() })
        }

        fn verify<M: AsRef<[u8]>>(_: &(), vk: &VerKey, msg: M, sig: &Signature) -> Result<(), SignatureError> {
            if sig.key == vk.0 && sig.message == msg.as_ref() {
                Ok(())
            } else {
                Err(SignatureError("verification failed".into()))
            }
        }
    }
}

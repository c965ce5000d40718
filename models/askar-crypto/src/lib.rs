//! Ideal-functionality stand-in for the part of askar-crypto's API that didcomm uses.
//!
//! The real crate is a git dependency that cannot be fetched here. This model keeps its interface,
//! its length/format/missing-key errors and its observable algebra, and replaces the number theory
//! by ideal functionalities kept in one table per run:
//!  * AEAD and key wrap: decryption succeeds exactly on (algorithm, key, nonce, aad, ciphertext, tag)
//!    tuples that an encryption call produced, and returns its plaintext; ciphertext bytes depend only
//!    on the number of the encryption call and the plaintext length.
//!  * Signatures: verification succeeds exactly on (algorithm, public key, message, signature) tuples
//!    a signing call with the matching private key produced.
//!  * ECDH key derivation: a free term over the unordered public-key pair(s) and every KDF input, so two
//!    derivations agree iff the same key pairs and the same inputs went in.
//!  * Randomness: a counter; every draw is fresh.
#![allow(clippy::all)]
#![allow(static_mut_refs)]

mod error {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum ErrorKind { Custom, Encryption, ExceededBuffer, Invalid, InvalidNonce, InvalidKeyData, MissingSecretKey, Unexpected, Usage, Unsupported }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Error { kind: ErrorKind, msg: &'static str }
    impl Error {
        pub fn from_msg(kind: ErrorKind, msg: &'static str) -> Self { Error { kind, msg } }
        pub fn kind(&self) -> ErrorKind { self.kind }
    }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.msg) } }
    impl std::error::Error for Error {}
}
pub use error::{Error, ErrorKind};
fn err<T>(k: ErrorKind, m: &'static str) -> Result<T, Error> { Err(Error::from_msg(k, m)) }

/// Control and inspection of the ideal functionalities (used by the verification harnesses).
pub mod model {
    pub struct Sealed { pub alg: u8, pub key: Vec<u8>, pub nonce: Vec<u8>, pub aad: Vec<u8>, pub pt: Vec<u8>, pub ct: Vec<u8> }
    pub struct Signed { pub alg: u8, pub pk: Vec<u8>, pub msg: Vec<u8>, pub sig: Vec<u8> }
    pub struct State { pub sealed: Vec<Sealed>, pub signed: Vec<Signed>, pub draws: u32, pub drawn: Vec<(u8, Vec<u8>)> }
    static mut STATE: State = State { sealed: Vec::new(), signed: Vec::new(), draws: 0, drawn: Vec::new() };
    pub fn st() -> &'static mut State { unsafe { &mut STATE } }
    /// Forget every encryption and signature and restart the randomness counter.
    pub fn reset() { let s = st(); s.sealed = Vec::new(); s.signed = Vec::new(); s.draws = 0; s.drawn = Vec::new(); }
    /// Deterministic filler: pairwise different for different (class, n) in the first six bytes.
    pub fn fill(class: u8, n: u32, len: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(len);
        let nb = n.to_be_bytes();
        let mut x = 0x9e37_79b9u32 ^ (class as u32) << 24 ^ n.wrapping_mul(0x85eb_ca6b);
        for i in 0..len {
            let b = match i { 0 => class, 1..=4 => nb[i - 1] ^ 0x5c, _ => { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 } };
            v.push(b);
        }
        v
    }
    pub fn draw(class: u8, len: usize) -> Vec<u8> { let s = st(); s.draws += 1; let v = fill(class, s.draws, len); s.drawn.push((class, v.clone())); v }
    /// Number of pairs of content encryptions under one key and one nonce with different inputs.
    pub fn nonce_reuse() -> usize {
        let s = st(); let mut n = 0;
        for i in 0..s.sealed.len() { for j in 0..i { let (a, b) = (&s.sealed[i], &s.sealed[j]); if a.alg == b.alg && !a.nonce.is_empty() && a.key == b.key && a.nonce == b.nonce { n += 1; } } }
        n
    }
    pub(crate) fn seal(alg: u8, key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8], ct_len: usize) -> Vec<u8> {
        let s = st();
        for e in s.sealed.iter() {
            if e.alg == alg && e.key.len() == key.len() && e.nonce.len() == nonce.len() && e.aad.len() == aad.len() && e.pt.len() == pt.len()
                && e.key == key && e.nonce == nonce && e.aad == aad && e.pt == pt { return e.ct.clone(); }
        }
        let n = s.sealed.len() as u32;
        // body first, then a tag whose head carries the call number
        let ct = fill(alg, n, ct_len);
        s.sealed.push(Sealed { alg, key: key.to_vec(), nonce: nonce.to_vec(), aad: aad.to_vec(), pt: pt.to_vec(), ct: ct.clone() });
        ct
    }
    pub(crate) fn open(alg: u8, key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
        for e in st().sealed.iter() {
            if e.alg == alg && e.key.len() == key.len() && e.nonce.len() == nonce.len() && e.aad.len() == aad.len() && e.ct.len() == ct.len()
                && e.key == key && e.nonce == nonce && e.ct == ct && e.aad == aad { return Some(e.pt.clone()); }
        }
        None
    }
    pub(crate) fn sign(alg: u8, pk: &[u8], msg: &[u8]) -> Vec<u8> {
        let s = st();
        for e in s.signed.iter() { if e.alg == alg && e.msg.len() == msg.len() && e.pk == pk && e.msg == msg { return e.sig.clone(); } }
        let sig = fill(alg, s.signed.len() as u32, 64);
        s.signed.push(Signed { alg, pk: pk.to_vec(), msg: msg.to_vec(), sig: sig.clone() });
        sig
    }
    pub(crate) fn verify(alg: u8, pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
        for e in st().signed.iter() { if e.alg == alg && e.sig.len() == sig.len() && e.msg.len() == msg.len() && e.pk == pk && e.sig == sig && e.msg == msg { return true; } }
        false
    }
}

pub mod buffer {
    use super::{Error};
    pub trait WriteBuffer { fn buffer_write(&mut self, data: &[u8]) -> Result<(), Error>; }
    pub trait ResizeBuffer: WriteBuffer + AsRef<[u8]> + AsMut<[u8]> { fn buffer_insert(&mut self, pos: usize, data: &[u8]) -> Result<(), Error>; fn buffer_remove(&mut self, range: std::ops::Range<usize>) -> Result<(), Error>; fn buffer_resize(&mut self, len: usize) -> Result<(), Error>; fn buffer_set(&mut self, data: Vec<u8>); }
    #[derive(Clone, Default, PartialEq, Eq)]
    pub struct SecretBytes(Vec<u8>);
    impl SecretBytes {
        pub fn with_capacity(n: usize) -> Self { SecretBytes(Vec::with_capacity(n)) }
        pub fn from_slice(d: &[u8]) -> Self { SecretBytes(d.to_vec()) }
        pub fn from_slice_reserve(d: &[u8], n: usize) -> Self { let mut v = Vec::with_capacity(d.len() + n); v.extend_from_slice(d); SecretBytes(v) }
        pub fn extend_from_slice(&mut self, d: &[u8]) { self.0.extend_from_slice(d) }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn into_vec(self) -> Vec<u8> { self.0 }
        pub fn into_boxed_slice(self) -> Box<[u8]> { self.0.into_boxed_slice() }
        pub fn as_opt_str(&self) -> Option<&str> { std::str::from_utf8(&self.0).ok() }
    }
    impl std::fmt::Debug for SecretBytes { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("<secret>") } }
    impl AsRef<[u8]> for SecretBytes { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl AsMut<[u8]> for SecretBytes { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
    impl std::ops::Deref for SecretBytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
    impl From<Vec<u8>> for SecretBytes { fn from(v: Vec<u8>) -> Self { SecretBytes(v) } }
    impl From<&[u8]> for SecretBytes { fn from(v: &[u8]) -> Self { SecretBytes(v.to_vec()) } }
    impl WriteBuffer for SecretBytes { fn buffer_write(&mut self, d: &[u8]) -> Result<(), Error> { self.0.extend_from_slice(d); Ok(()) } }
    impl WriteBuffer for Vec<u8> { fn buffer_write(&mut self, d: &[u8]) -> Result<(), Error> { self.extend_from_slice(d); Ok(()) } }
    macro_rules! rb { ($t:ty, $s:ident, $v:expr) => { impl ResizeBuffer for $t {
        fn buffer_insert(&mut $s, pos: usize, data: &[u8]) -> Result<(), Error> { let v = $v; let tail = v.split_off(pos); v.extend_from_slice(data); v.extend_from_slice(&tail); Ok(()) }
        fn buffer_remove(&mut $s, range: std::ops::Range<usize>) -> Result<(), Error> { let v = $v; v.drain(range); Ok(()) }
        fn buffer_resize(&mut $s, len: usize) -> Result<(), Error> { let v = $v; v.resize(len, 0); Ok(()) }
        fn buffer_set(&mut $s, data: Vec<u8>) { *$v = data; }
    } } }
    rb!(SecretBytes, self, &mut self.0);
    rb!(Vec<u8>, self, self);
}

pub mod generic_array { pub mod typenum { pub struct U8; pub struct U12; pub struct U16; pub struct U24; pub struct U32; } }

pub mod encrypt {
    use super::{buffer::ResizeBuffer, Error};
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct KeyAeadParams { pub nonce_length: usize, pub tag_length: usize }
    pub trait KeyAeadInPlace {
        fn encrypt_in_place(&self, buffer: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<usize, Error>;
        fn decrypt_in_place(&self, buffer: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<(), Error>;
        fn aead_params(&self) -> KeyAeadParams;
        fn aead_padding(&self, _msg_len: usize) -> usize { 0 }
    }
    pub trait KeyAeadMeta {
        const NONCE: usize;
        fn random_nonce() -> Vec<u8> { super::model::draw(0x6e, Self::NONCE) }
    }
}

pub mod random {
    pub struct Rng(());
    pub fn default_rng() -> Rng { Rng(()) }
    pub fn fill_random(out: &mut [u8]) { let v = super::model::draw(0x72, out.len()); out.copy_from_slice(&v); }
    pub trait KeyMaterial { fn draw(&mut self, class: u8, len: usize) -> Vec<u8>; }
    impl KeyMaterial for Rng { fn draw(&mut self, class: u8, len: usize) -> Vec<u8> { super::model::draw(class, len) } }
    impl<T: KeyMaterial + ?Sized> KeyMaterial for &mut T { fn draw(&mut self, class: u8, len: usize) -> Vec<u8> { (**self).draw(class, len) } }
}

pub mod repr {
    use super::{buffer::{SecretBytes, WriteBuffer}, random::KeyMaterial, Error};
    pub trait KeyGen: Sized { fn generate(rng: impl KeyMaterial) -> Result<Self, Error>; fn random() -> Result<Self, Error> { Self::generate(super::random::default_rng()) } }
    pub trait KeySecretBytes: Sized {
        fn from_secret_bytes(key: &[u8]) -> Result<Self, Error>;
        fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O;
    }
    pub trait ToSecretBytes {
        fn secret_bytes_length(&self) -> Result<usize, Error>;
        fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error>;
        fn to_secret_bytes(&self) -> Result<SecretBytes, Error> { let mut b = SecretBytes::with_capacity(64); self.write_secret_bytes(&mut b)?; Ok(b) }
    }
    pub trait KeyPublicBytes: Sized {
        fn from_public_bytes(key: &[u8]) -> Result<Self, Error>;
        fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O;
    }
    pub trait ToPublicBytes {
        fn public_bytes_length(&self) -> Result<usize, Error>;
        fn write_public_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error>;
        fn to_public_bytes(&self) -> Result<SecretBytes, Error> { let mut b = SecretBytes::with_capacity(64); self.write_public_bytes(&mut b)?; Ok(b) }
    }
}

pub mod jwk {
    use super::{alg::KeyAlg, err, Error, ErrorKind};
    #[derive(serde::Deserialize)]
    pub struct JwkParts { pub kty: String, pub crv: Option<String>, pub x: Option<String>, pub y: Option<String>, pub d: Option<String> }
    pub trait FromJwk: Sized {
        fn from_jwk(jwk: &str) -> Result<Self, Error> {
            match serde_json::from_str::<JwkParts>(jwk) { Ok(p) => Self::from_jwk_parts(&p), Err(_) => err(ErrorKind::InvalidKeyData, "Error deserializing JWK") }
        }
        fn from_jwk_slice(jwk: &[u8]) -> Result<Self, Error> {
            match serde_json::from_slice::<JwkParts>(jwk) { Ok(p) => Self::from_jwk_parts(&p), Err(_) => err(ErrorKind::InvalidKeyData, "Error deserializing JWK") }
        }
        fn from_jwk_parts(jwk: &JwkParts) -> Result<Self, Error>;
    }
    pub trait ToJwk {
        fn to_jwk_public(&self, alg: Option<KeyAlg>) -> Result<String, Error>;
    }
    pub(crate) fn b64(s: &Option<String>, n: usize) -> Result<Vec<u8>, Error> {
        match s { Some(s) => match base64::decode_config(s, base64::URL_SAFE_NO_PAD) { Ok(v) if v.len() == n => Ok(v), _ => err(ErrorKind::InvalidKeyData, "Invalid key data") }, None => err(ErrorKind::InvalidKeyData, "Missing key data") }
    }
}

pub mod kdf {
    use super::{buffer::WriteBuffer, Error};
    pub trait KeyDerivation { fn term(&mut self) -> Result<Vec<u8>, Error>; }
    pub trait FromKeyDerivation { fn from_key_derivation<D: KeyDerivation>(derive: D) -> Result<Self, Error> where Self: Sized; }
    pub trait KeyExchange<Rhs: ?Sized = Self> {
        fn write_key_exchange(&self, other: &Rhs, out: &mut dyn WriteBuffer) -> Result<(), Error>;
        fn key_exchange_bytes(&self, other: &Rhs) -> Result<super::buffer::SecretBytes, Error> { let mut b = super::buffer::SecretBytes::with_capacity(64); self.write_key_exchange(other, &mut b)?; Ok(b) }
    }
    fn field(out: &mut Vec<u8>, d: &[u8]) { out.extend_from_slice(&(d.len() as u32).to_be_bytes()); out.extend_from_slice(d); }
    pub mod ecdh_es {
        use super::*;
        pub struct EcdhEs<'d, Key: KeyExchange + ?Sized> { e: &'d Key, r: &'d Key, alg: &'d [u8], apu: &'d [u8], apv: &'d [u8], receive: bool }
        impl<'d, Key: KeyExchange + ?Sized> EcdhEs<'d, Key> {
            pub fn new(ephem_key: &'d Key, recip_key: &'d Key, alg: &'d [u8], apu: &'d [u8], apv: &'d [u8], receive: bool) -> Self { EcdhEs { e: ephem_key, r: recip_key, alg, apu, apv, receive } }
        }
        impl<Key: KeyExchange + ?Sized> KeyDerivation for EcdhEs<'_, Key> {
            fn term(&mut self) -> Result<Vec<u8>, Error> {
                let mut z = Vec::new();
                if self.receive { self.r.write_key_exchange(self.e, &mut z)?; } else { self.e.write_key_exchange(self.r, &mut z)?; }
                let mut o = Vec::new();
                field(&mut o, &z); field(&mut o, self.alg); field(&mut o, self.apu); field(&mut o, self.apv); field(&mut o, &[]);
                Ok(o)
            }
        }
    }
    pub mod ecdh_1pu {
        use super::*;
        pub struct Ecdh1PU<'d, Key: KeyExchange + ?Sized> { e: &'d Key, s: &'d Key, r: &'d Key, alg: &'d [u8], apu: &'d [u8], apv: &'d [u8], cc_tag: &'d [u8], receive: bool }
        impl<'d, Key: KeyExchange + ?Sized> Ecdh1PU<'d, Key> {
            pub fn new(ephem_key: &'d Key, send_key: &'d Key, recip_key: &'d Key, alg: &'d [u8], apu: &'d [u8], apv: &'d [u8], cc_tag: &'d [u8], receive: bool) -> Self { Ecdh1PU { e: ephem_key, s: send_key, r: recip_key, alg, apu, apv, cc_tag, receive } }
        }
        impl<Key: KeyExchange + ?Sized> KeyDerivation for Ecdh1PU<'_, Key> {
            fn term(&mut self) -> Result<Vec<u8>, Error> {
                if self.cc_tag.len() > 128 { return super::super::err(super::super::ErrorKind::Unsupported, "Exceeded maximum length for cc_tag"); }
                let mut z = Vec::new();
                if self.receive { self.r.write_key_exchange(self.e, &mut z)?; self.r.write_key_exchange(self.s, &mut z)?; }
                else { self.e.write_key_exchange(self.r, &mut z)?; self.s.write_key_exchange(self.r, &mut z)?; }
                let mut o = Vec::new();
                field(&mut o, &z); field(&mut o, self.alg); field(&mut o, self.apu); field(&mut o, self.apv); field(&mut o, self.cc_tag);
                Ok(o)
            }
        }
    }
}

pub mod sign {
    use super::{buffer::WriteBuffer, Error};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum SignatureType { EdDSA, ES256, ES256K }
    impl SignatureType { pub const fn signature_length(&self) -> usize { 64 } }
    pub trait KeySign {
        fn write_signature(&self, message: &[u8], sig_type: Option<SignatureType>, out: &mut dyn WriteBuffer) -> Result<(), Error>;
        fn create_signature(&self, message: &[u8], sig_type: Option<SignatureType>) -> Result<super::buffer::SecretBytes, Error> { let mut b = super::buffer::SecretBytes::with_capacity(64); self.write_signature(message, sig_type, &mut b)?; Ok(b) }
    }
    pub trait KeySigVerify { fn verify_signature(&self, message: &[u8], signature: &[u8], sig_type: Option<SignatureType>) -> Result<bool, Error>; }
}

pub mod alg {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum KeyAlg { A256CbcHs512, A256Gcm, XC20P, Ed25519, X25519, K256, P256 }

    // ---- symmetric keys: every one is (kind, bytes) ----
    macro_rules! aead_ops { ($ty:ty, $self:ident, $code:expr, $nonce:expr, $tag:expr, $ctlen:expr, $kw:expr) => {
        impl encrypt::KeyAeadInPlace for $ty {
            fn encrypt_in_place(&$self, buffer: &mut dyn buffer::ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<usize, Error> {
                if nonce.len() != $nonce { return err(ErrorKind::InvalidNonce, "Invalid nonce"); }
                let pt = buffer.as_ref().to_vec();
                if $kw { if !aad.is_empty() { return err(ErrorKind::Unsupported, "AAD not supported"); } if pt.len() % 8 != 0 { return err(ErrorKind::Unsupported, "Data length must be a multiple of 8 bytes"); } }
                let n: usize = $ctlen(pt.len());
                let out = model::seal($code, &$self.key, nonce, aad, &pt, n + $tag);
                buffer.buffer_set(out);
                Ok(n)
            }
            fn decrypt_in_place(&$self, buffer: &mut dyn buffer::ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<(), Error> {
                if nonce.len() != $nonce { return err(ErrorKind::InvalidNonce, "Invalid nonce"); }
                let ct = buffer.as_ref().to_vec();
                if $kw && !aad.is_empty() { return err(ErrorKind::Unsupported, "AAD not supported"); }
                if ct.len() < $tag { return err(ErrorKind::Encryption, "Invalid size for encrypted data"); }
                match model::open($code, &$self.key, nonce, aad, &ct) { Some(pt) => { buffer.buffer_set(pt); Ok(()) } None => err(ErrorKind::Encryption, "AEAD decryption error") }
            }
            fn aead_params(&$self) -> encrypt::KeyAeadParams { encrypt::KeyAeadParams { nonce_length: $nonce, tag_length: $tag } }
            fn aead_padding(&self, n: usize) -> usize { let m: usize = $ctlen(n); m - n }
        }
        impl encrypt::KeyAeadMeta for $ty { const NONCE: usize = $nonce; }
    } }
    macro_rules! sym_key { ($ty:ty, $new:expr, $len:expr, $class:expr) => {
        impl repr::KeyGen for $ty { fn generate(mut rng: impl random::KeyMaterial) -> Result<Self, Error> { Ok($new(rng.draw($class, $len))) } }
        impl repr::KeySecretBytes for $ty {
            fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> { if key.len() != $len { return err(ErrorKind::InvalidKeyData, "Invalid key length"); } Ok($new(key.to_vec())) }
            fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O { f(Some(&self.key)) }
        }
        impl repr::ToSecretBytes for $ty {
            fn secret_bytes_length(&self) -> Result<usize, Error> { Ok(self.key.len()) }
            fn write_secret_bytes(&self, out: &mut dyn buffer::WriteBuffer) -> Result<(), Error> { out.buffer_write(&self.key) }
        }
        impl kdf::FromKeyDerivation for $ty { fn from_key_derivation<D: kdf::KeyDerivation>(mut d: D) -> Result<Self, Error> { Ok($new(d.term()?)) } }
    } }
    pub mod aes {
        use super::*;
        use std::marker::PhantomData;
        pub trait AesType { const ALG: KeyAlg; }
        #[derive(Clone, PartialEq, Eq)]
        pub struct AesKey<T> { pub(crate) key: Vec<u8>, p: PhantomData<T> }
        impl<T> std::fmt::Debug for AesKey<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("AesKey(<secret>)") } }
        fn mk<T>(key: Vec<u8>) -> AesKey<T> { AesKey { key, p: PhantomData } }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct A256CbcHs512;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct A256Gcm;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct A128Kw;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct A256Kw;
        fn pad(n: usize) -> usize { (n / 16 + 1) * 16 }
        fn same(n: usize) -> usize { n }
        sym_key!(AesKey<A256CbcHs512>, mk, 64, 0x63);
        sym_key!(AesKey<A256Gcm>, mk, 32, 0x67);
        sym_key!(AesKey<A128Kw>, mk, 16, 0x77);
        sym_key!(AesKey<A256Kw>, mk, 32, 0x57);
        aead_ops!(AesKey<A256CbcHs512>, self, 0xc1, 16, 32, pad, false);
        aead_ops!(AesKey<A256Gcm>, self, 0xc2, 12, 16, same, false);
        aead_ops!(AesKey<A128Kw>, self, 0xc4, 0, 8, same, true);
        aead_ops!(AesKey<A256Kw>, self, 0xc5, 0, 8, same, true);
    }
    pub mod chacha20 {
        use super::*;
        use std::marker::PhantomData;
        #[derive(Clone, PartialEq, Eq)]
        pub struct Chacha20Key<T> { pub(crate) key: Vec<u8>, p: PhantomData<T> }
        impl<T> std::fmt::Debug for Chacha20Key<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Chacha20Key(<secret>)") } }
        fn mk<T>(key: Vec<u8>) -> Chacha20Key<T> { Chacha20Key { key, p: PhantomData } }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct XC20P;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct C20P;
        fn same(n: usize) -> usize { n }
        sym_key!(Chacha20Key<XC20P>, mk, 32, 0x78);
        sym_key!(Chacha20Key<C20P>, mk, 32, 0x79);
        aead_ops!(Chacha20Key<XC20P>, self, 0xc3, 24, 16, same, false);
        aead_ops!(Chacha20Key<C20P>, self, 0xc6, 12, 16, same, false);
    }

    // ---- asymmetric keys: public = secret xor a per-curve pad (a bijection); EC points carry y = x xor 0xA5 ----
    macro_rules! keypair { ($name:ident, $code:expr, $kty:expr, $crv:expr, $ec:expr) => {
        #[derive(Clone, PartialEq, Eq)]
        pub struct $name { secret: Option<[u8; 32]>, public: [u8; 32] }
        impl std::fmt::Debug for $name { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_struct(stringify!($name)).field("secret", &self.secret).field("public", &self.public).finish() } }
        fn arr(d: &[u8]) -> Result<[u8; 32], Error> { if d.len() != 32 { return err(ErrorKind::InvalidKeyData, "Invalid key length"); } let mut a = [0u8; 32]; a.copy_from_slice(d); Ok(a) }
        fn pad(i: usize) -> u8 { ($code as u8).wrapping_mul(29) ^ (i as u8).wrapping_mul(7) ^ 0x3b }
        /// the public key belonging to a secret key
        pub fn public_of(s: &[u8; 32]) -> [u8; 32] { let mut p = [0u8; 32]; for i in 0..32 { p[i] = s[i] ^ pad(i); } p }
        /// second coordinate of the point with the given first coordinate (EC curves)
        pub fn y_of(x: &[u8; 32]) -> [u8; 32] { let mut p = [0u8; 32]; for i in 0..32 { p[i] = x[i] ^ 0xa5; } p }
        impl $name {
            pub fn from_parts(secret: Option<[u8; 32]>, public: [u8; 32]) -> Self { $name { secret, public } }
            pub fn public(&self) -> &[u8; 32] { &self.public }
            pub fn secret(&self) -> Option<&[u8; 32]> { self.secret.as_ref() }
        }
        impl repr::KeyGen for $name { fn generate(mut rng: impl random::KeyMaterial) -> Result<Self, Error> { let s = arr(&rng.draw(($code as u8).wrapping_add(0x10), 32))?; Ok($name { public: public_of(&s), secret: Some(s) }) } }
        impl repr::KeySecretBytes for $name {
            fn from_secret_bytes(k: &[u8]) -> Result<Self, Error> { let s = arr(k)?; Ok($name { public: public_of(&s), secret: Some(s) }) }
            fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O { match &self.secret { Some(s) => f(Some(&s[..])), None => f(None) } }
        }
        impl repr::ToSecretBytes for $name {
            fn secret_bytes_length(&self) -> Result<usize, Error> { if self.secret.is_some() { Ok(32) } else { err(ErrorKind::MissingSecretKey, "Missing secret key") } }
            fn write_secret_bytes(&self, out: &mut dyn buffer::WriteBuffer) -> Result<(), Error> { match &self.secret { Some(s) => out.buffer_write(s), None => err(ErrorKind::MissingSecretKey, "Missing secret key") } }
        }
        impl repr::KeyPublicBytes for $name {
            fn from_public_bytes(k: &[u8]) -> Result<Self, Error> { Ok($name { secret: None, public: arr(k)? }) }
            fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O { f(&self.public) }
        }
        impl repr::ToPublicBytes for $name {
            fn public_bytes_length(&self) -> Result<usize, Error> { Ok(32) }
            fn write_public_bytes(&self, out: &mut dyn buffer::WriteBuffer) -> Result<(), Error> { out.buffer_write(&self.public) }
        }
        impl jwk::FromJwk for $name {
            // like askar at this revision: no kty/crv comparison here, but lengths, the curve equation for EC
            // points, and agreement of d with the public part are checked
            fn from_jwk_parts(j: &jwk::JwkParts) -> Result<Self, Error> {
                let x = arr(&jwk::b64(&j.x, 32)?)?;
                if $ec { let y = arr(&jwk::b64(&j.y, 32)?)?; if y != y_of(&x) { return err(ErrorKind::InvalidKeyData, "Point not on curve"); } }
                if j.d.is_some() {
                    let s = arr(&jwk::b64(&j.d, 32)?)?;
                    if public_of(&s) != x { return err(ErrorKind::InvalidKeyData, "invalid public key"); }
                    Ok($name { secret: Some(s), public: x })
                } else { Ok($name { secret: None, public: x }) }
            }
        }
        impl jwk::ToJwk for $name {
            fn to_jwk_public(&self, _alg: Option<KeyAlg>) -> Result<String, Error> {
                let x = base64::encode_config(&self.public, base64::URL_SAFE_NO_PAD);
                let mut o = String::new();
                o.push_str("{\"crv\":\""); o.push_str($crv); o.push_str("\",\"kty\":\""); o.push_str($kty); o.push_str("\",\"x\":\""); o.push_str(&x);
                if $ec { o.push_str("\",\"y\":\""); o.push_str(&base64::encode_config(&y_of(&self.public), base64::URL_SAFE_NO_PAD)); }
                o.push_str("\"}");
                Ok(o)
            }
        }
    } }
    macro_rules! exchange { ($name:ident, $code:expr) => {
        impl kdf::KeyExchange for $name {
            fn write_key_exchange(&self, other: &$name, out: &mut dyn buffer::WriteBuffer) -> Result<(), Error> {
                if self.secret.is_none() { return err(ErrorKind::MissingSecretKey, "Missing secret key"); }
                // the shared secret as a free term over the unordered pair of public keys
                let (a, b) = if self.public[..] <= other.public[..] { (&self.public, &other.public) } else { (&other.public, &self.public) };
                out.buffer_write(&[$code as u8])?; out.buffer_write(a)?; out.buffer_write(b)
            }
        }
    } }
    macro_rules! signing { ($name:ident, $code:expr, $sig:ident) => {
        impl sign::KeySign for $name {
            fn write_signature(&self, m: &[u8], t: Option<sign::SignatureType>, out: &mut dyn buffer::WriteBuffer) -> Result<(), Error> {
                match t { None | Some(sign::SignatureType::$sig) => { if self.secret.is_none() { return err(ErrorKind::Unsupported, "Undefined secret key"); } out.buffer_write(&model::sign($code, &self.public, m)) } #[allow(unreachable_patterns)] _ => err(ErrorKind::Unsupported, "Unsupported signature type") }
            }
        }
        impl sign::KeySigVerify for $name {
            fn verify_signature(&self, m: &[u8], s: &[u8], t: Option<sign::SignatureType>) -> Result<bool, Error> {
                match t { None | Some(sign::SignatureType::$sig) => Ok(model::verify($code, &self.public, m, s)), #[allow(unreachable_patterns)] _ => err(ErrorKind::Unsupported, "Unsupported signature type") }
            }
        }
    } }
    pub mod ed25519 { use super::*; keypair!(Ed25519KeyPair, 0xd1u8, "OKP", "Ed25519", false); signing!(Ed25519KeyPair, 0xd1, EdDSA); }
    pub mod x25519 { use super::*; keypair!(X25519KeyPair, 0xd2u8, "OKP", "X25519", false); exchange!(X25519KeyPair, 0xd2u8); }
    pub mod p256 { use super::*; keypair!(P256KeyPair, 0xd3u8, "EC", "P-256", true); exchange!(P256KeyPair, 0xd3u8); signing!(P256KeyPair, 0xd3, ES256); }
    pub mod k256 { use super::*; keypair!(K256KeyPair, 0xd4u8, "EC", "secp256k1", true); exchange!(K256KeyPair, 0xd4u8); signing!(K256KeyPair, 0xd4, ES256K); }
}

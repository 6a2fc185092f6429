//! Reference formulas written from BIP352 / BIP374 / BIP341, independent of the code under test.
use bdk_sp::bitcoin::hashes::{sha256, Hash};
use bdk_sp::bitcoin::secp256k1::{All, PublicKey, Scalar, Secp256k1, SecretKey};
use slxrt::*;

pub fn secp() -> Secp256k1<All> {
    Secp256k1::new()
}
pub fn sk() -> SecretKey {
    match SecretKey::from_slice(&scalar()) {
        Ok(k) => k,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
pub fn pk(s: &SecretKey) -> PublicKey {
    s.public_key(&secp())
}
/// BIP340 tagged hash
pub fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    let t = sha256::Hash::hash(tag.as_bytes());
    let mut v = Vec::new();
    v.extend_from_slice(t.as_byte_array());
    v.extend_from_slice(t.as_byte_array());
    for p in parts {
        v.extend_from_slice(p);
    }
    sha256::Hash::hash(&v).to_byte_array()
}
pub fn sc(b: [u8; 32]) -> Scalar {
    Scalar::from_be_bytes(b).unwrap()
}
pub fn mul(p: &PublicKey, s: [u8; 32]) -> PublicKey {
    p.mul_tweak(&secp(), &sc(s)).unwrap()
}

// ------------------------------------------------------------------ transactions
use bdk_sp::bitcoin::{
    absolute::LockTime, hashes::hash160, transaction::Version, Amount, OutPoint, ScriptBuf, Sequence, Transaction, TxIn,
    TxOut, Txid, Witness, XOnlyPublicKey,
};
use bdk_sp::encoding::SilentPaymentCode;

pub const N_KINDS: u32 = 13;
/// spends an output with a segwit version above one
pub const FUTURE: u32 = 12;
/// kinds below this one contribute a key
pub const N_ELIGIBLE: u32 = 5;

pub struct In {
    pub txin: TxIn,
    pub prevout: TxOut,
    /// the key that owns the output
    pub sk: SecretKey,
    /// the contribution to the sum, even-Y normalised for taproot; None when not eligible
    pub part: Option<SecretKey>,
    pub kind: u32,
}
pub fn even(s: SecretKey) -> SecretKey {
    if pk(&s).serialize()[0] == 3 {
        s.negate()
    } else {
        s
    }
}
pub fn spk_tr(x: &[u8; 32]) -> ScriptBuf {
    let mut v = vec![0x51, 0x20];
    v.extend_from_slice(x);
    ScriptBuf::from_bytes(v)
}
pub fn spk_wpkh(h: &[u8; 20]) -> ScriptBuf {
    let mut v = vec![0x00, 0x14];
    v.extend_from_slice(h);
    ScriptBuf::from_bytes(v)
}
pub fn spk_sh(h: &[u8; 20]) -> ScriptBuf {
    let mut v = vec![0xa9, 0x14];
    v.extend_from_slice(h);
    v.push(0x87);
    ScriptBuf::from_bytes(v)
}
pub fn spk_pkh(h: &[u8; 20]) -> ScriptBuf {
    let mut v = vec![0x76, 0xa9, 0x14];
    v.extend_from_slice(h);
    v.extend_from_slice(&[0x88, 0xac]);
    ScriptBuf::from_bytes(v)
}
pub fn h160(b: &[u8]) -> [u8; 20] {
    hash160::Hash::hash(b).to_byte_array()
}
pub fn xonly(p: &PublicKey) -> [u8; 32] {
    p.serialize()[1..].try_into().unwrap()
}
pub fn outpoint_any() -> OutPoint {
    OutPoint::new(Txid::from_byte_array(bytes::<32>()), u32_any())
}
pub fn outpoint_gen() -> OutPoint {
    OutPoint::new(Txid::from_byte_array(generic::<32>()), choice(2))
}
pub fn op_bytes(o: &OutPoint) -> [u8; 36] {
    let mut r = [0u8; 36];
    r[..32].copy_from_slice(&o.txid.to_byte_array());
    let v = o.vout;
    for i in 0..4 {
        r[32 + i] = (v >> (8 * i)) as u8;
    }
    r
}
pub const NUMS: [u8; 32] = [
    0x50, 0x92, 0x9b, 0x74, 0xc1, 0xa0, 0x49, 0x54, 0xb7, 0x8b, 0x4b, 0x60, 0x35, 0xe9, 0x7a, 0x5e, 0x07, 0x8a, 0x5a, 0x0f, 0x28,
    0xec, 0x96, 0xd5, 0x47, 0xbf, 0xee, 0x9a, 0xce, 0x80, 0x3a, 0xc0,
];
/// one spent output of the given kind, owned by `s`
pub fn mk_in(kind: u32, s: SecretKey, previous_output: OutPoint) -> In {
    let p = pk(&s);
    let ser = p.serialize();
    let h = h160(&ser);
    let sig = generic::<64>();
    let mut script_sig = ScriptBuf::new();
    let mut wit: Vec<Vec<u8>> = vec![];
    let (spk, part) = match kind {
        // taproot key path
        0 => {
            wit.push(sig.to_vec());
            (spk_tr(&xonly(&p)), Some(even(s)))
        }
        // native segwit
        1 => {
            wit.push(sig.to_vec());
            wit.push(ser.to_vec());
            (spk_wpkh(&h), Some(s))
        }
        // wrapped segwit
        2 => {
            wit.push(sig.to_vec());
            wit.push(ser.to_vec());
            let redeem = spk_wpkh(&h);
            let mut ss = vec![0x16];
            ss.extend_from_slice(redeem.as_bytes());
            script_sig = ScriptBuf::from_bytes(ss);
            (spk_sh(&h160(redeem.as_bytes())), Some(s))
        }
        // legacy
        3 => {
            let mut ss = vec![64];
            ss.extend_from_slice(&sig);
            ss.push(33);
            ss.extend_from_slice(&ser);
            script_sig = ScriptBuf::from_bytes(ss);
            (spk_pkh(&h), Some(s))
        }
        // taproot script path, some internal key, annex
        4 => {
            wit.push(sig.to_vec());
            wit.push(vec![0x51]);
            let mut cb = vec![0xc0];
            cb.extend_from_slice(&generic::<32>());
            wit.push(cb);
            wit.push(vec![0x50, 1]);
            (spk_tr(&xonly(&p)), Some(even(s)))
        }
        // taproot script path, NUMS internal key
        5 => {
            wit.push(sig.to_vec());
            wit.push(vec![0x51]);
            let mut cb = vec![0xc1];
            cb.extend_from_slice(&NUMS);
            wit.push(cb);
            (spk_tr(&xonly(&p)), None)
        }
        // same with an annex
        6 => {
            wit.push(vec![0x51]);
            let mut cb = vec![0xc1];
            cb.extend_from_slice(&NUMS);
            wit.push(cb);
            wit.push(vec![0x50]);
            (spk_tr(&xonly(&p)), None)
        }
        // P2WSH
        7 => {
            wit.push(sig.to_vec());
            wit.push(ser.to_vec());
            let mut v = vec![0x00, 0x20];
            v.extend_from_slice(&generic::<32>());
            (ScriptBuf::from_bytes(v), None)
        }
        // P2SH multisig-like
        8 => {
            let mut ss = vec![0x00, 64];
            ss.extend_from_slice(&sig);
            ss.push(0x02);
            ss.extend_from_slice(&[0x51, 0xae]);
            script_sig = ScriptBuf::from_bytes(ss);
            (spk_sh(&h), None)
        }
        // P2PK
        9 => {
            let mut ss = vec![64];
            ss.extend_from_slice(&sig);
            script_sig = ScriptBuf::from_bytes(ss);
            let mut v = vec![33];
            v.extend_from_slice(&ser);
            v.push(0xac);
            (ScriptBuf::from_bytes(v), None)
        }
        // anyone can spend: nothing to reveal
        11 => (ScriptBuf::from_bytes(vec![0x51]), None),
        FUTURE => {
            wit.push(sig.to_vec());
            let mut v = vec![0x52, 0x20];
            v.extend_from_slice(&xonly(&p));
            (ScriptBuf::from_bytes(v), None)
        }
        // P2WPKH with an uncompressed key
        _ => {
            wit.push(sig.to_vec());
            wit.push(p.serialize_uncompressed().to_vec());
            (spk_wpkh(&h160(&p.serialize_uncompressed())), None)
        }
    };
    In {
        txin: TxIn { previous_output, script_sig, sequence: Sequence::MAX, witness: Witness::from_slice(&wit) },
        prevout: TxOut { value: Amount::from_sat(50_000), script_pubkey: spk },
        sk: s,
        part,
        kind,
    }
}
pub fn tx_of(ins: &[In], output: Vec<TxOut>) -> Transaction {
    Transaction {
        version: Version::TWO,
        lock_time: LockTime::ZERO,
        input: ins.iter().map(|i| i.txin.clone()).collect(),
        output,
    }
}
pub fn prevouts(ins: &[In]) -> Vec<TxOut> {
    ins.iter().map(|i| i.prevout.clone()).collect()
}
pub fn out(v: u64, spk: ScriptBuf) -> TxOut {
    TxOut { value: Amount::from_sat(v), script_pubkey: spk }
}

// ------------------------------------------------------------------ BIP352
pub fn min36(ins: &[In]) -> [u8; 36] {
    let mut m = op_bytes(&ins[0].txin.previous_output);
    for i in &ins[1..] {
        let o = op_bytes(&i.txin.previous_output);
        if o < m {
            m = o;
        }
    }
    m
}
/// sum of the contributed secret keys; None when there is none
pub fn a_sum(ins: &[In]) -> Option<SecretKey> {
    if ins.iter().any(|i| i.kind == FUTURE) {
        return None;
    }
    let mut s: Option<SecretKey> = None;
    for p in ins.iter().filter_map(|i| i.part) {
        s = Some(match s {
            None => p,
            Some(x) => match x.add_tweak(&Scalar::from(p)) {
                Ok(y) => y,
                // cancelled so far
                Err(_) => {
                    s = None;
                    continue;
                }
            },
        });
    }
    s
}
pub fn ref_partial(ins: &[In]) -> Option<SecretKey> {
    let a = a_sum(ins)?;
    let ih = tagged("BIP0352/Inputs", &[&min36(ins), &pk(&a).serialize()]);
    a.mul_tweak(&sc(ih)).ok()
}
pub fn ref_tk(shared: &PublicKey, k: u32) -> [u8; 32] {
    tagged("BIP0352/SharedSecret", &[&shared.serialize(), &[(k >> 24) as u8, (k >> 16) as u8, (k >> 8) as u8, k as u8]])
}
pub fn ref_label(scan: &SecretKey, m: u32) -> [u8; 32] {
    tagged("BIP0352/Label", &[&scan.secret_bytes(), &[(m >> 24) as u8, (m >> 16) as u8, (m >> 8) as u8, m as u8]])
}
/// the output key for the k-th payment of a scan key
pub fn ref_output(partial: &SecretKey, scan: &PublicKey, spend: &PublicKey, k: u32) -> [u8; 32] {
    xonly(&ref_point(partial, scan, spend, k))
}
pub fn ref_point(partial: &SecretKey, scan: &PublicKey, spend: &PublicKey, k: u32) -> PublicKey {
    let shared = scan.mul_tweak(&secp(), &Scalar::from(*partial)).unwrap();
    let t = SecretKey::from_slice(&ref_tk(&shared, k)).unwrap();
    spend.combine(&pk(&t)).unwrap()
}
pub struct Wallet {
    pub scan: SecretKey,
    pub spend: SecretKey,
}
impl Wallet {
    pub fn new() -> Wallet {
        Wallet { scan: sk(), spend: sk() }
    }
    pub fn code(&self) -> SilentPaymentCode {
        SilentPaymentCode::new_v0(pk(&self.scan), pk(&self.spend), bdk_sp::bitcoin::Network::Regtest)
    }
    pub fn label_point(&self, m: u32) -> PublicKey {
        pk(&SecretKey::from_slice(&ref_label(&self.scan, m)).unwrap())
    }
    pub fn labelled(&self, m: u32) -> SilentPaymentCode {
        let spend = pk(&self.spend).combine(&self.label_point(m)).unwrap();
        SilentPaymentCode::new_v0(pk(&self.scan), spend, bdk_sp::bitcoin::Network::Regtest)
    }
    pub fn labels(&self, ms: &[u32]) -> std::collections::BTreeMap<PublicKey, (Scalar, u32)> {
        ms.iter().map(|m| (self.label_point(*m), (sc(ref_label(&self.scan, *m)), *m))).collect()
    }
}
pub fn x_of(b: &[u8; 32]) -> XOnlyPublicKey {
    XOnlyPublicKey::from_slice(b).unwrap()
}

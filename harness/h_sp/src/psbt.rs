//! C11, C12, C13: PSBT derivation and signing
use crate::util::*;
use bdk_sp::bitcoin::{
    self,
    bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource},
    hashes::Hash,
    psbt::{raw::ProprietaryKey, GetKey, KeyRequest},
    secp256k1::{schnorr, Message, PublicKey, Scalar, Secp256k1, SecretKey, Signing},
    taproot, OutPoint, PrivateKey, Psbt, ScriptBuf, TapNodeHash, TapSighashType, Transaction, TxOut, XOnlyPublicKey,
};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::scan::Scanner;
use bdk_sp::send::create_silentpayment_scriptpubkeys;
use bdk_sp::send::psbt::{
    derive_sp,
    sign::{add_sp_data_to_input, sign_sp},
};
use slxrt::*;

/// answers requests from a list; everything else is `None` or an error
#[derive(Default)]
pub struct Keys {
    bip32: Vec<(KeySource, SecretKey)>,
    xonly: Vec<(XOnlyPublicKey, SecretKey)>,
    pubkey: Vec<(PublicKey, SecretKey)>,
    /// unknown requests fail instead of returning None
    errors: bool,
    /// BIP32 requests always fail
    no_bip32: bool,
}
#[derive(Debug)]
pub struct NoKey;
impl GetKey for Keys {
    type Error = NoKey;
    fn get_key<C: Signing>(&self, r: KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, NoKey> {
        let f = match r {
            KeyRequest::Bip32(s) => {
                if self.no_bip32 {
                    return Err(NoKey);
                }
                self.bip32.iter().find(|x| x.0 == s).map(|x| x.1)
            }
            KeyRequest::XOnlyPubkey(p) => self.xonly.iter().find(|x| x.0 == p).map(|x| x.1),
            KeyRequest::Pubkey(p) => self.pubkey.iter().find(|x| x.0 == p.inner).map(|x| x.1),
            _ => None,
        };
        match f {
            Some(k) => Ok(Some(PrivateKey::new(k, bitcoin::Network::Regtest))),
            None if self.errors => Err(NoKey),
            None => Ok(None),
        }
    }
}
fn source(i: u32) -> KeySource {
    (Fingerprint::from([1, 2, 3, 4]), DerivationPath::from(vec![ChildNumber::Normal { index: i }]))
}

/// an input of a PSBT
struct PIn {
    i: In,
    /// the key a provider is asked for: internal key (taproot), key (others), spend key (silent payment)
    base: SecretKey,
    root: Option<[u8; 32]>,
    /// silent payment spend data
    sp: Option<SecretKey>,
}
/// kinds of mk_in, and a silent payment output
const SP_KIND: u32 = N_KINDS;
fn tap_out(int: SecretKey, root: Option<[u8; 32]>) -> SecretKey {
    let mut v = xonly(&pk(&int)).to_vec();
    if let Some(r) = root {
        v.extend_from_slice(&r);
    }
    even(int).add_tweak(&sc(tagged("TapTweak", &[&v]))).unwrap()
}
fn pin(kind: u32, op: OutPoint) -> PIn {
    let base = sk();
    match kind {
        0 | 4 | 5 | 6 => {
            let root = if kind == 0 { None } else { Some(generic::<32>()) };
            PIn { i: mk_in(kind, tap_out(base, root), op), base, root, sp: None }
        }
        SP_KIND => {
            let t = sk();
            PIn { i: mk_in(0, base.add_tweak(&t.into()).unwrap(), op), base, root: None, sp: Some(t) }
        }
        _ => PIn { i: mk_in(kind, base, op), base, root: None, sp: None },
    }
}
/// adds input `n` to the PSBT data and its key to the provider
/// `how`: 0 the provider knows the key by its origin, 1 by the key itself, 2 not at all
fn fill(psbt: &mut Psbt, n: usize, p: &PIn, how: u32, segwit_utxo: bool, keys: &mut Keys) {
    let x = &mut psbt.inputs[n];
    if segwit_utxo {
        x.witness_utxo = Some(p.i.prevout.clone());
    } else {
        let vout = p.i.txin.previous_output.vout as usize;
        let mut o = vec![out(1, ScriptBuf::new()); vout];
        o.push(p.i.prevout.clone());
        o.push(out(2, spk_wpkh(&[7; 20])));
        x.non_witness_utxo = Some(tx_of(&[], o));
    }
    if !p.i.txin.witness.is_empty() {
        x.final_script_witness = Some(p.i.txin.witness.clone());
    }
    if !p.i.txin.script_sig.is_empty() {
        x.final_script_sig = Some(p.i.txin.script_sig.clone());
    }
    let b = pk(&p.base);
    if let Some(t) = p.sp {
        add_sp_data_to_input(psbt, n, b, Scalar::from(t));
        if how < 2 {
            keys.pubkey.push((b, p.base));
        }
        return;
    }
    let src = source(n as u32);
    if p.i.kind == 0 || (4..7).contains(&p.i.kind) {
        let xo = b.x_only_public_key().0;
        x.tap_internal_key = Some(xo);
        x.tap_merkle_root = p.root.map(TapNodeHash::from_byte_array);
        x.tap_key_origins.insert(xo, (vec![], src.clone()));
        if how == 1 {
            keys.xonly.push((xo, p.base));
        }
    } else {
        x.bip32_derivation.insert(b, src.clone());
        if how == 1 {
            keys.pubkey.push((b, p.base));
        }
    }
    if how == 0 {
        keys.bip32.push((src, p.base));
    }
}
fn unsigned(ps: &[PIn], outs: Vec<TxOut>) -> Psbt {
    let mut tx: Transaction = tx_of(&[], outs);
    for p in ps {
        let mut t = p.i.txin.clone();
        t.script_sig = ScriptBuf::new();
        t.witness = Default::default();
        tx.input.push(t);
    }
    Psbt::from_unsigned_tx(tx).unwrap()
}
fn partial_of(ps: &[PIn]) -> Option<SecretKey> {
    let ins: Vec<In> = ps
        .iter()
        .map(|p| In { txin: p.i.txin.clone(), prevout: p.i.prevout.clone(), sk: p.i.sk, part: p.i.part, kind: p.i.kind })
        .collect();
    ref_partial(&ins)
}
/// The PSBT after a successful derivation: each placeholder replaced in order, nothing else changed.
fn check_derived(before: &Psbt, after: &Psbt, partial: SecretKey, codes: &[SilentPaymentCode]) {
    let derived = create_silentpayment_scriptpubkeys(partial, codes);
    let mut want = before.clone();
    for c in derived.keys() {
        let ph = c.get_placeholder_p2tr_spk();
        let mut k = 0;
        for o in want.unsigned_tx.output.iter_mut() {
            if o.script_pubkey == ph {
                check(k < derived[c].len(), 100);
                o.script_pubkey = spk_tr(&derived[c][k].serialize());
                k += 1;
            }
        }
        check(k == 0 || k == derived[c].len(), 101);
    }
    for (a, b) in after.unsigned_tx.output.iter().zip(&want.unsigned_tx.output) {
        check(a.value == b.value, 102);
        check(a.script_pubkey == b.script_pubkey, 103);
        trace(a.script_pubkey.as_bytes());
    }
    check(after == &want, 104);
}

fn run_inputs(ps: Vec<PIn>, how: &[u32], segwit: &[bool], errors: bool) {
    let w = Wallet::new();
    let code = if flag() { w.labelled(2) } else { w.code() };
    let v = u64_any();
    let outs = vec![out(v, code.get_placeholder_p2tr_spk()), out(3, spk_wpkh(&generic::<20>()))];
    let mut psbt = unsigned(&ps, outs);
    // the bare key lookups only happen when the origin lookup gave nothing, by None or by an error
    let mut keys = Keys { no_bip32: errors && how.iter().all(|h| *h == 1), ..Default::default() };
    for (n, p) in ps.iter().enumerate() {
        fill(&mut psbt, n, p, how[n], segwit[n], &mut keys);
    }
    let before = psbt.clone();
    let r = derive_sp(&mut psbt, &keys, &[code.clone()], &secp());
    match partial_of(&ps) {
        Some(partial) => {
            check(r.is_ok(), 1);
            cover(1);
            check_derived(&before, &psbt, partial, &[code]);
            // the recipient sees it
            let mut tx = psbt.unsigned_tx.clone();
            for (t, p) in tx.input.iter_mut().zip(&ps) {
                *t = p.i.txin.clone();
            }
            let pv: Vec<TxOut> = ps.iter().map(|p| p.i.prevout.clone()).collect();
            let found = match Scanner::new(w.scan, pk(&w.spend), w.labels(&[2])).scan_tx(&tx, &pv) {
                Ok(f) => f,
                Err(_) => return check(false, 2),
            };
            check(found.len() == 1, 3);
            check(found[0].outpoint.vout == 0 && found[0].amount.to_sat() == v, 4);
        }
        None => {
            cover(2);
            check(r.is_err(), 5);
            check(psbt == before, 6);
        }
    }
}
/// one input of every kind, key identified in every way
pub fn c11_one() {
    // 11 has no final fields
    let k = choice(N_KINDS);
    let p = pin(if k == 11 { SP_KIND } else { k }, outpoint_gen());
    run_inputs(vec![p], &[choice(2)], &[flag()], flag());
}
const SOME: [u32; 8] = [0, 1, 2, 3, 4, 5, 8, SP_KIND];
/// two inputs of most kinds
pub fn c11_two() {
    let a = pin(SOME[choice(8) as usize], outpoint_gen());
    let b = pin(SOME[choice(8) as usize], outpoint_gen());
    let h = choice(2);
    run_inputs(vec![a, b], &[h, h], &[true, flag()], false);
}
pub fn c11_three() {
    let ps: Vec<PIn> = (0..3).map(|_| pin([0, 1, 2, 3, 5, SP_KIND][choice(6) as usize], outpoint_gen())).collect();
    run_inputs(ps, &[0, 1, 0], &[true, true, false], false);
}
/// the spent outputs are given by whole transactions, at any place in them
pub fn c11_prevtx() {
    let mut at = || {
        let mut o = outpoint_gen();
        o.vout = [0, 1, 2, 3, 257][choice(5) as usize];
        o
    };
    let ps = vec![pin([0, 1, 2, 3, SP_KIND][choice(5) as usize], at()), pin(1, at())];
    run_inputs(ps, &[0, 1], &[false, false], false);
}
/// outpoints with any bytes decide the smallest one
pub fn c11_order() {
    let ps = vec![pin(1, outpoint_any()), pin(9, outpoint_any())];
    run_inputs(ps, &[0, 0], &[true, true], false);
}
/// spend data that cannot be used: (key, value, subtype, prefix)
fn junk(which: u32, real: &SecretKey) -> (Vec<u8>, Vec<u8>, u8, &'static [u8]) {
    let (k, v) = (pk(&sk()).serialize().to_vec(), sk().secret_bytes().to_vec());
    let cut = |v: &Vec<u8>| v[..v.len() - 1].to_vec();
    match which {
        // short, no point, smaller and larger than any real key
        0 => (cut(&k), v, 1, b"bip352"),
        1 => (vec![0; 33], v, 1, b"bip352"),
        2 => (vec![0xff; 33], v, 1, b"bip352"),
        3 => (vec![], vec![], 1, b"bip352"),
        4 => (k, cut(&v), 1, b"bip352"),
        5 => (k, vec![0xff; 32], 1, b"bip352"),
        6 => (k, v, 0, b"bip352"),
        7 => (k, v, 1, b"bip353"),
        // the sum of key and tweak is the point at infinity
        8 => (pk(real).serialize().to_vec(), real.negate().secret_bytes().to_vec(), 1, b"bip352"),
        // a key the provider does not have, a key it has with another tweak
        9 => (k, v, 1, b"bip352"),
        _ => (pk(real).serialize().to_vec(), v, 1, b"bip352"),
    }
}
fn put_junk(psbt: &mut Psbt, n: usize, keys: &mut Keys) {
    let other = sk();
    let (key, value, subtype, prefix) = junk(choice(11), &other);
    keys.pubkey.push((pk(&other), other));
    psbt.inputs[n].proprietary.insert(ProprietaryKey { prefix: prefix.to_vec(), subtype, key }, value);
}
/// unusable spend data next to the right ones, or on inputs that are no silent payment outputs
pub fn c11_junk() {
    let k = [SP_KIND, 0, 1, 3, 7, 9][choice(6) as usize];
    let mut ps = vec![pin(k, outpoint_gen()), pin(1, outpoint_gen())];
    let short = k == 9 && flag();
    if short {
        // the spent script is hardly a script
        ps[0].i.prevout.script_pubkey = ScriptBuf::from_bytes(bytes_v(choice(3) as usize));
        ps[0].i.txin.script_sig = ScriptBuf::from_bytes(vec![1, 1]);
    }
    let w = Wallet::new();
    let code = w.code();
    let mut psbt = unsigned(&ps, vec![out(5, code.get_placeholder_p2tr_spk())]);
    let mut keys = Keys { errors: flag(), ..Default::default() };
    for n in 0..2 {
        fill(&mut psbt, n, &ps[n], 0, true, &mut keys);
    }
    put_junk(&mut psbt, 0, &mut keys);
    let before = psbt.clone();
    let r = derive_sp(&mut psbt, &keys, &[code.clone()], &secp());
    cover(1);
    check(r.is_ok(), 1);
    check_derived(&before, &psbt, partial_of(&ps).unwrap(), &[code]);
}
/// placeholder outputs for several recipients in any arrangement
pub fn c11_outputs() {
    let n = 1 + choice(2);
    let codes: Vec<usize> = (0..n).map(|_| choice(3) as usize).collect();
    outputs(&codes, choice(n) as usize, choice(n + 1) as usize);
}
pub fn c11_outputs3() {
    let codes = [[0, 0, 1], [0, 1, 0], [0, 0, 0], [0, 2, 0], [2, 1, 0]][choice(5) as usize];
    outputs(&codes, choice(3) as usize, 1);
}
pub fn c11_outputs4() {
    let codes: Vec<usize> = (0..4).map(|_| choice(3) as usize).collect();
    outputs(&codes, choice(4) as usize, 2);
}
/// codes: which recipients; the j-th placeholder comes first; an unrelated output at `at`
fn outputs(codes: &[usize], j: usize, at: usize) {
    let ws = [Wallet::new(), Wallet::new()];
    let all = [ws[0].code(), ws[1].code(), ws[0].labelled(1)];
    let p = pin(1, outpoint_gen());
    let codes: Vec<SilentPaymentCode> = codes.iter().map(|c| all[*c].clone()).collect();
    let mut outs: Vec<TxOut> = codes.iter().enumerate().map(|(i, c)| out(10 + i as u64, c.get_placeholder_p2tr_spk())).collect();
    outs.swap(0, j);
    outs.insert(at, out(u64_any(), spk_tr(&xonly(&pk(&ws[0].spend)))));
    let mut psbt = unsigned(std::slice::from_ref(&p), outs);
    let mut keys = Keys::default();
    fill(&mut psbt, 0, &p, 0, true, &mut keys);
    let before = psbt.clone();
    let r = derive_sp(&mut psbt, &keys, &codes, &secp());
    check(r.is_ok(), 1);
    cover(1);
    check_derived(&before, &psbt, partial_of(&[p]).unwrap(), &codes);
    for c in &codes {
        let ph = c.get_placeholder_p2tr_spk();
        check(psbt.unsigned_tx.output.iter().all(|o| o.script_pubkey != ph), 2);
    }
}

// ------------------------------------------------------------------------------------------ C12
/// one of two eligible keys missing or wrong
pub fn c12_keys() {
    let ks = [0u32, 1, 2, 3, 4];
    let mut ps = vec![pin(ks[choice(5) as usize], outpoint_gen()), pin([0u32, 1, 3, SP_KIND][choice(4) as usize], outpoint_gen())];
    if flag() {
        ps.swap(0, 1);
    }
    let bad = choice(2) as usize;
    let w = Wallet::new();
    let code = w.code();
    let mut psbt = unsigned(&ps, vec![out(5, code.get_placeholder_p2tr_spk())]);
    let mut keys = Keys { errors: flag(), ..Default::default() };
    let good = choice(2);
    let wrong = choice(3);
    for n in 0..2 {
        if n != bad || ps[n].sp.is_some() && wrong > 0 {
            fill(&mut psbt, n, &ps[n], good, true, &mut keys);
            continue;
        }
        match wrong {
            0 => fill(&mut psbt, n, &ps[n], 2, true, &mut keys),
            _ => {
                // the provider answers with another key
                let mut k = Keys::default();
                fill(&mut psbt, n, &ps[n], wrong - 1, true, &mut k);
                let other = sk();
                keys.bip32.extend(k.bip32.into_iter().map(|x| (x.0, other)));
                keys.xonly.extend(k.xonly.into_iter().map(|x| (x.0, other)));
                keys.pubkey.extend(k.pubkey.into_iter().map(|x| (x.0, other)));
            }
        }
    }
    if ps[bad].sp.is_some() && wrong > 0 {
        return;
    }
    let before = psbt.clone();
    let r = derive_sp(&mut psbt, &keys, &[code], &secp());
    cover(1 + wrong);
    check(r.is_err(), 1);
    check(psbt == before, 2);
}
/// the key of one of three inputs is missing
pub fn c12_three() {
    let ks = [[1u32, 0, 3], [3, 2, 1], [SP_KIND, 1, 2], [0, SP_KIND, 4]][choice(4) as usize];
    let ps: Vec<PIn> = ks.iter().map(|k| pin(*k, outpoint_gen())).collect();
    let bad = choice(3) as usize;
    let code = Wallet::new().code();
    let mut psbt = unsigned(&ps, vec![out(5, code.get_placeholder_p2tr_spk())]);
    let mut keys = Keys { errors: flag(), ..Default::default() };
    for n in 0..3 {
        fill(&mut psbt, n, &ps[n], if n == bad { 2 } else { 0 }, true, &mut keys);
    }
    let before = psbt.clone();
    let r = derive_sp(&mut psbt, &keys, &[code], &secp());
    cover(1);
    check(r.is_err(), 1);
    check(psbt == before, 2);
}
/// the provider answers with the negated key: no signature can be made with it
pub fn c12_negated() {
    let mut ps = vec![pin([1u32, 2, 3, 8, 9][choice(5) as usize], outpoint_gen()), pin([0u32, 1][choice(2) as usize], outpoint_gen())];
    if ps[0].i.part.is_none() {
        return;
    }
    let bad = choice(2) as usize;
    if bad == 1 {
        ps.swap(0, 1);
    }
    let code = Wallet::new().code();
    let mut psbt = unsigned(&ps, vec![out(5, code.get_placeholder_p2tr_spk())]);
    let mut keys = Keys::default();
    let how = choice(2);
    for n in 0..2 {
        if n != bad {
            fill(&mut psbt, n, &ps[n], 0, true, &mut keys);
            continue;
        }
        let mut k = Keys::default();
        fill(&mut psbt, n, &ps[n], how, true, &mut k);
        keys.bip32.extend(k.bip32.into_iter().map(|x| (x.0, x.1.negate())));
        keys.pubkey.extend(k.pubkey.into_iter().map(|x| (x.0, x.1.negate())));
    }
    let before = psbt.clone();
    let r = derive_sp(&mut psbt, &keys, &[code], &secp());
    cover(1);
    check(r.is_err(), 1);
    check(psbt == before, 2);
}
/// an input without its spent output, or without its final fields
pub fn c12_data() {
    let mut ps = vec![pin([0u32, 1, 2, 3][choice(4) as usize], outpoint_gen()), pin([0u32, 1, 3, 5, 7, 9][choice(6) as usize], outpoint_gen())];
    if flag() {
        ps.swap(0, 1);
    }
    let w = Wallet::new();
    let code = w.code();
    let mut psbt = unsigned(&ps, vec![out(5, code.get_placeholder_p2tr_spk())]);
    let mut keys = Keys::default();
    for n in 0..2 {
        fill(&mut psbt, n, &ps[n], 0, true, &mut keys);
    }
    let bad = choice(2) as usize;
    match choice(4) {
        0 => psbt.inputs[bad].witness_utxo = None,
        x @ (1 | 2) => {
            psbt.inputs[bad].final_script_witness = None;
            psbt.inputs[bad].final_script_sig = None;
            if x == 2 {
                // signed but not finalized
                psbt.inputs[bad].tap_key_sig = Some(taproot::Signature {
                    signature: schnorr::Signature::from_slice(&[1; 64]).unwrap(),
                    sighash_type: TapSighashType::Default,
                });
            }
        }
        _ => {
            // the previous transaction has no such output
            let pv = psbt.inputs[bad].witness_utxo.take().unwrap();
            psbt.inputs[bad].non_witness_utxo = Some(tx_of(&[], vec![pv; ps[bad].i.txin.previous_output.vout as usize]));
        }
    }
    let before = psbt.clone();
    let r = derive_sp(&mut psbt, &keys, &[code], &secp());
    cover(1);
    check(r.is_err(), 1);
    check(psbt == before, 2);
}
/// numbers of placeholders and payments per recipient
pub fn c12_counts() {
    let ws = [Wallet::new(), Wallet::new()];
    let codes = [ws[0].code(), if flag() { ws[1].code() } else { ws[0].labelled(3) }];
    let p = pin(choice(2), outpoint_gen());
    let mut outs = vec![];
    let mut rcp = vec![];
    let mut bad = false;
    for c in &codes {
        let (pays, holes) = (choice(3), choice(3));
        for _ in 0..pays {
            rcp.push(c.clone());
        }
        for i in 0..holes {
            outs.push(out(10 + i as u64, c.get_placeholder_p2tr_spk()));
        }
        bad |= pays > 0 && holes > 0 && pays != holes;
    }
    let mut psbt = unsigned(std::slice::from_ref(&p), outs);
    let mut keys = Keys::default();
    fill(&mut psbt, 0, &p, 0, true, &mut keys);
    let before = psbt.clone();
    let r = derive_sp(&mut psbt, &keys, &rcp, &secp());
    if bad {
        cover(1);
        check(r.is_err(), 1);
    }
    match r {
        Ok(()) => {
            cover(2);
            check_derived(&before, &psbt, partial_of(&[p]).unwrap(), &rcp);
        }
        Err(_) => check(psbt == before, 2),
    }
}

// ------------------------------------------------------------------------------------------ C13
/// BIP341 signature message, key path, SIGHASH_DEFAULT, written from the BIP
fn sighash(tx: &Transaction, pv: &[TxOut], i: usize) -> [u8; 32] {
    let sha = |v: &[u8]| bitcoin::hashes::sha256::Hash::hash(v).to_byte_array();
    let mut m = vec![0u8, 0];
    m.extend_from_slice(&tx.version.0.to_le_bytes());
    m.extend_from_slice(&tx.lock_time.to_consensus_u32().to_le_bytes());
    let (mut a, mut b, mut c, mut d, mut e) = (vec![], vec![], vec![], vec![], vec![]);
    for (t, o) in tx.input.iter().zip(pv) {
        a.extend_from_slice(&op_bytes(&t.previous_output));
        b.extend_from_slice(&o.value.to_sat().to_le_bytes());
        c.push(o.script_pubkey.len() as u8);
        c.extend_from_slice(o.script_pubkey.as_bytes());
        d.extend_from_slice(&t.sequence.0.to_le_bytes());
    }
    for o in &tx.output {
        e.extend_from_slice(&o.value.to_sat().to_le_bytes());
        e.push(o.script_pubkey.len() as u8);
        e.extend_from_slice(o.script_pubkey.as_bytes());
    }
    for x in [a, b, c, d, e] {
        m.extend_from_slice(&sha(&x));
    }
    m.push(0);
    m.extend_from_slice(&(i as u32).to_le_bytes());
    tagged("TapSighash", &[&m])
}
/// what one input looks like: (spent output, should be signed)
fn sp_input(psbt: &mut Psbt, n: usize, keys: &mut Keys, state: u32) -> bool {
    let (b, t) = (sk(), sk());
    let spend = pk(&b);
    let key = b.add_tweak(&t.into()).unwrap();
    let mut spk = spk_tr(&xonly(&pk(&key)));
    let mut data = Some((spend.serialize().to_vec(), t.secret_bytes().to_vec(), 1u8));
    let mut known = true;
    let mut signs = false;
    let mut non_witness = false;
    match state {
        0 => signs = true,
        // other tweak
        1 => data.as_mut().unwrap().1 = sk().secret_bytes().to_vec(),
        2 => data = None,
        3 => known = false,
        4 => {
            psbt.inputs[n].tap_key_sig = Some(taproot::Signature {
                signature: schnorr::Signature::from_slice(&generic::<64>()).unwrap(),
                sighash_type: TapSighashType::All,
            })
        }
        // not a taproot output
        5 => spk = spk_wpkh(&generic::<20>()),
        // another program version and length
        6 => spk = ScriptBuf::from_bytes(vec![0x51, 2, 1, 2]),
        7 => spk = ScriptBuf::new(),
        // malformed data
        8 => data.as_mut().unwrap().1.truncate(31),
        9 => data.as_mut().unwrap().1 = vec![0xff; 32],
        10 => data.as_mut().unwrap().0.truncate(32),
        // other proprietary subtype
        11 => data.as_mut().unwrap().2 = 2,
        // the opposite point
        12 => data.as_mut().unwrap().1 = b.negate().secret_bytes().to_vec(),
        // spent output given by the previous transaction
        13 => {
            signs = true;
            non_witness = true;
        }
        // the right key in another output type
        _ => {
            let mut v = vec![0x52, 0x20];
            v.extend_from_slice(&xonly(&pk(&key)));
            spk = ScriptBuf::from_bytes(v);
        }
    }
    let o = out(u64_any(), spk);
    if non_witness {
        let vout = psbt.unsigned_tx.input[n].previous_output.vout as usize;
        let mut os = vec![out(1, ScriptBuf::new()); vout];
        os.push(o);
        psbt.inputs[n].non_witness_utxo = Some(tx_of(&[], os));
    } else {
        psbt.inputs[n].witness_utxo = Some(o);
    }
    if let Some((k, v, subtype)) = data {
        if signs {
            add_sp_data_to_input(psbt, n, spend, Scalar::from(t));
        } else {
            psbt.inputs[n].proprietary.insert(ProprietaryKey { prefix: b"bip352".to_vec(), subtype, key: k }, v);
        }
    }
    if known {
        keys.pubkey.push((spend, b));
    }
    signs
}
fn sign(n: usize, states: &[u32]) {
    let ps: Vec<PIn> = vec![];
    let mut tx = unsigned(&ps, vec![out(u64_any(), spk_tr(&generic::<32>())), out(2, ScriptBuf::new())]).unsigned_tx;
    for _ in 0..n {
        let mut i = mk_in(0, SecretKey::from_slice(&[1; 32]).unwrap(), outpoint_gen()).txin;
        i.witness = Default::default();
        i.sequence = bitcoin::Sequence(u32_any());
        tx.input.push(i);
    }
    tx.lock_time = bitcoin::absolute::LockTime::from_consensus(u32_any());
    let mut psbt = Psbt::from_unsigned_tx(tx).unwrap();
    let mut keys = Keys { errors: flag(), ..Default::default() };
    let mut signs = vec![];
    for i in 0..n {
        signs.push(sp_input(&mut psbt, i, &mut keys, states[choice(states.len() as u32) as usize]));
    }
    check_signed(psbt, &keys, &signs);
}
fn check_signed(mut psbt: Psbt, keys: &Keys, signs: &[bool]) {
    let before = psbt.clone();
    sign_sp(&mut psbt, keys, &secp());
    let pv: Vec<TxOut> = before.iter_funding_utxos().filter_map(|o| o.ok().cloned()).collect();
    for (i, s) in signs.iter().enumerate() {
        if *s {
            cover(1);
            match psbt.inputs[i].tap_key_sig {
                None => return check(false, 1),
                Some(sig) => {
                    check(sig.sighash_type == TapSighashType::Default, 2);
                    let m = Message::from_digest(sighash(&before.unsigned_tx, &pv, i));
                    let key = XOnlyPublicKey::from_slice(&pv[i].script_pubkey.as_bytes()[2..]).unwrap();
                    check(secp().verify_schnorr(&sig.signature, &m, &key).is_ok(), 3);
                    trace(&sig.signature.serialize());
                }
            }
            psbt.inputs[i].tap_key_sig = None;
        } else {
            cover(2);
        }
    }
    check(psbt == before, 4);
}
pub fn c13_one() {
    sign(1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]);
}
pub fn c13_two() {
    sign(2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]);
}
pub fn c13_three() {
    sign(3, &[0, 2, 4, 5, 13]);
}
/// proprietary data of any bytes next to a taproot output
pub fn c13_any_data() {
    let mut tx = unsigned(&[], vec![out(1, ScriptBuf::new())]).unsigned_tx;
    let mut i = mk_in(0, SecretKey::from_slice(&[1; 32]).unwrap(), outpoint_gen()).txin;
    i.witness = Default::default();
    tx.input.push(i);
    let mut psbt = Psbt::from_unsigned_tx(tx).unwrap();
    let spend = sk();
    let key = match choice(3) {
        0 => pk(&spend).serialize().to_vec(),
        1 => bytes_v(33),
        _ => bytes_v(choice(3) as usize),
    };
    let value = bytes_v([0usize, 31, 32, 33][choice(4) as usize]);
    psbt.inputs[0].witness_utxo = Some(out(9, spk_tr(&xonly(&pk(&sk())))));
    psbt.inputs[0].proprietary.insert(ProprietaryKey { prefix: b"bip352".to_vec(), subtype: 1, key }, value);
    let keys = Keys { pubkey: vec![(pk(&spend), spend)], ..Default::default() };
    check_signed(psbt, &keys, &[false]);
}
/// unusable spend data next to the right ones, on the same input and on the one before
pub fn c13_junk() {
    let mut tx = unsigned(&[], vec![out(1, ScriptBuf::new())]).unsigned_tx;
    for _ in 0..2 {
        let mut i = mk_in(0, SecretKey::from_slice(&[1; 32]).unwrap(), outpoint_gen()).txin;
        i.witness = Default::default();
        tx.input.push(i);
    }
    let mut psbt = Psbt::from_unsigned_tx(tx).unwrap();
    let mut keys = Keys { errors: flag(), ..Default::default() };
    let (a, b) = [(0, 0), (2, 0), (0, 5), (5, 13)][choice(4) as usize];
    let s = [sp_input(&mut psbt, 0, &mut keys, a), sp_input(&mut psbt, 1, &mut keys, b)];
    put_junk(&mut psbt, choice(2) as usize, &mut keys);
    check_signed(psbt, &keys, &s);
}
/// two sets of spend data, one of them right; an input without any spent output blocks signing but nothing else
pub fn c13_more() {
    let mut tx = unsigned(&[], vec![out(1, ScriptBuf::new())]).unsigned_tx;
    let n = 1 + choice(2) as usize;
    for _ in 0..n {
        let mut i = mk_in(0, SecretKey::from_slice(&[1; 32]).unwrap(), outpoint_gen()).txin;
        i.witness = Default::default();
        tx.input.push(i);
    }
    let mut psbt = Psbt::from_unsigned_tx(tx).unwrap();
    let mut keys = Keys::default();
    let (b, t) = (sk(), sk());
    add_sp_data_to_input(&mut psbt, 0, pk(&b), Scalar::from(t));
    if flag() {
        keys.pubkey.push((pk(&b), b));
    }
    let s = sp_input(&mut psbt, 0, &mut keys, choice(2));
    if n == 2 {
        // nothing known about the second input
        let before = psbt.clone();
        sign_sp(&mut psbt, &keys, &secp());
        cover(2);
        return check(psbt == before, 10);
    }
    check_signed(psbt, &keys, &[s]);
}

// ------------------------------------------------------------------------------------------ C25
/// derivation with an input that looks like a witness program
pub fn c25_psbt() {
    let (spk, future) = crate::agg::program(false);
    let mut odd = pin(9, outpoint_gen());
    odd.i.prevout.script_pubkey = spk;
    if future {
        odd.i.kind = FUTURE;
    }
    let mut ps = vec![pin([0u32, 1, SP_KIND][choice(3) as usize], outpoint_gen()), odd];
    if flag() {
        ps.swap(0, 1);
    }
    cover(if future { 3 } else { 4 });
    run_inputs(ps, &[0, 0], &[true, true], false);
}

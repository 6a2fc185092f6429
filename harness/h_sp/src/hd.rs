//! C16: the extended-key sender and the sender that spends received silent payments
use crate::util::*;
use bdk_sp::bitcoin::{
    bip32::{ChainCode, ChildNumber, DerivationPath, Fingerprint, Xpriv},
    hashes::{sha512, Hash, HashEngine, Hmac, HmacEngine},
    secp256k1::{SecretKey, XOnlyPublicKey},
    Amount, OutPoint, ScriptBuf, TxOut,
};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{scan::Scanner, SpOut};
use bdk_sp::send::{bip32::XprivSilentPaymentSender, bip352::SpSender, error::SpSendError};
use slxrt::*;
use std::collections::HashMap;

/// BIP32 private child derivation
fn child(k: SecretKey, c: [u8; 32], index: u32, hardened: bool) -> (SecretKey, [u8; 32]) {
    let mut e = HmacEngine::<sha512::Hash>::new(&c);
    if hardened {
        e.input(&[0]);
        e.input(&k.secret_bytes());
        e.input(&(index | 1 << 31).to_be_bytes());
    } else {
        e.input(&pk(&k).serialize());
        e.input(&index.to_be_bytes());
    }
    let h = Hmac::<sha512::Hash>::from_engine(e).to_byte_array();
    let t = SecretKey::from_slice(&h[..32]).unwrap();
    (k.add_tweak(&t.into()).unwrap(), h[32..].try_into().unwrap())
}
fn bip86(k: SecretKey) -> SecretKey {
    even(k).add_tweak(&sc(tagged("TapTweak", &[&xonly(&pk(&k))]))).unwrap()
}
/// recipients get exactly what the keys that own the inputs give, and their scan finds it
fn judge(
    r: Result<HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>, SpSendError>,
    ins: &[In],
    ws: &[Wallet; 2],
    codes: &[(usize, Option<u32>)],
    scan: bool,
) {
    let partial = match ref_partial(ins) {
        Some(p) => p,
        None => {
            cover(2);
            return check(r.is_err(), 1);
        }
    };
    let got = match r {
        Ok(g) => g,
        Err(_) => return check(false, 2),
    };
    cover(1);
    let mut outs: Vec<TxOut> = vec![];
    for (wi, w) in ws.iter().enumerate() {
        // the counter runs over the payments to one scan key
        let mut all: Vec<[u8; 32]> = vec![];
        let n = codes.iter().filter(|c| c.0 == wi).count();
        for l in [None, Some(1)] {
            let c = l.map_or(w.code(), |m| w.labelled(m));
            let want = codes.iter().filter(|x| **x == (wi, l)).count();
            let have = got.get(&c).map_or(0, |v| v.len());
            check(want == have, 3);
            for x in got.get(&c).into_iter().flatten() {
                let x = x.serialize();
                trace(&x);
                check((0..n as u32).any(|k| x == ref_output(&partial, &c.scan, &c.spend, k)), 4);
                check(!all.contains(&x), 5);
                all.push(x);
                outs.push(out(outs.len() as u64, spk_tr(&x)));
            }
        }
    }
    check(outs.len() == codes.len(), 6);
    if scan {
        let tx = tx_of(ins, outs);
        for (wi, w) in ws.iter().enumerate() {
            let f = match Scanner::new(w.scan, pk(&w.spend), w.labels(&[1])).scan_tx(&tx, &prevouts(ins)) {
                Ok(f) => f,
                Err(_) => return check(false, 7),
            };
            check(f.len() == codes.iter().filter(|c| c.0 == wi).count(), 8);
        }
    }
}
const TO: [(usize, Option<u32>); 3] = [(0, None), (0, Some(1)), (1, None)];

/// `depth` 0: every other key is the master key itself
fn xpriv(n: usize, kinds: &[u32], codes: &[(usize, Option<u32>)], any_op: bool, depth: u32, scan: bool) {
    let ws = [Wallet::new(), Wallet::new()];
    let (master, cc) = (sk(), generic::<32>());
    let x = Xpriv {
        network: bdk_sp::bitcoin::NetworkKind::Test,
        depth: 0,
        parent_fingerprint: Fingerprint::default(),
        child_number: ChildNumber::Normal { index: 0 },
        private_key: master,
        chain_code: ChainCode::from(cc),
    };
    let mut ins = vec![];
    let mut spec = vec![];
    for i in 0..n {
        let op = if any_op { outpoint_any() } else { outpoint_gen() };
        let (mut k, mut c) = (master, cc);
        let mut path = vec![];
        for d in 0..if depth == 0 { i as u32 & 1 } else { 1 + choice(depth) } {
            let hard = flag();
            let index = if d == 0 { i as u32 } else { u32_any() & 0x7fff_ffff };
            path.push(if hard { ChildNumber::Hardened { index } } else { ChildNumber::Normal { index } });
            let r = child(k, c, index, hard);
            k = r.0;
            c = r.1;
        }
        let kind = kinds[choice(kinds.len() as u32) as usize];
        // taproot outputs belong to the BIP86 key, the others to the derived key itself
        let owner = if kind == 0 { bip86(k) } else { k };
        let input = mk_in(kind, owner, op);
        spec.push((op, (input.prevout.script_pubkey.clone(), DerivationPath::from(path))));
        ins.push(input);
    }
    let cs: Vec<SilentPaymentCode> =
        codes.iter().map(|(w, l)| l.map_or(ws[*w].code(), |m| ws[*w].labelled(m))).collect();
    judge(XprivSilentPaymentSender::new(x).send_to(&spec, &cs), &ins, &ws, codes, scan);
}
/// one or two taproot inputs, paths of one or two steps
pub fn c16_xpriv() {
    xpriv(1 + choice(2) as usize, &[0], &TO[..1], false, 2, false);
}
/// every script type
pub fn c16_xpriv_types() {
    xpriv(2, &[0, 1, 2, 3], &TO[2..3], false, 1, true);
}
/// any outpoints, no inputs
pub fn c16_xpriv_order() {
    xpriv(choice(3) as usize, &[0], &TO[..1], true, 1, false);
}
pub fn c16_xpriv_recipients() {
    let codes: Vec<_> = (0..choice(3)).map(|_| TO[choice(3) as usize]).collect();
    xpriv(1, &[0], &codes, false, 1, true);
}
/// the key of the empty path next to another
pub fn c16_xpriv_root() {
    xpriv(1 + choice(2) as usize, &[0, 3], &TO[..1], false, 0, true);
}
pub fn c16_xpriv_three() {
    xpriv(3, &[0, 1], &[TO[choice(3) as usize], TO[choice(3) as usize]], false, 2, false);
}

fn spend(n: usize, codes: &[(usize, Option<u32>)], any_op: bool, scan: bool) {
    let ws = [Wallet::new(), Wallet::new()];
    let b = sk();
    let mut ins = vec![];
    let mut outs = vec![];
    for i in 0..n {
        let op: OutPoint = if any_op { outpoint_any() } else { outpoint_gen() };
        let tweak = sk();
        let input = mk_in(0, b.add_tweak(&tweak.into()).unwrap(), op);
        outs.push(SpOut {
            outpoint: op,
            tweak,
            script_pubkey: input.prevout.script_pubkey.clone(),
            amount: Amount::from_sat(u64_any()),
            label: [Some(0), None, Some(3)][i % 3],
        });
        ins.push(input);
    }
    let cs: Vec<SilentPaymentCode> =
        codes.iter().map(|(w, l)| l.map_or(ws[*w].code(), |m| ws[*w].labelled(m))).collect();
    judge(SpSender::new(b).send_to(&outs, &cs), &ins, &ws, codes, scan);
}
pub fn c16_sp() {
    spend(1 + choice(3) as usize, &TO[..1], false, true);
}
pub fn c16_sp_order() {
    spend(choice(3) as usize, &TO[..1], true, false);
}
pub fn c16_sp_recipients() {
    let codes: Vec<_> = (0..choice(4)).map(|_| TO[choice(3) as usize]).collect();
    spend(1, &codes, false, true);
}
/// keys that cancel, on the way and at the end
pub fn c16_sp_cancel() {
    let ws = [Wallet::new(), Wallet::new()];
    let b = sk();
    let t = sk();
    // b + t2 = -(b + t)
    let key = b.add_tweak(&t.into()).unwrap();
    let t2 = key.negate().add_tweak(&b.negate().into()).unwrap();
    let t3 = sk();
    let mut ins = vec![];
    let mut outs = vec![];
    for t in [t, t2, t3].into_iter().take(2 + choice(2) as usize) {
        let op = outpoint_gen();
        let input = mk_in(0, b.add_tweak(&t.into()).unwrap(), op);
        outs.push(SpOut { outpoint: op, tweak: t, script_pubkey: ScriptBuf::new(), amount: Amount::ZERO, label: None });
        ins.push(input);
    }
    judge(SpSender::new(b).send_to(&outs, &[ws[0].code()]), &ins, &ws, &TO[..1], false);
}

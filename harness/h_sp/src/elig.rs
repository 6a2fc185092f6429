//! C04: which inputs contribute a key, and which key
use crate::enc::any_key;
use crate::util::*;
use bdk_sp::bitcoin::{
    hashes::Hash, secp256k1::PublicKey, OutPoint, ScriptBuf, Sequence, TxIn, Txid, Witness,
};
use bdk_sp::{receive::extract_pubkey, tag_txin, SpInputs};
use slxrt::*;

fn txin(ss: Vec<u8>, wit: &[Vec<u8>]) -> TxIn {
    TxIn {
        previous_output: OutPoint::new(Txid::from_byte_array([7; 32]), 0),
        script_sig: ScriptBuf::from_bytes(ss),
        sequence: Sequence::MAX,
        witness: Witness::from_slice(wit),
    }
}
enum Want {
    No,
    Key(SpInputs, PublicKey),
    /// not spendable that way under consensus rules: only "no panic" is required
    Any,
}
fn full(b: &[u8]) -> Option<PublicKey> {
    if b.len() == 33 {
        PublicKey::from_slice(b).ok()
    } else {
        None
    }
}
/// BIP352 "Inputs For Shared Secret Derivation", from the bytes
fn reference(spk: &[u8], ss: &[u8], wit: &[Vec<u8>]) -> Want {
    let n = spk.len();
    if n == 34 && spk[0] == 0x51 && spk[1] == 0x20 {
        if !ss.is_empty() || wit.is_empty() {
            return Want::Any;
        }
        let mut w = wit.len();
        if w >= 2 && wit[w - 1].first() == Some(&0x50) {
            w -= 1;
        }
        if w >= 2 {
            let cb = &wit[w - 1];
            if cb.len() < 33 || (cb.len() - 33) % 32 != 0 {
                return Want::Any;
            }
            if cb[1..33] == NUMS {
                return Want::No;
            }
        }
        let mut p = [2u8; 33];
        p[1..].copy_from_slice(&spk[2..]);
        return match full(&p) {
            Some(k) => Want::Key(SpInputs::Tr, k),
            None => Want::No,
        };
    }
    if n == 22 && spk[0] == 0 && spk[1] == 0x14 {
        if !ss.is_empty() || wit.is_empty() {
            return Want::Any;
        }
        return match full(wit.last().unwrap()) {
            Some(k) => Want::Key(SpInputs::Wpkh, k),
            None => Want::No,
        };
    }
    if n == 23 && spk[0] == 0xa9 && spk[1] == 0x14 && spk[22] == 0x87 {
        if wit.is_empty() {
            return Want::No;
        }
        if ss.len() == 23 && ss[0] == 0x16 && ss[1] == 0 && ss[2] == 0x14 {
            return match full(wit.last().unwrap()) {
                Some(k) => Want::Key(SpInputs::ShWpkh, k),
                None => Want::No,
            };
        }
        // P2SH-P2WSH is the only other valid spend with a witness
        return if ss.len() == 35 && ss[0] == 0x22 && ss[1] == 0 && ss[2] == 0x20 { Want::No } else { Want::Any };
    }
    if n == 25 && spk[0] == 0x76 && spk[1] == 0xa9 && spk[2] == 0x14 && spk[23] == 0x88 && spk[24] == 0xac {
        if !wit.is_empty() {
            return Want::Any;
        }
        let mut i = 0;
        while i + 33 <= ss.len() {
            if let Some(k) = full(&ss[i..i + 33]) {
                if h160(&ss[i..i + 33])[..] == spk[3..23] {
                    return Want::Key(SpInputs::Pkh, k);
                }
            }
            i += 1;
        }
        return Want::No;
    }
    Want::No
}
fn run(spk: Vec<u8>, ss: Vec<u8>, wit: Vec<Vec<u8>>) {
    let want = reference(&spk, &ss, &wit);
    let t = txin(ss, &wit);
    let s = ScriptBuf::from_bytes(spk);
    let tag = tag_txin(&t, &s);
    let got = extract_pubkey(t, &s);
    if let Some((g, k)) = &got {
        trace(&k.serialize());
        check(tag == Some(*g), 1);
    }
    match (want, got) {
        (Want::Any, _) => {}
        (Want::No, g) => {
            cover(1);
            check(g.is_none(), 2)
        }
        (Want::Key(t, k), Some((gt, gk))) => {
            cover(2);
            check(t == gt, 3);
            check(k == gk, 4);
        }
        (Want::Key(..), None) => check(false, 5),
    }
}
fn spk_pre(pre: &[u8], n: usize, post: &[u8]) -> Vec<u8> {
    let mut v = pre.to_vec();
    v.extend_from_slice(&bytes_v(n));
    v.extend_from_slice(post);
    v
}
/// P2TR: any output key, any witness contents for these item lengths
pub fn c04_tr() {
    const L: [&[usize]; 18] = [
        &[64], &[65], &[1], &[33], &[64, 1], &[64, 3], &[64, 33], &[0, 33], &[64, 2, 33], &[64, 2, 65], &[2, 33, 1], &[64, 2, 33, 2],
        &[64, 2, 97, 2], &[64, 0], &[64, 2, 1], &[64, 32], &[64, 2, 32, 1], &[64, 64, 2, 33],
    ];
    let l = L[choice(18) as usize];
    let wit = l.iter().map(|n| bytes_v(*n)).collect();
    run(spk_pre(&[0x51, 0x20], 32, &[]), vec![], wit);
}
/// script path with the NUMS internal key, with and without an annex, and keys that differ from it in one byte
pub fn c04_nums() {
    let mut cb = vec![u8_any()];
    cb.extend_from_slice(&NUMS);
    let i = 1 + choice(32) as usize;
    if flag() {
        let d = u8_any();
        assume(d != 0);
        cb[i] ^= d;
    }
    cb.extend_from_slice(&bytes_v(32 * choice(3) as usize));
    let mut wit = vec![];
    if flag() {
        wit.push(bytes_v(3));
    }
    wit.push(bytes_v(2));
    wit.push(cb);
    if flag() {
        let mut a = vec![0x50];
        a.extend_from_slice(&bytes_v(choice(3) as usize));
        wit.push(a);
    }
    run(spk_tr(&xonly(&pk(&sk()))).into_bytes(), vec![], wit);
}
/// P2WPKH
pub fn c04_wpkh() {
    const L: [&[usize]; 8] = [&[64, 33], &[33], &[3, 65], &[64, 32], &[64, 0], &[64, 34], &[1, 33, 33], &[33, 1]];
    let l = L[choice(8) as usize];
    run(spk_pre(&[0, 0x14], 20, &[]), vec![], l.iter().map(|n| bytes_v(*n)).collect());
}
/// keys that are not compressed, in a witness, in a nested witness or in a scriptSig, with the hash the output has
pub fn c04_uncompressed() {
    let k = PublicKey::from_slice(&[&[2 + choice(2) as u8][..], &NUMS[..]].concat()).unwrap();
    let mut u = k.serialize_uncompressed().to_vec();
    // hybrid encodings
    u[0] = [4, 6, 7][choice(3) as usize];
    let h = h160(&u);
    match choice(3) {
        0 => run([&[0, 0x14][..], &h].concat(), vec![], vec![vec![1; 64], u]),
        1 => {
            let red = [&[0, 0x14][..], &h].concat();
            run([&[0xa9, 0x14][..], &h160(&red), &[0x87]].concat(), [&[0x16][..], &red].concat(), vec![vec![1; 64], u])
        }
        _ => {
            let ss = [&[2, 1, 1, 65][..], &u].concat();
            run([&[0x76, 0xa9, 0x14][..], &h, &[0x88, 0xac]].concat(), ss, vec![])
        }
    }
}
/// the key in a long scriptSig full of bytes that look like the start of other keys
pub fn c04_pkh_long() {
    let (a, b) = [(1usize, 600usize), (600, 0), (300, 300), (40, 40)][choice(4) as usize];
    let f = [0u8, 2, 3][choice(3) as usize];
    let ser = PublicKey::from_slice(&[&[3][..], &NUMS[..]].concat()).unwrap().serialize();
    let mut ss = vec![f; a];
    ss.extend_from_slice(&ser);
    ss.extend(core::iter::repeat(f).take(b));
    run(spk_pkh(&h160(&ser)).into_bytes(), ss, vec![]);
}
/// P2SH: nested P2WPKH, nested P2WSH, and other redeem scripts
pub fn c04_sh() {
    const L: [&[usize]; 6] = [&[64, 33], &[33], &[3, 65], &[], &[64, 32], &[0]];
    let l = L[choice(6) as usize];
    let ss = match choice(7) {
        0 => spk_pre(&[0x16, 0, 0x14], 20, &[]),
        1 => spk_pre(&[0x16], 22, &[]),
        2 => spk_pre(&[0x22, 0, 0x20], 32, &[]),
        3 => vec![],
        4 => bytes_v(2),
        5 => spk_pre(&[0, 1, 0x30, 2], 2, &[]),
        _ => spk_pre(&[0x4c, 0x16, 0, 0x14], 20, &[]),
    };
    run(spk_pre(&[0xa9, 0x14], 20, &[0x87]), ss, l.iter().map(|n| bytes_v(*n)).collect());
}
/// P2PKH with an arbitrary short scriptSig
pub fn c04_pkh_any() {
    let n = [0usize, 1, 32, 33, 34, 35][choice(6) as usize];
    run(spk_pre(&[0x76, 0xa9, 0x14], 20, &[0x88, 0xac]), bytes_v(n), vec![]);
}
/// P2PKH with the owner's key somewhere in the scriptSig, other key-like data around it
pub fn c04_pkh_key() {
    let lay = choice(7);
    // symbolic where few windows start inside the key
    let fixed = |b: u8| PublicKey::from_slice(&[&[2 + b % 2][..], &NUMS[..]].concat()).unwrap();
    let k = if lay == 3 { fixed(1) } else { any_key() };
    let ser = k.serialize();
    let other = fixed(0).serialize();
    let spk = spk_pkh(&h160(&ser)).into_bytes();
    let sig = [0x30u8; 32];
    let mut ss = vec![];
    let cut = choice(3) as usize;
    match lay {
        // <sig> <key>
        0 => {
            ss.push(32);
            ss.extend_from_slice(&sig);
            ss.push(33);
            ss.extend_from_slice(&ser);
        }
        // <sig> <key> and extra symbols after it
        1 => {
            ss.push(32);
            ss.extend_from_slice(&sig);
            ss.push(33);
            ss.extend_from_slice(&ser);
            ss.extend_from_slice(&bytes_v(cut));
        }
        // <other key> DROP <sig> <key>
        2 => {
            ss.push(33);
            ss.extend_from_slice(&other);
            ss.push(0x75);
            ss.push(33);
            ss.extend_from_slice(&ser);
        }
        // <key> <other key> DROP
        3 => {
            ss.push(33);
            ss.extend_from_slice(&ser);
            ss.push(33);
            ss.extend_from_slice(&other);
            ss.push(0x75);
        }
        // key at the very start
        4 => {
            ss.extend_from_slice(&ser);
            ss.extend_from_slice(&bytes_v(cut));
        }
        // the key missing its last byte(s)
        5 => {
            ss.push(33);
            ss.extend_from_slice(&ser[..32 - cut]);
        }
        // only another key
        _ => {
            ss.push(33);
            ss.extend_from_slice(&other);
        }
    }
    run(spk, ss, vec![]);
}
/// any script that is not one of the four types
pub fn c04_other() {
    let n = [0usize, 1, 2, 21, 22, 23, 24, 25, 26, 33, 34, 35, 36][choice(13) as usize];
    let spk = bytes_v(n);
    let key = any_key().serialize();
    let (ss, wit) = match choice(5) {
        0 => (vec![], vec![vec![1; 64]]),
        1 => (vec![], vec![vec![1; 64], key.to_vec()]),
        2 => {
            let mut v = vec![0x16, 0, 0x14];
            v.extend_from_slice(&[9; 20]);
            (v, vec![vec![1; 64], key.to_vec()])
        }
        3 => {
            let mut v = vec![33];
            v.extend_from_slice(&key);
            (v, vec![])
        }
        _ => (vec![], vec![]),
    };
    run(spk, ss, wit);
}

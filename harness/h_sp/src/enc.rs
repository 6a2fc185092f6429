//! C01-C03: silent payment codes
use bdk_sp::bitcoin::{secp256k1::PublicKey, Network};
use bdk_sp::encoding::SilentPaymentCode;
use slxrt::*;

pub fn any_key() -> PublicKey {
    let mut b = [0u8; 33];
    b[0] = 2 + choice(2) as u8;
    b[1..].copy_from_slice(&bytes::<32>());
    match PublicKey::from_slice(&b) {
        Ok(k) => k,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
pub fn any_network() -> Network {
    match choice(5) {
        0 => Network::Bitcoin,
        1 => Network::Testnet,
        2 => Network::Testnet4,
        3 => Network::Signet,
        _ => Network::Regtest,
    }
}

pub fn c01_roundtrip() {
    let (scan, spend) = (any_key(), any_key());
    let net = any_network();
    let code = SilentPaymentCode::new_v0(scan, spend, net);
    let s = code.to_string();
    trace(s.as_bytes());
    let d = match SilentPaymentCode::try_from(s.as_str()) {
        Ok(d) => d,
        Err(_) => return check(false, 1),
    };
    cover(1);
    check(d.scan == scan, 2);
    check(d.spend == spend, 3);
    check(d.version() == 0, 4);
    let fam = match net {
        Network::Testnet4 | Network::Signet => Network::Testnet,
        n => n,
    };
    check(d.network == fam, 5);
    let hrp = match fam {
        Network::Bitcoin => "sp1",
        Network::Testnet => "tsp1",
        _ => "sprt1",
    };
    check(s.starts_with(hrp), 6);
    check(s.len() == hrp.len() + 1 + 106 + 6, 7);
    check(s.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit()), 8);
}

// ---------------------------------------------------------------------------------------------- C02
use bdk_sp::bitcoin::bech32::{
    primitives::{iter::Fe32IterExt, Bech32, Bech32m},
    Fe32, Hrp,
};
use bdk_sp::encoding::{ParseError, VersionError};

const HRPS: [&str; 8] = ["sp", "tsp", "sprt", "bc", "s", "spt", "xsp", "tsprt"];

fn fes(n: usize) -> Vec<Fe32> {
    bytes_v(n).into_iter().map(|b| Fe32::try_from(b & 31).unwrap()).collect()
}
/// what a decoder has to see: bytes of the data part after the version symbol
fn to_bytes(f: &[Fe32]) -> Vec<u8> {
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for x in f {
        acc = (acc << 5 | x.to_u8() as u32) & 0xffff;
        n += 5;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
        }
    }
    out
}
fn text(hrp: &str, f: &[Fe32]) -> String {
    let h = Hrp::parse(hrp).unwrap();
    let mut s = String::new();
    s.push_str(hrp);
    s.push('1');
    s.extend(f.iter().copied().with_checksum::<Bech32m>(&h).chars().skip(hrp.len() + 1));
    s
}
fn parse_valid(hrp: usize, n: usize, upper: bool) {
    let f = fes(n);
    let mut s = text(HRPS[hrp], &f);
    if upper {
        s = s.to_ascii_uppercase();
    }
    trace(s.as_bytes());
    let res = SilentPaymentCode::try_from(s.as_str());
    let ver = f.first().map(|v| v.to_u8());
    let data = if n > 0 { to_bytes(&f[1..]) } else { vec![] };
    let net = match hrp {
        0 => Some(Network::Bitcoin),
        1 => Some(Network::Testnet),
        2 => Some(Network::Regtest),
        _ => None,
    };
    let len_ok = match ver {
        None => false,
        Some(0) => data.len() == 66,
        Some(31) => false,
        Some(_) => data.len() >= 66,
    };
    let keys = if data.len() >= 66 {
        match (PublicKey::from_slice(&data[..33]), PublicKey::from_slice(&data[33..66])) {
            (Ok(a), Ok(b)) => Some((a, b)),
            _ => None,
        }
    } else {
        None
    };
    match res {
        Ok(c) => {
            cover(1);
            check(len_ok, 1);
            check(Some(c.network) == net, 2);
            check(Some((c.scan, c.spend)) == keys, 3);
            check(Some(c.version()) == ver, 4);
        }
        Err(e) => {
            cover(2);
            match e {
                ParseError::Bech32(_) => check(false, 5),
                ParseError::Version(VersionError::BackwardIncompatibleVersion) => check(ver == Some(31), 6),
                ParseError::Version(VersionError::WrongPayloadLength) => check(!len_ok && ver != Some(31), 6),
                ParseError::UnknownHrp(_) => check(net.is_none(), 7),
                ParseError::InvalidPubKey(_) => check(keys.is_none(), 8),
            }
        }
    }
}
/// every checksum-valid text with 66 or 67 payload bytes
pub fn c02_full() {
    let n = [106usize, 107, 108, 109][choice(4) as usize];
    parse_valid(choice(3) as usize, n, flag());
}
/// other lengths
pub fn c02_lengths() {
    let n = [0usize, 1, 2, 3, 10, 54, 104, 105, 106, 120, 150][choice(11) as usize];
    parse_valid(choice(2) as usize, n, false);
}
/// much longer payloads
pub fn c02_long() {
    let n = [161usize, 162, 260, 600][choice(4) as usize];
    parse_valid(0, n, false);
}
/// a valid code with one more character, or with one letter in the other case
pub fn c02_extra() {
    let hrp = choice(3) as usize;
    let mut f = fes(107);
    let other = flag();
    if !other {
        // a lower case letter among the data
        f[1] = Fe32::Q;
    }
    let s = text(HRPS[hrp], &f);
    let mut b = s.into_bytes();
    let h = HRPS[hrp].len();
    if other {
        let c = u8_any();
        assume(c < 0x80 && !c.is_ascii_alphanumeric());
        let at = [0, 1, h, h + 1, h + 50, b.len()][choice(6) as usize];
        b.insert(at, c);
        cover(1);
    } else {
        // the prefix has letters
        b[choice(h as u32) as usize] ^= 0x20;
        cover(2);
    }
    let s = match core::str::from_utf8(&b) {
        Ok(s) => s,
        Err(_) => return,
    };
    check(matches!(SilentPaymentCode::try_from(s), Err(ParseError::Bech32(_))), 1);
}
/// other prefixes
pub fn c02_prefix() {
    parse_valid(choice(8) as usize, 107, false);
}
/// a text whose checksum is wrong in one character, or is the older bech32 checksum
pub fn c02_checksum() {
    let n = [1usize, 8, 107][choice(3) as usize];
    let f = fes(n);
    let hrp = choice(3) as usize;
    let h = Hrp::parse(HRPS[hrp]).unwrap();
    if flag() {
        let mut s = String::new();
        s.push_str(HRPS[hrp]);
        s.push('1');
        s.extend(f.iter().copied().with_checksum::<Bech32>(&h).chars().skip(HRPS[hrp].len() + 1));
        cover(1);
        check(matches!(SilentPaymentCode::try_from(s.as_str()), Err(ParseError::Bech32(_))), 1);
    } else {
        // all symbols including the checksum, one of them changed
        let mut all: Vec<Fe32> = f.iter().copied().with_checksum::<Bech32m>(&h).fes().skip(2 * HRPS[hrp].len() + 1).collect();
        let i = choice(n as u32 + 6) as usize;
        let e = u8_any() & 31;
        assume(e != 0);
        all[i] = Fe32::try_from(all[i].to_u8() ^ e).unwrap();
        let mut s = String::new();
        s.push_str(HRPS[hrp]);
        s.push('1');
        s.extend(all.iter().map(|c| c.to_char()));
        trace(s.as_bytes());
        cover(2);
        check(matches!(SilentPaymentCode::try_from(s.as_str()), Err(ParseError::Bech32(_))), 2);
    }
}
/// arbitrary short texts
pub fn c02_short() {
    let n = choice(5) as usize;
    let b = bytes_v(n);
    let s = match core::str::from_utf8(&b) {
        Ok(s) => s,
        Err(_) => return,
    };
    cover(1);
    check(SilentPaymentCode::try_from(s).is_err(), 1);
}

// ---------------------------------------------------------------------------------------------- C03
pub fn c03_label() {
    use crate::util::*;
    let scan = sk();
    let m = u32_any();
    let t = SilentPaymentCode::get_label(scan, m);
    check(t.to_be_bytes() == ref_label(&scan, m), 1);
    let spend = if flag() { pk(&sk()) } else { any_key() };
    let net = any_network();
    let scan_pk = if flag() { pk(&scan) } else { any_key() };
    let code = SilentPaymentCode::new_v0(scan_pk, spend, net);
    let l = match code.add_label(t) {
        Ok(l) => l,
        Err(_) => {
            let tp = pk(&bdk_sp::bitcoin::secp256k1::SecretKey::from_slice(&ref_label(&scan, m)).unwrap());
            return check(spend.combine(&tp).is_err(), 2);
        }
    };
    trace(&l.spend.serialize());
    cover(1);
    let tp = pk(&bdk_sp::bitcoin::secp256k1::SecretKey::from_slice(&ref_label(&scan, m)).unwrap());
    check(Ok(l.spend) == spend.combine(&tp), 3);
    check(l.scan == scan_pk && l.network == net && l.version() == 0, 4);
    check(bdk_sp::hashes::get_label_tweak(scan, m) == t, 5);
    // different numbers, different tweaks
    let m2 = u32_any();
    assume(m2 != m);
    check(SilentPaymentCode::get_label(scan, m2) != t, 6);
}

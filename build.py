#!/usr/bin/env python3
"""Builds, from /repo's current working tree, what the checks run:
   - the symbolic engine (slx),
   - the harness crates as one LLVM-IR module each (target/<crate>.ll): whole-program bitcode of the
     harness, bdk_sp / dleq / indexer, rust-bitcoin and the standard library,
   - the native replay binaries of the same harness crates (release, and dev profile of the
     repository crates with overflow checks on).
"""
import os, re, shutil, subprocess, sys, glob, fcntl, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, 'target')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
    ENV.pop(k, None)

class BuildError(Exception):
    pass

def sh(cmd, cwd, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout

def registry(crate):
    home = os.environ.get('CARGO_HOME', os.path.expanduser('~/.cargo'))
    c = glob.glob(os.path.join(home, 'registry/src/*/', crate))
    if not c:
        raise BuildError('crate %s not in the cargo registry' % crate)
    return c[0]

def engine():
    sh(['cargo', 'build', '--release', '--offline', '--target-dir', os.path.join(T, 'slx')], os.path.join(V, 'slx'))
    return os.path.join(T, 'slx/release/slx')

EXT = '''extern "C" {{ fn slx_{n}_compress(h: *mut u8, b: *const u8); }}
        unsafe {{ slx_{n}_compress(self.h.as_mut_ptr() as *mut u8, self.buffer.as_ptr()) }}'''

def version(crate, pat):
    m = re.findall(r'name = "%s"\nversion = "(%s)"' % (crate, pat), open('/repo/Cargo.lock').read())
    if not m:
        raise BuildError('no %s in Cargo.lock' % crate)
    return m[-1]

def digest(d):
    h = hashlib.sha256()
    for r, ds, fs in sorted(os.walk(d)):
        ds.sort()
        for f in sorted(fs):
            h.update(open(os.path.join(r, f), 'rb').read())
    return h.digest()

def patched(crate, pat, edit):
    """a copy of a registry crate, edited for the symbolic build"""
    src = registry('%s-%s' % (crate, version(crate, pat)))
    dst = os.path.join(T, crate)
    tmp = dst + '.new'
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(src, tmp)
    edit(tmp)
    if not os.path.isdir(dst) or digest(dst) != digest(tmp):
        shutil.rmtree(dst, ignore_errors=True)
        os.rename(tmp, dst)
    else:
        shutil.rmtree(tmp)
    return dst

def patch_hashes(d):
    """the three compression functions become an external symbol, so that the engine sees
    `compress(state, block)` as one operation. Padding, buffering, midstates, tags, HMAC, HASH160
    stay the real code."""
    for n in ('sha256', 'sha512', 'ripemd160'):
        p = os.path.join(d, 'src', n + '.rs')
        s = open(p).read()
        m = re.search(r'\n    (pub\(crate\) )?fn process_block\(&mut self\) \{\n', s)
        if not m:
            raise BuildError('process_block not found in ' + n)
        head = s[:m.end()]
        s = head + '        ' + EXT.format(n=n) + '\n    }\n    #[allow(dead_code)]\n    fn unused_process_block(&mut self) {\n' + s[m.end():]
        open(p, 'w').write(s)

def patch_rand(d):
    """the thread's random generator (used only to blind libsecp256k1 contexts, which changes no
    result) yields zeros."""
    p = os.path.join(d, 'src/rngs/thread.rs')
    s = open(p).read()
    i = s.index('pub struct ThreadRng')
    i = s.rindex('#[cfg_attr', 0, i)
    s = s[:i] + '''
#[derive(Clone, Debug)]
/// replaced
pub struct ThreadRng {
    not_send: core::marker::PhantomData<Rc<()>>,
}
/// replaced
pub fn thread_rng() -> ThreadRng {
    ThreadRng { not_send: core::marker::PhantomData }
}
impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        0
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = 0
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ThreadRng {}
'''
    open(p, 'w').write(s)

def patch_bip157(d):
    """a public constructor for the filters the network client delivers; nothing else changes"""
    p = os.path.join(d, 'src/lib.rs')
    s = open(p).read()
    i = s.index('impl IndexedFilter {\n') + len('impl IndexedFilter {\n')
    s = s[:i] + '''    /// a filter as the client delivers it
    pub fn harness_new(height: u32, contents: Vec<u8>, block_hash: BlockHash) -> Self {
        Self::new(height, Filter::new(contents, block_hash))
    }
''' + s[i:]
    open(p, 'w').write(s)

PATCHES = (('bitcoin_hashes', r'0\.14[^"]*', patch_hashes), ('rand', r'0\.8[^"]*', patch_rand))

def patch_bip158(d):
    """block filters by contract: a filter is the list of its elements, and matches what is in the list.
    The real ones are hash tables that match a little more; symbolic build only."""
    p = os.path.join(d, 'src/bip158.rs')
    s = open(p).read()
    i = s.index('let n_elements: VarInt', s.index('pub fn match_any<I, R>(&self, reader: &mut R', s.index('impl GcsFilterReader {')))
    j = s.index('    /// Returns true if all queries match against this [`GcsFilterReader`]', i)
    s = s[:i] + '''let n_elements: VarInt = Decodable::consensus_decode(reader).unwrap_or(VarInt(0));
        let q: Vec<Vec<u8>> = query.map(|e| e.borrow().to_vec()).collect();
        if q.is_empty() {
            return Ok(true);
        }
        if n_elements.0 == 0 {
            return Ok(false);
        }
        let k: [u64; 2] = [Decodable::consensus_decode(reader).unwrap(), Decodable::consensus_decode(reader).unwrap()];
        if k != [self.filter.k0, self.filter.k1] {
            return Ok(false);
        }
        for _ in 0..n_elements.0 {
            let e: Vec<u8> = Decodable::consensus_decode(reader).unwrap();
            if q.iter().any(|q| *q == e) {
                return Ok(true);
            }
        }
        Ok(false)
    }

''' + s[j:]
    i = s.index('let nm = self.elements.len() as u64', s.index('pub fn finish(&mut self)', s.index('GcsFilterWriter<\'a, W> {')))
    j = s.index('Ok(wrote)', i)
    s = s[:i] + '''let mut wrote = VarInt::from(self.elements.len()).consensus_encode(self.writer)?;
        if !self.elements.is_empty() {
            wrote += self.filter.k0.consensus_encode(self.writer)?;
            wrote += self.filter.k1.consensus_encode(self.writer)?;
        }
        for e in &self.elements {
            wrote += e.consensus_encode(self.writer)?;
        }
        ''' + s[j:]
    open(p, 'w').write(s)

# what one harness crate needs on top: (crate, version, edit) for both builds and for the symbolic one,
# stand-ins for both and for the symbolic one
EXTRA = {'h_or': dict(edit=(('bip157', r'0\.2[^"]*', patch_bip157),), edit_sym=(('bitcoin', r'0\.32[^"]*', patch_bip158),),
                      stub=('reqwest',), stub_sym=('redb', 'rayon'))}

def write(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        open(p, 'w').write(s)

def stage(crate, kind, patch):
    """a package directory for this build kind: same sources, own lock file"""
    d = os.path.join(T, 'pkg', kind, crate)
    os.makedirs(d, exist_ok=True)
    toml = open(os.path.join(V, 'harness', crate, 'Cargo.toml')).read()
    toml = toml.replace('path = "../', 'path = "%s/harness/' % V)
    if patch:
        toml += '\n[patch.crates-io]\n' + ''.join('%s = { path = "%s" }\n' % p for p in patch)
    write(os.path.join(d, 'Cargo.toml'), toml)
    l = os.path.join(d, 'src')
    if not os.path.islink(l):
        os.symlink(os.path.join(V, 'harness', crate, 'src'), l)
    lock = os.path.join(d, 'Cargo.lock')
    mark = os.path.join(d, 'lock.src')
    src = open('/repo/Cargo.lock').read() + toml
    if not os.path.exists(lock) or not os.path.exists(mark) or open(mark).read() != src:
        shutil.copy('/repo/Cargo.lock', lock)
        open(mark, 'w').write(src)
    return d

def sym(crate, patch):
    d = stage(crate, 'sym', patch)
    tgt = os.path.join(T, 'sym_' + crate)
    ll = os.path.join(T, crate + '.ll')
    sh(['cargo', 'rustc', '--lib', '--crate-type', 'cdylib', '--profile', 'sym', '--offline', '--target-dir', tgt, '--',
        '--emit=llvm-bc', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], d)
    root = subprocess.run(['rustc', '--print', 'sysroot'], env=ENV, stdout=subprocess.PIPE, text=True).stdout.strip()
    dis = glob.glob(root + '/lib/rustlib/*/bin/llvm-dis')[0]
    bc = os.path.join(tgt, 'sym/deps', crate + '.bc')
    if not os.path.exists(ll) or os.path.getmtime(ll) < os.path.getmtime(bc):
        sh([dis, bc, '-o', ll + '.tmp'], d)
        os.rename(ll + '.tmp', ll)
    return ll

def native(crate, profile, patch):
    d = stage(crate, 'nat', patch)
    tgt = os.path.join(T, 'nat_' + crate)
    b = 'replay_' + crate[2:]
    sh(['cargo', 'build', '--offline', '--bin', b, '--target-dir', tgt] + (['--release'] if profile == 'release' else []), d)
    return os.path.join(tgt, 'release' if profile == 'release' else 'debug', b)

def build(crates):
    """returns {'engine': path, crate: (ll, native binary)}"""
    os.makedirs(T, exist_ok=True)
    with open(os.path.join(T, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        patch = [(c, patched(c, v, f)) for c, v, f in PATCHES]
        out = {}
        with ThreadPoolExecutor(8) as ex:
            e = ex.submit(engine)
            extra, stubs = {}, {}
            for c in crates:
                x = EXTRA.get(c, {})
                st = lambda k: [(n, os.path.join(V, 'harness/stubs', n)) for n in x.get(k, ())]
                extra[c] = [(n, patched(n, v, f)) for n, v, f in x.get('edit', ())] + st('stub')
                stubs[c] = [(n, patched(n, v, f)) for n, v, f in x.get('edit_sym', ())] + st('stub_sym')
            s = {c: ex.submit(sym, c, patch + extra[c] + stubs[c]) for c in crates}
            n = {c: ex.submit(native, c, 'release', extra[c]) for c in crates}
            out['engine'] = e.result()
            for c in crates:
                out[c] = (s[c].result(), n[c].result())
        return out

if __name__ == '__main__':
    try:
        print(build(sys.argv[1:] or ['h_sp']))
    except BuildError as e:
        print('BUILD FAILED', e)
        sys.exit(3)

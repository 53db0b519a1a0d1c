"""Shared parts of the drivers: building the simulators from /repo's working tree."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TARGET = os.path.join(VERIF, '.target')
REPLAYS = os.path.join(VERIF, 'replays')
JOBS = str(os.cpu_count() or 4)


class HarnessError(Exception):
    pass


def env(extra=None):
    e = dict(os.environ)
    for k in ('TRYBUILD', 'UPDATE_EXPECT', 'CARGO_TARGET_DIR', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_INCREMENTAL',
              'CARGO_PROFILE_DEV_DEBUG', 'PALCSIM_SKIP', 'PALCSIM_CHILD', 'RUST_BACKTRACE'):
        e.pop(k, None)
    e['HOME'] = e.get('HOME') or '/root'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.update(RUSTUP_TOOLCHAIN='1.96.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_INCREMENTAL='0', RUSTC_WRAPPER=os.path.join(VERIF, 'sim', 'wrap'))
    e.update(extra or {})
    return e


def tree_digest():
    """Of everything that palc and its macros are built from."""
    h = hashlib.sha256()
    roots = ['src', 'derive', 'Cargo.toml', 'Cargo.lock', os.path.join(VERIF, 'sim', 'wrap')]
    for r in roots:
        p = os.path.join(REPO, r)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) if '/target' not in d for f in fs)
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    return h.hexdigest()


def freshen(target, digest, manifest, packages):
    """Never trust file times: rebuild what depends on /repo if its contents changed."""
    stamp = os.path.join(target, 'repo-digest')
    try:
        old = open(stamp).read()
    except OSError:
        old = None
    if old is not None and old != digest:
        args = ['cargo', 'clean', '--offline', '--manifest-path', manifest]
        for p in packages:
            args += ['-p', p]
        subprocess.run(args, env=env({'CARGO_TARGET_DIR': target}), stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    os.makedirs(target, exist_ok=True)
    if old != digest:
        try:
            os.remove(stamp)
        except OSError:
            pass
    return lambda: open(stamp, 'w').write(digest)


def build_sim(flavour, defs, count):
    """Returns (binary, definitions left out)."""
    target = os.path.join(TARGET, f'{flavour}-{defs}-{count}')
    manifest = os.path.join(VERIF, 'sim', 'Cargo.toml')
    done = freshen(target, tree_digest(), manifest, ['palc', 'palc-derive'])
    cmd = ['cargo', 'build', '--offline', '--manifest-path', manifest, '-p', 'palcsim', '--keep-going']
    cmd += ['--features', 'help'] if flavour == 'help' else ['--release']
    skip = set()
    for _ in range(6):
        e = env({'CARGO_TARGET_DIR': target, 'PALCSIM_DEFS': str(defs), 'PALCSIM_COUNT': str(count)})
        if skip:
            e['PALCSIM_SKIP'] = ','.join(map(str, sorted(skip)))
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace')
        if r.returncode == 0:
            done()
            b = os.path.join(target, 'debug' if flavour == 'help' else 'release', 'palcsim')
            return b, sorted(skip)
        # Definitions the tree under test does not compile are not part of the simulation.
        bad = set()
        for f, line in re.findall(r'--> (\S+/clis\.rs):(\d+)', r.stdout):
            try:
                lines = open(f).read().split('\n')[:int(line)]
            except OSError:
                continue
            ms = [m for l in lines for m in re.findall(r'^mod cli(\d+) \{', l)]
            if ms:
                bad.add(int(ms[-1]))
        bad -= skip
        if not bad:
            raise HarnessError('the simulator does not build:\n' + r.stdout[-4000:])
        skip |= bad
    raise HarnessError('the simulator does not build')


def build_both(flavours, defs, count):
    """Builds the flavours side by side."""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(len(flavours)) as ex:
        fs = {f: ex.submit(build_sim, f, defs, count) for f in flavours}
        return {f: x.result() for f, x in fs.items()}


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS')):
            m = re.match(r'known: property=(\S+) match=(.*)', l.strip())
            if m and m[1] == prop:
                out.append(m[2])
    except OSError:
        pass
    return out

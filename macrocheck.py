"""C14 and C18: builds the working tree's macros as a library and runs the macro server simulation."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time, tomllib
from lib import *
import probe

WORK = os.path.join(VERIF, '.work', 'derive-lib')
MANIFEST = os.path.join(VERIF, 'macrosim', 'Cargo.toml')
KINDS = ('Parser', 'Args', 'Subcommand', 'ValueEnum')


def put(path, text):
    """Leaves the file alone if it is the same, so that cargo does not rebuild for nothing."""
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def parsing(text):
    """The tokens are proc-macro2's, wherever they get parsed."""
    text = re.sub(r'(?:::)?\bsyn::parse_macro_input!', '__palcsim_parse!', text)
    text = re.sub(r'(?<![\w:])parse_macro_input!', '__palcsim_parse!', text)
    return re.sub(r'\bsyn::parse(?=\s*(?:::\s*<|\())', 'syn::parse2', text)


def transform(lib):
    entries = {}

    def strip(m):
        k = re.match(r'\s*(\w+)', m[1])[1]
        fn = re.search(r'pub\s+fn\s+(\w+)', lib[m.end():])
        entries[k] = fn[1]
        return ''
    out = re.sub(r'#\[\s*proc_macro_derive\s*\(((?:[^()]|\([^()]*\))*)\)\s*\]', strip, lib)
    out = parsing(out)
    if not entries:
        raise HarnessError('no derive macros found in derive/src/lib.rs')
    arms = ''.join(f'        "{k}" => {v}(tts),\n' for k, v in entries.items())
    # After inner attributes and inner doc comments.
    m = re.match(r'(?:\s*(?://[^\n]*\n|/\*.*?\*/|#!\[[^\]]*\]))*\s*', out, re.S)
    head, rest = out[:m.end()], out[m.end():]
    if '#![cfg_attr' in head or head.endswith('///'):
        pass
    head = head.replace('#![forbid(unsafe_code)]', '')
    return (head + '''
#[allow(unused_extern_crates)]
extern crate proc_macro2 as proc_macro;
#[allow(unused_macros)]
macro_rules! __palcsim_parse {
    ($tts:ident as $t:ty) => { __palcsim_parse!($tts => $t) };
    ($tts:expr => $t:ty) => {
        match ::syn::parse2::<$t>($tts) {
            Ok(v) => v,
            Err(e) => return e.to_compile_error().into(),
        }
    };
    ($tts:expr) => { __palcsim_parse!($tts => _) };
}
#[doc(hidden)]
pub fn __palcsim_dispatch(kind: &str, tts: ::proc_macro2::TokenStream) -> ::proc_macro2::TokenStream {
    match kind {
''' + arms + '''        _ => panic!("SIM: no such macro"),
    }
}
''' + rest)


def prepare():
    src = os.path.join(REPO, 'derive', 'src')
    keep = {'Cargo.toml'}
    for f in glob.glob(os.path.join(src, '**', '*'), recursive=True):
        if not os.path.isfile(f):
            continue
        rel = os.path.relpath(f, src)
        keep.add(os.path.join('src', rel))
        text = open(f).read()
        put(os.path.join(WORK, 'src', rel), transform(text) if rel == 'lib.rs' else parsing(text))
    man = tomllib.load(open(os.path.join(REPO, 'derive', 'Cargo.toml'), 'rb'))
    root = tomllib.load(open(os.path.join(REPO, 'Cargo.toml'), 'rb'))
    deps = man.get('dependencies', {})
    wdeps = root.get('workspace', {}).get('dependencies', {})
    t = '[package]\nname = "palc-derive-lib"\nversion = "0.0.0"\nedition = "2024"\n\n[dependencies]\n'
    for k, v in deps.items():
        if isinstance(v, dict) and v.get('workspace'):
            w = wdeps[k]
            w = {'version': w} if isinstance(w, str) else dict(w)
            w['features'] = w.get('features', []) + v.get('features', [])
            v = w
        if isinstance(v, str):
            v = {'version': v}
        t += f'{k} = {{ ' + ', '.join(f'{a} = {json.dumps(b)}' for a, b in v.items()) + ' }\n'
    put(os.path.join(WORK, 'Cargo.toml'), t)
    for f in glob.glob(os.path.join(WORK, '**', '*'), recursive=True):
        if os.path.isfile(f) and os.path.relpath(f, WORK) not in keep:
            os.remove(f)


def build():
    prepare()
    target = os.path.join(TARGET, 'macrosim')
    # What this program depends on is regenerated from the tree; never trust file times.
    done = freshen(target, tree_digest(), MANIFEST, ['palc-derive-lib'])
    r = subprocess.run(['cargo', 'build', '--offline', '--manifest-path', MANIFEST],
                       env=env({'CARGO_TARGET_DIR': target}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace')
    if r.returncode != 0:
        raise HarnessError('the macro simulator does not build:\n' + r.stdout[-4000:])
    done()
    return os.path.join(target, 'debug', 'macrosim')


def work(b, pid, seed, k, n, limit, tmp):
    r = subprocess.run([b, pid, 'work', str(seed), str(k), str(n), JOBS, str(int(limit))], env=env({'TMPDIR': tmp}),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    if r.returncode != 0 or not r.stdout.rstrip().endswith('end'):
        raise HarnessError(f'a worker failed: {r.returncode}\n{r.stdout[-1000:]}\n{r.stderr[-2000:]}')
    return r.stdout


def main(a):
    t0 = time.time()
    quick = a.tier == 'quick'
    b = build()
    build_s = time.time() - t0
    n = int(CASES[a.id] * (1 if quick else 12) * a.scale)
    limit = a.limit or (300 if quick else 560)
    tmp = tempfile.mkdtemp(prefix='palcsim-')
    stats, distinct, found, digest, said = {}, set(), [], 0, {}
    branches = reached = 0
    try:
        with cf.ThreadPoolExecutor(int(JOBS)) as ex:
            outs = list(ex.map(lambda k: work(b, a.id, a.seed, k, n, limit, tmp), range(int(JOBS))))
        for o in outs:
            for l in o.splitlines():
                w = l.split('\t')
                if w[0] == 'stat':
                    stats[w[1]] = stats.get(w[1], 0) + int(w[2])
                elif w[0] == 'said':
                    m = re.sub(r'(names|values) .*', r'\1', w[2])
                    said[m] = said.get(m, 0) + int(w[1])
                elif w[0] == 'd':
                    distinct.add(w[1])
                elif w[0] == 'branches':
                    branches, reached = int(w[1]), reached | int(w[2] or '0', 16)
                elif w[0] == 'digest':
                    digest = (digest + int(w[1], 16)) % 2**64
                elif w[0] == 'viol':
                    found.append((int(w[1]), w[2], '\t'.join(w[3:])))
        run_s = time.time() - t0 - build_s
        replay = None
        if found:
            found.sort()
            i, cls, msg = found[0]
            os.makedirs(REPLAYS, exist_ok=True)
            replay = os.path.join(REPLAYS, f'{a.id}-{a.seed}-{i}.case')
            r = subprocess.run([b, a.id, 'minimize', str(a.seed), str(i), cls, replay, '90'], env=env({'TMPDIR': tmp}),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
            small = r.stdout.strip().split('\t')[-1]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    compiled = None
    if a.id == 'C18' and not found:
        # The compiler accepts what the macros make of every sound definition.
        count = 240 if quick else 480
        built = build_both(['help', 'nohelp'], a.seed, count)
        bad = sorted({(f, x) for f in built for x in built[f][1]})
        compiled = {'definitions': count, 'flavours': sorted(built), 'rejected': [list(x) for x in bad]}
        if bad:
            replay, small = reject_file(bad[0][0], a.seed, count, bad[0][1])
            found = [(x, 'Rejected', f'the compiler rejects sound definition {x} ({f})') for f, x in bad]
        else:
            n_bad = n_good = 0
            for k in range(1 if quick else 10):
                b_, g_, problems = probe.run(f'{a.seed} {k}', 200)
                n_bad, n_good = n_bad + b_, n_good + g_
                if problems:
                    stage, what, small, mod, edition = problems[0]
                    replay = os.path.join(REPLAYS, f'C18-{a.seed}-probe.case')
                    os.makedirs(REPLAYS, exist_ok=True)
                    with open(replay, 'w') as fh:
                        fh.write(f'property C18\nprobe {stage} {edition}\n{mod}')
                    found = [(j, 'Probe', f'{x[1]} ({x[0]}): {x[2]}') for j, x in enumerate(problems)]
                    small = mod
                    break
            compiled['programs'] = {'with a contradiction for the compiler': n_bad, 'without': n_good}
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in stats.items() if k.startswith('fault ')}
    faults['preemptions'] = stats.get('preemptions', 0)
    sample = [subprocess.run([b, a.id, 'show', str(a.seed), str(i)], stdout=subprocess.PIPE, text=True, env=env()).stdout[:1500]
              for i in range(3)]
    ev = {
        'property': a.id, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': stats.get('expansions', 0),
            'distinct_nontrivial': len(distinct),
            'rule': RULE18 if a.id == 'C18' else 'Simulated macro servers: seeded sets of valid, random and damaged definitions expanded on 1-4 threads in a seeded '
                    'order under a seeded preemptive schedule, with seeded hash maps, environment and clock; each expansion compared '
                    '(tokens, source positions, diagnostics) with that of a pristine process. Non-trivial: an expansion had a history or '
                    'a preemption switched threads. Distinct: different sequence of (macro, number of diagnostics, size) per thread order, '
                    'threads and preemptions.',
            'samples': sample,
            'cases': stats.get('cases', 0), 'cases_planned': n,
            'nontrivial_runs': stats.get('nontrivial servers', 0),
            'runs_per_hour': int(stats.get('servers', 0) / max(run_s, .1) * 3600),
            'seeds_per_hour': int(stats.get('cases', 0) / max(run_s, .1) * 3600),
            'simulated_time': {'unit': 'scheduling points (the macros read no clock)', 'steps': stats.get('scheduling points', 0)},
            'faults_injected': faults,
            'definitions': {k: v for k, v in stats.items() if k.startswith('definitions')},
            'servers': {k: v for k, v in stats.items() if k.startswith('servers') or k.startswith('expansions')},
            'branches_reached': {'unit': 'branches of the macros: reached, existing', 'counts': [bin(reached).count('1'), branches]},
            **({'diagnostics': dict(sorted(said.items(), key=lambda x: -x[1])), 'compiled': compiled} if a.id == 'C18' else {}),
            'digest': f'{digest:016x}',
            'components': ['real: all of derive/src (built from the working tree as a library), syn, quote, heck, std hash maps, OS threads (one runs at a time)',
                           'simulated: compiler side of the macro interface (proc-macro2 instead of rustc), hash seeds, environment, clock, thread schedule'],
            'build_s': round(build_s, 1),
        },
        'assumptions': (['the lists of contradictions and of sound additions in macrosim/src/contra.rs state the intended rules']
                        if a.id == 'C18' else []) + ['proc-macro2 stands in for the compiler\'s token streams'],
        'wall_s': round(wall, 2),
        'violations': 1 if found else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.id + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    if found:
        for i, cls, msg in found[:5]:
            print(f'  case {i} {cls}: {msg[:600]}')
        print('minimised: ' + small[:1500])
        print(f'VIOLATION property={a.id} replay={replay}')
        return 1
    print(f'{a.id}: held in {stats.get("expansions", 0)} expansions by {stats.get("servers", 0)} simulated macro servers '
          f'({len(distinct)} distinct non-trivial), seed {a.seed}, {wall:.0f} s')
    return 0


CASES = {'C14': 20000, 'C18': 20000}


RULE18 = ('Simulated macro servers: seeded sound definitions, with sound additions or with an injected contradiction, expanded on 1-3 threads '
          'in a seeded order under a seeded preemptive schedule with seeded hash maps. A contradiction must be diagnosed within what was injected, '
          'a sound definition not at all; and whole programs, with contradictions between types that only the compiler can find, '
          'go through the compiler. Non-trivial: a contradiction, or an expansion after another one. Distinct: different macro, '
          'diagnostics and size')


def reject_file(flavour, seed, count, index):
    """A replay file for a sound definition the compiler does not accept, and what the compiler says."""
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f'C18-{seed}-compile-{index}.case')
    text, said = rejected(flavour, seed, count, index)
    with open(path, 'w') as f:
        f.write(f'property C18\ncompile {flavour} {seed} {count} {index}\n' + text)
    return path, said


def rejected(flavour, seed, count, index):
    """The definition and what the compiler says about it."""
    # Built once more, with nothing left out, for the messages.
    target = os.path.join(TARGET, f'{flavour}-{seed}-{count}')
    cmd = ['cargo', 'build', '--offline', '--manifest-path', os.path.join(VERIF, 'sim', 'Cargo.toml'), '-p', 'palcsim', '--keep-going']
    cmd += ['--features', 'help'] if flavour == 'help' else ['--release']
    r = subprocess.run(cmd, env=env({'CARGO_TARGET_DIR': target, 'PALCSIM_DEFS': str(seed), 'PALCSIM_COUNT': str(count)}),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    for m in re.finditer(r'^error.*?(?=^(?:error|warning)|\Z)', r.stdout, re.M | re.S):
        at = re.search(r'--> (\S+/clis\.rs):(\d+)', m[0])
        if not at:
            continue
        lines = open(at[1]).read().split('\n')
        heads = [k for k, l in enumerate(lines[:int(at[2])]) if re.match(r'mod cli\d+ \{', l)]
        if heads and lines[heads[-1]].startswith(f'mod cli{index} {{'):
            end = next((k for k in range(heads[-1] + 1, len(lines)) if lines[k] == '}'), len(lines))
            return '\n'.join(lines[heads[-1]:end + 1]) + '\n', m[0]
    return '', ''


def replay_compile(path, text):
    flavour, seed, count, index = re.search(r'^compile (\S+) (\d+) (\d+) (\d+)$', text, re.M).groups()
    _, skip = build_sim(flavour, int(seed), int(count))
    if int(index) in skip:
        print(rejected(flavour, seed, count, index)[1])
        print(f'VIOLATION property=C18 replay={path}')
        return 1
    print('the violation does not show')
    return 0


def replay(path):
    text = open(path, errors='replace').read()
    if re.search(r'^compile ', text, re.M):
        return replay_compile(path, text)
    if re.search(r'^probe ', text, re.M):
        return probe.replay(path, text)
    pid = re.search(r'^property (\S+)$', text, re.M)[1]
    b = build()
    r = subprocess.run([b, pid, 'run-file', path], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace')
    print(r.stdout, end='')
    if r.returncode == 1:
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if r.returncode == 0:
        print('the violation does not show')
        return 0
    print(f'HARNESS ERROR: exit code {r.returncode}')
    return 2

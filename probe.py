"""Whole programs with one contradiction each that only the compiler proper can find (C18)."""
import json, os, random, re, subprocess
from lib import *

WORK = os.path.join(VERIF, '.work', 'probe')
STAGES = ('late', 'types', 'scope')

ENUM_OK = ['one', 'two-three', 'x1', 'é', 'Éclair', 'ß', '日本', 'a b', '-', '', 'no', 'ok', 'slow']
UPPER = ['Two', 'twoThree', 'X', 'slowM', 'a B', '日本Z', '-O', 'zA9']


def value_enum(r, name, upper):
    names = r.sample(ENUM_OK, r.randint(1, 5))
    if upper:
        names.insert(r.randint(0, len(names)), r.choice(UPPER))
    vs = ''.join(f'    #[value(name = "{n}")]\n    V{k},\n' for k, n in enumerate(names))
    return f'#[derive(Debug, Clone, palc::ValueEnum)]\npub enum {name} {{\n{vs}}}\n'


def sound_fields(r, tag, n):
    out = []
    for k in range(n):
        ty = r.choice(['bool', 'String', 'Option<u8>', 'Vec<String>', 'Option<Option<u32>>'])
        eq = ', require_equals = true' if ty.startswith('Option<Option') else ''
        g = ', global = true' if r.random() < .2 else ''
        out.append(f'    #[arg(long{eq}{g})]\n    pub {tag}{k}: {ty},\n')
    return out


def group(r, name, bad):
    """A group to flatten; `bad` says what keeps it from being one."""
    f = sound_fields(r, name.lower() + '_', r.randint(0, 3))
    x = {
        None: [],
        'pos': [r.choice(['    pub p: String,\n', '    pub p: Option<u8>,\n', '    #[arg(default_value = "1")]\n    pub p: u8,\n'])],
        'vec': [r.choice(['    pub p: Vec<String>,\n', '    #[arg(trailing_var_arg = true)]\n    pub p: Vec<String>,\n'])],
        'last': ['    #[arg(last = true)]\n    pub p: Vec<String>,\n'],
        'sub': [r.choice(['    #[command(subcommand)]\n    pub p: Sub,\n', '    #[command(subcommand)]\n    pub p: Option<Sub>,\n'])],
    }[bad]
    for l in x:
        f.insert(r.randint(0, len(f)), l)
    return f'#[derive(palc::{r.choice(["Args", "Args", "Parser"])})]\npub struct {name} {{\n{"".join(f)}}}\n'


SUB = '#[derive(palc::Subcommand)]\npub enum Sub {\n    One,\n    Two { #[arg(long)] x: bool },\n}\n'
NOT = 'pub struct Nope;\n#[derive(Debug, Clone)]\npub struct Mute;\nimpl std::str::FromStr for Mute {\n    type Err = String;\n    fn from_str(_: &str) -> Result<Self, String> { Ok(Mute) }\n}\n'


def module(r, k, stage, bad):
    """Source of module `k`; the offending line ends in `// HERE`."""
    if stage == 'scope':
        return scope(r, k)
    fields = sound_fields(r, 's', r.randint(0, 4))
    here, support, wants = '', [SUB, NOT], None
    if stage == 'late':
        kind = r.choice(['pos', 'vec', 'last', 'sub', 'sub', 'case', 'case'])
        groups = [group(r, f'G{i}', None) for i in range(r.randint(0, 2))]
        extra = [f'    #[command(flatten)]\n    pub g{i}: G{i},\n' for i in range(len(groups))]
        enums = [value_enum(r, f'E{i}', False) for i in range(r.randint(0, 2))]
        extra += [f'    #[arg(long, ignore_case = true)]\n    pub e{i}: {r.choice(["E%d", "Option<E%d>", "Vec<E%d>"]) % i},\n' for i in range(len(enums))]
        support += groups + enums
        if bad and kind == 'case':
            support.append(value_enum(r, 'EBad', True))
            here = f'    #[arg(long, ignore_case = true)]\n    pub bad: {r.choice(["EBad", "Option<EBad>", "Vec<EBad>"])}, // HERE\n'
        elif bad:
            support.append(group(r, 'GBad', kind))
            here = '    #[command(flatten)]\n    pub bad: GBad, // HERE\n'
        fields += extra
        if r.random() < .3:
            fields.append(f'    #[command(subcommand)]\n    pub sub: {r.choice(["Sub", "Option<Sub>"])},\n')
    elif bad:
        here = '    ' + r.choice([
            '#[command(flatten)] pub bad: Nope, // HERE', '#[command(flatten)] pub bad: Sub, // HERE', '#[command(flatten)] pub bad: u8, // HERE',
            '#[command(subcommand)] pub bad: Nope, // HERE', '#[command(subcommand)] pub bad: Option<Nope>, // HERE', '#[command(subcommand)] pub bad: GOk, // HERE',
            '#[arg(long)] pub bad: Nope, // HERE', '#[arg(long)] pub bad: Option<Nope>, // HERE', '#[arg(long)] pub bad: Vec<Nope>, // HERE',
            '#[arg(long)] pub bad: Option<Vec<Nope>>, // HERE', '#[arg(long, require_equals = true)] pub bad: Option<Option<Nope>>, // HERE',
            'pub bad: Nope, // HERE', 'pub bad: Vec<Nope>, // HERE', '#[arg(last = true)] pub bad: Vec<Nope>, // HERE', '#[arg(long)] pub bad: (u8, u8), // HERE',
            '#[arg(long, default_value_t = Mute)] pub bad: Mute, // HERE', '#[arg(long, default_value_t = ())] pub bad: u8, // HERE',
            '#[arg(long, default_value_t)] pub bad: Nope, // HERE', '#[arg(long, default_value_t = "x")] pub bad: String, // HERE',
            '#[arg(long, ignore_case = true)] pub bad: String, // HERE', '#[arg(long, ignore_case = true)] pub bad: u8, // HERE',
            '#[arg(long, default_value = 3)] pub bad: u8, // HERE' if False else '#[arg(long)] pub bad: Box<dyn std::fmt::Debug>, // HERE',
        ]) + '\n'
        support.append(group(r, 'GOk', None))
    else:
        support.append(group(r, 'GOk', None))
        fields.append('    #[command(flatten)]\n    pub ok: GOk,\n    #[arg(long)]\n    pub mute: Option<Mute>,\n')
    if here:
        # Positional arguments may not follow a list.
        fields.insert(r.randint(0, len(fields)), here)
    target = r.random()
    if stage == 'types' or target < .5:
        main = f'#[derive(palc::{r.choice(["Args", "Parser"])})]\npub struct Top {{\n{"".join(fields)}}}\n'
    else:
        vs = ['    A,\n', '    B(Other),\n', f'    C {{\n{"".join(fields).replace("pub ", "")}    }},\n']
        r.shuffle(vs)
        main = f'#[derive(palc::Subcommand)]\npub enum Top {{\n{"".join(vs)}}}\n#[derive(palc::Args)]\npub struct Other {{\n    #[arg(long)]\n    pub o: bool,\n}}\n'
    r.shuffle(support)
    body = ''.join(support) + main
    return f'pub mod m{k} {{\n{body}}}\n'


# Things that may be in scope where a definition stands, none of which is its business.
MODS = ['std', 'core', 'alloc', 'palc', 'ops', 'fmt', 'option', 'rt', 'private']
TYPES = ['Box', 'Default', 'Iterator', 'FromStr', 'Display', 'Debug', 'Error', 'OsStr', 'OsString', 'Infer', 'Args', 'ParserInternal', 'Parsable', 'RawArgsInfo',
         'Usage', 'FnOnce', 'Into', 'From', 'AsRef', 'Drop', 'Sized', 'Send', 'Sync', 'Copy', 'Ord', 'Eq', 'Hash', 'Ok', 'Err', 'Break', 'ControlFlow', 'i32', 'usize']
LINTS = ['warnings', 'unused', 'rust_2018_idioms', 'nonstandard_style', 'unused_qualifications', 'trivial_casts', 'trivial_numeric_casts',
         'single_use_lifetimes', 'unused_results', 'elided_lifetimes_in_paths', 'missing_debug_implementations', 'unused_lifetimes', 'absolute_paths_not_starting_with_crate',
         'explicit_outlives_requirements', 'let_underscore_drop', 'unsafe_op_in_unsafe_fn', 'non_local_definitions', 'if_let_rescope', 'tail_expr_drop_order', 'unsafe_code', 'deprecated', 'future_incompatible', 'keyword_idents', 'let_underscore',
         'rust_2021_compatibility', 'rust_2024_compatibility', 'unit_bindings', 'meta_variable_misuse', 'unused_import_braces', 'redundant_lifetimes',
         'redundant_imports', 'ffi_unwind_calls', 'ambiguous_negative_literals']
MACROS = ['env', 'assert', 'concat', 'format_args', 'unreachable', 'unimplemented', 'matches', 'stringify', 'format', 'write', 'panic', 'compile_error', 'vec']
PRIMITIVES = ['u8', 'bool', 'str', 'char', 'usize', 'i32', 'u32']
OWN = ['Help', 'Help', 'Frame', 'Value', 'Output', 'Flavor', 'Opts', 'Level', 'Mode', 'Parser', 'Subcommand', 'ValueEnum', 'Inner', 'T', 'P', 'F', 'A', 'S']
FIELDS = ['port', 'name', 'value', 'args', 'parser', 'out', 'frame', 'fields', 'v', 'f', 'x', 'iter', 'state', 'r#type', 'r#fn', 'r#match', 'len', 'idx', 'arg', 'sub']


def scope(r, k):
    """A sound definition where the names around it are not what they usually are."""
    inner, items = [], []
    prelude = r.random() < .7
    if not prelude:
        inner.append('#![no_implicit_prelude]\n')
        items.append('use ::std::option::Option;\nuse ::std::string::String;\nuse ::std::vec::Vec;\n')
    if r.random() < .5:
        inner.append(f'#![deny({", ".join(r.sample(LINTS, r.randint(1, 8)))})]\n#![allow(dead_code, unused_macros, unused_imports, unused_attributes, non_camel_case_types, missing_debug_implementations)]\n')
    for m in r.sample(MODS, r.choice([0, 0, 1, 3])):
        items.append(f'pub mod {m} {{}}\n')
    types = r.sample(TYPES, r.choice([0, 0, 1, 4]))
    for t in types:
        items.append(r.choice([f'pub struct {t};\n', f'pub enum {t} {{}}\n', f'pub type {t} = ();\n']))
    if r.random() < .3:
        items.append('pub type Result<T> = ::std::result::Result<T, ()>;\n')
    if r.random() < .2:
        items.append('pub enum Answer { Some, None, True }\npub use self::Answer::{Some, None};\n')
    for m in r.sample(MACROS, r.choice([0, 0, 1, 4])):
        items.append('macro_rules! %s { ($($t:tt)*) => { (mine) }; }\n' % m)
    prims = [t for t in r.sample(PRIMITIVES, r.choice([0, 0, 1, 3])) if t not in types]
    # Types of the definition go by names the generated code may have a use for, too.
    pool = [t for t in OWN if t not in types]
    r.shuffle(pool)
    names = r.sample(FIELDS, r.randint(2, 8))
    out, earlier, listed = [], [], False
    fns, used, own = set(), set(), []
    flat = r.random() < .3
    for n in names:
        kind = r.choice(['fn', 'fn', 'fn', 'const', 'call', 'plain', 'pos', 'enum', 'flag', 'rel', 'self'])
        key = n.replace('r#', '')
        if kind == 'fn':
            # The default is computed by a function; it may have the name of this field or of another.
            f = r.choice([n, n, r.choice(names), 'make_' + key])
            if f not in fns:
                fns.add(f)
                items.append(f'pub fn {f}() -> u16 {{ 7 }}\n')
            e = r.choice([f'{f}()', f'{f}()', f'{f}() + {f}()', f'({f}(), 1).0', f'{f}().wrapping_add({f}())', f'!{f}()', f'-({f}() as ::std::primitive::i64) as u16', f'pick!({f}())'])
            if 'pick!' in e and 'pick' not in fns:
                fns.add('pick')
                items.append('macro_rules! pick { ($e:expr_2021) => { $e } }\n')
            out.append(f'    #[arg(long, default_value_t = {e})]\n    {n}: u16,\n')
        elif kind == 'const':
            out.append(f'    #[arg(long, default_value = "9", help = "text", value_name = "X")]\n    {n}: u16,\n')
        elif kind == 'call':
            out.append(f'    #[arg(long, default_value_t = ::std::primitive::u8::MAX)]\n    {n}: u8,\n')
        elif kind == 'pos' and not listed:
            listed = r.random() < .5
            out.append(f'    {n}: {"Vec<String>" if listed else "Option<String>"},\n')
        elif kind == 'enum':
            e = next(t for t in pool if t not in used)
            used.add(e)
            const = r.random() < .2
            items.append('#[derive(::std::fmt::Debug, ::std::clone::Clone, ::palc::ValueEnum)]\n'
                         f'pub enum {e}{"<const N: ::std::primitive::usize>" if const else ""} {{ Some, None, Ok, Err, Self_ }}\n')
            u = e + '<3>' if const else e
            if r.random() < .5:
                out.append(f'    #[arg(long, default_value_t = {e}::{r.choice(["Some", "None", "Ok", "Err"])})]\n    {n}: {u},\n')
            else:
                out.append(f'    #[arg(long, ignore_case = true)]\n    {n}: {r.choice(["%s", "Option<%s>", "Vec<%s>"]) % u},\n')
        elif kind == 'self':
            # `Self` is the type that is being defined.
            how = r.randint(0, 2)
            own.append([f'pub const C_{key.upper()}: u16 = 7;', f'pub fn of_{key}() -> u16 {{ 7 }}', f'pub const fn c_{key}<const N: u16>(x: u16) -> u16 {{ x + N }}'][how])
            e = [f'Self::C_{key.upper()}', f'Self::of_{key}()', f'<Self>::c_{key}::<3>(1)'][how]
            out.append(f'    #[arg(long, default_value_t = {r.choice([e, e, f"{e} + {e}"])})]\n    {n}: u16,\n')
        elif kind == 'rel' and earlier:
            o = r.choice(earlier)
            out.append(f'    #[arg(long, {r.choice(["requires", "conflicts_with"])} = "{o}")]\n    {n}: Option<u8>,\n')
        else:
            out.append(f'    #[arg(long{r.choice(["", "" if flat else ", exclusive = true", ", global = true"])})]\n    {n}: {r.choice(["bool", "Option<u8>", "Vec<u8>"])},\n')
        earlier.append(n)
    kind = r.choice(['struct', 'struct', 'macro', 'inside', 'variant'])
    if r.random() < .4 and kind != 'variant':
        e = next(t for t in pool if t not in used)
        used.add(e)
        items.append(f'#[derive(::palc::Subcommand)]\npub enum {e} {{ None, Some {{ #[arg(long)] x: bool }}, Self_ }}\n')
        out.append(f'    #[command(subcommand)]\n    commands: Option<{e}>,\n')
    if flat:
        e = next(t for t in pool if t not in used)
        items.append(f'#[derive(::palc::Args)]\npub struct {e} {{ #[arg(long)] shared_one: Option<u8>, #[arg(long)] shared_two: bool }}\n')
        out.insert(0, f'    #[command(flatten)]\n    group: {e},\n')
    body = ''.join(('    #[deprecated]\n' if r.random() < .06 else '') + x for x in out)
    about = ''
    if r.random() < .2:
        about = '#[command(long_about)]\n'
    elif r.random() < .3:
        own.append("pub const TEXT: &'static ::std::primitive::str = \"Text.\";")
        about = f'#[command({r.choice(["long_about", "after_long_help"])} = Self::TEXT)]\n'
    own = f'impl Top {{ {" ".join(own)} }}\n' if own else ''
    which = r.choice(['Parser', 'Args', 'Parser'])
    if kind == 'struct':
        main = f'#[derive(::palc::{which})]\n{about}pub struct Top {{\n{body}}}\n{own}'
    elif kind == 'variant':
        main = f'#[derive(::palc::Subcommand)]\npub enum Top {{\n    {about}    Some {{\n{body}    }},\n    {about}    None,\n}}\n{own}'
    elif kind == 'inside':
        main = f'pub fn inside() {{\n#[derive(::palc::{which})]\n{about}pub struct Top {{\n{body}}}\n{own}}}\n'
    else:
        main = (f'macro_rules! define {{ ($n:ident, $d:expr_2021, $l:literal, $f:ident, $t:ty, $o:ty) => {{\n#[derive(::palc::{which})]\n{about}pub struct $n {{\n'
                f'    #[arg(long = $l, default_value_t = $d, conflicts_with = "quite")]\n    $f: u16,\n    #[arg(long, requires = "special")]\n    quite: $t,\n    #[arg(long)]\n    perhaps: $o,\n{body}}}\n}} }}\n'
                f'pub fn special() -> u16 {{ 3 }}\ndefine!(Top, special(), "spec", special, bool, {r.choice(["Option", "Vec"])}<::std::primitive::u8>);\n{own}')
    # Textual scope: macros go first.
    items.sort(key=lambda x: not x.startswith('macro_rules'))
    text = ''.join(items) + main
    # A type may even have the name of a primitive one, if the definition itself avoids that.
    if 'bool' in prims and re.search(r'(: |, )bool\b', text):
        prims.remove('bool')
    for t in prims:
        text = re.sub(rf'(?<![:\w]):?(?<!::)\b{t}\b(?!:)', lambda m: m[0].replace(t, '::std::primitive::' + t), text)
    text = ''.join(f'pub struct {t};\n' for t in prims) + text
    return f'pub mod m{k} {{\n{"".join(inner)}{text}}}\n'


def places(spans, file):
    """Lines of `file` an error is reported at; where it only passes through there, those."""
    def of(span):
        while span:
            if span['file_name'] == file:
                return range(span['line_start'], span['line_end'] + 1)
            span = (span.get('expansion') or {}).get('span')
        return ()
    for some in ([x for x in spans if x['is_primary']], spans):
        at = {l for x in some for l in of(x)}
        if at:
            return at
    return set()


def put(rel, text):
    with open(os.path.join(WORK, rel), 'w') as f:
        f.write(text)


def manifest(edition):
    put('Cargo.toml', f'[package]\nname = "probe"\nversion = "0.0.0"\nedition = "{edition}"\n[workspace]\n[dependencies]\n'
        f'palc = {{ path = "{REPO}" }}\n')


def crate():
    os.makedirs(os.path.join(WORK, 'src', 'bin'), exist_ok=True)
    manifest('2024')
    put('Cargo.lock', open(os.path.join(REPO, 'Cargo.lock')).read())
    for stage in STAGES:
        put(f'src/bin/{stage}.rs', 'fn main() {}\n')
    target = os.path.join(TARGET, 'probe')
    return target, freshen(target, tree_digest(), os.path.join(WORK, 'Cargo.toml'), ['palc', 'palc-derive'])


def judge(target, stage, mods, edition):
    """What is wrong with each of the modules, or None; the offending line of one with a contradiction ends in `// HERE`."""
    src = '#![allow(dead_code)]\n' + ''.join(mods) + 'fn main() {}\n'
    manifest(edition)
    put(f'src/bin/{stage}.rs', src)
    p = subprocess.run(['cargo', 'check', '--offline', '--message-format=json', '--bin', stage], cwd=WORK,
                       env=env({'CARGO_TARGET_DIR': target, 'RUSTC_WRAPPER': ''}), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors='replace')
    if p.returncode != 0 and not re.search(rf'could not compile `probe` \(bin "{stage}"\)', p.stderr):
        raise HarnessError('the probe programs do not get compiled:\n' + p.stderr[-3000:])
    hits = {}
    for l in p.stdout.splitlines():
        m = json.loads(l)
        if m.get('reason') == 'compiler-message' and m['target']['name'] == stage and m['message']['level'] == 'error':
            for x in places(m['message']['spans'], f'src/bin/{stage}.rs'):
                hits.setdefault(x, m['message']['rendered'])
    out, line = [], 2
    for mod in mods:
        lines = mod.split('\n')[:-1]
        inside = {x - line for x in hits if line <= x < line + len(lines)}
        want = [x for x, l in enumerate(lines) if l.endswith('// HERE')]
        said = ''.join(hits[line + x] for x in sorted(inside))[:1500]
        if want and not inside:
            out.append(('the contradiction is not diagnosed', said))
        elif want and not inside & {want[0], want[0] - 1}:
            out.append(('the contradiction is diagnosed elsewhere', said))
        elif not want and inside:
            out.append(('a sound definition is rejected', said))
        else:
            out.append(None)
        line += len(lines)
    return out


def run(seed, n):
    """Returns (number of modules with a contradiction, without, [(stage, problem, what the compiler said, module source)])."""
    target, done = crate()
    problems, counts = [], [0, 0]
    for stage in STAGES:
        r = random.Random(f'{seed} {stage}')
        # What a definition means does not depend on the edition of the crate it is in.
        edition = random.Random(f'{seed} {stage} edition').choice(['2018', '2021', '2021', '2024', '2024'])
        # (There, `assert!` itself takes the `panic!` of whoever uses it.)
        edition = '2021' if (stage, edition) == ('scope', '2018') else edition
        mods = [module(r, k, stage, r.random() < .7) for k in range(n)]
        for m in mods:
            counts[0 if '// HERE' in m else 1] += 1
        problems += [(stage, *x, m, edition) for x, m in zip(judge(target, stage, mods, edition), mods) if x]
    done()
    # The first with as little else as shows it.
    return counts[0], counts[1], problems[:1] and [reduce(target, *problems[0])] + problems[1:]


def reduce(target, stage, what, said, mod, edition):
    """Leaves out fields of a module for as long as the same shows."""
    for _ in range(40):
        lines = mod.split('\n')
        cands = []
        for k, l in enumerate(lines):
            if re.match(r'    (?:pub )?\w+: .*,$', l) and not l.endswith('// HERE'):
                attr = k > 0 and lines[k - 1].startswith('    #[')
                cands.append('\n'.join(lines[:k - (1 if attr else 0)] + lines[k + 1:]))
        if not cands:
            break
        # One compilation tries them all.
        got = judge(target, stage, [re.sub(r'^pub mod m\d+', f'pub mod m{k}', c) for k, c in enumerate(cands)], edition)
        mod2 = next(((c, g) for c, g in zip(cands, got) if g and (g[0], g[1].split('\n')[0]) == (what, said.split('\n')[0])), None)
        if not mod2:
            break
        mod, said = mod2[0], mod2[1][1]
    return stage, what, said, mod, edition


def replay(path, text):
    stage, edition = re.search(r'^probe (\w+) (\d+)$', text, re.M).groups()
    mod = text[text.index('pub mod '):]
    target, done = crate()
    got = judge(target, stage, [mod], edition)[0]
    done()
    if got:
        print(got[0] + '\n' + got[1])
        print(f'VIOLATION property=C18 replay={path}')
        return 1
    print('the violation does not show')
    return 0

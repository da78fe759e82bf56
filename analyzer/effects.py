"""Effects visible in the MIR of every library function (generic bodies included, called or not)."""
import re

LIBS = ('secret_integers', 'abstract_integers', 'hacspec', 'hacspec_examples', 'hacspec_dev')

# callees of other crates that are values of their arguments only (or panic)
PURE_CRATES = ('core', 'alloc', 'num_bigint', 'num_traits', 'num_integer', 'num')
IMPURE = [(re.compile(p), k) for p, k in (
    (r'^core::(cell|sync|arch|ptr|intrinsics)\b', 'interior mutability or raw memory'),
    (r'^core::mem::(transmute|zeroed|forget|MaybeUninit)', 'raw memory'),
    (r'^core::fmt::rt::Argument.*::new_pointer|core::fmt::Pointer\b', 'address as text'),
    (r'^core::(hint|any)::(?!must_use)', 'compiler hint'),
    (r'^alloc::(sync|rc|alloc|boxed::Box<[^>]*>::(leak|from_raw))', 'shared or leaked memory'),
)]
FMT_RT = 'core::fmt::'
PURE_STD = (r'^std::panicking::begin_panic', r'^std::f64::<impl f64>::ceil$', r'^std::rt::(begin_panic|panic)')
RNG = re.compile(r'^(rand|rand_core|getrandom)')
PRINT = re.compile(r'^std::io::')


def bodies(prog, control=False):
    for c in prog.survey:
        for b in c['bodies']:
            isctl = b['path'].startswith('crate::ctl::')
            if isctl == control and (c['name'] in LIBS or c['name'] == 'hsharness'):
                yield c['name'], b


def classify(path, unsafe, crate, isf):
    """effect of a callee outside the workspace: (kind or None)"""
    if path == '<asm>':
        return 'asm'
    if path == '<indirect>':
        return None
    if RNG.match(crate) or RNG.match(path):
        return 'rng'
    if crate == 'std':
        if any(re.match(p, path) for p in PURE_STD):
            return None
        if PRINT.match(path):
            return 'print' if 'stdio' in path else 'io'
        return 'std:' + path
    if unsafe and not path.startswith(FMT_RT):
        return 'unsafe:' + path
    if crate in PURE_CRATES:
        for r, k in IMPURE:
            if r.match(path):
                return 'state:' + path
        return None
    if crate in LIBS or crate == 'hsharness':
        return 'unsafe:' + path if unsafe else None
    return 'foreign:' + path


def sites(prog, control=False):
    """(crate, function, effect kind, location)"""
    for cr, b in bodies(prog, control):
        for path, uns, loc, isf, c in b['calls']:
            k = classify(path, uns, c, isf)
            if k:
                yield cr, b['path'], k, loc
        for loc in b['raw']:
            yield cr, b['path'], 'raw dereference', loc
        for path, mut, loc in b['statics']:
            yield cr, b['path'], ('mutable static ' if mut else 'static ') + path, loc
        for kind, ty, loc, frm, plain in b['casts']:
            if plain:
                continue
            if 'Transmute' in kind or 'ExposeProvenance' in kind or 'PointerExpose' in kind:
                yield cr, b['path'], 'cast:' + kind, loc


MEMORY = re.compile(r'^(asm|unsafe:|raw dereference|mutable static |cast:|state:core::(ptr|mem|intrinsics))')


def memory_sites(prog, control=False):
    return [s for s in sites(prog, control) if MEMORY.match(s[2])]


def scanned(prog):
    return sum(1 for c, b in bodies(prog) if c in LIBS)

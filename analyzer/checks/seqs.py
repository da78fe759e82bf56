"""Array and sequence types analysed, shared by several checks."""
from checks.ints import *
# module suffix, element width, length
ARR = [('U8', 8, 16), ('U16', 16, 5), ('U32', 32, 5), ('U64', 64, 5), ('U128', 128, 5), ('u8', 8, 16), ('u16', 16, 5), ('u32', 32, 5),
       ('u64', 64, 5), ('u128', 128, 5), ('usize', 64, 5), ('BothPub', 8, 7), ('BothSec', 8, 7), ('B7', 8, 7), ('b7', 8, 7), ('GAu32', 32, 5), ('GAU64', 64, 5)]
# long and one-element instances: sampled positions
LARR = [('LU32', 32, 72), ('Lu8', 8, 300), ('LU8', 8, 130), ('One', 64, 1)]
SEQ = [('SeqU8', 8), ('Sequ32', 32), ('SecU64', 64), ('Pubu8', 8), ('Pubu128', 128)]


def sample(n, extra=()):
    """every position up to a short length, else the ends, the middle and the positions the code singles out"""
    if n <= 20:
        return list(range(n + 2))
    return sorted(x for x in {0, 1, 2, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, n // 2, n - 1, n, n + 1} | set(extra) if x <= n + 1)


def fn_(t, key, root, specs, want):
    """want None: must refuse"""
    if want is None:
        panics(t, key, root, specs)
    else:
        prog_fn(t, key, root, specs, want)

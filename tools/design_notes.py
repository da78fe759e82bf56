NOTES = {
'C01': 'no bounds: all implementations and signatures of the five crates (about 1450 audited items) and about 1650 generated witness programs, type-checked in one '
       'batch each way; 8–13 s. Tests cannot show the absence of an API. The closed allow-list is reasoned item by item in `c01.py`; an unknown item is a violation. '
       'Renaming or adding private helpers changes nothing; a new *public* function that returns public data from secret inputs is reported.',
'C02': 'all operations of the secret integer types and sequence operations with symbolic operands, the cores (ChaCha20, AES without S-box lookups as declassified by the code, SHA-2/3, '
       'BLAKE2, HMAC, HKDF, Poly1305, X25519 swaps, ct_div, cswap, …) at small lengths; 75–100 s. Outside the statement (they index or branch on explicitly declassified values): '
       'the AES S-box, GF(2^128), P-256, big-integer arithmetic behind modular integers. Nothing is claimed below MIR.',
'C03': 'ten full-expansion shapes per AEAD, then some 350 (aad, message) shapes per AEAD with block function and MAC summarised, up to 8 KiB (thorough 64 KiB); 95 s. '
       'A single-bit or prefix tag comparison, a swallowed error, plaintext depending on anything else is a different acceptance condition or value graph.',
'C04': 'the same shapes as C03 for the encryption entry points, plus the ChaCha20 stream, GMAC; 90 s.',
'C05': 'full expansion around block boundaries; with the compression function (resp. hash, MAC) summarised every message length below 200, every key length below 70, every '
       'output length below 100, and large ones up to 65537 and the 8160-byte HKDF limit; 80 s.',
'C06': 'full expansion at 0, 1, rate±1, 2·rate(−1); summarised permutation for every length up to 2·rate+1 and larger; XOF output lengths to 20 rates (thorough 260); 70 s.',
'C07': 'full expansion at 20 lengths; summarised compression at every length to 259 and around 2^9…2^16; 28 s. The byte counter beyond 2^64 is covered through '
       'the summarised compression with a symbolic counter. BLAKE2s always panics in this tree and is not claimed.',
'C08': 'all in-range operand pairs of types of 12, 40 and 64 bits, signed/unsigned, secret/public; unbounded operands for constructors. 10 s. Larger widths differ only in the constant.',
'C09': 'three modulus/width combinations for each macro family; every pair of base values, reduced and unreduced. Modular power as a primitive. 10 s.',
'C10': 'ten types, all operations and forms; every operand pair; shift and rotation distances symbolic. 20 s.',
'C11': 'every offered pair of types, all values. A few seconds.',
'C12': 'every type, both orders, all values; arrays of five elements, byte arrays and sequences up to 144 bytes and sequences next to constants of the code; lengths that are no multiple of the word. 24 s.',
'C13': 'symbolic index on 17 short arrays, four long or one-element arrays and sequences of length 0–300; the effect scan has no bounds. 8 s.',
'C14': '14 array types, sequences of length 0–5, 16, 17, 70, 257 and lengths next to constants of the code; unequal lengths; equality and order of public arrays of 1–1000 elements at the first, last and middle positions. 8 s.',
'C15': 'every start/length/chunk combination in and out of range on shapes up to 16 elements; sampled positions (ends, middle, powers of two ±1, constants of the code) on shapes up to 1030 (and next to constants of the code up to 20000). 13 s.',
'C16': 'no bounds: 6000+ function bodies. Positive controls (`harness/src/ctl.rs`) must be seen. 5 s.',
'C17': '24000 obligations: one program per (pair of generated types, operation); 45–60 s, most of it rustc.',
'C18': 'no bounds: every table constant of the example crate; near-match matching so that a table with a few wrong entries is still recognised. 23 s.',
'C19': 'all operand pairs of every type. A few seconds.',
'C20': 'the generator is modelled as a source of fresh symbolic words; the obligation is that every bit of every element is a distinct fresh bit and that ranges are whole. 3 s. '
       'Statistical quality of the generator of the `rand` crate is trusted.',
'C21': 'texts up to 16 digits (sequences), exact length ±2 (arrays), with one arbitrary ASCII or multi-byte character at any position; arrays of 32–260 bytes. 50 s. Model gap: `str::chars` treats a byte as a character for the ASCII part.',
'C22': 'all operand pairs of ten types; documented unimplemented operations are required to stay panicking, not wrong. 15 s.',
'C23': 'all keys, nonces, counters; block, quarter round, inner rounds. 3 s.',
'C24': 'both key sizes with symbolic key and block; counter mode with symbolic 32-bit counter at every length to 99 with the block function summarised, to 4 KiB at the block-count boundaries. 22 s.',
'C25': 'lengths 0–35, selected to 1031, and next to constants of the code (thorough to 4097); key and message symbolic; modular arithmetic as polynomials modulo 2^130−5. 6 s.',
'C26': 'every scalar and point at once; the ladder is compared step by step through the polynomial normal form modulo 2^255−19; the inverse is the power p−2. 20 s.',
'C27': 'point operations for symbolic coordinates with explicit case split on infinity/equal/opposite points; scalar multiplication for every 256-bit scalar in the homomorphic abstraction. 20 s.',
'C28': 'degrees to 8, moduli 0, small primes, composite, large; leading coefficients of divisors concrete (the code branches on their inverses). Inversion of polynomials is not claimed. 13 s.',
'C29': 'no bounds on operand, modulus or iteration count: loop invariants instead of unrolling, for the ten unsigned types. The templates and the entailment are described in `c29.py`; '
       'when no inductive subset gives the conclusion, the check reports (fail closed), so an exotic rewrite of the algorithm would need a new template. Signed types are not claimed. 60 s.',
}

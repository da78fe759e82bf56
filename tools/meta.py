#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property is claimed iff its check module exists."""
import json
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, state=state))


AI = 'abstract interpretation of MIR with global value numbering'
SHAPE = ('Every value of every input bit is covered; lengths/shapes are those listed in evidence (bounded). Trusts: rustc nightly MIR, the '
         'models of core/alloc/num/rand in analyzer/natives.py, and, for obligations marked "interpreted", equality of two value graphs by '
         'random interpretation (one-sided error probability, no code is run).')
AUDIT = 'Exact over the type-checked program (no bounds); trusts the rustc driver and the reasoned allow-lists in the check. '

prop('C01', 'Secret integers expose their value only through named declassification',
     'A value of a secret integer type (machine, bounded or modular) cannot be turned into a public integer, a boolean, an ordering, a hash, an index or printed text, except '
     'through the explicit declassifying operations of the libraries: declassify and the conversions into public integers (field access included), the boolean-returning '
     'comparisons of the numeric trait, the Debug/Display/LowerHex formatting of the value itself, hexadecimal export and the equality tests of whole arrays. '
     'Secret scalars have no division or remainder operator, no boolean comparison operator, no ordering or hash, no use as an index, shift distance or range, and no '
     'dereferencing to public data; panic messages do not contain secret values; lengths do not depend on secret contents. An operator with a secret and a public operand '
     'does not type-check without an explicit classification.',
     ['programs'], 'every program written against the public API of the libraries',
     'Absence of an API is a statement about all client programs; tests can only use operations that exist.',
     ['secret-integers/src/lib.rs', 'hacspec/src/lib.rs', 'hacspec/src/seq.rs', 'hacspec/src/array.rs', 'hacspec/src/machine_integers.rs', 'hacspec/src/traits.rs'],
     [('trait implementations of the secret types', 'secret-integers/src/lib.rs'), ('inversion without secret diagnostics', 'hacspec/src/math_util.rs')],
     'trait-implementation and API-signature audit of the type-checked crates; compile-fail witnesses with compiling twins', AUDIT)
prop('C02', 'Constant-time cores: no branch or address depends on secrets',
     'In the wrapping arithmetic, bitwise, shift and rotation, byte conversion, comparison-mask and conditional-selection operations of secret machine integers, and in the '
     'ChaCha20, SHA-2, HMAC, HKDF, SHA-3/SHAKE and BLAKE2b specifications, neither a branch, nor a memory index, nor the operand of a variable-time '
     'instruction (division, remainder), nor a shift distance, nor an allocation size, nor the decision to panic depends on a secret input; only lengths and declared public '
     'parameters may influence them. Operations that are variable-time by their documentation are outside: checked arithmetic, boolean comparisons, division, inversion and '
     'exponentiation with a secret exponent, the explicit *_mod operations; so are the AES S-box, GHASH and Poly1305 specifications, which compute on declassified values.',
     ['inputs', 'programs'], 'every secret operand value at every listed shape',
     'Functional tests cannot observe which values steer control flow.',
     ['secret-integers/src/lib.rs', 'hacspec/src/machine_integers.rs', 'spec-examples/src'],
     [('mask comparisons', 'secret-integers/src/lib.rs'), ('ct_util conditional selection', 'hacspec/src/traits.rs')],
     'information-flow (taint) analysis over MIR by abstract interpretation', SHAPE + ' Machine-code level timing is out of scope.')
prop('C03', 'Authenticated decryption releases plaintext only after the full tag matches',
     'ChaCha20-Poly1305 and AES-128/256-GCM decryption return a plaintext exactly when all 128 bits of the supplied tag equal the tag computed over '
     'associated data, ciphertext and their lengths, and that plaintext is the ciphertext xor the cipher keystream. In every other case an error '
     'independent of key and data is returned.',
     ['inputs'], 'every key, nonce, associated data, ciphertext and tag at the listed lengths',
     'A test flips a few tag bits; acceptance must be refused for all 2^128-1 other tags and every key and text.',
     ['spec-examples/src/chacha20_poly1305/chacha20poly1305.rs', 'spec-examples/src/aes_gcm/aesgcm.rs', 'hacspec/src/array.rs'],
     [('decrypt', 'spec-examples/src/chacha20_poly1305/chacha20poly1305.rs'), ('decrypt_aes128/256', 'spec-examples/src/aes_gcm/aesgcm.rs'), ('tag equality', 'hacspec/src/array.rs')],
     AI, SHAPE)
prop('C04', 'Authenticated encryption: keystream positions, MAC key and MAC input',
     'ChaCha20-Poly1305 and AES-128/256-GCM encryption output the message xor the keystream starting at the prescribed block, and a tag that authenticates '
     'padded associated data, padded ciphertext and both lengths under the prescribed one-time key. Every message byte is enciphered with its own '
     'keystream byte, for complete and incomplete last blocks.',
     ['inputs'], 'every key, nonce, associated data and message content at the listed lengths',
     'Test vectors fix one length pair and one key; block-boundary and empty cases are not sampled.',
     ['spec-examples/src/chacha20_poly1305', 'spec-examples/src/aes_gcm'],
     [('encrypt', 'spec-examples/src/chacha20_poly1305/chacha20poly1305.rs'), ('gmac/ghash', 'spec-examples/src/aes_gcm/gf128.rs'), ('pad_aad_msg', 'spec-examples/src')],
     AI, SHAPE)
prop('C05', 'SHA-256, HMAC-SHA256 and HKDF-SHA256 follow their standards',
     'The digest, MAC, extracted key and expanded output equal those of FIPS 180-4, RFC 2104 and RFC 5869 for every input, at every position relative to '
     'the block boundaries, for keys shorter, equal and longer than a block, and for output lengths up to the maximum of 255 blocks; longer outputs are refused.',
     ['inputs'], 'every content of messages, keys, salts and infos at the listed lengths',
     'Vectors cover a few lengths; padding errors appear only at particular lengths (one was found at exact block multiples).',
     ['spec-examples/src/sha2/sha2.rs', 'spec-examples/src/hmac/hmac.rs', 'spec-examples/src/hkdf/hkdf.rs'],
     [('hash', 'spec-examples/src/sha2/sha2.rs'), ('hmac', 'spec-examples/src/hmac/hmac.rs'), ('extract/expand', 'spec-examples/src/hkdf/hkdf.rs')], AI, SHAPE)
prop('C06', 'SHA-3 and SHAKE follow FIPS 202',
     'The four SHA-3 digests and the two SHAKE outputs of any requested length equal those of FIPS 202 for every message, including messages whose length is '
     'a multiple of the rate and outputs longer than one squeeze block.',
     ['inputs'], 'every message content at the listed message and output lengths', 'Vectors cover a handful of lengths.',
     ['spec-examples/src/fips202/fips202.rs'], [('keccak sponge', 'spec-examples/src/fips202/fips202.rs')], AI, SHAPE)
prop('C07', 'BLAKE2b-512 follows RFC 7693',
     'The digest equals RFC 7693 BLAKE2b-512 for every message, with the byte counter covering both words and the last block, full or partial, always finalised.',
     ['inputs'], 'every message content at the listed lengths', 'The test vectors have two lengths, none a non-zero multiple of the block size.',
     ['spec-examples/src/blake2/blake2b.rs'], [('compress, get_byte counters', 'spec-examples/src/blake2/blake2b.rs')], AI, SHAPE)
prop('C08', 'Bounded mathematical integers never hold a value outside their range',
     'Every constructor, conversion and arithmetic operation of a bounded unsigned or signed integer type either yields the exact mathematical result, '
     'lying within the declared bit range, or panics; it never wraps, truncates or returns an out-of-range value. Every value of the range can be represented.',
     ['inputs'], 'every operand value of the analysed instances of the type families',
     'Tests use a few in-range operands; the guarantee is about all results including those at both ends of the range.',
     ['abstract-integers/src/abstract_int.rs', 'abstract-integers/src/lib.rs', 'hacspec/src/math_integers.rs'],
     [('range check on construction', 'abstract-integers/src/abstract_int.rs'), ('checked arithmetic', 'abstract-integers/src/abstract_int.rs')], AI,
     SHAPE + ' Instances: widths 12, 40, 64 of each family.')
prop('C09', 'Modular integers are canonical and their operations are exact modulo n',
     'Every constructor, conversion and arithmetic operation of a modular integer type yields the canonical representative in [0, n) of the mathematical '
     'result (sum, difference, product, power modulo n); comparisons and byte exports act on that representative. Values given out of range are '
     'reduced or refused, never stored unreduced.',
     ['inputs'], 'every operand value of the analysed moduli', 'Tests sample operands; unreduced values arise only at wrap-around.',
     ['abstract-integers/src/nat_mod.rs', 'abstract-integers/src/abstract_int.rs', 'hacspec/src/math_integers.rs'],
     [('reduction after each operation', 'abstract-integers/src/nat_mod.rs')], AI, SHAPE + ' Numeric correctness of inverses is not claimed (see not_applicable).')
prop('C10', 'Secret integer arithmetic is two\'s-complement arithmetic of the declared width',
     'Addition, subtraction, multiplication, negation, shifts, rotations and bitwise operations of the ten secret integer types, in operator, compound-assignment '
     'and method form, compute the two\'s-complement or bitwise result of the type\'s width for every pair of operands, and do not panic, except '
     'for out-of-range shift distances.',
     ['inputs'], 'every pair of operand values and shift distance of every width', 'Tests sample a few operands of one or two widths.',
     ['secret-integers/src/lib.rs', 'hacspec/src/machine_integers.rs'], [('operator macros', 'secret-integers/src/lib.rs')], AI, SHAPE)
prop('C11', 'Integer conversions preserve, extend or truncate as the types say',
     'Classifying and declassifying change nothing; widening secret conversions zero- or sign-extend according to the source type, narrowing ones keep the low bits, '
     'and sign-changing ones keep the bit pattern, for every value and every offered pair of types. No conversion panics.',
     ['inputs'], 'every value of every source type', 'Tests convert small positive literals.',
     ['secret-integers/src/lib.rs', 'hacspec/src/transmute.rs', 'hacspec/src/array.rs'], [('From implementations', 'secret-integers/src/lib.rs')], AI, SHAPE)
prop('C12', 'Byte encodings use exactly the stated byte order',
     'Every conversion between integers (secret or public, single or in arrays and sequences) and bytes puts byte i of the value at the position given '
     'by its stated endianness, and the reverse conversion is its inverse. Inputs of a wrong length are refused, not padded or truncated.',
     ['inputs'], 'every value at every width and listed sequence length', 'Tests use palindromic or single-width vectors.',
     ['secret-integers/src/lib.rs', 'hacspec/src/transmute.rs', 'hacspec/src/vec_integers.rs', 'hacspec/src/array.rs', 'hacspec/src/machine_integers.rs'],
     [('to/from_be/le_bytes', 'secret-integers/src/lib.rs'), ('transmutes', 'hacspec/src/transmute.rs')], AI, SHAPE)
prop('C13', 'Element access is bounds checked for every index; no unchecked memory access',
     'Reading or writing an element or range of an array or sequence, with any supported index type, reaches exactly that element when the index is within the '
     'length and panics otherwise, including negative indices. Library code contains no unchecked memory access.',
     ['inputs', 'programs'], 'every index value; every library function', 'Tests index in range.',
     ['hacspec/src/array.rs', 'hacspec/src/seq.rs', 'secret-integers/src/lib.rs'], [('Index/IndexMut', 'hacspec/src/array.rs'), ('Index/IndexMut', 'hacspec/src/seq.rs')],
     AI + '; unsafe-effect scan', SHAPE)
prop('C14', 'Vector arithmetic is pointwise and preserves length',
     'The arithmetic, bitwise and wrapping operators of numeric arrays and public sequences compute, at every position, the element operation on the elements at that '
     'position, and the result has the length of the operands. Comparisons of public arrays hold iff they hold position by position as documented.',
     ['inputs'], 'every element value at the listed lengths', 'Tests use one length and one vector.',
     ['hacspec/src/vec_integers.rs', 'hacspec/src/array.rs', 'hacspec/src/seq.rs'], [('operator implementations', 'hacspec/src/vec_integers.rs')], AI, SHAPE)
prop('C15', 'Copying regions touches exactly the requested elements',
     'Slicing, chunking, updating and converting arrays and sequences copies exactly the requested region to exactly the requested place, leaves every other element '
     'unchanged (or default in new containers), and leaves the inputs untouched; the last, shorter chunk has its actual length. Regions that do not fit are refused.',
     ['inputs'], 'every content and every start/length combination up to the shape bound', 'Tests use one or two regions in range.',
     ['hacspec/src/array.rs', 'hacspec/src/seq.rs', 'hacspec/src/traits.rs'], [('update_slice, chunk functions', 'hacspec/src/traits.rs')], AI, SHAPE)
prop('C16', 'Operations are pure: deterministic, silent and without hidden state',
     'Every library operation other than the random generators, the test-vector loader and the documented error reports computes its result from its arguments '
     'alone: no global mutable state, clock, environment, file or random source is read or written and nothing is printed. In particular no operand, '
     'key or plaintext is ever written to standard output or error, except within the message of a panic.',
     ['programs', 'histories'], 'every function of the libraries and everything it can call', 'Tests do not inspect output or global state, and repeat no history.',
     ['secret-integers/src', 'abstract-integers/src', 'hacspec/src', 'spec-examples/src'], [('all functions', 'hacspec/src')],
     'call-graph effect analysis over the type-checked program', AUDIT)
prop('C17', 'Distinct generated types do not mix',
     'Types generated for different purposes (keys, nonces, tags, modular integers with different moduli, arrays of different lengths, public and secret variants) are distinct: '
     'an operation or call that mixes two of them does not type-check.',
     ['programs'], 'every program written against the public API', 'A test can contain only programs that compile.',
     ['hacspec/src/array.rs', 'hacspec/src/math_integers.rs', 'abstract-integers/src', 'spec-examples/src'], [('type-generating macros', 'hacspec/src/array.rs')],
     'trait-implementation audit of the type-checked crates; compile-fail witnesses with compiling twins', 'Decided by the compiler on each witness; trusts that the witness set represents each generating macro. The audit is exact over all implementations in the workspace crates and over one instantiation of every generating macro.')
prop('C18', 'Constant tables equal the standards',
     'The S-box, round constants, rotation offsets, permutation indices, initial values, bit masks, moduli and curve constants of the cryptographic '
     'specifications equal, entry by entry and bit by bit, those of the standards, and each primitive uses them in the prescribed places.',
     ['inputs'], 'every table entry', 'A test vector passes although entries it does not reach are wrong.',
     ['spec-examples/src'], [('constants', 'spec-examples/src')], 'comparison of compiler-evaluated constants with independently derived tables, and abstract interpretation of the primitives that use them', SHAPE)
prop('C19', 'Comparison masks and conditional selection are exact',
     'The comparison operations that return masks return all ones exactly when the relation holds and zero otherwise, for every operand pair of every integer type, with signed '
     'order for signed types; boolean comparisons of public types agree. Conditional swap, assignment, addition, subtraction and multiplication, and '
     'the constant-time division, return exactly the selected result.',
     ['inputs'], 'every operand pair of every type', 'Tests compare a few small numbers; mask errors appear near the sign bit and at the extremes.',
     ['secret-integers/src/lib.rs', 'hacspec/src/machine_integers.rs', 'hacspec/src/traits.rs', 'hacspec/src/math_util.rs'],
     [('comp_*', 'secret-integers/src/lib.rs'), ('*_bm', 'hacspec/src/machine_integers.rs'), ('ct_util', 'hacspec/src/math_util.rs')], AI, SHAPE)
prop('C20', 'Random generators draw fresh values covering the whole type',
     'Random elements, arrays and sequences consist of independent fresh draws of the random source, one or more per element, such that every value of the element type can occur; '
     'random modular and bounded values lie in range. Nothing from an earlier draw is reused and no constant is returned.',
     ['inputs', 'histories'], 'every outcome of the random source', 'A test sees a few draws and cannot observe missing values or reuse.',
     ['hacspec/src/machine_integers.rs', 'hacspec/src/array.rs', 'hacspec/src/seq.rs', 'hacspec/src/util.rs'], [('random functions', 'hacspec/src')], AI, SHAPE)
prop('C21', 'Hexadecimal parsing and printing are exact and strict',
     'Parsing a hexadecimal string yields exactly the bytes or number its digits denote, in order, for upper- and lower-case digits; any string with a character that is not a hexadecimal digit, or '
     'with a number of digits that does not fit, is refused by a panic. Printing yields two digits per byte, and parsing the printed text gives back the value.',
     ['inputs'], 'every string of the listed lengths', 'Tests parse a few well-formed constants.',
     ['hacspec/src/util.rs', 'hacspec/src/array.rs', 'hacspec/src/seq.rs', 'abstract-integers/src/abstract_int.rs'], [('hex_string_to_bytes, from_hex, to_hex', 'hacspec/src')], AI, SHAPE)
prop('C22', 'Public machine integers implement the numeric interface exactly',
     'The generic numeric operations on built-in integers (wrapping and checked arithmetic, modular addition, subtraction and multiplication, powers, shifts, rotations, bit and byte access, extrema, '
     'literals) compute the mathematical result for every operand, or panic where it does not exist.',
     ['inputs'], 'every operand value of every width', 'Tests use one or two widths and small positive operands.',
     ['hacspec/src/machine_integers.rs', 'hacspec/src/traits.rs'], [('Numeric/Integer implementations', 'hacspec/src/machine_integers.rs')], AI, SHAPE)
prop('C23', 'The ChaCha20 block function follows RFC 8439',
     'Quarter round, state initialisation, the twenty rounds with the final addition and the serialisation equal RFC 8439 for every key, counter and nonce.',
     ['inputs'], 'all key, counter and nonce bits', 'One test vector per function.', ['spec-examples/src/chacha20_poly1305/chacha20.rs'],
     [('block', 'spec-examples/src/chacha20_poly1305/chacha20.rs')], AI, 'Complete over all inputs (no length parameter). Trusts rustc MIR and analyzer/natives.py.')
prop('C24', 'The AES block cipher and counter mode follow FIPS 197',
     'AES-128 and AES-256 encryption of a block equals FIPS 197 for every key and block, and counter mode xors block i of the data with the encryption of the nonce and the '
     'counter plus i modulo 2^32, truncating the last block; decryption is the same operation.',
     ['inputs'], 'all key, nonce, counter and data bits at the listed lengths', 'A few vectors, counter never wraps.', ['spec-examples/src/aes_gcm/aes.rs'],
     [('aes_encrypt_block, aes_counter_mode', 'spec-examples/src/aes_gcm/aes.rs')], AI, SHAPE)
prop('C25', 'Poly1305 follows RFC 8439',
     'The tag is the clamped-key polynomial of the message blocks modulo 2^130-5 plus the second key half modulo 2^128, little-endian, for every key and message, including empty and partial last blocks; '
     'the derived-key variant uses the first half of cipher block zero.',
     ['inputs'], 'every key and message content at the listed lengths', 'Vectors cover few lengths and no extreme accumulator.', ['spec-examples/src/chacha20_poly1305/poly1305.rs'],
     [('poly', 'spec-examples/src/chacha20_poly1305/poly1305.rs')], AI, SHAPE)
prop('C26', 'X25519 follows RFC 7748',
     'Scalar multiplication clamps the scalar, ignores the top bit of the point, runs the 255 ladder steps of RFC 7748 with the prescribed conditional swaps and field formulas, and encodes the '
     'quotient little-endian; the public key is the multiplication of the base point 9.',
     ['inputs'], 'every scalar and point', 'Two vectors.', ['spec-examples/src/curve25519/curve25519.rs'], [('montgomery ladder', 'spec-examples/src/curve25519/curve25519.rs')], AI, SHAPE)
prop('C27', 'P-256 point multiplication follows the group law',
     'Scalar multiplication of the base point processes every scalar bit with the prescribed doubling and addition formulas in Jacobian coordinates and returns affine coordinates of the result, '
     'for every scalar.',
     ['inputs'], 'every scalar', 'A few vectors.', ['spec-examples/src/p256/p256.rs'], [('point_mul, montgomery_ladder', 'spec-examples/src/p256/p256.rs')], AI, SHAPE)
prop('C28', 'Polynomial ring operations are the mathematical ones',
     'Sum, difference, product and quotient with remainder (by divisors whose leading coefficient is invertible) of polynomials, over the integers or modulo n, have the coefficients of the mathematical result, reduced modulo the '
     'ring polynomial for ring elements; unusable inputs are refused.',
     ['inputs'], 'every coefficient value at the listed degrees and moduli', 'Tests use a few small polynomials.', ['hacspec/src/poly.rs', 'hacspec/src/math_util.rs'],
     [('poly_add/sub/mul/div, leading_coefficient', 'hacspec/src/poly.rs'), ('poly! ring type', 'hacspec/src/poly.rs')], AI, SHAPE)

prop('C29', 'Inverses of unsigned machine integers are modular inverses',
     'For every non-zero operand x and modulus n >= 2, inv of a public or secret unsigned machine integer either returns the y in [0, n) with x*y = 1 (mod n) or panics. It always returns it when '
     'x < n is coprime to n and n*n fits the type, never returns anything for an x without an inverse, and always terminates.',
     ['inputs'], 'every operand and modulus of every width', 'Tests invert a few elements modulo small numbers.', ['hacspec/src/math_util.rs', 'hacspec/src/machine_integers.rs'],
     [('extended_euclid_invert', 'hacspec/src/math_util.rs')], 'inductive loop invariants over MIR: Houdini on template relations, polynomial entailment',
     'Complete over all operands and moduli, with unbounded loops; zero operands excluded. Trusts rustc MIR and analyzer/loops.py.')

NA = {}
NAFILE = os.path.join(VERIF, 'tools', 'not_applicable.json')
if os.path.exists(NAFILE):
    NA = json.load(open(NAFILE))


def main():
    checks, na = [], []
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                 'observe_at': list(p['observe']) or ['return values and panics of the public functions'], 'hook_needed': None}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
            assert len(p['title']) <= 80, p['title']
            if os.path.exists(os.path.join(VERIF, 'analyzer/checks', p['id'].lower() + '.py')) and p['id'] not in NA:
                checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                               'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                               'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']})
            else:
                na.append({'property': p['id'], 'reason': NA.get(p['id'], 'not built yet')})
        for k, v in sorted(NA.items()):
            if isinstance(v, dict):
                q = v['prop']
                f.write(json.dumps({'id': k, 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
                                    'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': w} for a, w in q['mech']],
                                                'observe_at': ['return values and panics of the public functions'], 'hook_needed': None}}) + '\n')
                na.append({'property': k, 'reason': v['reason']})
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
               'notes': 'Static analysis only: see DESIGN.md. check.py dumps the type-checked program of /repo (rustc driver) and analyses it; the dump is cached by source hash under build/ (ignored by git).'},
              open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)


main()

"""AEAD decryption releases plaintext exactly when the whole tag matches."""
from checks.aead import *
EXPLANATION = BASE_EXPL + (' Roots: the three AEAD decryption entry points; the condition under which the Ok branch is produced is compared with the '
                           'conjunction over all 16 tag bytes, the released value with the CTR/ChaCha20 plaintext, the error value is checked constant.')
RULE = 'Ok iff all 128 tag bits equal the MAC over aad||ct||lengths; Ok value = keystream xor ciphertext; Err value constant'
FLOOR = 80


def tasks(prog, tier):
    g = GSHAPES if tier == 'quick' else GSHAPES + [(33, 64), (0, 48), (64, 0), (13, 47)]
    for la, lm in (SHAPES if tier == 'quick' else SHAPES + [(a, m) for a in range(0, 34, 3) for m in (2, 62, 66, 130)]):
        yield 'cp-%d-%d' % (la, lm), t_chacha, (False, la, lm)
    for b in (128, 256):
        for la, lm in g:
            yield 'gcm%d-%d-%d' % (b, la, lm), t_gcm, (b, False, la, lm)
    for la, lm in sorted(set(GRID + near(prog, 'spec::chacha::decrypt'))):
        yield 'cp-sum-%d-%d' % (la, lm), t_chacha_sum, (False, la, lm)
    for la, lm in BIG + (BIG_T if tier == 'thorough' else []):
        yield 'cp-big-%d-%d' % (la, lm), t_chacha_sum, (False, la, lm)
    for b in (128, 256):
        for la, lm in sorted(set(GRID + near(prog, 'spec::aes::gcm%d_decrypt' % b))):
            yield 'gcm%d-sum-%d-%d' % (b, la, lm), t_gcm_sum, (b, False, la, lm)
        for la, lm in GBIG + (BIG_T if tier == 'thorough' else []):
            yield 'gcm%d-big-%d-%d' % (b, la, lm), t_gcm_sum, (b, False, la, lm)

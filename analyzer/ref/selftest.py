"""The reference graphs evaluated on published vectors (python3 -m ref.selftest from analyzer/)."""
import hashlib
import hmac as H
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)
from ref.crypto import *


def hx(s):
    return list(bytes.fromhex(s.replace(' ', '')))


def main():
    for n in (0, 1, 3, 55, 56, 63, 64, 65, 119, 120, 127, 128, 129, 135, 136, 137, 143, 144, 200, 256, 300):
        m = [(7 * i + n) & 255 for i in range(n)]
        b = bytes(m)
        assert bytes(sha256(m)) == hashlib.sha256(b).digest()
        assert bytes(blake2b(m)) == hashlib.blake2b(b).digest()
        assert bytes(hmac(m, [1, 2, 3])) == H.new(b, bytes([1, 2, 3]), 'sha256').digest()
        for nm, r, l in (('sha3_224', 144, 28), ('sha3_256', 136, 32), ('sha3_384', 104, 48), ('sha3_512', 72, 64)):
            assert bytes(keccak(r, m, 6, l)) == getattr(hashlib, nm)(b).digest()
        assert bytes(keccak(168, m, 0x1f, 200)) == hashlib.shake_128(b).digest(200)
        assert bytes(keccak(136, m, 0x1f, 300)) == hashlib.shake_256(b).digest(300)
    # RFC 8439 2.3.2, 2.5.2, 2.8.2
    k = list(range(32))
    assert bytes(chacha_block(k, 1, hx('000000090000004a00000000')))[:8].hex() == '10f1e7e4d13b5915'
    assert bytes(poly1305(list(b'Cryptographic Forum Research Group'), hx(
        '85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b'))).hex() == 'a8061dc1305136c6c22b8baf0c0127a9'
    key = hx('808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f')
    nonce = hx('070000004041424344454647')
    aad = hx('50515253c0c1c2c3c4c5c6c7')
    pt = list(b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.")
    ct = chacha_xor(key, 1, nonce, pt)
    assert bytes(ct)[:8].hex() == 'd31a8d34648e60db'
    assert bytes(aead_tag(key, nonce, aad, ct)).hex() == '1ae10b594f09e26a7e902ecbd0600691'
    # FIPS 197 C.1, C.3
    pt = hx('00112233445566778899aabbccddeeff')
    assert bytes(aes_block(list(range(16)), pt)).hex() == '69c4e0d86a7b0430d8cdb78070b4c55a'
    assert bytes(aes_block(list(range(32)), pt)).hex() == '8ea2b7ca516745bfeafc49904b496089'
    # GCM spec test case 4
    key = hx('feffe9928665731c6d6a8f9467308308')
    iv = hx('cafebabefacedbaddecaf888')
    pt = hx('d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39')
    aad = hx('feedfacedeadbeeffeedfacedeadbeefabaddad2')
    ct = aes_ctr(key, iv, 2, pt)
    assert bytes(ct)[:4].hex() == '42831ec2'
    assert bytes(gcm_tag(key, iv, aad, ct)).hex() == '5bc94fbc3221a5db94fae95ae7121a47'
    # RFC 7748 5.2
    k = int.from_bytes(bytes(hx('a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4')), 'little')
    k = (k & ~7 & ((1 << 255) - 1)) | (1 << 254)
    u = int.from_bytes(bytes(hx('e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c')), 'little')
    r = x25519_int(k, u)
    assert r.to_bytes(32, 'little').hex() == 'c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552'
    # RFC 5869 A.1
    prk = hkdf_extract(hx('000102030405060708090a0b0c'), [0x0b] * 22)
    assert bytes(hkdf_expand(prk, hx('f0f1f2f3f4f5f6f7f8f9'), 42)).hex() == '3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865'
    print('reference graphs agree with the published vectors')


if __name__ == '__main__':
    main()

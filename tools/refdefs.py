"""Behaviour-preserving edits (sets of (file, old, new)); tools/reftest.py applies a set and expects every check to stay quiet."""
CP = 'spec-examples/src/chacha20_poly1305/'
AE = 'spec-examples/src/aes_gcm/'
CU = 'spec-examples/src/curve25519/curve25519.rs'
P2 = 'spec-examples/src/p256/p256.rs'
SHA2 = 'spec-examples/src/sha2/sha2.rs'
HM = 'spec-examples/src/hmac/hmac.rs'
HK = 'spec-examples/src/hkdf/hkdf.rs'
FI = 'spec-examples/src/fips202/fips202.rs'
BL = 'spec-examples/src/blake2/blake2b.rs'
SI = 'secret-integers/src/lib.rs'
MI = 'hacspec/src/machine_integers.rs'
TR = 'hacspec/src/traits.rs'
AR = 'hacspec/src/array.rs'
SQ = 'hacspec/src/seq.rs'
PO = 'hacspec/src/poly.rs'
R = {}
R['specs1'] = [
    # sha2: padding helper extracted, loop rewritten, one-expression schedule
    (SHA2, '''        if i < 16 {
            s[i] = b[i];
        } else {
            let t16 = s[i - 16];
            let t15 = s[i - 15];
            let t7 = s[i - 7];
            let t2 = s[i - 2];
            let s1 = sigma(t2, 3, 0);
            let s0 = sigma(t15, 2, 0);
            s[i] = s1 + t7 + s0 + t16;
        }
''', '''        s[i] = if i < 16 {
            b[i]
        } else {
            s[i - 16] + sigma(s[i - 15], 2, 0) + s[i - 7] + sigma(s[i - 2], 3, 0)
        };
'''),
    (SHA2, '''    for i in 0..8 {
        h[i] += h_in[i];
    }
    h
}
''', '''    let mut i = 0;
    while i < 8 {
        h[i] = h_in[i] + h[i];
        i += 1;
    }
    h
}

fn bit_length(msg: &ByteSeq) -> U64 {
    U64::classify((msg.len() as u64) * 8)
}

fn with_length(block: Block, msg: &ByteSeq) -> Block {
    block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(bit_length(msg)))
}
'''),
    (SHA2, '''            let len_bist: U64 = (msg.len() * 8).into();
            if block_len < BLOCK_SIZE - LEN_SIZE {
                last_block = last_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
                h = compress(last_block, h);
            } else {
                let mut pad_block = Block::new();
                pad_block = pad_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
                h = compress(last_block, h);
                h = compress(pad_block, h);
            }
''', '''            if block_len >= BLOCK_SIZE - LEN_SIZE {
                h = compress(last_block, h);
                h = compress(with_length(Block::new(), msg), h);
            } else {
                h = compress(with_length(last_block, msg), h);
            }
'''),
    # hmac: constant pads by repetition, one helper
    (HM, '''    // TODO: we need something like append in the lib. Or do we want to stick with pre-allocation?
    let mut h_in = ByteSeq::new(BLOCK_LEN + txt.len());
    h_in = h_in.update(0, &k_ipad);
    h_in = h_in.update(BLOCK_LEN, txt);
    let h_inner = sha2::hash(&h_in);

    let mut h_in = ByteSeq::new(BLOCK_LEN + h_inner.len());
    h_in = h_in.update(0, &k_opad);
    h_in = h_in.update(BLOCK_LEN, &h_inner);
    PRK::from_seq(&sha2::hash(&h_in))
}
''', '''    let h_inner = hash_two(&k_ipad, txt);
    PRK::from_seq(&hash_two(&k_opad, &ByteSeq::from_seq(&h_inner)))
}

fn hash_two(first: &Block, second: &ByteSeq) -> sha2::Digest {
    let h_in = ByteSeq::new(second.len() + BLOCK_LEN)
        .update(BLOCK_LEN, second)
        .update_start(first);
    sha2::hash(&h_in)
}
'''),
    # hkdf
    (HK, '''        let hmac_txt_in = if i == 0 {
            build_hmac_txt(&ByteSeq::new(0), info, U8(i + 1))
        } else {
            build_hmac_txt(&ByteSeq::from_seq(&t_i), info, U8(i + 1))
        };
        t_i = hmac(prk, &hmac_txt_in);
''', '''        let previous = if i > 0 {
            ByteSeq::from_seq(&t_i)
        } else {
            ByteSeq::new(0)
        };
        t_i = hmac(prk, &build_hmac_txt(&previous, info, U8::classify(1 + i)));
'''),
    (HK, '''    let mut salt_or_zero = ByteSeq::new(HASH_LEN);
    if salt.len() > 0 {
        salt_or_zero = ByteSeq::from_seq(salt)
    };
    PRK::from_seq(&hmac(&salt_or_zero, ikm))
''', '''    if salt.len() == 0 {
        return PRK::from_seq(&hmac(&ByteSeq::new(HASH_LEN), ikm));
    }
    PRK::from_seq(&hmac(salt, ikm))
'''),
    # chacha20
    (CP + 'chacha20.rs', '''        let bytes = U32_to_be_bytes(x[i]);
        r[i * 4] = bytes[3];
        r[i * 4 + 1] = bytes[2];
        r[i * 4 + 2] = bytes[1];
        r[i * 4 + 3] = bytes[0];
''', '''        r = r.update(4 * i, &U32_to_le_bytes(x[i]));
'''),
    (CP + 'chacha20.rs', '''    state[a] = state[a] + state[b];
    state[d] = state[d] ^ state[a];
    state[d] = state[d].rotate_left(s);
    state
''', '''    let sum = state[b] + state[a];
    state[a] = sum;
    state[d] = (sum ^ state[d]).rotate_left(s);
    state
'''),
    (CP + 'chacha20.rs', '''    for i in 0..m.num_chunks(64) {
        let (block_len, msg_block) = m.get_chunk(64, i);
        let key_block = block(key, ctr, iv);
        let msg_block_padded = StateBytes::new();
        let msg_block_padded = msg_block_padded.update_start(&msg_block);
        blocks_out = blocks_out.set_chunk(64, i, &(msg_block_padded ^ key_block).subr(0..block_len));
        ctr += U32(1);
    }
''', '''    let n = m.num_chunks(64);
    let mut i = 0;
    while i < n {
        let (block_len, msg_block) = m.get_chunk(64, i);
        let enciphered = xor_keystream(key, ctr, iv, &msg_block);
        ctr = U32(1) + ctr;
        blocks_out = blocks_out.set_chunk(64, i, &enciphered.subr(0..block_len));
        i += 1;
    }
'''),
    (CP + 'chacha20.rs', 'pub fn chacha(', '''fn xor_keystream(key: Key, ctr: U32, iv: IV, chunk: &ByteSeq) -> StateBytes {
    let padded = StateBytes::new().update_start(chunk);
    block(key, ctr, iv) ^ padded
}

pub fn chacha('''),
    # chacha20poly1305
    (CP + 'chacha20poly1305.rs', '''    let pad_aad = if laad % 16 == 0 {
        laad
    } else {
        16 * ((laad >> 4) + 1)
    };
    let pad_msg = if lmsg % 16 == 0 {
        lmsg
    } else {
        16 * ((lmsg >> 4) + 1)
    };
''', '''    let pad_msg = pad16(lmsg);
    let pad_aad = pad16(laad);
'''),
    (CP + 'chacha20poly1305.rs', 'fn pad_aad_msg(', '''fn pad16(n: usize) -> usize {
    (n + 15) / 16 * 16
}

fn one_time_key(key: Key, iv: IV) -> Key {
    Key::from_sub(&block(key, U32(0), iv), 0, 32)
}

fn pad_aad_msg('''),
    (CP + 'chacha20poly1305.rs', '''    let key_block = block(key, U32(0), iv);
    let mac_key = Key::from_sub_range(&key_block, 0..32);
    let padded_msg = pad_aad_msg(aad, cipher_text);
    let my_tag = poly(&padded_msg, mac_key);
    if my_tag == tag {
        match chacha(key, iv, cipher_text) {
            Ok(c) => Ok(c),
            Err(r) => {
                println!("Error decrypting chacha20: {}", r);
                Err(r)
            }
        }
    } else {
        Err("Mac verification failed".to_string())
    }
''', '''    let padded_msg = pad_aad_msg(aad, cipher_text);
    let my_tag = poly(&padded_msg, one_time_key(key, iv));
    if my_tag != tag {
        return Err(String::from("Mac verification failed"));
    }
    chacha(key, iv, cipher_text)
'''),
    # poly1305
    (CP + 'poly1305.rs', '''        let block_len = min(BLOCKSIZE, m_len - i);
        let mut b = Seq::new(block_len);
        b = b.update_sub(0, m, i, block_len);
        acc = (acc + encode(&b)) * r;
    }
    acc
''', '''        let end = if i + BLOCKSIZE > m_len { m_len } else { i + BLOCKSIZE };
        acc = r * (encode(&m.subr(i..end)) + acc);
    }
    acc
'''),
    (CP + 'poly1305.rs', '''    let n_v = n.to_le_bytes();
    let mut tag = Tag::new();
    for i in 0..min(tag.len(), n_v.len()) {
        tag[i] = n_v[i];
    }
    tag
''', '''    let mut tag = Tag::new();
    for (i, b) in n.to_le_bytes().iter().enumerate().take(BLOCKSIZE) {
        tag[i] = *b;
    }
    tag
'''),
    (CP + 'poly1305.rs', '''    let mut r_128 = U128Word::new();
    r_128 = r_128.update_sub(0, &r, 0, BLOCKSIZE);
    let r_uint = U128_from_le_bytes(r_128);
    let r_uint = r_uint & U128(0x0fff_fffc_0fff_fffc_0fff_fffc_0fff_ffff);
    FieldElement::from_secret_literal(r_uint)
''', '''    let clamp = U128(0x0fff_fffc_0fff_fffc_0fff_fffc_0fff_ffff);
    FieldElement::from_secret_literal(clamp & U128_from_le_bytes(U128Word::from_seq(&r)))
'''),
    # aes
    (AE + 'aes.rs', '''    let x1 = x << 1;
    let x7 = x >> 7;
    let x71 = x7 & U8(0x01);
    let x711b = x71 * U8(0x1b);
    x1 ^ x711b
''', '''    let carry = (x >> 7) * U8(0x1b);
    (x << 1) ^ carry
'''),
    (AE + 'aes.rs', '''    let state = mix_column(0, state);
    let state = mix_column(1, state);
    let state = mix_column(2, state);
    mix_column(3, state)
''', '''    (0..4).fold(state, |st, c| mix_column(c, st))
'''),
    (AE + 'aes.rs', '''        if msg_block.len() == BLOCKSIZE {
            blocks_out = blocks_out.set_chunk(
                BLOCKSIZE,
                i,
                &xor_block(Block::from_seq(&msg_block), key_block),
            );
            ctr += U32(1);
        } else {
            // Last block that needs padding
            let last_block = Block::new().update_start(&msg_block);
            blocks_out = blocks_out.set_chunk(
                BLOCKSIZE,
                i,
                &xor_block(last_block, key_block).subr(0..block_len),
            );
        }
''', '''        let padded = Block::new().update_start(&msg_block);
        let out = xor_block(padded, key_block);
        blocks_out = blocks_out.set_chunk(BLOCKSIZE, i, &out.subr(0..block_len));
        ctr += U32(1);
'''),
    (AE + 'aes.rs', '''        i = j + word_size;
        let word = key_expansion_word(
            Word::from_sub(&key_ex, 4 * (i -  word_size), 4),
''', '''        i = word_size + j;
        let word = key_expansion_word(
            Word::from_sub(&key_ex, 4 * j, 4),
'''),
    # gcm
    (AE + 'aesgcm.rs', '''    let iv0 = aes::Nonce::new();

    let mac_key = aes_ctr_keyblock(key, iv0, U32(0), aes::nk(alg), aes::nr(alg), alg);
    let tag_mix = aes_ctr_keyblock(key, iv, U32(1), aes::nk(alg), aes::nr(alg), alg);

    let padded_msg = pad_aad_msg(aad, cipher_text);
    let my_tag = gmac(&padded_msg, Key::from_seq(&mac_key));
    let my_tag = aes::xor_block(Block::from_seq(&my_tag), tag_mix);
''', '''    let my_tag = compute_tag(key, iv, aad, cipher_text, alg);
'''),
    (AE + 'aesgcm.rs', '''    let iv0 = aes::Nonce::new();

    let mac_key = aes_ctr_keyblock(key, iv0, U32(0), aes::nk(alg), aes::nr(alg), alg);
    let tag_mix = aes_ctr_keyblock(key, iv, U32(1), aes::nk(alg), aes::nr(alg), alg);

    let cipher_text = aes_encrypt(key, iv, U32(2), msg, alg);
    let padded_msg = pad_aad_msg(aad, &cipher_text);
    let tag = gmac(&padded_msg, Key::from_seq(&mac_key));
    let tag = aes::xor_block(Block::from_seq(&tag), tag_mix);
''', '''    let cipher_text = aes_encrypt(key, iv, U32(2), msg, alg);
    let tag = compute_tag(key, iv, aad, &cipher_text, alg);
'''),
    (AE + 'aesgcm.rs', 'pub(crate) fn encrypt_aes(', '''fn compute_tag(
    key: &ByteSeq,
    iv: aes::Nonce,
    aad: &ByteSeq,
    cipher_text: &ByteSeq,
    alg: aes::AesVariant,
) -> Block {
    let (nk, nr) = (aes::nk(alg), aes::nr(alg));
    let tag_mix = aes_ctr_keyblock(key, iv, U32(1), nk, nr, alg);
    let mac_key = aes_ctr_keyblock(key, aes::Nonce::new(), U32(0), nk, nr, alg);
    let mac = gmac(&pad_aad_msg(aad, cipher_text), Key::from_seq(&mac_key));
    aes::xor_block(tag_mix, Block::from_seq(&mac))
}

pub(crate) fn encrypt_aes('''),
    # gf128
    (AE + 'gf128.rs', '''    for i in 0..128 {
        if (y & (U128(1) << (127 - i))).declassify() != U128(0).declassify() {
            res ^= sh;
        }
        if (sh & U128(1)).declassify() != U128(0).declassify() {
            sh = (sh >> 1) ^ IRRED;
        } else {
            sh >>= 1;
        }
    }
''', '''    for i in (0..128).rev() {
        if ((y >> i) & U128(1)).declassify() == 1 {
            res = sh ^ res;
        }
        let odd = (sh & U128(1)).declassify() == 1;
        sh = sh >> 1;
        if odd {
            sh ^= IRRED;
        }
    }
'''),
    (AE + 'gf128.rs', '''    let l = msg.len();
    let n_blocks: usize = l / BLOCKSIZE;
    let rem = l % BLOCKSIZE;
    let mut acc = U128(0);
    for i in 0..n_blocks {
        let k = i * BLOCKSIZE;
        let mut block = Block::new();
        block = block.update_start(&msg.subr(k..k + BLOCKSIZE));
        acc = update(r, block, acc);
    }
    if rem != 0 {
        let k = n_blocks * BLOCKSIZE;
        let mut last_block = Block::new();
        last_block = last_block.update_sub(0, msg, k, rem);
        acc = update(r, last_block, acc);
    }
    acc
''', '''    let mut acc = U128(0);
    for i in 0..msg.num_chunks(BLOCKSIZE) {
        let (_, chunk) = msg.get_chunk(BLOCKSIZE, i);
        acc = update(r, Block::new().update_start(&chunk), acc);
    }
    acc
'''),
    # fips202
    (FI, '''    for i in 0..5 {
        let u: U64 = b[(i + 1) % 5];
        let t = b[(i + 4) % 5] ^ u.rotate_left(1);
        for j in 0..5 {
            s[5 * j + i] ^= t;
        }
    }
    s
''', '''    for j in 0..5 {
        for i in 0..5 {
            let next: U64 = b[(i + 1) % 5];
            s[i + 5 * j] ^= next.rotate_left(1) ^ b[(i + 4) % 5];
        }
    }
    s
'''),
    (FI, '''        s = theta(s);
        s = rho(s);
        s = pi(s);
        s = chi(s);
        s = iota(s, ROUNDCONSTANTS[i]);
    }
    s
''', '''        s = iota(chi(pi(rho(theta(s)))), ROUNDCONSTANTS[i]);
    }
    s
'''),
    (FI, '''        let pos = i % rate;
        let w = pos >> 3;
        let o = 8 * ((pos & 7) as u32);
        let b = (s[w] >> o) & U64::classify(0xffu64);
        out[i] = b.into();
        if ((i + 1) % rate) == 0 {
            s = keccakf1600(s);
        }
''', '''        if i > 0 && i % rate == 0 {
            s = keccakf1600(s);
        }
        let pos = i % rate;
        out[i] = U64_to_le_bytes(s[pos / 8])[pos % 8];
'''),
    # blake2
    (BL, '''    let mut compressed = State::new();
    for i in 0..8 {
        compressed[i] = h[i] ^ v[i] ^ v[i + 8];
    }
    compressed
''', '''    let mut compressed = h;
    for i in 0..8 {
        compressed[i] = compressed[i] ^ (v[i + 8] ^ v[i]);
    }
    compressed
'''),
    (BL, '''    result[a] = result[a] + result[b] + x;
    result[d] = (result[d] ^ result[a]).rotate_right(32);

    result[c] = result[c] + result[d];
    result[b] = (result[b] ^ result[c]).rotate_right(24);

    result[a] = result[a] + result[b] + y;
    result[d] = (result[d] ^ result[a]).rotate_right(16);

    result[c] = result[c] + result[d];
    result[b] = (result[b] ^ result[c]).rotate_right(63);
''', '''    result = half_mix(result, a, b, c, d, x, 32, 24);
    result = half_mix(result, a, b, c, d, y, 16, 63);
'''),
    (BL, '''fn inc_counter<''', '''fn half_mix<Word: SecretInteger>(
    v: DoubleState<Word>,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    x: Word,
    r1: u32,
    r2: u32,
) -> DoubleState<Word> {
    let mut v = v;
    v[a] = v[a] + x + v[b];
    v[d] = (v[a] ^ v[d]).rotate_right(r1);
    v[c] = v[d] + v[c];
    v[b] = (v[c] ^ v[b]).rotate_right(r2);
    v
}

fn inc_counter<'''),
    # curve25519
    (CU, '''        if k.bit(255 - i) {
            acc = swap(acc);
            acc = point_add_and_double(init, acc);
            acc = swap(acc);
        } else {
            acc = point_add_and_double(init, acc);
        }
''', '''        let bit = k.bit(255 - i);
        if bit {
            acc = swap(acc);
        }
        acc = point_add_and_double(init, acc);
        if bit {
            acc = swap(acc);
        }
'''),
    (CU, '''    let b = x_2 - z_2;
    let bb = b * b;
    let e = aa - bb;
    let c = x_3 + z_3;
    let d = x_3 - z_3;
    let da = d * a;
    let cb = c * b;
''', '''    let b = x_2 - z_2;
    let d = x_3 - z_3;
    let c = z_3 + x_3;
    let bb = b.pow(2);
    let cb = b * c;
    let da = a * d;
    let e = aa - bb;
'''),
    # p256
    (P2, '''    let beta = x1 * gamma;

    let alpha_1 = x1 - delta;
    let alpha_2 = x1 + delta;
    let alpha = FieldElement::from_literal(3) * (alpha_1 * alpha_2);
''', '''    let alpha = FieldElement::from_literal(3) * ((x1 + delta) * (x1 - delta));
    let beta = gamma * x1;
'''),
    (P2, '''        if k.bit(255 - i) {
            p_working = (p_working.1, p_working.0);
        }
        let xx = point_double(p_working.0);
        let xp1 = point_add(p_working.0, p_working.1);
        if k.bit(255 - i) {
            p_working = (xp1, xx);
        } else {
            p_working = (xx, xp1);
        }
''', '''        let (r0, r1) = p_working;
        p_working = if k.bit(255 - i) {
            (point_add(r1, r0), point_double(r1))
        } else {
            (point_double(r0), point_add(r0, r1))
        };
'''),
]
AI = 'abstract-integers/src/abstract_int.rs'
NM = 'abstract-integers/src/nat_mod.rs'
R['lib1'] = [
    # secret integers: std wrapping methods, byte conversions by std, comparison formulas
    (SI, '''                let $name(i1) = self;
                let $name(i2) = rhs;
                $name((Wrapping(i1) $op Wrapping(i2)).0)
''', '''                let Wrapping(result) = Wrapping(self.declassify()) $op Wrapping(rhs.0);
                Self::classify(result)
'''),
    (SI, '''                match i1.$checked_func_op(i2) {
                    None => panic!("Secret integer {} overflow!", stringify!($func_op)),
                    Some(r) => $name(r)
                }
''', '''                if let Some(r) = i1.$checked_func_op(i2) {
                    return $name(r);
                }
                panic!("Secret integer {} overflow!", stringify!($func_op))
'''),
    (SI, '''                bytes.chunks($bits/8).map(|chunk| {
                    let mut chunk_raw : [u8; $bits/8] = [0u8; $bits/8];
                    for i in 0..$bits/8 {
                        chunk_raw[i] = U8::declassify(chunk[i]);
                    }
                    $name::classify(unsafe {
                        std::mem::transmute::<[u8;$bits/8], $repr>(
                            chunk_raw
                        ).to_le()
                    })
                }).collect::<Vec<$name>>()
''', '''                let size = $bits / 8;
                let mut out = Vec::with_capacity(bytes.len() / size);
                for chunk in bytes.chunks_exact(size) {
                    let mut raw = [0u8; $bits / 8];
                    for (dst, src) in raw.iter_mut().zip(chunk.iter()) {
                        *dst = src.declassify();
                    }
                    out.push($name(<$repr>::from_le_bytes(raw)));
                }
                out
'''),
    (SI, '''                ints.iter().map(|int| {
                    let int = $name::declassify(*int);
                    let bytes : [u8;$bits/8] = unsafe {
                         std::mem::transmute::<$repr, [u8;$bits/8]>(int.to_be())
                    };
                    let secret_bytes : Vec<U8> = bytes.iter().map(|x| U8::classify(*x)).collect();
                    secret_bytes
                }).flatten().collect()
''', '''                ints.iter().flat_map(|int| int.declassify().to_be_bytes().iter().map(|x| U8(*x)).collect::<Vec<U8>>()).collect()
'''),
    (SI, '''                $name((Wrapping(!i1) + Wrapping(1)).0)
''', '''                $name(i1.wrapping_neg())
'''),
    (SI, '''                let a = self;
                let b = rhs;
                let x = a ^ b;
                let minus_x = -x;
                let x_or_minus_x = x | minus_x;
                let xnx = x_or_minus_x >> ($bits - 1);
                let c = xnx - Self::one();
                c
''', '''                let difference = rhs ^ self;
                let sign = ((-difference) | difference) >> ($bits - 1);
                sign - Self::one()
'''),
    (SI, '''                self.comp_gte(rhs) ^ self.comp_eq(rhs)
''', '''                !rhs.comp_gte(self)
''', 0),
    (SI, '''                !self.comp_gt(rhs)
''', '''                rhs.comp_gte(self)
''', 0),
    # bounded integers
    (AI, '''                let max_value = Self::max();
                assert!(x <= max_value, "{} is too large for type {}!", x, stringify!($name));
                assert!(!$signed || x >= -max_value, "{} is too small for type {}!", x, stringify!($name));
                let (sign, repr) = x.to_bytes_be();
                if sign == Sign::Minus && (!$signed) {
                    panic!("Trying to convert a negative number into an unsigned integer!")
                }
                if repr.len() > ($bits + 7) / 8 {
                    panic!("{} is too large for type {}", x, stringify!($name))
                }
                let mut out = [0u8; ($bits + 7) / 8];
                let upper = out.len();
                let lower = upper - repr.len();
                out[lower..upper].copy_from_slice(&repr);
                $name {
                    b: out,
                    sign: sign,
                    signed: $signed,
                }
''', '''                if x.sign() == Sign::Minus && !$signed {
                    panic!("Trying to convert a negative number into an unsigned integer!")
                }
                Self::check_range(&x);
                let (sign, repr) = x.to_bytes_be();
                let mut b = [0u8; ($bits + 7) / 8];
                let lower = b.len() - repr.len();
                b[lower..].copy_from_slice(&repr);
                $name { sign, b, signed: $signed }
'''),
    (AI, '''            fn max() -> BigInt {
                BigInt::from(1u32).shl($bits) - BigInt::one()
            }
''', '''            fn max() -> BigInt {
                let power: BigInt = BigInt::one() << $bits;
                power - 1
            }

            fn check_range(x: &BigInt) {
                let max_value = Self::max();
                if *x > max_value {
                    panic!("{} is too large for type {}!", x, stringify!($name));
                }
                if $signed && *x < -max_value {
                    panic!("{} is too small for type {}!", x, stringify!($name));
                }
            }
'''),
    (AI, '''                let bigint : BigInt = self.into();
                let tmp: BigInt = bigint >> i;
                (tmp & BigInt::one()).to_bytes_le().1[0] == 1
''', '''                let value: BigInt = self.into();
                let low: BigInt = (value >> i) & BigInt::from(1u8);
                low == BigInt::one()
'''),
    (AI, '''                if c > $name::max() {
                    panic!("bounded addition overflow for type {}", stringify!($name));
                }
                c.into()
            }
        }

        /// **Warning**: panics on underflow.
        impl Sub for $name {
            type Output = $name;
            fn sub(self, rhs: $name) -> $name {
                let a: BigInt = self.into();
                let b: BigInt = rhs.into();
                let c = if self.signed {
                    a - b
                } else {
                    a.checked_sub(&b).unwrap_or_else(|| {
                        panic!(
                            "bounded substraction underflow for type {}",
                            stringify!($name)
                        )
                    })
                };
                c.into()
            }
        }
''', '''                assert!(c <= $name::max(), "bounded addition overflow for type {}", stringify!($name));
                c.into()
            }
        }

        /// **Warning**: panics on underflow.
        impl Sub for $name {
            type Output = $name;
            fn sub(self, rhs: $name) -> $name {
                let b: BigInt = rhs.into();
                let a: BigInt = self.into();
                let c = a - b;
                if !self.signed && c < BigInt::zero() {
                    panic!("bounded substraction underflow for type {}", stringify!($name));
                }
                $name::from(c)
            }
        }
'''),
    (AI, '''                BigInt::from_bytes_be(sign, &Self::hex_string_to_bytes(s)).into()
''', '''                let bytes = Self::hex_string_to_bytes(s);
                let value = BigInt::from_bytes_be(sign, &bytes);
                value.into()
'''),
    (AI, '''                let a: BigInt = (*self).into();
                let b: BigInt = (*other).into();
                a.partial_cmp(&b)
            }
        }

        impl Ord for $name {
            fn cmp(&self, other: &$name) -> std::cmp::Ordering {
                self.partial_cmp(other).unwrap()
            }
        }
''', '''                Some(self.cmp(other))
            }
        }

        impl Ord for $name {
            fn cmp(&self, other: &$name) -> std::cmp::Ordering {
                let b: BigInt = (*other).into();
                let a: BigInt = (*self).into();
                a.cmp(&b)
            }
        }
'''),
    # modular integers
    (NM, '''                let max: BigUint = $max.into();
                let c: BigUint = if b > a { max.clone() - b + a } else { a - b };
                let d: BigUint = c % max;
                let d: $base = d.into();
                d.into()
''', '''                let max: BigUint = $max.into();
                let d: BigUint = (a + (&max - b)) % max;
                let d: $base = d.into();
                d.into()
''', 1),
    (NM, '''                let c: BigUint = a * b;
                let max: BigUint = $max.into();
                let d: BigUint = c % max;
                let d: $base = d.into();
                d.into()
''', '''                let max: BigUint = $max.into();
                let d: $base = (b * a % &max).into();
                $name::from(d)
''', 1),
    (NM, '''            pub fn pow(self, exp: u128) -> Self {
                let base: $base = self.into();
                base.pow(exp, Self::max()).into()
            }
''', '''            pub fn pow(self, exp: u128) -> Self {
                let modulus = Self::max();
                let base: $base = self.into();
                let result = base.pow(exp, modulus);
                $name::from(result)
            }
'''),
    # sequences
    (SQ, '''                let idx_start = chunk_size * chunk_number;
                let len = if idx_start + chunk_size > self.len() {
                    self.len() - idx_start
                } else {
                    chunk_size
                };
                let out = self.sub(idx_start, len);
                (len, out)
''', '''                let idx_start = chunk_number * chunk_size;
                let len = std::cmp::min(chunk_size, self.len() - idx_start);
                (len, Self::from_sub(self, idx_start, len))
'''),
    (SQ, '''                let mut tmp = $name::new(x.len());
                for i in 0..x.len() {
                    tmp[i] = x[i];
                }
                tmp
''', '''                $name {
                    b: x.iter().cloned().collect(),
                }
'''),
    (SQ, '''        self.b[..]
            .iter()
            .map(|x| <U8>::declassify(*x))
            .collect::<Vec<_>>()
            == other.b[..]
                .iter()
                .map(|x| <U8>::declassify(*x))
                .collect::<Vec<_>>()
''', '''        if self.b.len() != other.b.len() {
            return false;
        }
        self.b.iter().zip(other.b.iter()).all(|(x, y)| x.declassify() == y.declassify())
'''),
    (SQ, '''        (0..l)
            .map(|_| rand::random::<u8>())
            .map(|x| U8::classify(x))
            .collect()
''', '''        let mut v = Vec::with_capacity(l);
        for _ in 0..l {
            v.push(U8::classify(rand::random::<u8>()));
        }
        v
'''),
    ('hacspec/src/util.rs', '''    let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
        .step_by(2)
        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
        .collect();
    b.expect("Error parsing hex string")
''', '''    let mut bytes = Vec::with_capacity(s.len() / 2);
    let mut i = 0;
    while i < s.len() {
        let byte: Result<u8, ParseIntError> = u8::from_str_radix(&s[i..i + 2], 16);
        bytes.push(byte.expect("Error parsing hex string"));
        i += 2;
    }
    bytes
'''),
]
MU = 'hacspec/src/math_util.rs'
VI = 'hacspec/src/vec_integers.rs'
TM = 'hacspec/src/transmute.rs'
R['lib2'] = [
    # arrays (non-generic variant)
    (AR, '''                debug_assert!(v.len() <= $l);
                let mut tmp = [<$t>::default(); $l];
                for i in 0..v.len() {
                    tmp[i] = v[i];
                }
                Self(tmp.clone())
''', '''                debug_assert!($l >= v.len());
                let mut out = Self::new();
                out.0[..v.len()].copy_from_slice(v);
                out
'''),
    (AR, '''                let mut tmp = [<$t>::default(); $l];
                for (i, e) in x.iter().enumerate() {
                    tmp[i] = *e;
                }
                $name(tmp.clone())
''', '''                let mut result = $name::new();
                for i in 0..x.len() {
                    result.0[i] = x[i];
                }
                result
'''),
    (AR, '''                debug_assert_eq!(x.len(), $l);
                let mut out = $name::new();
                for i in 0..x.len() {
                    out[i] = x[i];
                }
                out
''', '''                debug_assert_eq!($l, x.len());
                $name::new().update_sub(0, x, 0, x.len())
''', 0),
    (AR, '''                tmp.copy_from_slice(&$name::get_random_vec($l)[..$l]);
                Self(tmp.clone())
''', '''                for (slot, value) in tmp.iter_mut().zip($name::get_random_vec($l)) {
                    *slot = value;
                }
                Self(tmp)
'''),
    (AR, '''                let v = $name::hex_string_to_vec(s);
                let mut o = $name::new();
                debug_assert!(v.len() == $l);
                for i in 0..$l {
                    o[i] = v[i]
                }
                o
''', '''                $name::from_vec($name::hex_string_to_vec(s))
'''),
    (AR, '''                self.0[..]
                    .iter()
                    .map(|x| <$t>::declassify(*x))
                    .collect::<Vec<_>>()
                    == other.0[..]
                        .iter()
                        .map(|x| <$t>::declassify(*x))
                        .collect::<Vec<_>>()
''', '''                let mut equal = true;
                for (x, y) in self.0.iter().zip(other.0.iter()) {
                    equal &= x.declassify() == y.declassify();
                }
                equal
'''),
    (AR, '''               for i in 0..$l {
                   let tmp : $t = self[i];
                   let tmp = <$t>::to_be_bytes(&[tmp]);
                   for j in 0..FACTOR {
                       out[i * FACTOR + j] = tmp[j];
                   }
               }
               out
''', '''               for (i, b) in <$t>::to_be_bytes(&self.0).into_iter().enumerate() {
                   out[i] = b;
               }
               debug_assert!(out.len() == FACTOR * $l);
               out
'''),
    (AR, '''                for (i, block) in self.0.chunks(4).enumerate() {
                    debug_assert!(block.len() == 4);
                    out[i] = U32_from_be_bytes(U32Word::from_slice(block));
                }
                out
''', '''                for i in 0..(self.0.len() + 3) / 4 {
                    let block = self.subr(4 * i..4 * (i + 1));
                    out[i] = U32_from_be_bytes(U32Word::from_seq(&block));
                }
                out
'''),
    (AR, '''                (0..l).map(|_| rand::random::<$t>()).collect()
''', '''                let mut v = vec![];
                while v.len() < l {
                    v.push(rand::random());
                }
                v
'''),
    # public machine integers
    (MI, '''                let mut tmp = self;
                while tmp < rhs {
                    tmp += n;
                }
                (tmp - rhs) % n
''', '''                let mut minuend = self;
                loop {
                    if minuend >= rhs {
                        return (minuend - rhs) % n;
                    }
                    minuend = minuend + n;
                }
'''),
    (MI, '''                if self > other {
                    !<$t>::default()
                } else {
                    <$t>::default()
                }
''', '''                match self.cmp(&other) {
                    Ordering::Greater => !<$t>::default(),
                    _ => <$t>::default(),
                }
'''),
    (MI, '''                if self != other {
                    !<$t>::default()
                } else {
                    <$t>::default()
                }
''', '''                !self.equal_bm(other)
'''),
    (MI, '''                if exp == 0 {
                    return <$t>::from(1 as $base);
                } else {
                    for _ in 1..exp {
                        s = s * self
                    }
                }
                Self::from(s)
''', '''                if exp == 0 {
                    return Self::ONE;
                }
                let mut i = 1;
                while i < exp {
                    s *= self;
                    i += 1;
                }
                s
'''),
    # traits
    (TR, '''        for i in 0..len {
            self[start_out + i] = v[start_in + i];
        }
        self
''', '''        for (i, x) in v.iter().skip(start_in).take(len).enumerate() {
            self[start_out + i] = *x;
        }
        self
'''),
    (TR, '''        let tmp1 = Self::from_literal(!(1 << i));
        let tmp2 = b << i;
        (self & tmp1) | tmp2
''', '''        let cleared = self & Self::from_literal(!(1 << i));
        (b << i) | cleared
'''),
    # conditional operations
    (MU, '''    let sum = x.wrap_add(y);
    let (x, _) = cswap(x, sum, c);
    x
''', '''    select(x, x.wrap_add(y), c)
'''),
    (MU, '''    let diff = x.wrap_sub(y);
    let (x, _) = cswap(x, diff, c);
    x
''', '''    select(x, x.wrap_sub(y), c)
'''),
    (MU, '''/// Conditional, constant-time swapping.
/// Returns `(x, y)` if `c == 0` and `(y, x)` if `c == 1`.
''', '''fn select<T: Integer>(x: T, y: T, c: T) -> T {
    (y & c) | (x & !c)
}

/// Conditional, constant-time swapping.
/// Returns `(x, y)` if `c == 0` and `(y, x)` if `c == 1`.
'''),
    (MU, '''    let mut ret = x % n;
    while ret < 0 {
        ret += n;
    }
    ret
''', '''    let ret = x % n;
    if ret >= 0 {
        return ret;
    }
    assert!(n > 0);
    ret + n
'''),
    (MU, '''        r = r << 1;
        r = r.set(0, a, i);
''', '''        r = (r << 1).set_bit(a.get_bit(i), 0);
'''),
    # polynomials
    (PO, '''    let zero = T::default();
    let mut degree: usize = 0;
    let mut coefficient = T::default();
    for (i, &c) in x.iter().enumerate() {
        if !c.equal(zero) {
            degree = i;
            coefficient = c;
        }
    }
    (degree, coefficient)
''', '''    let mut i = x.len();
    while i > 0 {
        i -= 1;
        if !x[i].equal(T::default()) {
            return (i, x[i]);
        }
    }
    (0, T::default())
'''),
    (PO, '''    for (a, (&b, &c)) in out.iter_mut().zip(x.iter().zip(y.iter())) {
        if n.equal(T::default()) {
            *a = b + c;
        } else {
            *a = b.add_mod(c, n);
        }
    }
    out
''', '''    let over_integers = n.equal(T::default());
    for i in 0..x.len() {
        out[i] = if over_integers { x[i] + y[i] } else { x[i].add_mod(y[i], n) };
    }
    out
'''),
    (PO, '''    for adx in x
        .iter()
        .enumerate()
        .map(|(i, x)| (i, x))
        .filter(|(_, &x)| !x.equal(T::default()))
    {
        for bdx in y
            .iter()
            .enumerate()
            .map(|(i, x)| (i, x))
            .filter(|(_, &x)| !x.equal(T::default()))
        {
            let i = adx.0 + bdx.0;
            out[i] = if n.equal(T::default()) {
                out[i] + *adx.1 * *bdx.1
            } else {
                out[i].add_mod(adx.1.mul_mod(*bdx.1, n), n)
            };
        }
    }
    out
''', '''    for (i, &a) in x.iter().enumerate() {
        if a.equal(T::default()) {
            continue;
        }
        for (j, &b) in y.iter().enumerate() {
            if b.equal(T::default()) {
                continue;
            }
            out[i + j] = if n.equal(T::default()) {
                out[i + j] + a * b
            } else {
                out[i + j].add_mod(a.mul_mod(b, n), n)
            };
        }
    }
    out
'''),
    (PO, '''    let mut out = vec![T::default(); v.len() - 1];
    for (a, &b) in out.iter_mut().zip(v.iter().skip(1)) {
        *a = b;
    }
    out
''', '''    v[1..].to_vec()
'''),
    (PO, '''                for (a, b) in self.irr.iter().zip(other.irr.iter()) {
                    if a != b {
                        return false;
                    }
                }
                return true;
''', '''                self.irr.iter().zip(other.irr.iter()).all(|(a, b)| a == b)
'''),
    (PO, '''                for (a, b) in self.poly.iter().zip(other.poly.iter()) {
                    if a != b {
                        return false;
                    }
                }
                return true;
''', '''                self.poly[..] == other.poly[..]
'''),
    (VI, '''                let mut out = Self::new();
                for i in 0..self.len() {
                    out[i] = self[i].wrapping_add(rhs[i])
                }
                out
''', '''                let mut out = self;
                for (o, r) in out.0.iter_mut().zip(rhs.0.iter()) {
                    *o = o.wrapping_add(*r);
                }
                out
'''),
    (VI, '''                for i in 0..self.len() {
                    out[i] = self[i] ^ rhs[i]
                }
                out
''', '''                for i in (0..rhs.len()).rev() {
                    out[i] = rhs[i] ^ self[i];
                }
                out
''', 0),
    (TM, '''    U32::from_be_bytes(&s.0)[0]
''', '''    let words = U32::from_be_bytes(&[s[0], s[1], s[2], s[3]]);
    words[0]
'''),
    (TM, '''    u32Word::from_array(u32::to_be_bytes(x))
''', '''    u32Word::from_vec(x.to_be_bytes().to_vec())
'''),
]

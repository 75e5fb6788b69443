"""Independent DES-CBC and AES-128-CFB, and RFC 3414 keys.

Pure Python, from FIPS 46-3 and FIPS 197; `selftest()` checks the published
vectors (it is run by every check that uses this module).
"""

import functools
import hashlib
import hmac

# ------------------------------------------------------------------- DES
_PC1 = [57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,
        63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4]
_PC2 = [14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,
        41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32]
_SHIFTS = [1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1]
_IP = [58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,
       57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7]
_FP = [40,8,48,16,56,24,64,32,39,7,47,15,55,23,63,31,38,6,46,14,54,22,62,30,37,5,45,13,53,21,61,29,
       36,4,44,12,52,20,60,28,35,3,43,11,51,19,59,27,34,2,42,10,50,18,58,26,33,1,41,9,49,17,57,25]
_E = [32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,
      24,25,26,27,28,29,28,29,30,31,32,1]
_P = [16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25]
_S = [
 [14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13],
 [15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9],
 [10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12],
 [7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14],
 [2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3],
 [12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13],
 [4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12],
 [13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11],
]


def _perm(x, table, width):
    r = 0
    for p in table:
        r = (r << 1) | ((x >> (width - p)) & 1)
    return r


def _byte_tables(table, width):
    """Per-input-byte lookup tables for a bit permutation."""
    n = width // 8
    return [[_perm(b << (8 * (n - 1 - i)), table, width) for b in range(256)] for i in range(n)]


_IPT = _byte_tables(_IP, 64)
_FPT = _byte_tables(_FP, 64)
_ET = _byte_tables(_E, 32)


def _mk_sp():
    out = []
    for i, box in enumerate(_S):
        row = []
        for v in range(64):
            r = ((v >> 4) & 2) | (v & 1)
            c = (v >> 1) & 15
            row.append(_perm(box[r * 16 + c] << (28 - 4 * i), _P, 32))
        out.append(row)
    return out


_SP = _mk_sp()


@functools.lru_cache(maxsize=4096)
def _des_keys(key):
    k = _perm(int.from_bytes(key, "big"), _PC1, 64)
    c, d = k >> 28, k & 0xFFFFFFF
    out = []
    for s in _SHIFTS:
        c = ((c << s) | (c >> (28 - s))) & 0xFFFFFFF
        d = ((d << s) | (d >> (28 - s))) & 0xFFFFFFF
        out.append(_perm((c << 28) | d, _PC2, 56))
    return tuple(out)


def _des_block(x, keys):
    y = 0
    for i in range(8):
        y |= _IPT[i][(x >> (56 - 8 * i)) & 255]
    l, r = y >> 32, y & 0xFFFFFFFF
    e0, e1, e2, e3 = _ET
    s0, s1, s2, s3, s4, s5, s6, s7 = _SP
    for k in keys:
        t = (e0[r >> 24] | e1[(r >> 16) & 255] | e2[(r >> 8) & 255] | e3[r & 255]) ^ k
        f = (s0[t >> 42] | s1[(t >> 36) & 63] | s2[(t >> 30) & 63] | s3[(t >> 24) & 63]
             | s4[(t >> 18) & 63] | s5[(t >> 12) & 63] | s6[(t >> 6) & 63] | s7[t & 63])
        l, r = r, l ^ f
    x = (r << 32) | l
    y = 0
    for i in range(8):
        y |= _FPT[i][(x >> (56 - 8 * i)) & 255]
    return y


def des_encrypt_block(key, block):
    return _des_block(int.from_bytes(block, "big"), _des_keys(key)).to_bytes(8, "big")


def des_cbc_encrypt(key, iv, data):
    keys = _des_keys(key)
    prev = int.from_bytes(iv, "big")
    out = bytearray()
    for i in range(0, len(data), 8):
        prev = _des_block(int.from_bytes(data[i : i + 8], "big") ^ prev, keys)
        out += prev.to_bytes(8, "big")
    return bytes(out)


def des_cbc_decrypt(key, iv, data):
    keys = tuple(reversed(_des_keys(key)))
    prev = int.from_bytes(iv, "big")
    out = bytearray()
    for i in range(0, len(data), 8):
        c = int.from_bytes(data[i : i + 8], "big")
        out += (_des_block(c, keys) ^ prev).to_bytes(8, "big")
        prev = c
    return bytes(out)


# ------------------------------------------------------------------- AES
def _mk_sbox():
    exp = [0] * 512
    log = [0] * 256
    x = 1
    for i in range(255):
        exp[i] = x
        log[x] = i
        x ^= (x << 1) ^ (0x11B if x & 0x80 else 0)
        x &= 0xFF if x < 256 else 0x1FF
        x &= 0xFF
    for i in range(255, 512):
        exp[i] = exp[i - 255]
    box = [0] * 256
    for a in range(256):
        inv = 0 if a == 0 else exp[(255 - log[a]) % 255]
        r = 0
        for i in range(8):
            bit = (inv >> i) ^ (inv >> ((i + 4) % 8)) ^ (inv >> ((i + 5) % 8)) ^ (inv >> ((i + 6) % 8)) ^ (inv >> ((i + 7) % 8)) ^ (0x63 >> i)
            r |= (bit & 1) << i
        box[a] = r
    return box


_SBOX = _mk_sbox()


def _xt(a):
    a <<= 1
    return (a ^ 0x11B) & 0xFF if a & 0x100 else a


_T0 = [(_xt(s) << 24) | (s << 16) | (s << 8) | (_xt(s) ^ s) for s in _SBOX]
_T1 = [(t >> 8) | ((t & 255) << 24) for t in _T0]
_T2 = [(t >> 8) | ((t & 255) << 24) for t in _T1]
_T3 = [(t >> 8) | ((t & 255) << 24) for t in _T2]


@functools.lru_cache(maxsize=4096)
def _aes_keys(key):
    w = [int.from_bytes(key[i : i + 4], "big") for i in range(0, 16, 4)]
    rcon = 1
    for i in range(4, 44):
        t = w[-1]
        if i % 4 == 0:
            t = ((t << 8) | (t >> 24)) & 0xFFFFFFFF
            t = (_SBOX[t >> 24] << 24) | (_SBOX[(t >> 16) & 255] << 16) | (_SBOX[(t >> 8) & 255] << 8) | _SBOX[t & 255]
            t ^= rcon << 24
            rcon = _xt(rcon)
        w.append(w[i - 4] ^ t)
    return tuple(w)


def aes_encrypt_block(key, block):
    w = _aes_keys(key)
    a, b, c, d = (int.from_bytes(block[i : i + 4], "big") ^ w[i // 4] for i in range(0, 16, 4))
    for r in range(4, 40, 4):
        a, b, c, d = (
            _T0[a >> 24] ^ _T1[(b >> 16) & 255] ^ _T2[(c >> 8) & 255] ^ _T3[d & 255] ^ w[r],
            _T0[b >> 24] ^ _T1[(c >> 16) & 255] ^ _T2[(d >> 8) & 255] ^ _T3[a & 255] ^ w[r + 1],
            _T0[c >> 24] ^ _T1[(d >> 16) & 255] ^ _T2[(a >> 8) & 255] ^ _T3[b & 255] ^ w[r + 2],
            _T0[d >> 24] ^ _T1[(a >> 16) & 255] ^ _T2[(b >> 8) & 255] ^ _T3[c & 255] ^ w[r + 3],
        )
    s = _SBOX

    def last(p, q, u, v, k):
        return (((s[p >> 24] << 24) | (s[(q >> 16) & 255] << 16) | (s[(u >> 8) & 255] << 8) | s[v & 255]) ^ k).to_bytes(4, "big")

    return last(a, b, c, d, w[40]) + last(b, c, d, a, w[41]) + last(c, d, a, b, w[42]) + last(d, a, b, c, w[43])


def aes_cfb_encrypt(key, iv, data):
    out = bytearray()
    prev = iv
    for i in range(0, len(data), 16):
        ks = aes_encrypt_block(key, prev)
        blk = data[i : i + 16]
        prev = bytes(x ^ y for x, y in zip(blk, ks))
        out += prev
    return bytes(out)


def aes_cfb_decrypt(key, iv, data):
    out = bytearray()
    prev = iv
    for i in range(0, len(data), 16):
        ks = aes_encrypt_block(key, prev)
        prev = data[i : i + 16]
        out += bytes(x ^ y for x, y in zip(prev, ks))
    return bytes(out)


# ------------------------------------------------------- libcrypto, if any
def _accelerate():
    """The same four functions out of libcrypto, when it is there and agrees
    with the ones above on every length up to a few blocks."""
    import ctypes
    import ctypes.util
    import random

    try:
        lc = ctypes.CDLL(ctypes.util.find_library("crypto") or "libcrypto.so.3")
        lc.AES_set_encrypt_key, lc.AES_cfb128_encrypt, lc.DES_set_key_unchecked, lc.DES_ncbc_encrypt  # noqa: B018
    except (OSError, AttributeError):
        return None
    ptr = ctypes.c_void_p
    lc.AES_set_encrypt_key.argtypes = [ctypes.c_char_p, ctypes.c_int, ptr]
    lc.AES_cfb128_encrypt.argtypes = [ctypes.c_char_p, ptr, ctypes.c_size_t, ptr, ptr, ptr, ctypes.c_int]
    lc.DES_set_key_unchecked.argtypes = [ctypes.c_char_p, ptr]
    lc.DES_ncbc_encrypt.argtypes = [ctypes.c_char_p, ptr, ctypes.c_long, ptr, ptr, ctypes.c_int]

    @functools.lru_cache(maxsize=4096)
    def aes_key(key):
        k = ctypes.create_string_buffer(512)
        lc.AES_set_encrypt_key(key, 128, k)
        return k

    @functools.lru_cache(maxsize=4096)
    def des_key(key):
        k = ctypes.create_string_buffer(256)
        lc.DES_set_key_unchecked(key, k)
        return k

    def cfb(key, iv, data, enc):
        n = len(data)
        out = ctypes.create_string_buffer(n + 16)
        num = ctypes.c_int(0)
        lc.AES_cfb128_encrypt(data, out, n, aes_key(key), ctypes.create_string_buffer(iv, 16), ctypes.byref(num), enc)
        return out.raw[:n]

    def cbc(key, iv, data, enc):
        n = len(data)
        out = ctypes.create_string_buffer(n + 8)
        lc.DES_ncbc_encrypt(data, out, n, des_key(key), ctypes.create_string_buffer(iv, 8), enc)
        return out.raw[:n]

    new = (
        lambda key, iv, data: cbc(bytes(key), iv, bytes(data), 1) if len(iv) == 8 and len(data) % 8 == 0 else slow[0](key, iv, data),
        lambda key, iv, data: cbc(bytes(key), iv, bytes(data), 0) if len(iv) == 8 and len(data) % 8 == 0 else slow[1](key, iv, data),
        lambda key, iv, data: cfb(bytes(key), iv, bytes(data), 1) if len(iv) == 16 else slow[2](key, iv, data),
        lambda key, iv, data: cfb(bytes(key), iv, bytes(data), 0) if len(iv) == 16 else slow[3](key, iv, data),
    )
    slow = (des_cbc_encrypt, des_cbc_decrypt, aes_cfb_encrypt, aes_cfb_decrypt)
    rnd = random.Random(1)
    for n in (*range(70), 128, 200):
        for i, (a, b) in enumerate(zip(slow, new)):
            if i < 2 and n % 8:
                continue
            w = 8 if i < 2 else 16
            key, iv, data = bytes(rnd.randrange(256) for _ in range(w)), bytes(rnd.randrange(256) for _ in range(w)), bytes(rnd.randrange(256) for _ in range(n))
            if a(key, iv, data) != b(key, iv, data):
                return None
    return new


# ------------------------------------------------------------- RFC 3414
HASH = {1: hashlib.md5, 2: hashlib.sha1}
KEYLEN = {1: 16, 2: 20}


@functools.lru_cache(maxsize=20000)
def master_key(alg, password):
    """RFC 3414 A.2: digest of the password repeated up to 1048576 octets."""
    n = 1048576
    q, r = divmod(n, len(password))
    h = HASH[alg]()
    rep = max(1, 65536 // len(password))
    chunk = password * rep
    full, rest = divmod(q, rep)
    for _ in range(full):
        h.update(chunk)
    h.update(password * rest + password[:r])
    return h.digest()


@functools.lru_cache(maxsize=20000)
def localize(alg, master, engine_id):
    return HASH[alg](master + engine_id + master).digest()


def localized_from(alg, key_type, key, engine_id):
    """key_type 0 password, 1 master, 2 localized."""
    if key_type == 0:
        key = master_key(alg, key)
        key_type = 1
    if key_type == 1:
        key = localize(alg, key, engine_id)
    return key


def mac96(alg, key, data):
    return hmac.new(key, data, HASH[alg]).digest()[:12]


def priv_encrypt(palg, key, boots, time, salt, plain):
    """key: the full localized key."""
    if palg == 1:
        iv = bytes(a ^ b for a, b in zip(salt, key[8:16]))
        if len(plain) % 8:
            plain += b"\0" * (8 - len(plain) % 8)
        return des_cbc_encrypt(key[:8], iv, plain)
    iv = (boots & 0xFFFFFFFF).to_bytes(4, "big") + (time & 0xFFFFFFFF).to_bytes(4, "big") + salt
    return aes_cfb_encrypt(key[:16], iv, plain)


def priv_decrypt(palg, key, boots, time, salt, data):
    if palg == 1:
        iv = bytes(a ^ b for a, b in zip(salt, key[8:16]))
        return des_cbc_decrypt(key[:8], iv, data)
    iv = (boots & 0xFFFFFFFF).to_bytes(4, "big") + (time & 0xFFFFFFFF).to_bytes(4, "big") + salt
    return aes_cfb_decrypt(key[:16], iv, data)


def selftest():
    x = bytes.fromhex
    assert des_encrypt_block(x("133457799BBCDFF1"), x("0123456789ABCDEF")) == x("85E813540F0AB405")
    assert des_encrypt_block(x("0101010101010101"), x("8000000000000000")) == x("95F8A5E5DD31D900")
    assert des_encrypt_block(x("7CA110454A1A6E57"), x("01A1D6D039776742")) == x("690F5B0D9A26939B")
    assert des_encrypt_block(x("0131D9619DC1376E"), x("5CD54CA83DEF57DA")) == x("7A389D10354BD271")
    # FIPS 81 CBC example
    c = des_cbc_encrypt(x("0123456789abcdef"), x("1234567890abcdef"), b"Now is the time for all ")
    assert c == x("e5c7cdde872bf27c43e934008c389c0f683788499a7c05f6"), c.hex()
    assert des_cbc_decrypt(x("0123456789abcdef"), x("1234567890abcdef"), c) == b"Now is the time for all "
    # FIPS 197
    assert aes_encrypt_block(x("000102030405060708090a0b0c0d0e0f"), x("00112233445566778899aabbccddeeff")) == x("69c4e0d86a7b0430d8cdb78070b4c55a")
    # SP 800-38A F.3.13 CFB128-AES128
    k, iv = x("2b7e151628aed2a6abf7158809cf4f3c"), x("000102030405060708090a0b0c0d0e0f")
    p = x("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411e5fbc1191a0a52eff69f2445df4f9b17ad2b417be66c3710")
    c = x("3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b26751f67a3cbb140b1808cf187a4f4dfc04b05357c5d1c0eeac4c66f9ff7f2e6")
    assert aes_cfb_encrypt(k, iv, p) == c and aes_cfb_decrypt(k, iv, c) == p
    # RFC 3414 A.3
    e = x("000000000000000000000002")
    assert master_key(1, b"maplesyrup") == x("9faf3283884e92834ebc9847d8edd963")
    assert localize(1, master_key(1, b"maplesyrup"), e) == x("526f5eed9fcce26f8964c2930787d82b")
    assert master_key(2, b"maplesyrup") == x("9fb5cc0381497b3793528939ff788d5d79145211")
    assert localize(2, master_key(2, b"maplesyrup"), e) == x("6695febc9288e36282235fc7151f128497b38f3f")


_fast = _accelerate()
if _fast:
    des_cbc_encrypt, des_cbc_decrypt, aes_cfb_encrypt, aes_cfb_decrypt = _fast


if __name__ == "__main__":
    import timeit

    selftest()
    print("ok")
    print("des 100B", timeit.timeit(lambda: des_cbc_encrypt(b"12345678", b"\0" * 8, b"x" * 104), number=200) / 200)
    print("aes 100B", timeit.timeit(lambda: aes_cfb_encrypt(b"12345678" * 2, b"\0" * 16, b"x" * 104), number=200) / 200)
    print("master", timeit.timeit(lambda: master_key.__wrapped__(2, b"maplesyrup"), number=20) / 20)

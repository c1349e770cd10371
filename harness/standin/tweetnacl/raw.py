"""The NaCl functions of the tweetnacl extension, computed by the libsodium inside PyNaCl (loaded with ctypes, so that it
works whether or not the nacl package can be imported).  Works on bytes; any failure is a ValueError."""
import ctypes
import glob
import os

_L = None


def load():
    global _L
    if _L is None:
        _L = ctypes.CDLL(glob.glob('/opt/venv/lib/python3*/site-packages/nacl/_sodium*.so')[0])
        _L.sodium_init()
    return _L


def _n(b):
    return ctypes.c_ulonglong(len(b))


def _chk(rc):
    if rc != 0:
        raise ValueError('tweetnacl: failed')


def _len(b, n):
    if len(b) != n:
        raise ValueError('tweetnacl: wrong length')


def crypto_sign_seed_keypair(seed):
    _len(seed, 32)
    pk, sk = ctypes.create_string_buffer(32), ctypes.create_string_buffer(64)
    _chk(load().crypto_sign_seed_keypair(pk, sk, bytes(seed)))
    return pk.raw, sk.raw


def crypto_sign(m, sk):
    _len(sk, 64)
    out, n = ctypes.create_string_buffer(len(m) + 64), ctypes.c_ulonglong()
    _chk(load().crypto_sign(out, ctypes.byref(n), bytes(m), _n(m), bytes(sk)))
    return out.raw[:n.value]


def crypto_sign_open(sm, pk):
    _len(pk, 32)
    out, n = ctypes.create_string_buffer(len(sm) or 1), ctypes.c_ulonglong()
    _chk(load().crypto_sign_open(out, ctypes.byref(n), bytes(sm), _n(sm), bytes(pk)))
    return out.raw[:n.value]


def crypto_scalarmult_base(sk):
    _len(sk, 32)
    out = ctypes.create_string_buffer(32)
    _chk(load().crypto_scalarmult_base(out, bytes(sk)))
    return out.raw


def crypto_box_beforenm(pk, sk):
    _len(pk, 32)
    _len(sk, 32)
    out = ctypes.create_string_buffer(32)
    _chk(load().crypto_box_beforenm(out, bytes(pk), bytes(sk)))
    return out.raw


def crypto_box_afternm(m, n, k):
    _len(n, 24)
    _len(k, 32)
    out = ctypes.create_string_buffer(len(m) + 16)
    _chk(load().crypto_box_easy_afternm(out, bytes(m), _n(m), bytes(n), bytes(k)))
    return out.raw


def crypto_box_open_afternm(c, n, k):
    _len(n, 24)
    _len(k, 32)
    if len(c) < 16:
        raise ValueError('tweetnacl: too short')
    out = ctypes.create_string_buffer(len(c) - 16 or 1)
    _chk(load().crypto_box_open_easy_afternm(out, bytes(c), _n(c), bytes(n), bytes(k)))
    return out.raw[:len(c) - 16]


def crypto_hash(m):
    out = ctypes.create_string_buffer(64)
    _chk(load().crypto_hash_sha512(out, bytes(m), _n(m)))
    return out.raw


def randombytes(n):
    return os.urandom(n)

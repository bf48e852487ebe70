import hashlib
import hmac

from . import control


def _equals_bytes(a, b):
    if len(a) != len(b):
        return False
    result = 0
    for x, y in zip(a, b):
        result |= x ^ y
    return result == 0


def _equals_str(a, b):
    if len(a) != len(b):
        return False
    result = 0
    for x, y in zip(a, b):
        result |= ord(x) ^ ord(y)
    return result == 0


def equals(a, b):
    if isinstance(a, str):
        return _equals_str(a, b)
    return _equals_bytes(a, b)


def hmac_sha256(k, m):
    return hmac.new(bytes(k), bytes(m), hashlib.sha256).digest()


def hmac_sha512(k, m):
    return hmac.new(bytes(k), bytes(m), hashlib.sha512).digest()


def pbkdf2(password, salt=None, i=10000, keylen=64):
    if salt is None:
        salt = control.random_bytes(8)
    return salt, hashlib.pbkdf2_hmac('sha256', password, salt, i, keylen)

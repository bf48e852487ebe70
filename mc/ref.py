"""Reference implementations, independent of the code under test"""
import hashlib
import hmac
import struct

import coincurve
from Crypto.Cipher import AES
from Crypto.Hash import keccak as _keccak

from . import golden


def cbor(value):
    """CBOR as every peer of the network writes it (RFC 7049 subset)"""
    out = []
    _cbor(value, out)
    return b''.join(out)


def _head(major, num, out):
    major <<= 5
    if num < 24:
        out.append(bytes([major | num]))
    elif num < 1 << 8:
        out.append(struct.pack('!BB', major | 24, num))
    elif num < 1 << 16:
        out.append(struct.pack('!BH', major | 25, num))
    elif num < 1 << 32:
        out.append(struct.pack('!BI', major | 26, num))
    else:
        out.append(struct.pack('!BQ', major | 27, num))


def _cbor(value, out):
    if value is None:
        out.append(b'\xf6')
    elif value is True:
        out.append(b'\xf5')
    elif value is False:
        out.append(b'\xf4')
    elif isinstance(value, int):
        major, num = (0, value) if value >= 0 else (1, -1 - value)
        # the library goes over to big numbers earlier below zero
        if num < 1 << (64 if value >= 0 else 63):
            _head(major, num, out)
        else:
            out.append(b'\xc2' if value >= 0 else b'\xc3')
            raw = num.to_bytes((num.bit_length() + 7) // 8, 'big')
            _head(2, len(raw), out)
            out.append(raw)
    elif isinstance(value, float):
        out.append(struct.pack('!Bd', 0xfb, value))
    elif isinstance(value, (bytes, bytearray)):
        _head(2, len(value), out)
        out.append(bytes(value))
    elif isinstance(value, str):
        raw = str(value.value if hasattr(value, 'value') else value).encode()
        _head(3, len(raw), out)
        out.append(raw)
    elif isinstance(value, (list, tuple)):
        _head(4, len(value), out)
        for item in value:
            _cbor(item, out)
    elif isinstance(value, dict):
        _head(5, len(value), out)
        for key, item in value.items():
            _cbor(key, out)
            _cbor(item, out)
    else:
        raise TypeError(type(value))


class Reader:
    """Strict decoder of the same subset; raises ValueError"""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def take(self, num):
        if self.pos + num > len(self.data):
            raise ValueError('short')
        chunk = self.data[self.pos:self.pos + num]
        self.pos += num
        return chunk

    def item(self):
        first = self.take(1)[0]
        major, info = first >> 5, first & 31
        if major == 7:
            if info in (20, 21, 22):
                return {20: False, 21: True, 22: None}[info]
            if info == 27:
                return struct.unpack('!d', self.take(8))[0]
            raise ValueError('simple')
        if info < 24:
            num = info
        elif info in (24, 25, 26, 27):
            num = int.from_bytes(self.take(1 << (info - 24)), 'big')
        else:
            raise ValueError('indefinite')
        if major == 0:
            return num
        if major == 1:
            return -1 - num
        if major == 2:
            return self.take(num)
        if major == 3:
            return self.take(num).decode()
        if major == 4:
            if num > len(self.data) - self.pos:
                raise ValueError('short')
            return [self.item() for _ in range(num)]
        if major == 5:
            result = {}
            for _ in range(num):
                key = self.item()
                result[key] = self.item()
            return result
        if num in (2, 3):
            raw = self.item()
            if not isinstance(raw, bytes):
                raise ValueError('big number')
            raw = int.from_bytes(raw, 'big')
            return raw if num == 2 else -1 - raw
        raise ValueError('tag')


def uncbor(data):
    reader = Reader(data)
    value = reader.item()
    if reader.pos != len(data):
        raise ValueError('trailing')
    return value


def digest(type_, timestamp, payload, version=None):
    """What a message's signature signs"""
    sha = hashlib.sha1(cbor([type_, timestamp]))
    sha.update(payload)
    result = sha.digest()
    if version is not None:
        result += version.encode('ascii', 'replace')
    return result


def sha3(data):
    return hashlib.sha3_256(data).digest()


def keccak(data):
    return _keccak.new(digest_bits=256, data=data).digest()


def sign(private_key, data):
    return coincurve.PrivateKey(private_key).sign_recoverable(
        sha3(data), hasher=None)


def recover(signature, data):
    """raw public key or None"""
    try:
        return coincurve.PublicKey.from_signature_and_message(
            signature, sha3(data), hasher=None).format(compressed=False)[1:]
    except Exception:  # pylint: disable=broad-except
        return None


def public(private_key):
    return coincurve.PrivateKey(private_key).public_key.format(
        compressed=False)[1:]


def checksum_address(raw):
    """EIP-55"""
    text = raw.hex()
    mask = keccak(text.encode()).hex()
    return '0x' + ''.join(
        c.upper() if int(m, 16) > 7 else c for c, m in zip(text, mask))


def address(pubkey):
    return checksum_address(keccak(pubkey)[12:])


def header(type_, timestamp, encrypted):
    return type_.to_bytes(2, 'big') + timestamp.to_bytes(8, 'big') \
        + (b'\1' if encrypted else b'\0')


def version_suffix(version):
    raw = version.encode('ascii', 'replace')[:golden.VERSION_LEN - 1]
    return bytes([len(raw)]) + raw.ljust(golden.VERSION_LEN - 1, b'\0')


def wire(type_, timestamp, slots, encrypted=False, sig=None, version=None,
         crypt=None):
    payload = cbor(slots)
    if encrypted and crypt:
        payload = crypt(payload)
    return header(type_, timestamp, encrypted) \
        + (b'\0' * golden.SIG_LEN if sig is None else sig) \
        + payload \
        + (version_suffix(version) if version is not None else b'')


# ECIES of devp2p

def kdf(secret, length):
    """NIST SP 800-56a concatenation KDF with SHA-256"""
    result = b''
    counter = 0
    while len(result) < length:
        counter += 1
        result += hashlib.sha256(struct.pack('>I', counter) + secret).digest()
    return result[:length]


def ecdh(private_key, pub):
    """libsecp256k1's ECDH: SHA-256 of the compressed shared point"""
    point = coincurve.PublicKey(b'\x04' + pub).multiply(private_key)
    return hashlib.sha256(point.format(compressed=True)).digest()


def _ecies_keys(secret):
    key = kdf(secret, 32)
    return key[:16], hashlib.sha256(key[16:]).digest()


def _ctr(key, iv, data):
    # AES-CTR out of AES-ECB
    cipher = AES.new(key, AES.MODE_ECB)
    counter = int.from_bytes(iv, 'big')
    out = bytearray()
    for i in range(0, len(data), 16):
        block = cipher.encrypt(
            ((counter + i // 16) % (1 << 128)).to_bytes(16, 'big'))
        out += bytes(a ^ b for a, b in zip(data[i:i + 16], block))
    return bytes(out)


def ecies_encrypt(data, pub, ephemeral, iv, mac_data=b''):
    enc, mac = _ecies_keys(ecdh(ephemeral, pub))
    body = iv + _ctr(enc, iv, data)
    tag = hmac.new(mac, body + mac_data, hashlib.sha256).digest()
    return b'\x04' + public(ephemeral) + body + tag


def ecies_decrypt(data, private_key, mac_data=b''):
    """plaintext, or raises ValueError"""
    if len(data) < 113 or data[:1] != b'\x04':
        raise ValueError('not ECIES')
    enc, mac = _ecies_keys(ecdh(private_key, data[1:65]))
    body, tag = data[65:-32], data[-32:]
    if hmac.new(mac, body + mac_data, hashlib.sha256).digest() != tag:
        raise ValueError('tag')
    return _ctr(enc, body[:16], body[16:])


def eth_message_hash(data):
    return keccak(
        b'\x19Ethereum Signed Message:\n' + str(len(data)).encode() + data)


def eth_recover(hash_, v, r, s):
    """checksum address or None"""
    try:
        sig = r.rjust(32, b'\0') + s.rjust(32, b'\0') + bytes([v - 27])
        pub = coincurve.PublicKey.from_signature_and_message(
            sig, hash_, hasher=None).format(compressed=False)[1:]
    except Exception:  # pylint: disable=broad-except
        return None
    return address(pub)

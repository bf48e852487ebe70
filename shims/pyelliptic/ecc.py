import hashlib

import coincurve

from . import control
from .cipher import Cipher
from .hash import equals, hmac_sha256
from .openssl import OpenSSL


def _pub(privkey):
    raw = coincurve.PrivateKey(bytes(privkey).rjust(32, b'\0')) \
        .public_key.format(compressed=False)
    return raw[1:33], raw[33:65]


class ECC:
    """Asymmetric keys; the same attributes as pyelliptic.ECC"""

    def __init__(self, pubkey=None, privkey=None, pubkey_x=None,
                 pubkey_y=None, raw_privkey=None, curve='sect283r1'):
        if isinstance(curve, str):
            self.curve = OpenSSL.get_curve(curve)
        else:
            self.curve = curve

        if pubkey_x is not None and pubkey_y is not None:
            self._set_keys(pubkey_x, pubkey_y, raw_privkey)
        elif pubkey is not None:
            _, pubkey_x, pubkey_y, _ = self._decode_pubkey(pubkey)
            self._set_keys(pubkey_x, pubkey_y, privkey)
        else:
            self.privkey, self.pubkey_x, self.pubkey_y = self._generate()

    def _set_keys(self, pubkey_x, pubkey_y, privkey):
        if self.raw_check_key(privkey, pubkey_x, pubkey_y) < 0:
            self.pubkey_x = None
            self.pubkey_y = None
            self.privkey = None
            raise Exception('Bad ECC keys ...')
        self.pubkey_x = pubkey_x
        self.pubkey_y = pubkey_y
        self.privkey = privkey

    @staticmethod
    def get_curves():
        return OpenSSL.curves.keys()

    def get_curve(self):
        return OpenSSL.get_curve_by_id(self.curve)

    def get_curve_id(self):
        return self.curve

    @staticmethod
    def _decode_pubkey(pubkey):
        return None, pubkey[-64:-32], pubkey[-32:], 64

    def get_pubkey(self):
        return self.pubkey_x + self.pubkey_y

    def get_privkey(self):
        return self.privkey

    def _generate(self):
        secret = control.next_private_key()
        pubkey_x, pubkey_y = _pub(secret)
        return secret, pubkey_x, pubkey_y

    def check_key(self, privkey, pubkey):
        _, pubkey_x, pubkey_y, _ = self._decode_pubkey(pubkey)
        return self.raw_check_key(privkey, pubkey_x, pubkey_y)

    @staticmethod
    def raw_check_key(privkey, pubkey_x, pubkey_y, curve=None):
        # pylint: disable=unused-argument
        try:
            coincurve.PublicKey(b'\x04' + bytes(pubkey_x) + bytes(pubkey_y))
            if privkey is not None:
                pub = _pub(privkey)
                if pub != (bytes(pubkey_x), bytes(pubkey_y)):
                    return -1
        except Exception:  # pylint: disable=broad-except
            return -1
        return 0

    def raw_get_ecdh_key(self, pubkey_x, pubkey_y):
        point = coincurve.PublicKey(
            b'\x04' + bytes(pubkey_x) + bytes(pubkey_y),
        ).multiply(bytes(self.privkey).rjust(32, b'\0'))
        return point.format(compressed=False)[1:33]

    def get_ecdh_key(self, pubkey):
        _, pubkey_x, pubkey_y, _ = self._decode_pubkey(pubkey)
        return hashlib.sha512(
            self.raw_get_ecdh_key(pubkey_x, pubkey_y)).digest()

    # Cipher helpers present in the real class
    Cipher = Cipher
    equals = staticmethod(equals)
    hmac_sha256 = staticmethod(hmac_sha256)

"""Stand-in for pyelliptic 1.5.10, which cannot be installed in this sandbox.

Only the surface that a user of pyelliptic's secp256k1/AES-CTR/HMAC interface
can see is provided; the primitives come from coincurve and pycryptodome.  It
is the *environment* of the code under test, so some of its answers can be
chosen by a harness (see `control`).
"""
from . import control
from .cipher import Cipher
from .ecc import ECC
from .hash import equals, hmac_sha256, hmac_sha512, pbkdf2
from .openssl import OpenSSL

__version__ = '1.5.10'

__all__ = [
    'OpenSSL',
    'ECC',
    'Cipher',
    'equals',
    'hmac_sha256',
    'hmac_sha512',
    'pbkdf2',
    'control',
]

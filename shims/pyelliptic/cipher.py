from Crypto.Cipher import AES
from Crypto.Util import Counter

from . import control
from .openssl import OpenSSL


class Cipher:
    """Symmetric encryption; do: 1 = encrypt, 0 = decrypt"""

    def __init__(self, key, iv, do, ciphername='aes-256-cbc'):
        self.cipher = OpenSSL.get_cipher(ciphername)
        size = int(ciphername.split('-')[1]) // 8
        mode = ciphername.split('-')[2]
        if do not in (0, 1):
            raise Exception('RuntimeError')
        # OpenSSL reads exactly as many bytes as it needs from the buffers
        key, iv = bytes(key), bytes(iv)
        if len(key) < size or len(iv) < 16:
            raise Exception('key or iv too short')
        key, iv = key[:size], iv[:16]
        self._do = do
        self._mode = mode
        if mode == 'ctr':
            counter = Counter.new(
                128, initial_value=int.from_bytes(iv, 'big'),
            )
            self._impl = AES.new(key, AES.MODE_CTR, counter=counter)
        else:
            self._impl = AES.new(key, AES.MODE_CBC, iv)
        self._buffer = b''

    @staticmethod
    def get_all_cipher():
        return OpenSSL.cipher_algo.keys()

    @staticmethod
    def get_blocksize(ciphername):
        return OpenSSL.get_cipher(ciphername).get_blocksize()

    @staticmethod
    def gen_IV(ciphername):
        return control.random_bytes(
            OpenSSL.get_cipher(ciphername).get_blocksize())

    def update(self, data):
        data = bytes(data)
        if self._mode == 'ctr':
            return self._impl.encrypt(data)
        self._buffer += data
        return b''

    def final(self):
        if self._mode == 'ctr':
            return b''
        data, self._buffer = self._buffer, b''
        if self._do:
            pad = 16 - len(data) % 16
            return self._impl.encrypt(data + bytes([pad]) * pad)
        out = self._impl.decrypt(data)
        pad = out[-1]
        if not 0 < pad <= 16 or out[-pad:] != bytes([pad]) * pad:
            raise Exception('bad decrypt')
        return out[:-pad]

    def ciphering(self, data):
        return self.update(data) + self.final()

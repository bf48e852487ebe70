class CipherName:
    def __init__(self, name, blocksize):
        self._name = name
        self._blocksize = blocksize

    def get_name(self):
        return self._name

    def get_blocksize(self):
        return self._blocksize

    def __str__(self):
        return 'Cipher : {} | Blocksize : {}'.format(
            self._name, self._blocksize)


class _OpenSSL:
    def __init__(self):
        self.cipher_algo = {
            'aes-128-ctr': CipherName('aes-128-ctr', 16),
            'aes-256-ctr': CipherName('aes-256-ctr', 16),
            'aes-128-cbc': CipherName('aes-128-cbc', 16),
            'aes-256-cbc': CipherName('aes-256-cbc', 16),
        }
        self.curves = {'secp256k1': 714}

    def get_cipher(self, name):
        if name not in self.cipher_algo:
            raise Exception('Unknown cipher')
        return self.cipher_algo[name]

    def get_curve(self, name):
        if name not in self.curves:
            raise Exception('Unknown curve')
        return self.curves[name]

    def get_curve_by_id(self, id_):
        for name, value in self.curves.items():
            if value == id_:
                return name
        raise Exception('Unknown curve')

    @staticmethod
    def rand(size):
        from . import control
        return control.random_bytes(size)


OpenSSL = _OpenSSL()

"""Seams through which a harness decides the environment's answers."""
import os

# function(num_bytes) -> bytes; the source of all the randomness used here
urandom = os.urandom

# Optional iterator of raw private keys handed out by key generation.  Like
# the real library it may hand out keys with a stripped leading zero byte.
generated_keys = None


def random_bytes(num):
    return urandom(num)


def next_private_key():
    """Returns a raw secret for a freshly generated key"""
    if generated_keys is not None:
        return next(generated_keys)
    import coincurve
    while True:
        secret = urandom(32)
        try:
            coincurve.PrivateKey(secret)
        except Exception:  # pylint: disable=broad-except
            continue
        return secret

"""Generators shared by the checks (seeded, no global state)."""


def rbytes(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b''

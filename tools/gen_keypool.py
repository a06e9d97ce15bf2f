#!/usr/bin/env python3
"""Generate vlib/keypool.json: key material of many shapes (run once; the
result is committed, no check runs this)."""
import json
import os
import random
import secrets

rng = random.Random(20261119)


def is_prime(n, k=24):
    if n < 4:
        return n in (2, 3)
    if n % 2 == 0:
        return False
    for p in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for _ in range(k):
        a = rng.randrange(2, n - 1)
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prime(bits, cond=lambda p: True):
    while True:
        p = rng.getrandbits(bits) | 1 | 1 << (bits - 1)
        if cond(p) and is_prime(p):
            return p


def rsa(bits, e):
    from math import gcd
    while True:
        a = bits // 2
        p = prime(a, lambda p: gcd(p - 1, e) == 1)
        q = prime(bits - a, lambda p: gcd(p - 1, e) == 1)
        if p > q:
            p, q = q, p
        n = p * q
        if n.bit_length() != bits or p == q:
            continue
        d = pow(e, -1, (p - 1) * (q - 1))
        return {'alg': 1, 'bits': bits, 'pub': [n, e],
                'sec': [d, p, q, pow(p, -1, q)]}


def dsa(bits, qbits, q=None):
    q = q or prime(qbits)
    while True:
        k = rng.getrandbits(bits - qbits) & ~1
        p = q * k + 1
        if p.bit_length() == bits and is_prime(p):
            break
    h = 2
    while pow(h, (p - 1) // q, p) == 1:
        h += 1
    g = pow(h, (p - 1) // q, p)
    x = rng.randrange(1, q)
    return {'alg': 17, 'bits': bits, 'pub': [p, q, g, pow(g, x, p)],
            'sec': [x]}


def elg(bits):
    q = prime(bits - 40)
    while True:
        k = rng.getrandbits(40) & ~1
        p = q * k + 1
        if p.bit_length() == bits and is_prime(p):
            break
    g = rng.randrange(3, 1000)
    x = rng.randrange(2, p - 2)
    return {'alg': 16, 'bits': bits, 'pub': [p, g, pow(g, x, p)],
            'sec': [x]}


near = (1 << 160) - 1
while not is_prime(near):
    near -= 2
pool = {
    'rsa': [rsa(b, e) for b, e in (
        (768, 65537), (768, 3), (776, 17), (1024, 65537), (1024, 65537),
        (1023, 65537), (1025, 41), (1031, 65537), (1024, 0x10001),
        (1536, 65537), (2048, 65537))],
    'dsa': [dsa(b, qb) for b, qb in (
        (768, 160), (1024, 160), (1024, 160), (1030, 160), (1024, 224),
        (1536, 256), (2048, 224), (2048, 256))] + [dsa(1024, 160, near)],
    'elg': [elg(b) for b in (512, 768, 768, 1024, 1030, 1024, 1536)],
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'vlib', 'keypool.json'), 'w') as fh:
    json.dump(pool, fh, indent=1)

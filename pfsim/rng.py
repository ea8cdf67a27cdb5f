"""One integer decides everything: named, independent random streams derived from it."""
import hashlib
import random


def derive(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def stream(*parts):
    return random.Random(derive(*parts))

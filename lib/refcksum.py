"""The POSIX cksum of a string of bytes, from its definition."""


def _table():
    out = []
    for i in range(256):
        c = i << 24
        for _ in range(8):
            c = ((c << 1) ^ 0x04C11DB7) if c & 0x80000000 else (c << 1)
        out.append(c & 0xFFFFFFFF)
    return out


TABLE = _table()


def cksum(data):
    c = 0
    n = len(data)
    length = []
    while n:
        length.append(n & 0xFF)
        n >>= 8
    for b in data:
        c = ((c << 8) & 0xFFFFFFFF) ^ TABLE[(c >> 24) ^ b]
    for b in length:
        c = ((c << 8) & 0xFFFFFFFF) ^ TABLE[(c >> 24) ^ b]
    return str(c ^ 0xFFFFFFFF)

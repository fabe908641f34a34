"""Specification functions shared by the contracts (pure, independent of /repo)."""


def vbi_len(v):
    if v < 128:
        return 1
    if v < 16384:
        return 2
    if v < 2097152:
        return 3
    return 4


def vbi_bytes(v):
    """the Variable Byte Integer encoding of v, from the MQTT 5 specification 1.5.5"""
    if v < 128:
        return bytes([v])
    if v < 16384:
        return bytes([v % 128 + 128, v // 128])
    if v < 2097152:
        return bytes([v % 128 + 128, v // 128 % 128 + 128, v // 16384])
    return bytes([v % 128 + 128, v // 128 % 128 + 128, v // 16384 % 128 + 128, v // 2097152])


def u16(v):
    return bytes([v // 256, v % 256])


def utf8(s):
    b = s.encode('utf-8')
    return u16(len(b)) + b


def bindata(b):
    return u16(len(b)) + b

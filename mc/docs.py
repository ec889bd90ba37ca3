""" Document alphabets shared by the checks. """
import datetime
import struct
from mc import model as M

F64 = struct.pack('>d', -1.5e300)
F32 = struct.pack('>f', 0.1)
DATE = M.date_payload(datetime.datetime(2019, 12, 31, 23, 59, 59, 999999))

# Leaves: one of every type, plus shapes that look like something else.
LEAVES = [
    ('U', b'\x05', None), ('I', b'\xff\x01', None), ('F', F64, None), ('F', F32, 2),
    ('S', b'hi\0x', None), ('Z', 'h\xe9\u20ac'.encode(), None), ('D', DATE, None),
    ('B', b'\x81\x81\x05', None), ('Void', b'\xff\xa0\x80', None), ('CRC-32', b'\x01\x02\x03\x04', None),
    (0x4FFE, b'u\xa0\x81', None), (0xFD, b'', 3), ('U', b'', None), ('B', b'', 8), ('S', b'', None),
    ('Grp', [], None), ('EM', [], 4), ('PB', b'pre', None), ('LU', b'\x01\x00', None), ('PZ', b'z\0', None),
    (0x1FEDCBA9, b'\x01', 8), (0x2ABCDE, b'\x81', None),
]
# Values at the limits of their types, and long ones.
EXTREME = [('F', struct.pack('>Q', x), None) for x in (0x7ff8000000000000, 0xfff8000000000001, 0x7ff0000000000000, 0xfff0000000000000, 1, 1 << 63, 0x7fefffffffffffff, 0x3ff0000000000000)] + \
    [('F', struct.pack('>I', x), 3) for x in (0x7fc00000, 0xff800000, 1, 0x80000000, 0x7f7fffff)] + \
    [('U', b'\xff' * 8, None), ('U', b'\0' * 8, 8), ('U', b'\x80', None), ('I', b'\x80' + bytes(7), None), ('I', b'\xff' * 8, None), ('I', b'\x7f' + b'\xff' * 7, 2), ('I', b'\0\0', None),
     ('D', b'\x80' + bytes(7), None), ('D', b'\x7f' + b'\xff' * 7, None), ('D', bytes(8), None), ('D', b'\xff' * 8, None),
     ('S', bytes(range(32, 127)) * 4, None), ('S', b'\0' * 300, None), ('S', b' \t\r\n ', None), ('Z', '\ufeff\u2028\r\n\u0301 "\'&<>'.encode(), None), ('Z', ('\U0001f40d\u20ac\xe9x' * 90).encode(), None),
     ('Z', b'line\r\nline\rline\n', None), ('B', bytes(range(256)) * 2, None), ('B', b'\0' * 130, None), ('Void', b'\0' * 300, None), ('Void', b'', 8), (0x4FFE, bytes(range(256)), None),
     (0x10FFFFFE, b'\0' * 129, None), ('PZ', 'p\u0301'.encode() * 70, None), ('PB', b'\xa0\xff' * 70, None)]


def extremes():
    """ Small documents around each of EXTREME. """
    for x in EXTREME:
        yield [x]
        yield [x, ('U', b'\1', None), x]
        yield [('Grp', [('B', b'', None), x, ('Sub', [x], 8)], None), ('U', b'\1', None)]
        yield [('Seg', [('Cl', [x, ('U', b'\2', None)], 3)], 8), ('PM', [x], None)]


SMALL = [
    ('U', b'\x05', None), ('S', b'hi\0x', None), ('B', b'\x81\x81\x05', 3), ('F', F64, None),
    ('Void', b'\xff\xa0', None), (0x4FFE, b'u\xa0\x81', None), ('Grp', [], None), ('D', DATE, None),
]
TINY = [('U', b'\x05', None), ('B', b'\x81\x81\x05', None), (0x4FFE, b'u', 2), ('Z', b'\xc3\xa9', None)]
MASTERS = [('Grp', None), ('Sub', 2), ('Seg', 8), ('PM', None)]
HEADER = ('EBML', [('DocType', b'vtest', None), ('DocTypeVersion', b'\x03', None), ('DocTypeReadVersion', b'\x02', None)], None)


def filler(n):
    """ Child specs filling exactly n payload bytes (n != 1). """
    if n == 0:
        return []
    if n <= 128:
        return [('Void', bytes(n - 2), 1)]
    return [('Void', bytes(n - 9), 8)]

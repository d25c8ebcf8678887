"""Generators. Everything is drawn from the random.Random passed in."""
import string
import zlib

import blosc

from . import ref

CNAMES = blosc.compressor_list()
CHECKSUMS = ref.CHECKSUMS


def data(rng, size, kind=None):
    if size <= 0:
        return b''
    kind = kind or rng.choice(['random', 'zeros', 'ramp', 'text', 'mixed', 'i8', 'like'])
    if kind == 'random':
        return rng.randbytes(size)
    if kind == 'zeros':
        return bytes([rng.choice([0, 0, 255, 65])]) * size
    if kind == 'ramp':
        k = rng.randrange(1, 256)
        return (bytes((i * k) & 255 for i in range(256)) * (size // 256 + 1))[:size]
    if kind == 'text':
        words = [bytes(rng.choice(b'abcdefgh ') for _ in range(rng.randrange(1, 9)))
                 for _ in range(12)]
        out = b' '.join(rng.choice(words) for _ in range(min(400, size)))
        return (out * (size // len(out) + 1))[:size]
    if kind == 'i8':
        import struct
        n = min(size // 8 + 1, 2000)
        base = rng.randrange(2 ** 40)
        out = struct.pack('<%dq' % n, *[base + i * i for i in range(n)])
        return (out * (size // len(out) + 1))[:size]
    if kind == 'like':
        # what a careless reader or writer may take for something of its own
        comp = blosc.compress(rng.randbytes(rng.randrange(1, 60)), typesize=1)
        out = rng.choice([
            lambda: ref.build([comp], metadata=rng.choice([None, {'a': 1}])),
            lambda: comp, lambda: b'blpk', lambda: b'JSON\0\0\0\0{}', lambda: b'\r\n',
            lambda: b'a\n', lambda: b'\n', lambda: b'x\x1a', lambda: b'\r\n\x1a', lambda: b' \t\r\n', lambda: b'\0\xff',
            lambda: b'\x1a', lambda: b'\x04', lambda: b'\xef\xbb\xbf', lambda: b'\xff\xfe',
            lambda: b'\x1f\x8b', lambda: b'-1', lambda: b'\0' * 7 + b'\x01',
            lambda: zlib.compress(b'{}'), lambda: b'\x80\x04.'])()
        pad = rng.choice([b'', b'', b'\0', b'\n', b'\0' * 8])
        k = rng.random()
        if k < 0.6:
            return ((out + pad) * (size // len(out + pad) + 1))[:size]
        if k < 0.75:
            return (out + rng.randbytes(size))[:size]
        if k < 0.9:
            return (rng.randbytes(size) + out)[-size:]
        # the same thing at the end of every part of 8, 16 ... bytes
        part = max(len(out), rng.choice([8, 16, 64, 128, 1000, 1024]))
        return ((rng.randbytes(part - len(out)) + out) * (size // part + 1))[:size]
    parts, left = [], size
    while left > 0:
        n = min(left, rng.randrange(1, max(2, size)))
        parts.append(data(rng, n, rng.choice(['random', 'zeros', 'text'])))
        left -= n
    return b''.join(parts)


def size_and_chunk(rng, big=20000):
    """(size, chunk size): sizes sit around chunk boundaries."""
    chunk = rng.choice([1, 2, 3, 7, 8, 15, 16, 17, 64, 100, 128, 255, 256, 1000,
                        1024, 4096, rng.randrange(1, 5000)])
    k = rng.random()
    if k < 0.1:
        size = rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17])
    elif k < 0.7:
        n = rng.choice([1, 1, 2, 2, 3, 4, 5, 10, rng.randrange(1, 40)])
        size = max(0, chunk * n + rng.choice([-1, 0, 0, 1, -chunk // 2, chunk // 2]))
    else:
        size = rng.randrange(0, big)
    size = min(size, big)
    if size // chunk > 400:
        chunk = size // 400 + 1
    return size, chunk


def typesize(rng):
    return rng.choice([1, 2, 3, 4, 4, 8, 8, 8, 12, 16, 17, 255, rng.randrange(1, 256)])


def blosc_args(rng):
    return dict(typesize=typesize(rng), clevel=rng.randrange(0, 10),
                shuffle=rng.choice([True, False, 0, 1, 2]),
                cname=rng.choice(CNAMES))


def max_app(rng):
    """(description, value, function nchunks -> expected)"""
    k = rng.randrange(7)
    if k == 0:
        return ('default', None)
    if k == 1:
        return ('int', rng.choice([0, 0, 0, 0, 0, 0, 0, 0, 0, 1000, 4096, 9000, 20000]))
    if k in (2, 3):
        return ('int', rng.choice([1, 2, 3, 5, 10, 31, 100]))
    if k == 4:
        m = rng.randrange(0, 6)
        return ('mul', m)
    if k == 5:
        m = rng.randrange(0, 20)
        return ('add', m)
    return ('int', rng.randrange(0, 300))


def max_app_value(spec):
    kind, m = spec
    if kind == 'int':
        return m
    if kind == 'mul':
        return lambda n: m * n
    if kind == 'add':
        return lambda n: m + n
    raise ValueError(kind)


def max_app_expected(spec, nchunks, offsets=True):
    kind, m = spec
    if not offsets:
        return 0
    r = {'default': lambda: 10 * nchunks, 'int': lambda: m,
         'mul': lambda: m * nchunks, 'add': lambda: m + nchunks}[kind]()
    return min(r, ref.MAXI64 - nchunks)


def bloscpack_args(rng, checksum=None, offsets=None):
    """spec dict"""
    return dict(offsets=rng.random() < 0.75 if offsets is None else offsets,
                checksum=checksum or rng.choice(CHECKSUMS),
                max_app=max_app(rng))


def text(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return ''.join(rng.choice(string.ascii_letters) for _ in range(n))
    if k == 1:
        return ''.join(chr(rng.choice([0x20, 0xe9, 0x3b1, 0x4e2d, 0x1f600, 0x0a, 0x22,
                                       0x5c, 0, 0x7f, 0x2028])) for _ in range(n))
    if k == 2:
        return rng.choice('abc') * n
    if k == 3:
        return ''.join(rng.choice('{}[]":,\\/\'% \t') for _ in range(n))
    return ''.join('%02x' % rng.randrange(256) for _ in range(n // 2 + 1))


def json_value(rng, depth=0):
    k = rng.randrange(12 if depth < 3 else 8)
    if k == 0:
        return None
    if k == 1:
        return rng.choice([True, False])
    if k == 2:
        return rng.choice([0, 1, -1, 2 ** 31, 2 ** 63, -2 ** 70, rng.randrange(10 ** 9),
                           2 ** 53 + 1, 2 ** 63 + 1, -2 ** 64 - 1, 10 ** 30 + 7,
                           rng.getrandbits(rng.randrange(1, 300)),
                           -rng.getrandbits(rng.choice([31, 32, 33, 54, 63, 64, 65]))])
    if k == 3:
        return rng.choice([0.0, -0.5, 1e300, 5e-324, 0.1, 1 / 3, rng.random() * 1e6])
    if k in (4, 5):
        return text(rng, rng.randrange(0, 12))
    if k == 6:
        return ''
    if k == 7:
        return rng.randrange(-1000, 1000)
    if k in (8, 9):
        return [json_value(rng, depth + 1) for _ in range(rng.randrange(0, 5))]
    return dict((text(rng, rng.randrange(0, 8)), json_value(rng, depth + 1))
                for _ in range(rng.randrange(0, 5)))


SPECIAL_META = [{}, [], '', 0, False, None, True, 1, 0.0, {'a': None}, [None], [[]],
                [{}], {'': {}}, {'': ''}, 'a', 'x' * 300, ['é', '中', '\U0001f600'],
                {'a': False}, {'container': 'other'}, {'key': [1, 2.5, 'x', None, True]},
                {'k%d' % i: i for i in range(60)}, 2 ** 63, -1, 2 ** 63 + 1,
                {'id': 9007199254740993, 'big': [10 ** 30 + 7, -10 ** 21 - 1]}, 'JSON', '\x00', '\n\t"\\']


def deep(rng, levels=None):
    """Containers within containers."""
    v = rng.choice([json_value(rng, 2), 'core', 2 ** 60])
    kinds = [lambda: [v], lambda: {'k': v}, lambda: [0, v, None], lambda: {text(rng, 4): 1, 'next': v}]
    if rng.random() < 0.5:
        kinds = [rng.choice(kinds)]
    for _ in range(levels or rng.choice([4, 7, 8, 9, 10, 12, 16, 20, 33, 60])):
        v = rng.choice(kinds)()
    return v


def metadata(rng):
    """A JSON object; never None at the top (None means no metadata)."""
    k = rng.random()
    if k < 0.3:
        v = rng.choice(SPECIAL_META)
    elif k < 0.5:
        v = dict((text(rng, rng.randrange(1, 8)), json_value(rng, 1))
                 for _ in range(rng.randrange(0, 8)))
    elif k < 0.6:
        v = rng.randbytes(rng.randrange(1, 200)).hex()
    elif k < 0.62:
        v = [dict((text(rng, 3) + str(i), i) for i in range(rng.randrange(40, 400))),
             list(range(rng.randrange(40, 300)))][rng.random() < 0.3]
    elif k < 0.64:
        v = deep(rng)
    elif k < 0.67:
        v = {'long': 'ab' * rng.randrange(100, 3000)}
    else:
        v = json_value(rng)
    return {'v': None} if v is None else v


def same_json(a, b, ordered=False):
    """Equality that also tells True from 1 and 1 from 1.0 (and the order of keys)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return (list(a) == list(b) if ordered else a.keys() == b.keys()) and \
            all(same_json(a[k], b[k], ordered) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_json(x, y, ordered) for x, y in zip(a, b))
    return a == b


def metadata_args(rng):
    """spec dict; max_meta: ('default'|'mul'|'add', n): always enough room"""
    room = ('int', rng.randrange(70001, 300000)) if rng.random() < 0.02 else None
    return dict(meta_codec=rng.choice(['zlib', 'zlib', 'None']),
                meta_level=rng.randrange(0, 10),
                meta_checksum=rng.choice(CHECKSUMS),
                max_meta=room or rng.choice([('default', 0), ('mul', 1), ('mul', 3),
                                     ('add', 0), ('add', 1), ('add', 100),
                                     ('int', 40000)]))


def max_meta_value(spec):
    kind, m = spec
    if kind == 'mul':
        return lambda n: m * n
    if kind == 'add':
        return lambda n: m + n
    return m


def max_meta_expected(spec, size):
    kind, m = spec
    return {'default': 10 * size, 'mul': m * size, 'add': m + size, 'int': m}[kind]


def near(rng, v, depth=0):
    """A value a little different from v (sometimes the same)."""
    k = rng.random()
    if isinstance(v, list) and v:
        w = list(v)
        if k < 0.3:
            rng.shuffle(w)
        elif k < 0.4:
            w.reverse()
        elif k < 0.5:
            w.pop(rng.randrange(len(w)))
        elif k < 0.6:
            w.insert(rng.randrange(len(w) + 1), rng.choice(w))
        else:
            i = rng.randrange(len(w))
            w[i] = near(rng, w[i], depth + 1)
        return w
    if isinstance(v, dict) and v:
        w = dict(v)
        ks = list(w)
        if k < 0.15:
            vals = list(w.values())
            rng.shuffle(vals)
            return dict(zip(ks, vals))
        if k < 0.25:
            w.pop(rng.choice(ks))
        elif k < 0.35:
            c = rng.choice(ks)
            x = w.pop(c)
            w[str(near(rng, c, depth + 1))] = x
        elif k < 0.4:
            w[rng.choice(ks) + rng.choice(['', '_', ' '])] = None
        else:
            c = rng.choice(ks)
            w[c] = near(rng, w[c], depth + 1)
        return w
    if isinstance(v, str) and v:
        i = rng.randrange(len(v))
        c = list(v)
        return rng.choice([lambda: v.swapcase(), lambda: v[::-1], lambda: v + ' ',
                           lambda: v[:i] + v[i].swapcase() + v[i + 1:], lambda: v[:-1],
                           lambda: ''.join(sorted(c)), lambda: v + '\0',
                           lambda: v[:i] + chr(ord(v[i]) ^ 1) + v[i + 1:]
                           if ord(v[i]) < 0xd000 else v[1:]])()
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return rng.choice([-v, v + 1, v * 2, str(v), [v]])
    if v is None:
        return rng.choice([{}, [], '', False, 'null'] if depth else [{}, [], ''])
    return rng.choice([{'a': v}, [v]])


def special_ends(make, digest_of, tries=3000):
    """make() until the digest begins or ends with a byte that text functions treat in a
    special way; None if it never does."""
    for _ in range(tries):
        x = make()
        g = digest_of(x)
        if g and (g[0] in SPECIAL or g[-1] in SPECIAL):
            return x
    return None


SPECIAL = b'\0 \t\n\r\x0b\x0c'


def alike(rng, b):
    """[(what, bytes)]: other bytes that careless comparisons take for the same."""
    out = [('cases exchanged', b.swapcase()), ('lower case', b.lower())]
    for i in {0, len(b) - 1, rng.randrange(len(b))}:
        if b[i] in SPECIAL:
            o = rng.choice([x for x in SPECIAL if x != b[i]])
            out.append(('other white space', b[:i] + bytes([o]) + b[i + 1:]))
        if b[i] < 128:
            out.append(('high bit', b[:i] + bytes([b[i] | 128]) + b[i + 1:]))
    z = b.strip(SPECIAL)
    if len(z) < len(b):
        n = len(b) - len(z)
        out += [('stripped and padded', z + bytes(n)), ('stripped and padded', bytes(n) + z),
                ('stripped and padded', z.ljust(len(b))), ('stripped and padded', z.rjust(len(b)))]
    return [(w, x) for w, x in out if x != b]

"""Encodings: C06 (base58check), C07 (integers, varints, Buffer), C08 (script numbers)."""
from bitforge import encoding
from bitforge.tools import Buffer
from drive import chunks
from gen import rbytes, rint, boundary_ints, mutate_text, ALPHABET
from obs import observe, project, sint, unint, untext, cps

def buf(env, fn, *args):
    r = observe(fn, *args)
    return {'r': r, 'after': observe(lambda: bytes(env['buf']))}


def buf_new(env, a):
    env['buf'] = Buffer(bytes(a['b']))
    return buf(env, lambda: None)


OPS = {
    'enc_b58': lambda env, a: observe(encoding.encode_base58h, bytes(a['b'])),
    'dec_b58': lambda env, a: observe(encoding.decode_base58h, untext(a['t'])),
    'enc_int': lambda env, a: observe(encoding.encode_int, unint(a['n']), big_endian=a['be'],
                                      length=None if a['len'] < 0 else a['len']),
    'dec_int': lambda env, a: observe(encoding.decode_int, bytes(a['b']), big_endian=a['be']),
    'enc_varint': lambda env, a: observe(encoding.encode_varint, unint(a['n'])),
    'buf_new': buf_new,
    'buf_write': lambda env, a: buf(env, env['buf'].write, bytes(a['b'])),
    'buf_read': lambda env, a: buf(env, env['buf'].read, a['n']),
    'buf_varint': lambda env, a: buf(env, env['buf'].read_varint),
    'enc_num': lambda env, a: observe(encoding.encode_script_number, unint(a['n'])),
    'dec_num': lambda env, a: observe(encoding.decode_script_number, bytes(a['b']), a['min'], a['size']),
}


def c06(ctx):
    rng = ctx.rng('b58')
    datas = [bytes(c['b']) for c in ctx.cases if c.get('op') == 'bytes']
    for n in list(range(0, 40)) + [45, 60, 77, 78, 79, 100, 128, 200]:
        for _ in range(ctx.n(4, 40)):
            datas.append(rbytes(rng, n))
        for z in {0, 1, 2, n // 2, n - 1, n} - {-1}:
            if 0 <= z <= n:
                datas.append(bytes(z) + bytes(rng.randrange(1, 256) for _ in range(n - z)))
    for v in range(256):
        datas.append(bytes([v]))
        datas.append(bytes([v]) + rbytes(rng, 20))
    # payloads whose checksum starts or ends with a zero byte
    want = ctx.n(6, 60)
    while want:
        d = rbytes(rng, rng.randrange(0, 25))
        c = encoding.sha256(encoding.sha256(d))[:4]
        if 0 in c:
            datas.append(d)
            want -= 1
    for n in (255, 256, 257, 520, 1000):
        datas += [rbytes(rng, n), bytes(n), bytes(n // 2) + rbytes(rng, n - n // 2)]
    if ctx.thorough:
        datas += [rbytes(rng, rng.randrange(0, 90)) for _ in range(6000)]
    for d in datas:
        yield 'enc_b58', {'b': list(d)}
        # what the standard text is, is the specification's business: decode what the code produced
        r = observe(encoding.encode_base58h, d)
        if r['k'] != 'text':
            continue
        t = untext(r['v'])
        yield 'dec_b58', {'t': cps(t)}
        if rng.random() < ctx.n(1.0, 0.7):
            for m in mutate_text(rng, t, ctx.n(2, 3)):
                yield 'dec_b58', {'t': cps(m)}
    for t in ['', '1', '11', '111', '1111', '11111', '111111', 'z', ' ', '0', 'O', 'I', 'l', 'é', '٣', '\n', '3QJmnh',
              '3QJmnh ', ' 3QJmnh', '3QJmnh\n', '13QJmnh', '3QJmnhh', '3QJmn', '\x00', '3QJm\x00nh', '３QJmnh', 'a' * 300]:
        yield 'dec_b58', {'t': cps(t)}
    for c in range(0, 256):
        t = 'Wh4bh'  # standard text of one byte, one character replaced by each code point
        yield 'dec_b58', {'t': cps(t[:2] + chr(c) + t[3:])}


def c07_calls(ctx):
    rng = ctx.rng('ints')
    ints = boundary_ints(ctx.n(72, 300))
    ints += [rint(rng, 300) for _ in range(ctx.n(300, 3000))]
    for k in (40, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000):
        ints += [(1 << 8 * k) - 1, 1 << 8 * k - 8, int.from_bytes(b'\x80' + rbytes(rng, k - 1), 'big'),
                 int.from_bytes(b'\1' + rbytes(rng, k - 2) + b'\0', 'big')]
    for n in ints:
        nb = max(1, (n.bit_length() + 7) // 8)
        for be in (True, False):
            yield 'enc_int', {'n': sint(n), 'be': be, 'len': -1}
            for ln in sorted({nb - 1, nb, nb + 1, 1, 2, 4, 8, 32} if ctx.thorough else {nb - 1, nb, rng.choice([nb + 1, 4, 8, 32])}):
                yield 'enc_int', {'n': sint(n), 'be': be, 'len': ln}
        yield 'enc_varint', {'n': sint(n)}
    for n in (0, 1, 255, 256):
        yield 'enc_int', {'n': sint(n), 'be': True, 'len': 0}
    for n in [-1, -2, -127, -128, -255, -256, -(1 << 31), -(1 << 63), -(1 << 64)] + [-rint(rng, 100) - 1 for _ in range(20)]:
        for be in (True, False):
            for ln in (-1, 1, 4, 8):
                yield 'enc_int', {'n': sint(n), 'be': be, 'len': ln}
        yield 'enc_varint', {'n': sint(n)}
    datas = [bytes(c['b']) for c in ctx.cases if c.get('op') == 'bytes']
    datas += [rbytes(rng, rng.randrange(0, 40)) for _ in range(ctx.n(300, 3000))]
    datas += [bytes([b]) * n for b in (0, 1, 128, 255) for n in range(0, 12)]
    datas += [rbytes(rng, n) for n in (64, 65, 127, 128, 129, 255, 256, 257, 1000) for _ in range(2)]
    for d in datas:
        for be in (True, False):
            yield 'dec_int', {'b': list(d), 'be': be}


def buffer_session(rng, length):
    start = rbytes(rng, rng.choice([0, 0, 1, 3, 9, 30]))
    calls = [('buf_new', {'b': list(start)})]
    n = len(start)
    for _ in range(length):
        x = rng.random()
        if x < 0.4:
            if rng.random() < 0.5:
                v = rng.choice([0, 1, 252, 253, 254, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**64 - 1, rint(rng, 64)])
                marker, width = (v, 0) if v < 253 else (253, 2) if v < 65536 else (254, 4) if v < 2**32 else (255, 8)
                d = bytes([marker]) + (v.to_bytes(width, 'little') if width else b'')
                if rng.random() < 0.3:
                    d = d[:rng.randrange(len(d) + 1)]
            else:
                d = rbytes(rng, rng.choice([0, 1, 2, 5, 8, 20, 300]))
            calls.append(('buf_write', {'b': list(d)}))
            n += len(d)
        elif x < 0.7:
            calls.append(('buf_varint', {}))
        else:
            k = rng.choice([0, 1, 2, 4, 8, 32, max(0, n), n + 1])
            calls.append(('buf_read', {'n': k}))
            n = max(0, n - k)
    return 0, calls


def big_buffers(rng):
    """sessions on buffers of more than 2^16 bytes: whatever is read or left is far longer than any width"""
    for n in (65534, 65535, 65536, 65537, 70000, 131072, 131075):
        data = [(7 * k + k // 256 + n) % 256 for k in range(n)] + [253, 1, 2]
        for first in (0, 5):
            yield 0, [('buf_new', {'b': data}), ('buf_read', {'n': first}), ('buf_read', {'n': n - first}), ('buf_varint', {}),
                      ('buf_read', {'n': 1}), ('buf_write', {'b': [1, 2, 3]}), ('buf_read', {'n': 2})]
        yield 0, [('buf_new', {'b': [9]}), ('buf_write', {'b': data}), ('buf_read', {'n': n + 5}), ('buf_read', {'n': 65537}),
                  ('buf_read', {'n': 256}), ('buf_varint', {}), ('buf_read', {'n': n - 66000 if n > 66000 else 1})]


def c07(ctx):
    for s in big_buffers(ctx.rng('big')):
        yield s
    for s in chunks(c07_calls(ctx)):
        yield s
    for c in ctx.cases:
        if c.get('op') == 'buffer':
            yield 0, [('buf_new', {'b': []})] + [(x['op'], x['a']) for x in c['calls']]
    rng = ctx.rng('buffer')
    for _ in range(ctx.n(300, 4000)):
        yield buffer_session(rng, rng.randrange(3, 25))


def c08(ctx):
    rng = ctx.rng('num')
    ints = boundary_ints(ctx.n(80, 600)) + [rint(rng, 90) for _ in range(ctx.n(300, 5000))]
    for k in (13, 16, 20, 32, 33, 64, 127, 128, 129, 255, 256, 257, 520):
        ints += [(1 << 8 * k) - 1, 1 << 8 * k - 1, (1 << 8 * k - 1) - 1, int.from_bytes(b'\x80' + rbytes(rng, k - 1), 'big'),
                 int.from_bytes(b'\1' + rbytes(rng, k - 2) + b'\0', 'big')]
    for n in ints:
        for m in {n, -n}:
            yield 'enc_num', {'n': sint(m)}
            r = observe(encoding.encode_script_number, m)
            if r['k'] == 'bytes':
                size = rng.choice([len(r['v']), max(0, len(r['v']) - 1), 4, 5, 8])
                for mn in (False, True):
                    yield 'dec_num', {'b': r['v'], 'min': mn, 'size': size}
                    yield 'dec_num', {'b': r['v'], 'min': mn, 'size': len(r['v'])}
    datas = [bytes(c['b']) for c in ctx.cases if c.get('op') == 'bytes']
    tails = [0, 1, 0x7f, 0x80, 0x81, 0xff]
    for n in range(1, 10):
        for t in tails:
            for t2 in tails:
                for _ in range(ctx.n(1, 4)):
                    d = bytearray(rbytes(rng, n))
                    d[-1] = t
                    if n > 1:
                        d[-2] = t2
                    datas.append(bytes(d))
    datas += [rbytes(rng, rng.randrange(0, 9)) for _ in range(ctx.n(200, 4000))]
    for d in datas:
        for mn in (False, True):
            for size in sorted({4, 5, len(d), max(0, len(d) - 1), len(d) + 1}):
                yield 'dec_num', {'b': list(d), 'min': mn, 'size': size}


def sessions(ctx):
    if ctx.prop == 'C06':
        return chunks(c06(ctx))
    if ctx.prop == 'C07':
        return c07(ctx)
    if ctx.prop == 'C08':
        return chunks(c08(ctx))

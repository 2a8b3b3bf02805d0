"""The helpers of bitforge.utils: C25."""
from bitforge.utils import encoding as E
from bitforge.utils import intbytes as I
from drive import chunks
import gen
from gen import N, P, rbytes, rint, boundary_ints, mutate_text
from obs import observe, project, sint, unint, untext, cps, nat

big = lambda b: int.from_bytes(bytes(b), 'big')


def of_wif(env, a):
    t = untext(a['t'])
    kw = {'allowable_wif_prefixes': [bytes([x]) for x in a['allow']]}
    if a['allow'] == [128] and a['default']:
        kw = {}
    return {'r': observe(E.wif_to_tuple_of_prefix_secret_exponent_compressed, t),
            'pair': observe(lambda: E.wif_to_tuple_of_secret_exponent_compressed(t, **kw)),
            'secret': observe(lambda: E.wif_to_secret_exponent(t, **kw)),
            'valid': observe(lambda: E.is_valid_wif(t, **kw))}


def to_wif(env, a):
    n, p, c = unint(a['n']), bytes([a['prefix']]), a['comp']
    if a['default'] and c and a['prefix'] == 128:
        return observe(E.secret_exponent_to_wif, n)
    return observe(lambda: E.secret_exponent_to_wif(n, compressed=c, wif_prefix=p))


def to_sec(env, a):
    pair, c, p = (big(a['x']), big(a['y'])), a['comp'], bytes([a['prefix']])
    if a['default'] and c and a['prefix'] == 0:
        return {'r': observe(E.public_pair_to_sec, pair), 'hash': observe(E.public_pair_to_hash160_sec, pair),
                'addr': observe(E.public_pair_to_bitcoin_address, pair)}
    return {'r': observe(lambda: E.public_pair_to_sec(pair, compressed=c)),
            'hash': observe(lambda: E.public_pair_to_hash160_sec(pair, compressed=c)),
            'addr': observe(lambda: E.public_pair_to_bitcoin_address(pair, compressed=c, address_prefix=p))}


def of_sec(env, a):
    b = bytes(a['b'])
    return {'r': observe(lambda: tuple(E.sec_to_public_pair(b))), 'comp': observe(E.is_sec_compressed, b)}


def to_addr(env, a):
    if a['prefix'] == 0 and a['default']:
        return observe(E.hash160_sec_to_bitcoin_address, bytes(a['b']))
    return observe(lambda: E.hash160_sec_to_bitcoin_address(bytes(a['b']), address_prefix=bytes([a['prefix']])))


def of_addr(env, a):
    t, p, allow = untext(a['t']), bytes([a['prefix']]), bytes(a['allow'])
    default = a['default'] and a['allow'] == [0]
    return {'r': observe(E.bitcoin_address_to_hash160_sec_with_prefix, t),
            'hash': observe(lambda: E.bitcoin_address_to_hash160_sec(t) if a['default'] and a['prefix'] == 0
                            else E.bitcoin_address_to_hash160_sec(t, address_prefix=p)),
            'valid': observe(lambda: E.is_valid_bitcoin_address(t) if default
                             else E.is_valid_bitcoin_address(t, allowable_prefixes=allow))}


def of_b58(env, a):
    t = untext(a['t'])
    return {'r': observe(E.a2b_base58, t), 'hashed': observe(E.a2b_hashed_base58, t),
            'valid': observe(E.is_hashed_base58_valid, t)}


def order(a):
    return {} if a['be'] and a['default'] else {'byteorder': 'big' if a['be'] else 'little'}


def to_bytes(env, a):
    n = unint(a['n'])
    return {'r': observe(lambda: I.to_bytes(n, length=a['len'], **order(a))),
            'b32': observe(E.to_bytes_32, n), 'min': observe(I.int_to_bytes, n)}


def of_bytes(env, a):
    b = bytes(a['b'])
    kw = dict(order(a))
    if a['signed'] or not a['default']:
        kw['signed'] = a['signed']
    return {'r': observe(lambda: I.from_bytes(b, **kw)), 'min': observe(I.int_from_bytes, b),
            'b32': observe(E.from_bytes_32, b) if len(b) == 32 else {'k': 'none', 'v': []},
            'ints': observe(lambda: [I.byte_to_int(x) for x in I.bytes_to_ints(b)]),
            'again': observe(lambda: I.bytes_from_ints(list(I.bytes_to_ints(b))) if a['default']
                             else b''.join(I.bytes_from_int(x) for x in I.bytes_to_ints(b)))}


def long_(env, a):
    ds = a['ds']
    v = {}

    def there():
        v['v'] = E.to_long(a['base'], lambda x: x, ds)
        return tuple(v['v'])
    r = observe(there)
    return {'r': r, 'back': observe(lambda: E.from_long(v['v'][0], v['v'][1], a['base'], lambda x: x))}


OPS = {
    'to_wif': to_wif, 'of_wif': of_wif, 'to_sec': to_sec, 'of_sec': of_sec, 'to_addr': to_addr, 'of_addr': of_addr,
    'to_b58': lambda env, a: {'r': observe(E.b2a_base58, bytes(a['b'])), 'hashed': observe(E.b2a_hashed_base58, bytes(a['b']))},
    'of_b58': of_b58,
    'hashes': lambda env, a: {'r': observe(E.double_sha256, bytes(a['b'])), 'h160': observe(E.hash160, bytes(a['b'])),
                              'ripemd': observe(lambda: E.ripemd160(bytes(a['b'])).digest())},
    'to_bytes': to_bytes, 'of_bytes': of_bytes, 'long': long_,
}



def allowed(rng, usual):
    if rng.random() < 0.3:
        return [usual]
    return rng.sample([128, 239, 0, 111, 5, 196, 1, 255], rng.choice([0, 1, 1, 2, 2, 3, 4]))


def calls(ctx):
    rng = ctx.rng('util')
    flip = lambda: rng.random() < 0.5

    def wif(t):
        return 'of_wif', {'t': cps(t), 'allow': allowed(rng, 128), 'default': flip()}

    def addr(t):
        return 'of_addr', {'t': cps(t), 'allow': allowed(rng, 0), 'prefix': rng.choice([0, 0, 111, 5, 196]), 'default': flip()}

    for k, c in enumerate(ctx.cases):
        if c['op'] == 'sec':
            yield 'of_sec', {'b': c['b']}
        else:
            yield (wif if c['op'] == 'wif' else addr)(untext(c['t']))
            if k % 5 == 0:
                yield 'of_b58', {'t': c['t']}
    # secrets and WIF
    secrets = [x % 2**256 for x in gen.secrets(rng, ctx.n(40, 2000))] + [0, N, N + 1, 2**256 - 1, 2**256, 2**260, -1]
    secrets += [1 << k for k in range(0, 257, ctx.n(8, 1))]
    for s in secrets:
        for prefix in rng.sample([128, 239, 0, 1, 255, 5, 111], 2) + [128]:
            c = flip()
            yield 'to_wif', {'n': sint(s), 'prefix': prefix, 'comp': c, 'default': flip()}
            if 0 <= s < 2**256:
                raw = bytes([prefix]) + s.to_bytes(32, 'big')
                yield wif(gen.b58check(raw + (b'\1' if c else b'')))
                if flip():
                    yield wif(gen.b58check(raw + rng.choice([b'\0', b'\2', b'\1\1', b'\xff', b'\1\0'])))
                    yield wif(gen.b58check(raw[:-1]))
                t = gen.b58check(raw + (b'\1' if c else b''))
                for m in mutate_text(rng, t, 1):
                    yield wif(m)
    for t in ['', '1', '1111', '3QJmnh', 'é', ' ', '\ud800', '5' * 51, 'l', '0', 'x' * 200, '\x00', '３QJmnh']:
        yield wif(t)
        yield addr(t)
        yield 'of_b58', {'t': cps(t)}
    # points and keys
    for k in list(range(1, 12)) + [rng.randrange(1, N) for _ in range(ctx.n(60, 1500))]:
        x, y = gen.mul(k)
        if flip():
            y = P - y
        c = flip()
        for c in (True, False):
            yield 'to_sec', {'x': nat(x), 'y': nat(y), 'comp': c, 'prefix': rng.choice([0, 111, 0, 5, 255]), 'default': flip()}
            raw = gen.sec((x, y), c)
            yield 'of_sec', {'b': list(raw)}
            bad = bytearray(raw)
            how = rng.randrange(6)
            if how == 0:
                bad[0] = rng.randrange(256)
            elif how == 1:
                bad[rng.randrange(1, len(bad))] ^= 1 << rng.randrange(8)
            elif how == 2:
                bad = bad[:rng.randrange(len(bad))]
            elif how == 3:
                bad += rbytes(rng, rng.randrange(1, 4))
            elif how == 4:
                bad[0] ^= 1
            else:
                bad = bad[:33]
            yield 'of_sec', {'b': list(bad)}
    for _ in range(ctx.n(60, 800)):
        yield 'of_sec', {'b': [rng.choice([2, 3])] + list(rbytes(rng, 32))}
    small = [x for x in range(0, ctx.n(40, 400))]
    for x in small:
        yield 'of_sec', {'b': [rng.choice([2, 3])] + list(x.to_bytes(32, 'big'))}
        yield 'of_sec', {'b': [rng.choice([2, 3])] + list((P - 20 + x).to_bytes(32, 'big'))}
    # addresses
    hashes = [bytes(20), b'\xff' * 20, bytes(19) + b'\1', b'\1' + bytes(19)] + [rbytes(rng, 20) for _ in range(ctx.n(60, 1500))]
    for h in hashes:
        for prefix in (0, 111, rng.choice([5, 196, 128, 255, 1])):
            yield 'to_addr', {'b': list(h), 'prefix': prefix, 'default': flip()}
            t = gen.b58check(bytes([prefix]) + h)
            yield addr(t)
        for m in mutate_text(rng, t, 2):
            yield addr(m)
    for v in range(256):
        yield addr(gen.b58check(bytes([v]) + rng.choice(hashes)))
    for ln in range(0, 45):
        yield addr(gen.b58check(rbytes(rng, ln)))
        yield addr(gen.b58check(bytes([rng.choice([0, 111])]) + rbytes(rng, ln)))
        yield wif(gen.b58check(bytes([128]) + rbytes(rng, ln)))
    # base58
    for n in list(range(0, 40)) + [60, 100, 256, 520]:
        for z in sorted({0, 1, n // 2, n} & set(range(n + 1))):
            d = bytes(z) + rbytes(rng, n - z)
            yield 'to_b58', {'b': list(d)}
            yield 'of_b58', {'t': cps(gen.b58(d))}
            t = gen.b58check(d)
            yield 'of_b58', {'t': cps(t)}
            for m in mutate_text(rng, t, 1):
                yield 'of_b58', {'t': cps(m)}
            yield 'hashes', {'b': list(d)}
    for n in (55, 56, 63, 64, 65, 119, 120, 128, 300, 521, 65536):
        yield 'hashes', {'b': list(rbytes(rng, n))}
    # integers
    ints = boundary_ints(ctx.n(72, 264)) + [rint(rng, 300) for _ in range(ctx.n(100, 2000))] + [2**256 - 1, 2**256, 2**255]
    for k in (41, 64, 65, 128, 255, 256, 257):
        ints += [2**(8 * k) - 1, 2**(8 * k - 1), 2**(8 * k - 8) + rint(rng, 60)]
    for n in ints:
        nb = (abs(n).bit_length() + 7) // 8
        for ln in {nb, nb + 1, max(0, nb - 1), rng.randrange(0, 40)}:
            yield 'to_bytes', {'n': sint(n), 'len': ln, 'be': flip(), 'default': flip()}
    for n in (-1, -128, -2**64):
        yield 'to_bytes', {'n': sint(n), 'len': 9, 'be': flip(), 'default': flip()}
    for n in list(range(0, 12)) + [20, 31, 32, 32, 32, 33, 64, 127, 255, 256]:
        for d in [bytes(n), b'\xff' * n, b'\x80' + bytes(n), bytes(n) + b'\x80', b'\x7f' + b'\xff' * n] + [rbytes(rng, n) for _ in range(4)]:
            for be in (True, False):
                for signed in (True, False):
                    yield 'of_bytes', {'b': list(d), 'be': be, 'signed': signed, 'default': flip()}
    for base in (2, 3, 10, 16, 58, 255, 256):
        for n in list(range(0, 9)) + [20, 40, 300]:
            for z in (0, 1, n):
                z = min(z, n)
                yield 'long', {'base': base, 'ds': [0] * z + [rng.randrange(base) for _ in range(n - z)]}


def sessions(ctx):
    return chunks(calls(ctx), 40)

"""Signatures: C18."""
import os

from bitforge import PrivateKey, signature
from bitforge.signature import validate_signature
from drive import chunks
import gen
from gen import N, P, rbytes, rint
from obs import observe, project, sint, unint
from w_keys import run_python


class Entropy:
    """Makes the system's source of entropy give the given strings first."""

    def __init__(self, values):
        self.values = list(values)

    def __enter__(self):
        self.old = os.urandom

        def urandom(n):
            if self.values:
                v = self.values.pop(0)
                return v[-n:].rjust(n, b'\0')
            return self.old(n)
        os.urandom = urandom

    def __exit__(self, *exc):
        os.urandom = self.old


def yes(r):
    """A truth value counts as an answer."""
    return bool(r) if isinstance(r, int) else r


def sign(env, a):
    k = PrivateKey(unint(a['n']), 'livenet', a['comp'])
    d = bytes(a['d'])
    with Entropy([bytes(x) for x in a['draws']]):
        r = observe(k.sign, d)
    ev = {'r': r, 'back': {'k': 'none', 'v': []}, 'fmt': {'k': 'none', 'v': []}}
    if r['k'] == 'bytes':
        sig = bytes(r['v'])
        ev['back'] = observe(lambda: yes(k.verify(sig, d)))
        ev['fmt'] = observe(lambda: yes(validate_signature(sig + b'\1')))
    return ev


MANY = """
import sys
from bitforge import PrivateKey
for t in sys.argv[1:]:
    n, d = t.split(':')
    print(PrivateKey(int(n, 16)).sign(bytes.fromhex(d)).hex())
"""


def nonces(env, a):
    """Signatures one after the other, those marked with the number of a process by that process."""
    pairs = [(unint(x['n']), bytes(x['d']), x['proc']) for x in a['xs']]

    out = [observe(lambda: PrivateKey(n).sign(d)) if p == 0 else None for n, d, p in pairs]
    for proc in sorted({p for _, _, p in pairs if p}):
        mine = [i for i, x in enumerate(pairs) if x[2] == proc]
        done = run_python(MANY, ['%x:%s' % (pairs[i][0], pairs[i][1].hex()) for i in mine])
        for i, t in zip(mine, done):
            out[i] = project(bytes.fromhex(t))
    return {'k': 'list', 'items': out}


OPS = {
    'nonces': nonces,
    'sign': sign,
    'types': lambda env, a: observe(lambda: [getattr(signature, 'SIGHASH_' + x) for x in ('ALL', 'NONE', 'SINGLE', 'ANYONECANPAY')]),
    'verify': lambda env, a: observe(lambda: yes(PrivateKey(unint(a['n'])).verify(bytes(a['b']), bytes(a['d'])))),
    'format': lambda env, a: observe(lambda: yes(validate_signature(bytes(a['b'])))),
}


def der_int(n, pad=0, raw=None):
    b = raw if raw is not None else n.to_bytes(n.bit_length() // 8 + 1, 'big')
    b = bytes(pad) + b
    return b'\2' + bytes([len(b)]) + b


def der(r, s, **kw):
    body = der_int(r, kw.get('rpad', 0)) + der_int(s, kw.get('spad', 0))
    return b'\x30' + bytes([len(body)]) + body + kw.get('tail', b'')


def ecdsa(d, e, k):
    r = gen.mul(k)[0] % N
    return r, pow(k, -1, N) * (e + r * d) % N


DIGESTS = [0, 1, 2, N - 1, N, N + 1, 2**256 - 1, 2**255, 2**248 - 1, 255, 1 << 128]


def digests(rng, n):
    return [x.to_bytes(32, 'big') for x in DIGESTS] + [rbytes(rng, 32) for _ in range(n)]


def zero_nonces(rng, bits, want):
    """Nonces whose point has an x below 2^bits * 2^-8..., found by walking from a random one."""
    out = []
    k = rng.randrange(1, N // 2)
    pt = gen.mul(k)
    while len(out) < want:
        if pt[0] >> bits == 0:
            out.append(k)
        pt, k = gen.add(pt, gen.G), k + 1
    return out


def signing(ctx):
    rng = ctx.rng('sign')
    ds = digests(rng, ctx.n(30, 400))
    secs = gen.secrets(rng, ctx.n(40, 400))
    # r of 31 bytes, and of 31 bytes with the top bit set or not; nonces at the ends
    special = [1, 2, N - 1, N // 2] + zero_nonces(rng, 248, ctx.n(12, 60)) + zero_nonces(rng, 247, ctx.n(4, 20))
    for k in special:
        d = rng.choice(ds)
        yield 'sign', {'n': sint(rng.choice(secs)), 'comp': rng.random() < 0.5, 'd': list(d), 'draws': [list((k - 1).to_bytes(32, 'big'))]}
    for k in [0, N, 2**256 - 1]:     # out of range: another one has to be drawn
        yield 'sign', {'n': sint(rng.choice(secs)), 'comp': True, 'd': list(rng.choice(ds)), 'draws': [list(k.to_bytes(32, 'big'))]}
    # s at the middle and at the ends: e chosen so that s is what we want
    for s in [1, 2, N // 2 - 1, N // 2, N // 2 + 1, N // 2 + 2, N - 1, 2**247, 2**248 - 1, 2**248, 2**255 - 1, 0x7f, 0x80, 0xff, 0x100, N - 0x80, N - 0x7f, N - 2**247, N - 2**248]:
        k = rng.choice(special)
        d = rng.choice(secs)
        r = gen.mul(k)[0] % N
        e = (s * k - r * d) % N
        yield 'sign', {'n': sint(d), 'comp': True, 'd': list(e.to_bytes(32, 'big')), 'draws': [list((k - 1).to_bytes(32, 'big'))]}
    for j in range(ctx.n(300, 6000)):
        yield 'sign', {'n': sint(rng.choice(secs)), 'comp': rng.random() < 0.5, 'd': list(rng.choice(ds) if j % 2 else rbytes(rng, 32)), 'draws': []}
    for s in secs:
        yield 'sign', {'n': sint(s), 'comp': rng.random() < 0.5, 'd': list(rng.choice(ds)), 'draws': []}


def many(ctx):
    rng = ctx.rng('nonces')
    for _ in range(ctx.n(4, 40)):
        secs = [rng.randrange(1, N) for _ in range(3)] + [1, 2]
        secs += [N - secs[0], secs[0] + 1]
        ds = [rbytes(rng, 32) for _ in range(4)]
        flip = bytearray(ds[0])
        flip[rng.randrange(32)] ^= 1 << rng.randrange(8)
        ds += [bytes(flip), ds[0][:31] + bytes([ds[0][31] ^ 1]), bytes([ds[0][0] ^ 0x80]) + ds[0][1:]]
        xs = [{'n': sint(n), 'd': list(d), 'proc': rng.choice([0, 0, 0, 1, 2])} for n in secs for d in ds]
        rng.shuffle(xs)
        yield 'nonces', {'xs': xs}


def verifying(ctx):
    rng = ctx.rng('verify')
    ds = digests(rng, 10)
    secs = gen.secrets(rng, 20)
    call = lambda d, e, b: ('verify', {'n': sint(d), 'd': list(e), 'b': list(b)})
    small = zero_nonces(rng, 248, 6)
    for j in range(ctx.n(14, 200)):
        d, e = rng.choice(secs), rng.choice(ds)
        k = rng.choice(small) if j % 2 else rng.randrange(1, N)
        r, s = ecdsa(d, int.from_bytes(e, 'big'), k)
        if not s:
            continue
        good = der(r, s)
        # one after the other: what is right for another digest, key or signature only
        flip = lambda: (int.from_bytes(e, 'big') ^ (1 << rng.randrange(256))).to_bytes(32, 'big')
        yield call(d, flip(), good)
        yield call(d, e, good)
        yield call(N - d, e, good)
        yield call(d, e, der(r, N - s))
        yield call(d, flip(), good)
        yield call(rng.choice(secs), e, good)
        yield call(d, e, good)
        alter = [der(r, s + 1), der((r + 1) % N, s), der(s, r), der(0, s), der(r, 0), der(0, 0), der(r, N), der(N, s), der(r, s + N), der(r + N, s),
                 der(r, s, rpad=1), der(r, s, spad=1), der(r, s, tail=b'\0'), der(r, s, tail=b'\1'), good[:-1], good[1:], b'', b'\0', good + good,
                 b'\x31' + good[1:], bytes([good[0], good[1] + 1]) + good[2:], bytes([good[0], good[1] - 1]) + good[2:],
                 bytes([good[0], 0x81, good[1]]) + good[2:], good[:2] + b'\3' + good[3:], b'\x30\0', bytes(70), b'\xff' * 71,
                 b'\x30\x06\2\1\1\2\1\1', b'\x30\x06\2\1\0\2\1\0', bytes(64), r.to_bytes(32, 'big') + s.to_bytes(32, 'big')]
        # negative: without the zero in front of a high byte
        raw = lambda n: n.to_bytes((n.bit_length() + 7) // 8, 'big')
        neg = der_int(0, 0, raw(r)) + der_int(0, 0, raw(s))
        alter.append(b'\x30' + bytes([len(neg)]) + neg)
        for b in alter if j < 3 or ctx.thorough else rng.sample(alter, 8):
            yield call(d, e, b)
        yield call(d, rng.choice(ds), good)
        b = bytearray(good)
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        yield call(d, e, bytes(b))
    # r equal to x - n, for a point whose x is at least n, cannot be made; s = 1
    for s in (1, N - 1, N // 2, N // 2 + 1):
        k, d = rng.choice(small), rng.choice(secs)
        r = gen.mul(k)[0] % N
        e = ((s * k - r * d) % N).to_bytes(32, 'big')
        yield call(d, e, der(r, s))
        yield call(d, e, der(r, N - s))


def formats(ctx):
    rng = ctx.rng('format')
    call = lambda b: ('format', {'b': list(b)})
    for b in [b'', b'\x30', b'\x30\0', bytes(8), bytes(9), bytes(72), bytes(73), bytes(74)]:
        yield call(b)
    # every value of every byte of a few good signatures
    bases = [der(1, 1) + b'\1', der(2**255 + 5, 2**254 + 9) + b'\1', der(0x80, 0x7f) + b'\x83']
    for base in bases if ctx.thorough else bases[:1] + bases[2:]:
        for i in range(len(base)):
            for v in range(256):
                yield call(base[:i] + bytes([v]) + base[i + 1:])
    big = bases[1]
    for i in range(len(big)):
        for v in (0, 1, 2, 0x20, 0x21, 0x22, 0x30, 0x7f, 0x80, 0x81, 0xff):
            yield call(big[:i] + bytes([v]) + big[i + 1:])
        yield call(big[:i])
        yield call(big[:i] + b'\0' + big[i:])
        yield call(big[:i] + big[i + 1:])
    # sizes around the limits
    for lr in range(0, 66):
        for ls in (1, 2, 31, 32, 33, 34, 64, 65 - lr, 66 - lr, 67 - lr):
            if ls < 0:
                continue
            for lead in (b'\1', b'\0\x80', b'\0\1', b'\x80'):
                r = (lead + bytes(70))[:lr]
                s = (b'\1' + bytes(70))[:ls]
                body = b'\2' + bytes([lr]) + r + b'\2' + bytes([ls]) + s
                yield call(b'\x30' + bytes([len(body)]) + body + b'\1')
                body = b'\2' + bytes([ls]) + s + b'\2' + bytes([lr]) + r
                yield call(b'\x30' + bytes([len(body)]) + body + b'\1')
    for _ in range(ctx.n(1500, 30000)):
        base = bytearray(der(rint(rng, 257), rint(rng, 257)) + bytes([rng.randrange(256)]))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            i = rng.randrange(min(len(base), rng.choice([5, 80])))
            base[i] = rng.choice([0, 1, 2, 3, 48, 127, 128, 129, 255, base[i] ^ 1, (base[i] + 1) % 256, rng.randrange(256)])
        yield call(bytes(base))


def sessions(ctx):
    cases = [(c['op'], {k: v for k, v in c.items() if k != 'op'}) for c in ctx.cases]
    fmt = [c for c in cases if c[0] == 'format']
    ver = [c for c in cases if c[0] == 'verify']
    rng = ctx.rng('cases')
    if not ctx.thorough:
        ver = rng.sample(ver, min(len(ver), 500))
    yield {}, [('types', {'x': 0})]
    yield from chunks(signing(ctx), 10)
    yield from chunks(many(ctx), 1)
    yield from chunks(verifying(ctx), 10)
    yield from chunks(ver, 10)
    yield from chunks(formats(ctx), 100)
    yield from chunks(fmt, 100)

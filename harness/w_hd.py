"""Hierarchical deterministic keys: C19."""
import hmac

from bitforge import HDPrivateKey, HDPublicKey, PrivateKey, PublicKey, networks
import gen
from gen import N, P, rbytes
from obs import observe, project, cps, untext, nat
from w_keys import non_square_x, fresh_process


def o_x(k):
    if isinstance(k, HDPrivateKey):
        inner = k.to_private_key()
        pub = k.to_public_key()
        secret, t = project(inner.secret), 'HDPrivateKey'
    elif isinstance(k, HDPublicKey):
        inner = pub = k.to_public_key()
        secret, t = {'k': 'none', 'v': []}, 'HDPublicKey'
    else:
        return {'k': 'other', 'v': []}
    return {'k': 'obj', 't': t, 'f': {
        'secret': secret, 'x': project(pub.pair[0]), 'y': project(pub.pair[1]), 'chain': project(k.chain), 'depth': project(k.depth),
        'index': project(k.index), 'parent': project(k.parent), 'network': project(k.network.name),
        'keynet': project(inner.network.name), 'compressed': project(inner.compressed),
        'fingerprint': project(k.fingerprint), 'string': observe(k.to_string)}}


def store(env, make):
    """Runs make and remembers what it returns (None if it is refused)."""
    objs = env.setdefault('objs', [])
    box = []

    def run():
        v = make()
        box.append(v)
        return v
    r = observe(run, proj=o_x)
    objs.append(box[0] if box else None)
    return r


def of(env, a):
    k = env['objs'][a['of'] - 1]
    if k is None:
        raise LookupError('the key this call is about was refused')
    return k


def derive(env, a):
    i = int.from_bytes(bytes(a['i']), 'big')
    if a['hardened']:
        return store(env, lambda: of(env, a).derive(i, True))
    return store(env, lambda: of(env, a).derive(i))


def neuter(env, a):
    if a.get('way'):
        return store(env, lambda: HDPublicKey.from_hd_private_key(of(env, a)))
    return store(env, lambda: of(env, a).to_hd_public_key())


def reread(env, a):
    return store(env, lambda: type(of(env, a)).from_string(of(env, a).to_string()))


def same(env, a):
    p, q = env['objs'][a['p'] - 1], env['objs'][a['q'] - 1]
    env['objs'].append(None)
    return observe(lambda: bool(p == q))


def fresh(env, a):
    env.setdefault('objs', []).append(None)
    made = [HDPrivateKey.from_seed] * a['n']
    for _ in range(a['procs']):
        made += [lambda t=t: HDPrivateKey.from_string(t) for t in fresh_process('hd', a['m'])]
    return {'k': 'list', 'items': [observe(m, proj=o_x) for m in made]}


def make(env, a):
    """The constructor, given the parts of the serialization of an extended key."""
    b = bytes(a['raw'])
    net = {VERSIONS[n + p]: n + 'net' for n in ('live', 'test') for p in ('priv', 'pub')}[b[:4]]
    num = lambda x: int.from_bytes(x, 'big')
    rest = [b[13:45], b[4], num(b[9:13]), num(b[5:9]), networks.find(net)]
    while a['short'] and rest and rest[-1] == [None, 0, 0, 0, networks.default][len(rest) - 1]:
        rest.pop()
    if b[:4] in (VERSIONS['livepriv'], VERSIONS['testpriv']):
        return store(env, lambda: HDPrivateKey(PrivateKey(num(b[46:]), net), *rest))
    return store(env, lambda: HDPublicKey(PublicKey.from_bytes(b[45:], net), *rest))


OPS = {
    'fresh': fresh, 'make': make,
    'seed': lambda env, a: store(env, lambda: HDPrivateKey.from_seed(bytes(a['b']))),
    'xpriv': lambda env, a: store(env, lambda: HDPrivateKey.from_string(untext(a['t']))),
    'xpub': lambda env, a: store(env, lambda: HDPublicKey.from_string(untext(a['t']))),
    'derive': derive, 'neuter': neuter, 'reread': reread, 'same': same,
}

VERSIONS = {'livepriv': bytes.fromhex('0488ade4'), 'livepub': bytes.fromhex('0488b21e'),
            'testpriv': bytes.fromhex('04358394'), 'testpub': bytes.fromhex('043587cf')}
H = 2**31
INDICES = [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2**24, H - 2, H - 1, H, H + 1, 2**32 - 2, 2**32 - 1]


def xbytes(version, key, depth=3, parent=b'\x11\x22\x33\x44', index=b'\0\0\0\5', chain=bytes(range(32))):
    return version + bytes([depth]) + parent + index + chain + key


def xpriv(rng, net='live', **kw):
    s = kw.pop('secret', None) or rng.choice(gen.secrets(rng, 5))
    return xbytes(VERSIONS[net + 'priv'], b'\0' + s.to_bytes(32, 'big'), **kw)


def xpub(rng, net='live', **kw):
    pt = kw.pop('pt', None) or gen.mul(rng.randrange(1, N))
    return xbytes(VERSIONS[net + 'pub'], gen.sec(pt, True), **kw)


def index(rng):
    return rng.choice(INDICES) if rng.random() < 0.6 else rng.randrange(2**32)


def walk(ctx, rng, first, isub, length, depth):
    """A random history: keys are derived from any earlier one, made public, written, compared."""
    calls = [first]
    kinds = [(isub, depth)]      # (is it private, depth) of every key, None for no key
    for _ in range(length):
        live = [j for j, k in enumerate(kinds) if k]
        j = live[-1] if rng.random() < 0.5 else rng.choice(live)
        priv, dep = kinds[j]
        x = rng.random()
        if x < 0.5 and dep < 255:
            i, h = index(rng), rng.random() < 0.3
            if rng.random() < 0.15:
                i = rng.randrange(H)
            calls.append(('derive', {'of': j + 1, 'i': nat(i), 'hardened': h}))
            kinds.append((priv, dep + 1) if priv or not (h or i >= H) else None)
        elif x < 0.75 and priv:
            calls.append(('neuter', {'of': j + 1, 'way': rng.random() < 0.5}))
            kinds.append((False, dep))
        elif x < 0.9:
            calls.append(('reread', {'of': j + 1}))
            kinds.append((priv, dep))
        else:
            calls.append(('same', {'p': j + 1, 'q': rng.choice(live) + 1}))
            kinds.append(None)
    return {'none': 0}, calls


def diamond(rng, first):
    """Private then public, and public then private, along a path that is not hardened."""
    path = [rng.choice([i for i in INDICES if i < H]) if rng.random() < 0.7 else rng.randrange(H) for _ in range(rng.randrange(1, 4))]
    calls = [first]
    at = 1
    for i in path:
        calls.append(('derive', {'of': at, 'i': nat(i), 'hardened': False}))
        at = len(calls)
    calls.append(('neuter', {'of': at, 'way': False}))
    a = len(calls)
    calls.append(('neuter', {'of': 1, 'way': True}))
    at = len(calls)
    for i in path:
        calls.append(('derive', {'of': at, 'i': nat(i), 'hardened': False}))
        at = len(calls)
    calls.append(('same', {'p': a, 'q': at}))
    # the public side refuses hardened children
    for i, h in [(H, False), (0, True), (2**32 - 1, False), (H - 1, True), (H + 5, True)]:
        calls.append(('derive', {'of': at, 'i': nat(i), 'hardened': h}))
    return {'none': 0}, calls


def zero_lead(rng, want):
    """Parents whose serialized key starts with zero bytes, so that the padding of the HMAC input matters."""
    out = [1, 255, 2**240, 2**248 - 1]
    while len(out) < want:
        out.append(rng.getrandbits(rng.choice([8, 64, 128, 200, 240, 247])) + 1)
    return out


def strings(ctx, rng):
    call = lambda op, b: (op, {'t': cps(gen.b58check(b))})
    both = lambda b: [call('xpriv', b), call('xpub', b)]
    pts = [gen.mul(k) for k in (1, 2, 3)]
    good = [xpriv(rng), xpriv(rng, 'test'), xpub(rng), xpub(rng, 'test')]
    for b in good:
        yield from both(b)
    # versions
    for k in range(256):
        v = bytes([4, k, 0xb2, 0x1e])
        if k % 8 == 0 or k in (0x35, 0x88):
            yield from both(v + good[0][4:])
    for v in VERSIONS.values():
        for i in range(4):
            w = bytearray(v)
            w[i] ^= rng.choice([1, 2, 128])
            yield from both(bytes(w) + good[0][4:])
            yield from both(bytes(w) + good[2][4:])
        yield from both(v + good[0][4:])
        yield from both(v + good[2][4:])
        yield from both(v[::-1] + good[0][4:])
    # lengths
    for b in good:
        for ln in list(range(0, 100)) if b is good[0] else [0, 4, 33, 45, 64, 74, 76, 77, 79, 80, 82, 156]:
            yield from both((b + bytes(100))[:ln])
        yield from both(b'\0' + b)
        yield from both(b + b'\1')
        yield from both(b[:45] + b[46:])
    # keys
    for net in ('live', 'test'):
        for s in [0, 1, N - 1, N, N + 1, 2**256 - 1]:
            yield call('xpriv', xbytes(VERSIONS[net + 'priv'], b'\0' + s.to_bytes(32, 'big')))
        for pre in (1, 2, 3, 4, 128, 255):
            yield call('xpriv', xbytes(VERSIONS[net + 'priv'], bytes([pre]) + (5).to_bytes(32, 'big')))
        for pre in list(range(0, 9)) + [128, 255]:
            yield call('xpub', xbytes(VERSIONS[net + 'pub'], bytes([pre]) + gen.sec(pts[0], True)[1:]))
        for x in [0, 5, P, P + 1, P - 1, 2**256 - 1, non_square_x(rng)]:
            yield call('xpub', xbytes(VERSIONS[net + 'pub'], b'\2' + x.to_bytes(32, 'big')))
        for depth in (0, 1, 127, 128, 254, 255):
            for ix in (0, 1, H - 1, H, 2**32 - 1):
                for par in (bytes(4), b'\xff' * 4, b'\0\0\0\1', b'\x80\0\0\0', b'\0\1\2\3'):
                    if rng.random() < ctx.n(0.35, 1):
                        kw = dict(depth=depth, index=ix.to_bytes(4, 'big'), parent=par, chain=rbytes(rng, 32))
                        yield call('xpriv', xpriv(rng, net, **kw))
                        yield call('xpub', xpub(rng, net, pt=rng.choice(pts), **kw))
    # the text
    for b in good:
        t = gen.b58check(b)
        for m in gen.mutate_text(rng, t, ctx.n(12, 100)):
            yield 'xpriv', {'t': cps(m)}
            yield 'xpub', {'t': cps(m)}
        yield 'xpriv', {'t': cps(gen.b58(b + bytes(4)))}
    for t in ['', 'x', 'xprv', 'é', '1' * 111]:
        yield 'xpriv', {'t': cps(t)}
        yield 'xpub', {'t': cps(t)}


def zeros(b):
    return len(b) - len(b.lstrip(b'\0'))


def zero_children(rng, n):
    """Keys and indices whose child has a secret, or chain code, that starts with n zero bytes."""
    for want in ('secret', 'chain'):
        for hardened in (False, True):
            sec = rng.randrange(1, N)
            chain = rbytes(rng, 32)
            data = b'\0' + sec.to_bytes(32, 'big') if hardened else gen.sec(gen.mul(sec), True)
            for i in range(1 << (8 * n + 3)):
                h = hmac.digest(chain, data + (i + hardened * H).to_bytes(4, 'big'), 'sha512')
                child = ((int.from_bytes(h[:32], 'big') + sec) % N).to_bytes(32, 'big')
                if zeros(child if want == 'secret' else h[32:]) >= n:
                    yield sec, chain, i, hardened
                    break


def zero_seeds(rng, n):
    """Seeds whose master key has a secret, or chain code, that starts with n zero bytes."""
    for want in (0, 32):
        base = rbytes(rng, 28)
        for i in range(1 << (8 * n + 3)):
            h = hmac.digest(b'Bitcoin seed', base + i.to_bytes(4, 'big'), 'sha512')
            if zeros(h[want:want + 32]) >= n:
                yield base + i.to_bytes(4, 'big')
                break


def zero_fingerprint(rng):
    """A secret whose public key has a hash that starts with a zero byte."""
    while True:
        sec = rng.randrange(1, N)
        if gen.hash160(gen.sec(gen.mul(sec), True))[0] == 0:
            return sec


def seeds(ctx, rng):
    yield 'fresh', {'n': ctx.n(12, 60), 'procs': 2, 'm': 2}
    for ln in list(range(0, 70)) + [71, 100, 111, 112, 127, 128, 129, 200, 255, 256, 1000]:
        yield 'seed', {'b': list(rbytes(rng, ln))}
    for v in (0, 255, 1, 128):
        for ln in (31, 32, 33, 64):
            yield 'seed', {'b': [v] * ln}
    for _ in range(ctx.n(40, 1000)):
        yield 'seed', {'b': list(rbytes(rng, rng.choice([32, 32, 64, 33, 40])))}


def sessions(ctx):
    none = {'none': 0}
    for c in ctx.cases:
        yield none, [(x['op'], x['a']) for x in c['calls']]
    rng = ctx.rng('walk')
    starts = []
    for j in range(ctx.n(60, 1200)):
        net = rng.choice(['live', 'test'])
        kw = {}
        if rng.random() < 0.4:
            kw['secret'] = rng.choice(zero_lead(rng, 12))
        if rng.random() < 0.5:
            kw['chain'] = rbytes(rng, 32)
        depth = rng.choice([0, 1, 2, 100, 127, 128, 252, 254])
        if depth == 0:
            kw.update(parent=bytes(4), index=bytes(4))
        kw['depth'] = depth
        x = rng.random()
        if x < 0.2:
            first, priv, depth = ('seed', {'b': list(rbytes(rng, rng.choice([32, 33, 64])))}), True, 0
        elif x < 0.75:
            first, priv = ('xpriv', {'t': cps(gen.b58check(xpriv(rng, net, **kw)))}), True
        else:
            kw.pop('secret', None)
            first, priv = ('xpub', {'t': cps(gen.b58check(xpub(rng, net, **kw)))}), False
        yield walk(ctx, rng, first, priv, ctx.n(8, 14), depth)
        if priv and depth < 250:
            starts.append(first)
    for first in starts[:ctx.n(40, 600)]:
        yield diamond(rng, first)
    # a deep path
    calls = [('xpriv', {'t': cps(gen.b58check(xpriv(rng, 'test', depth=245)))})]
    for j in range(10):
        calls.append(('derive', {'of': j + 1, 'i': nat(index(rng)), 'hardened': j % 3 == 0}))
    calls.append(('reread', {'of': 11}))
    yield none, calls
    # every index of the pool, from one private and one public key
    for net in ('live', 'test'):
        for start in ('xpriv', 'xpub'):
            b = xpriv(rng, net) if start == 'xpriv' else xpub(rng, net)
            for i in INDICES:
                calls = [(start, {'t': cps(gen.b58check(b))})]
                for h in (False, True):
                    calls.append(('derive', {'of': 1, 'i': nat(i), 'hardened': h}))
                yield none, calls
    for k in range(0, 31, ctx.n(3, 1)):
        yield none, [('xpriv', {'t': cps(gen.b58check(xpriv(rng)))})] + [
            ('derive', {'of': 1, 'i': nat(i), 'hardened': h}) for i in ((1 << k) - 1, 1 << k, (1 << k) + 1) for h in (False, True)]
    # extended keys that share all but one of their parts, one after the other
    for _ in range(ctx.n(4, 60)):
        i = rng.choice([0, 1, 7, 2**31 - 1])
        sec = rng.randrange(1, N)
        pt = gen.mul(sec)
        base = dict(chain=rbytes(rng, 32), depth=3, index=bytes([0, 0, 0, 5]), parent=bytes([1, 2, 3, 4]))
        vary = [{}, {'chain': rbytes(rng, 32)}, {'depth': 4}, {'index': bytes([0, 0, 0, 6])}, {'parent': bytes([1, 2, 3, 5])}, {}]
        for priv in (True, False):
            calls = []
            for net in ('live', 'test'):
                for v in vary:
                    kw = dict(base, **v)
                    b = xpriv(rng, net, secret=sec, **kw) if priv else xpub(rng, net, pt=pt, **kw)
                    calls.append(('xpriv' if priv else 'xpub', {'t': cps(gen.b58check(b))}))
            if priv:
                calls.append(('xpriv', {'t': cps(gen.b58check(xpriv(rng, 'live', secret=N - sec, **base)))}))
            else:
                calls.append(('xpub', {'t': cps(gen.b58check(xpub(rng, 'live', pt=(pt[0], P - pt[1]), **base)))}))
            n = len(calls)
            order = list(range(1, n + 1))
            rng.shuffle(order)
            for j in order:
                for h in (False, True) if priv else (False,):
                    calls.append(('derive', {'of': j, 'i': nat(i), 'hardened': h}))
                if priv:
                    calls.append(('neuter', {'of': j}))
                calls.append(('reread', {'of': j}))
            yield none, calls
    # extended keys put together from their parts
    for _ in range(ctx.n(20, 300)):
        calls = []
        for kind in ('xpriv', 'xpub'):
            kw = {'chain': rbytes(rng, 32), 'depth': rng.choice([0, 0, 1, 9, 254])}
            kw.update({'parent': bytes(4), 'index': bytes(4)} if kw['depth'] == 0 else {'index': index(rng).to_bytes(4, 'big')})
            b = {'xpriv': xpriv, 'xpub': xpub}[kind](rng, rng.choice(['live', 'test']), **kw)
            calls += [('make', {'t': cps(gen.b58check(b)), 'priv': kind == 'xpriv', 'raw': list(b), 'short': rng.random() < 0.5}),
                      (kind, {'t': cps(gen.b58check(b))}), ('same', {'p': len(calls) + 1, 'q': len(calls) + 2}),
                      ('derive', {'of': len(calls) + 1, 'i': nat(rng.randrange(H)), 'hardened': False}), ('reread', {'of': len(calls) + 1})]
        calls += [('neuter', {'of': 1}), ('derive', {'of': 1, 'i': nat(index(rng)), 'hardened': True})]
        yield none, calls
    # zero bytes where numbers are padded: in the child, in the master key, in the fingerprint
    for n in (1, 2):
        for sec, chain, i, hardened in zero_children(rng, n):
            calls = [('xpriv', {'t': cps(gen.b58check(xpriv(rng, rng.choice(['live', 'test']), secret=sec, chain=chain, depth=2)))}),
                     ('derive', {'of': 1, 'i': nat(i), 'hardened': hardened}), ('reread', {'of': 2}), ('neuter', {'of': 2}),
                     ('derive', {'of': 2, 'i': nat(0), 'hardened': True}), ('derive', {'of': 2, 'i': nat(0), 'hardened': False}),
                     ('derive', {'of': 4, 'i': nat(0), 'hardened': False})]
            if not hardened:
                calls += [('neuter', {'of': 1}), ('derive', {'of': 8, 'i': nat(i), 'hardened': False}), ('same', {'p': 4, 'q': 9})]
            yield none, calls
        for b in zero_seeds(rng, n):
            yield none, [('seed', {'b': list(b)}), ('reread', {'of': 1}), ('derive', {'of': 1, 'i': nat(0), 'hardened': True}),
                         ('neuter', {'of': 1}), ('derive', {'of': 4, 'i': nat(1), 'hardened': False})]
    for _ in range(ctx.n(1, 4)):
        b = xpriv(rng, 'live', secret=zero_fingerprint(rng))
        yield none, [('xpriv', {'t': cps(gen.b58check(b))}), ('derive', {'of': 1, 'i': nat(7), 'hardened': False}), ('reread', {'of': 2}),
                     ('neuter', {'of': 1}), ('derive', {'of': 4, 'i': nat(7), 'hardened': False}), ('reread', {'of': 5})]
    batch = []
    for c in list(strings(ctx, ctx.rng('strings'))) + list(seeds(ctx, ctx.rng('seeds'))):
        batch.append(c)
        if len(batch) == 12:
            yield none, batch
            batch = []
    yield none, batch

"""The bundled curve and ECDSA arithmetic: C20."""
import hashlib

from bitforge.utils import ellipticcurve, numbertheory, ecdsa
from bitforge.utils.ellipticcurve import CurveFp, Point, INFINITY
from bitforge.utils import generator_secp256k1 as SECP
from drive import chunks
import gen
from gen import N, P, rint
from obs import observe, project, sint, unint, nat


def cell(f):
    """A point as a list, [] for infinity, [-1] for a failure."""
    try:
        v = f()
        if v == INFINITY:
            return []
        x, y = v.x(), v.y()
        if isinstance(x, int) and isinstance(y, int) and -2**31 < x < 2**31 and -2**31 < y < 2**31:
            return [x, y]
    except Exception:
        pass
    return [-1]


def num(f):
    try:
        v = f()
        return int(v) if isinstance(v, int) and -2**31 < v < 2**31 else -2
    except Exception:
        return -1


def curve(a):
    return CurveFp(a['p'], a['a'], a['b'])


def group(env, a):
    c = curve(a)
    plain = [Point(c, *q) if q else INFINITY for q in a['pts']]
    n = a['n']
    ordered = [Point(c, q[0], q[1], n) if q else INFINITY for q in a['pts']] if n > 0 else plain
    right = a.get('right')
    mul = (lambda k, x: x * k) if right else (lambda k, x: k * x)
    return {'k': 'table',
            'add': [[cell(lambda: x + y) for y in plain] for x in plain],
            'dbl': [cell(x.double) for x in plain],
            'mul': [[cell(lambda: mul(k, x)) if k >= 0 else [] for k in a['ks']] for x in plain],
            'omul': [[cell(lambda: mul(k, x)) for k in a['ks']] for x in ordered],
            'eq': [[num(lambda: bool(x == y)) for y in plain] for x in plain]}


def generator(a):
    return Point(curve(a), a['g'][0], a['g'][1], a['n'])


def member(env, a):
    g = generator(a)
    yes, bad = [], []
    for x in range(-2, a['p'] + 3):
        for y in range(-2, a['p'] + 3):
            try:
                if ecdsa.is_public_pair_valid(g, (x, y)):
                    yes.append([x, y])
            except Exception:
                bad.append([x, y])
    made, refused = [], 0
    for x in range(a['p']):
        for y in range(a['p']):
            try:
                q = Point(curve(a), x, y)
                made.append([q.x(), q.y()])
            except Exception:
                refused += 1
    return {'k': 'table', 'yes': yes, 'bad': bad, 'made': made, 'refused': refused}


def pair(v):
    return [int(v[0]), int(v[1])]


def lift(env, a):
    g = generator(a)

    def one(x, even):
        try:
            return pair(ecdsa.public_pair_for_x(g, x, even))
        except Exception:
            return [-1]
    return {'k': 'table', 'even': [one(x, True) for x in range(a['p'])], 'odd': [one(x, False) for x in range(a['p'])]}


def verify(env, a):
    g = generator(a)
    out = []
    for r in range(-1, a['n'] + 2):
        for s in range(-1, a['n'] + 2):
            try:
                if ecdsa.verify(g, tuple(a['q']), a['e'], (r, s)):
                    out.append([r, s])
            except Exception:
                out.append([-9, -9])
    return {'r': out}


def recover(env, a):
    g = generator(a)

    def one(s):
        try:
            return sorted(pair(q) for q in ecdsa.possible_public_pairs_for_signature(g, a['e'], (a['r'], s)))
        except Exception:
            return [[-9, -9]]
    return {'r': [one(s) for s in range(1, a['n'])]}


def sign(env, a):
    g = generator(a)
    e = int.from_bytes(bytes(a['e']), 'big')
    r = observe(lambda: tuple(ecdsa.sign(g, a['d'], e)))
    back = {'k': 'none', 'v': []}
    if r['k'] == 'list':
        q = a['d'] * g
        back = observe(lambda: bool(ecdsa.verify(g, (q.x(), q.y()), e, ecdsa.sign(g, a['d'], e))))
    return {'r': r, 'back': back, 'pub': observe(lambda: pair(ecdsa.public_pair_for_secret_exponent(g, a['d'])))}


big = lambda a: int.from_bytes(bytes(a), 'big')


def secp_point(q, order=True):
    if not q:
        return INFINITY
    if order:
        return Point(SECP.curve(), big(q[0]), big(q[1]), SECP.order())
    return Point(SECP.curve(), big(q[0]), big(q[1]))


def o_point(v):
    if v == INFINITY:
        return {'k': 'none', 'v': []}
    return project([v.x(), v.y()])


def bigsign(env, a):
    d, e = big(a['d']), big(a['e'])
    r = observe(lambda: tuple(ecdsa.sign(SECP, d, e)))
    q = gen.mul(d)
    return {'r': r, 'back': observe(lambda: bool(ecdsa.verify(SECP, q, e, ecdsa.sign(SECP, d, e))))}


OPS = {
    'group': group, 'member': member, 'lift': lift, 'verify': verify, 'recover': recover, 'sign': sign,
    'inverse': lambda env, a: {'r': [num(lambda: numbertheory.inverse_mod(x, a['m'])) for x in a['xs']]},
    'sqrt': lambda env, a: {'r': [num(lambda: numbertheory.modular_sqrt(x, a['p'])) for x in a['xs']]},
    'nonce': lambda env, a: observe(ecdsa.deterministic_generate_k, big(a['n']), big(a['d']), big(a['e']),
                                    *([] if a['h'] == 'sha256' else [getattr(hashlib, a['h'])])),
    'params': lambda env, a: observe(lambda: [SECP.curve().p(), SECP.curve().a(), SECP.curve().b(), SECP.order(), SECP.x(), SECP.y()]),
    'bigadd': lambda env, a: observe(lambda: secp_point(a['P'], False) + secp_point(a['Q'], False), proj=o_point),
    'bigmul': lambda env, a: observe(lambda: unint(a['k']) * secp_point(a['P'], a['ordered']), proj=o_point),
    'biglift': lambda env, a: observe(lambda: tuple(ecdsa.public_pair_for_x(SECP, big(a['x']), not a['odd']))),
    'bigsign': bigsign,
    'bigverify': lambda env, a: observe(lambda: bool(ecdsa.verify(SECP, (big(a['Q'][0]), big(a['Q'][1])), big(a['e']), (unint(a['r']), unint(a['s']))))),
    'bigrecover': lambda env, a: observe(lambda: sorted(tuple(q) for q in ecdsa.possible_public_pairs_for_signature(
        SECP, big(a['e']), (big(a['r']), big(a['s']))))),
    'biginverse': lambda env, a: observe(numbertheory.inverse_mod, unint(a['x']), big(a['m'])),
    'bigsqrt': lambda env, a: observe(numbertheory.modular_sqrt, big(a['x']), big(a['p'])),
}

P224 = 2**224 - 2**96 + 1
P256 = 2**256 - 2**224 + 2**192 + 2**96 - 1
ED = 2**255 - 19
N256 = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
N521 = 0x01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409
M521 = 2**521 - 1


def opt(pt):
    return [] if pt is None else [nat(pt[0]), nat(pt[1])]


def curves(ctx):
    rng = ctx.rng('curves')
    for c in ctx.cases:
        if c['op'] != 'curve':
            continue
        base = {'p': c['p'], 'a': c['a'], 'b': c['b'], 'g': [], 'n': 0}
        pts = [list(q) for q in c['pts']]
        rng.shuffle(pts)
        n = c['n']
        if c['p'] > 13 and not ctx.thorough:
            pts = pts[:12]
        ks = list(range(0, 2 * n + 3)) if n < 20 else sorted({0, 1, 2, 3, 5, n - 1, n, n + 1, 2 * n} | set(rng.sample(range(4 * n), 12)))
        a = dict(base, pts=[[]] + pts, ks=ks, right=rng.random() < 0.5)
        if rng.random() < 0.3:      # a and b written differently
            a['a'] -= c['p']
        if rng.random() < 0.2:
            a['b'] += c['p']
        if c['prime']:
            a['n'] = n
            a['ks'] = ks + [-1, -2, -n, 1 - n, -n - 1, -3 * n - 2]
        yield 'group', a
        if c['prime'] and pts:
            for k in range(1 if c['p'] > 7 else 2):
                g = dict(base, g=pts[k % len(pts)], n=n)
                if n > 2:
                    yield 'lift', g
                yield 'member', g
            for _ in range(ctx.n(2, 8)):
                d, e = rng.randrange(1, n), rng.getrandbits(256) if rng.random() < 0.8 else rng.choice([0, 1, 2**256 - 1, 2**255, n])
                if n > 2:
                    yield 'sign', dict(base, g=rng.choice(pts), n=n, d=d, e=nat(e))


def small_ecdsa(ctx):
    rng = ctx.rng('ecdsa')
    for c in ctx.cases:
        if c['op'] != 'ecdsa':
            continue
        base = {k: c[k] for k in ('p', 'a', 'b', 'n', 'g')}
        yield 'verify', dict(base, q=c['q'], e=c['e'])
        if c['d'] == 1:
            for r in range(1, c['n']):
                yield 'recover', dict(base, e=c['e'], r=r)
        if c['e'] % 3 == 0:
            yield 'sign', dict(base, d=c['d'], e=nat(rng.getrandbits(256)))
            yield 'verify', dict(base, q=c['q'], e=c['e'] + c['n'] * rng.randrange(1, 50))


def curve_twins(ctx):
    """Calls in a row that agree in all but one argument: the curve, the generator, the secret or the message."""
    rng = ctx.rng('curve twins')
    cs = [c for c in ctx.cases if c['op'] == 'curve' and c['prime'] and c['n'] > 4 and len(c['pts']) > 3]
    for _ in range(ctx.n(6, 60)):
        e, calls = rng.getrandbits(256), []
        for c in rng.sample(cs, min(4, len(cs))):
            base = {'p': c['p'], 'a': c['a'], 'b': c['b'], 'n': c['n']}
            gs = [list(g) for g in rng.sample(c['pts'], 3)]
            for g in gs[:2]:
                for d in (2, 3):
                    calls.append(('sign', dict(base, g=g, d=d, e=nat(e))))
            calls.append(('sign', dict(base, g=gs[0], d=2, e=nat(e ^ (1 << 255)))))
            for g in gs[:2]:
                for q in gs[1:]:
                    calls.append(('verify', dict(base, g=g, q=q, e=2)))
                calls.append(('recover', dict(base, g=g, e=2, r=1)))
                calls.append(('recover', dict(base, g=g, e=3, r=1)))
            calls.append(('lift', dict(base, g=gs[0])))
        yield {'none': 0}, calls
    xs = list(range(1, 12))
    yield {'none': 0}, [('inverse', {'m': m, 'xs': xs}) for m in (13, 17, 23, 29)] + [('sqrt', {'p': p, 'xs': xs}) for p in (13, 17, 23, 29, 41)]
    d, e = rng.randrange(1, 2**60), rng.getrandbits(256)
    yield {'none': 0}, [('nonce', {'h': h, 'n': nat(n), 'd': nat(dd), 'e': nat(ee)}) for h in ('sha256', 'sha1', 'sha512')
                        for n in (N, N256, 2**61 - 1) for dd in (d, d + 1) for ee in (e >> 96, (e >> 96) + 1)]
    yield {'none': 0}, [('bigsign', {'d': nat(dd), 'e': nat(ee)}) for dd in (d, d + 1) for ee in (e, e ^ 1, e ^ (1 << 255))]


def numbers(ctx):
    rng = ctx.rng('numbers')
    for m in list(range(2, 60)) + [97, 101, 127, 128, 169, 210, 251]:
        yield 'inverse', {'m': m, 'xs': list(range(-m - 1, 2 * m + 2))}
    primes = [p for p in range(3, 200 if not ctx.thorough else 800) if all(p % k for k in range(2, p))] + [257, 641, 769, 1153]
    for p in primes:
        xs = list(range(0, p + 3)) if p < 120 or ctx.thorough else sorted(rng.sample(range(p), 60))
        yield 'sqrt', {'p': p, 'xs': xs + [2 * p + 1, p * 3, p + 4]}
    for m in [N, P, P256, N256, N521, P224, 65537, 2**61 - 1]:
        for x in [1, 2, 3, m - 1, m - 2, m, 0, m + 1, 2 * m, 2 * m + 5, -1, -2, -m, -m - 1, m // 2, m // 2 + 1] + [rint(rng, 600) for _ in range(ctx.n(12, 200))]:
            if x:
                yield 'biginverse', {'x': sint(x), 'm': nat(m)}
            else:
                yield 'biginverse', {'x': {'neg': 0, 'v': []}, 'm': nat(m)}
    for p in [P, P224, P256, ED, N, N256, M521, 65537, 12289, 40961, 2**61 - 1, 998244353, 3 * 2**30 + 1, 13 * 2**20 + 1, 7 * 2**26 + 1]:
        xs = [0, 1, 2, 3, 4, 7, p - 1, p - 2, p - 4, p // 2, 9, 16] + [rng.randrange(p) for _ in range(ctx.n(10, 100))]
        xs += [pow(rng.randrange(p), 2, p) for _ in range(ctx.n(10, 100))]
        g = 2
        while pow(g, (p - 1) // 2, p) != p - 1:
            g += 1
        e = 0
        while (p - 1) % (2 << e) == 0:
            e += 1
        # elements of order 2^j: every path through the loop
        z = pow(g, (p - 1) >> e, p)
        for j in range(min(e, 40)):
            xs.append(pow(z, 1 << j, p))
        for x in xs:
            yield 'bigsqrt', {'p': nat(p), 'x': nat(x)}
    # orders that fill the bytes of the hash but not their bits: the generator is often asked again
    for n in [2**255 + 95, 2**511 + 111, 2**159 + 33, 2**256 + 297, 2**248 + 7, N, N256, N521, P224, 2**255 - 19, 5, 7, 13, 127, 251, 257, 65521, 65537, 2**61 - 1, 2**89 - 1, M521, 2**127 - 1, 0x4000000000000000000020108A2E0CC0D99F8A5EF]:
        for j in range(ctx.n(8, 100)):
            d = rng.choice([1, n - 1, 2]) if j < 2 else rng.randrange(1, n)
            e = rng.choice([0, 1, 2**256 - 1, 2**255, min(n, 2**256 - 1), min(n - 1, 2**256 - 1)]) if j % 3 == 0 else rng.getrandbits(256)
            yield 'nonce', {'h': 'sha256', 'n': nat(n), 'd': nat(d), 'e': nat(e)}
            if j % 3 == 0:
                h, w = rng.choice([('sha1', 160), ('sha512', 512)])
                yield 'nonce', {'h': h, 'n': nat(n), 'd': nat(d), 'e': nat(rng.choice([0, 2**w - 1, rng.getrandbits(w)]))}
    # the published vectors
    yield 'nonce', {'h': 'sha256', 'n': nat(0x4000000000000000000020108A2E0CC0D99F8A5EF), 'd': nat(0x09A4D6792295A7F730FC3F2B49CBC0F62E862272F),
                    'e': nat(0xAF2BDBE1AA9B6EC1E2ADE1D694F41FC71A831D0268E9891562113D8A62ADD1BF)}


def secp(ctx):
    rng = ctx.rng('secp')
    yield 'params', {'x': 0}
    ks = [1, 2, 3, N - 1, N - 2, N // 2, N // 2 + 1] + [rng.randrange(1, N) for _ in range(6)]
    pts = [gen.mul(k) for k in ks]
    for i, p in enumerate(pts):
        for q in [None, p, (p[0], P - p[1])] + rng.sample(pts, 4):
            yield 'bigadd', {'P': opt(p), 'Q': opt(q)}
            yield 'bigadd', {'P': opt(q), 'Q': opt(p)}
    yield 'bigadd', {'P': [], 'Q': []}
    mults = [0, 1, 2, 3, 4, 5, 7, 8, N - 1, N, N + 1, N // 2, N // 2 + 1, 2 * N, 2 * N + 3, 2**255, 2**256 - 1, 2**128, 3 << 254]
    mults += [-1, -2, -N, 1 - N] + [rng.randrange(N) for _ in range(ctx.n(20, 400))] + [rint(rng, 256) for _ in range(ctx.n(10, 200))]
    for k in mults:
        yield 'bigmul', {'k': sint(k), 'P': opt(gen.G), 'ordered': True}
        yield 'bigmul', {'k': sint(k), 'P': opt(rng.choice(pts)), 'ordered': True}
        if k >= 0:
            yield 'bigmul', {'k': sint(k), 'P': opt(rng.choice(pts)), 'ordered': False}
        yield 'bigmul', {'k': sint(k), 'P': [], 'ordered': True}
    for x in list(range(0, 30)) + [P - k for k in range(1, 20)] + [q[0] for q in pts] + [rng.randrange(P) for _ in range(30)]:
        for odd in (True, False):
            yield 'biglift', {'x': nat(x), 'odd': odd}
    es = [0, 1, N - 1, N, N + 1, 2**256 - 1, 2**255]
    for j in range(ctx.n(24, 400)):
        d = [1, 2, N - 1, N - 2][j] if j < 4 else rng.choice(gen.secrets(rng, 3))
        e = es[j] if j < len(es) else rng.getrandbits(256)
        yield 'bigsign', {'d': nat(d), 'e': nat(e)}
        k = rng.randrange(1, N)
        r = gen.mul(k)[0] % N
        s = pow(k, -1, N) * (e + r * d) % N
        q = gen.mul(d)
        ver = lambda Q, ee, rr, ss: ('bigverify', {'Q': opt(Q), 'e': nat(ee), 'r': sint(rr), 's': sint(ss)})
        yield ver(q, e, r, s)
        yield ver(q, e, r, N - s)
        bad = [(q, e, r, s + N), (q, e, r + N, s), (q, e, -r, s), (q, e, r, -s), (q, e, r, 0), (q, e, 0, s), (q, e, N, s), (q, e, r, N), (q, e, s, r),
               (q, e + 1, r, s), (q, e + N, r, s), ((q[0], P - q[1]), e, r, s), (gen.G, e, r, s), (q, e, (r + 1) % N, s), (q, e, r, (s + 1) % N), (q, e, N - r, s)]
        for b in bad if j < 2 or ctx.thorough else rng.sample(bad, 3):
            yield ver(*b)
        yield 'bigrecover', {'e': nat(e), 'r': nat(r), 's': nat(s)}
    # u1 G = u2 Q, and u1 G = -u2 Q: doubling and infinity inside verify
    for d in (1, 2, 5, N - 3):
        r = gen.mul(77)[0] % N
        e = r * d % N
        yield 'bigverify', {'Q': opt(gen.mul(d)), 'e': nat(e), 'r': sint(r), 's': sint(12345)}
        yield 'bigverify', {'Q': opt(gen.mul(d)), 'e': nat(N - e), 'r': sint(r), 's': sint(12345)}
        k = 77
        s = pow(k, -1, N) * (e + r * d) % N
        yield 'bigverify', {'Q': opt(gen.mul(d)), 'e': nat(e), 'r': sint(r), 's': sint(s)}
    # r small enough that r + n is below p; and r for which there is no point
    r = 1
    seen = 0
    while seen < ctx.n(8, 60):
        lifts = [x for x in (r, r + N) if x < P and gen.lift(x, 0) is not None]
        yield 'bigrecover', {'e': nat(rng.getrandbits(256)), 'r': nat(r), 's': nat(rng.randrange(1, N))}
        seen += 1
        r += 1 if seen < 5 else rng.randrange(1, (P - N) // 80)
    yield 'bigrecover', {'e': nat(0), 'r': nat(gen.G[0]), 's': nat(1)}
    yield 'bigrecover', {'e': nat(1), 'r': nat(gen.G[0]), 's': nat(1)}
    yield 'bigrecover', {'e': nat(N - 1), 'r': nat(gen.G[0]), 's': nat(N - 1)}


def sessions(ctx):
    none = {'none': 0}
    yield from curve_twins(ctx)
    yield from chunks(curves(ctx), 4, none)
    yield from chunks(secp(ctx), 6, none)
    yield from chunks(small_ecdsa(ctx), 8, none)
    yield from chunks(numbers(ctx), 20, none)

"""Keys and addresses: C01 .. C05."""
import os
import random
import subprocess
import sys

import bitforge
from bitforge import PrivateKey, PublicKey, Address, Script, networks
from bitforge.transaction import AddressInput
from drive import chunks
import gen
from gen import N, P, rbytes, rint, mutate_text
from obs import observe, project, sint, unint, untext, cps

LIVE, TEST = cps('livenet'), cps('testnet')
NETS = [LIVE, TEST]


def net_arg(a):
    """Networks are given by name."""
    return untext(a)


def o_priv(k):
    if not isinstance(k, PrivateKey):
        return {'k': 'other', 'v': []}
    return {'k': 'obj', 't': 'PrivateKey', 'f': {
        'secret': project(k.secret), 'network': project(k.network.name), 'compressed': project(k.compressed),
        'bytes': observe(k.to_bytes), 'hex': observe(k.to_hex), 'wif': observe(k.to_wif)}}


def o_pub(k):
    if not isinstance(k, PublicKey):
        return {'k': 'other', 'v': []}
    return {'k': 'obj', 't': 'PublicKey', 'f': {
        'x': project(k.pair[0]), 'y': project(k.pair[1]), 'network': project(k.network.name),
        'compressed': project(k.compressed), 'bytes': observe(k.to_bytes), 'hex': observe(k.to_hex)}}


def o_addr(a):
    if not isinstance(a, Address):
        return {'k': 'other', 'v': []}
    return {'k': 'obj', 't': 'Address', 'f': {
        'phash': project(a.phash), 'network': project(a.network.name), 'type': project(a.type.value),
        'bytes': observe(a.to_bytes), 'hex': observe(a.to_hex), 'string': observe(a.to_string)}}


def o_list(proj):
    return lambda v: {'k': 'list', 'items': [proj(x) for x in v]}


def addr_type(a):
    """Type from its text; a text that names no type is passed as it is."""
    t = untext(a)
    for x in Address.Type:
        if x.value == t:
            return x
    return t


class EdgeRandom:
    """Makes the system random number generator return the given values first."""

    def __init__(self, values):
        self.values = list(values)

    def __enter__(self):
        self.old = random.SystemRandom.getrandbits
        rest = random.Random(7)

        def getrandbits(rng, k):
            if self.values:
                v = self.values.pop(0)
                return v & ((1 << k) - 1)
            return rest.getrandbits(k)
        random.SystemRandom.getrandbits = getrandbits

    def __exit__(self, *exc):
        random.SystemRandom.getrandbits = self.old


def priv_random(env, a):
    with EdgeRandom([int.from_bytes(bytes(v), 'big') for v in a['draws']]):
        return observe(PrivateKey, proj=o_priv)


FRESH = """
import sys
from bitforge import PrivateKey, HDPrivateKey
for _ in range(int(sys.argv[2])):
    k = PrivateKey() if sys.argv[1] == 'key' else HDPrivateKey.from_seed()
    print(k.to_wif() if sys.argv[1] == 'key' else k.to_string())
"""


def run_python(program, args):
    """The words a program that uses the library writes, run in a process of its own."""
    out = subprocess.run([sys.executable, '-c', program] + args, capture_output=True, text=True, timeout=100,
                         env=dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p)))
    if out.returncode:
        raise RuntimeError(out.stderr[-300:])
    return out.stdout.split()


def fresh_process(kind, n):
    """The texts of n keys made up in a process of its own."""
    return run_python(FRESH, [kind, str(n)])


def priv_fresh(env, a):
    def make():
        ks = [PrivateKey() for _ in range(a['n'])]
        for _ in range(a['procs']):
            ks += [PrivateKey.from_wif(t) for t in fresh_process('key', a['m'])]
        return ks
    return observe(make, proj=o_list(o_priv), limit=110)


def priv(a):
    return PrivateKey(unint(a['n']), net_arg(a['net']), a['comp'])


def priv_back(env, a):
    k = priv(a)
    return observe(lambda: [PrivateKey.from_bytes(k.to_bytes(), k.network, k.compressed),
                            PrivateKey.from_hex(k.to_hex(), k.network, k.compressed),
                            PrivateKey.from_wif(k.to_wif())], proj=o_list(o_priv))


TXID = '11' * 32


def pub_of_priv(env, a):
    k = priv(a)

    def script():
        inp = AddressInput.create(TXID, 0, k.to_address())
        return inp.sign([k], b'\x22' * 32).script.instructions[1].data
    return {'r': observe(k.to_public_key, proj=o_pub),
            'r2': observe(PublicKey.from_private_key, k, proj=o_pub),
            'addr': observe(k.to_address, proj=o_addr),
            'script': observe(script) if a['script'] else {'k': 'none', 'v': []}}


def addr_of_pub(env, a):
    k = PublicKey.from_bytes(bytes(a['b']), net_arg(a['net']))
    ways = [lambda: k.to_address(), lambda: Address.from_public_key(k)]
    if 'n' in a:
        p = PrivateKey(unint(a['n']), net_arg(a['net']), len(a['b']) == 33)
        ways.append(lambda: p.to_address())
    return {'k': 'list', 'items': [observe(w, proj=o_addr) for w in ways]}


def addr_back(env, a):
    x = Address(bytes(a['b']), net_arg(a['net']), addr_type(a['type']))
    return observe(lambda: [Address.from_bytes(x.to_bytes()), Address.from_hex(x.to_hex()),
                            Address.from_string(x.to_string())], proj=o_list(o_addr))


OPS = {
    'priv_new': lambda env, a: observe(lambda: priv(a), proj=o_priv),
    'priv_bytes': lambda env, a: observe(PrivateKey.from_bytes, bytes(a['b']), net_arg(a['net']), a['comp'], proj=o_priv),
    'priv_hex': lambda env, a: observe(PrivateKey.from_hex, untext(a['t']), net_arg(a['net']), a['comp'], proj=o_priv),
    'priv_wif': lambda env, a: observe(PrivateKey.from_wif, untext(a['t']), proj=o_priv),
    'priv_random': priv_random,
    'priv_fresh': priv_fresh,
    'priv_back': priv_back,
    'pub_of_priv': pub_of_priv,
    'pub_new': lambda env, a: observe(PublicKey, (unint(a['x']), unint(a['y'])), net_arg(a['net']), a['comp'], proj=o_pub),
    'pub_bytes': lambda env, a: observe(PublicKey.from_bytes, bytes(a['b']), net_arg(a['net']), proj=o_pub),
    'pub_hex': lambda env, a: observe(PublicKey.from_hex, untext(a['t']), net_arg(a['net']), proj=o_pub),
    'addr_new': lambda env, a: observe(lambda: Address(bytes(a['b']), net_arg(a['net']), addr_type(a['type'])), proj=o_addr),
    'addr_bytes': lambda env, a: observe(Address.from_bytes, bytes(a['b']), proj=o_addr),
    'addr_hex': lambda env, a: observe(Address.from_hex, untext(a['t']), proj=o_addr),
    'addr_string': lambda env, a: observe(Address.from_string, untext(a['t']), proj=o_addr),
    'addr_of_pub': addr_of_pub,
    'addr_of_script': lambda env, a: observe(lambda: Address.from_script(Script.from_bytes(bytes(a['b'])), net_arg(a['net'])),
                                             proj=o_addr),
    'addr_back': addr_back,
}


def c01(ctx):
    rng = ctx.rng('secrets')
    for s in gen.secrets(rng, ctx.n(250, 4000)):
        order = [(n, c) for n in NETS for c in (True, False)]
        rng.shuffle(order)
        for net, comp in order if ctx.thorough or rng.random() < 0.5 else order[:2]:
            key = {'n': sint(s), 'net': net, 'comp': comp}
            yield 'priv_new', key
            yield 'priv_back', key
        b = s.to_bytes(32, 'big')
        net, comp = rng.choice(order)
        yield 'priv_bytes', {'b': list(b), 'net': net, 'comp': comp}
        yield 'priv_hex', {'t': cps(b.hex()), 'net': net, 'comp': comp}
        yield 'priv_hex', {'t': cps(b.hex().upper()), 'net': net, 'comp': comp}
        wif = {LIVE[0]: 128, TEST[0]: 239}[net[0]]
        yield 'priv_wif', {'t': cps(gen.b58check(bytes([wif]) + b + (b'\1' if comp else b'')))}
    for c in ctx.cases:
        if c['op'] == 'payload':
            yield 'priv_wif', {'t': c['t']}


def c02(ctx):
    rng = ctx.rng('domain')
    B32 = lambda n: n.to_bytes(32, 'big')
    edge = [0, 1, 2, N - 2, N - 1, N, N + 1, N + 2, P - 1, P, P + 1, 2**255, 2**256 - 1]
    edge += [N + rint(rng, 128) for _ in range(10)] + [rng.randrange(N, 2**256) for _ in range(20)]
    names = [LIVE, TEST] + [cps(x) for x in ('mainnet', '', 'Livenet', 'livenet ', 'regtest', 'default', 'live')]
    for n in edge + [2**256, 2**256 + 1, 2**256 + 5, 2**257, 2**300, -1, -2, -5, -N, 1 - N, -2**256]:
        for net in names:
            yield 'priv_new', {'n': sint(n), 'net': net, 'comp': rng.random() < 0.5}
    for n in edge:
        for net in names[:3]:
            for comp in (True, False):
                yield 'priv_bytes', {'b': list(B32(n)), 'net': net, 'comp': comp}
                yield 'priv_hex', {'t': cps(B32(n).hex()), 'net': net, 'comp': comp}
    # every length
    for ln in list(range(0, 70)) + [128, 255, 256]:
        for v in (1, 0x7f, 0xff):
            b = bytes(max(0, ln - 1)) + bytes([v]) if ln else b''
            yield 'priv_bytes', {'b': list(b), 'net': LIVE, 'comp': True}
            yield 'priv_hex', {'t': cps(b.hex()), 'net': TEST, 'comp': False}
        yield 'priv_bytes', {'b': list(rbytes(rng, ln)), 'net': LIVE, 'comp': True}
    good = B32(0x1234567890abcdef << 64 | 1).hex()
    for bad in [good[:-1], good + '0', good[:-1] + 'g', good[:-1] + ' ', ' ' + good[:-1], '0x' + good[2:], good[:10] + '\n' + good[11:],
                good[:5] + 'é' + good[6:], good[:5] + '٣' + good[6:], good[:-2] + '１１', '', '0', good + '\n', good + ' ', 'z' * 64]:
        yield 'priv_hex', {'t': cps(bad), 'net': LIVE, 'comp': True}
    # WIF: every prefix byte, lengths, endings, out-of-range secrets
    secrets = [1, N - 1, rng.randrange(1, N)]
    for prefix in range(256):
        for tail in (b'', b'\1'):
            yield 'priv_wif', {'t': cps(gen.b58check(bytes([prefix]) + B32(rng.choice(secrets)) + tail))}
    for prefix in (128, 239):
        for n in edge:
            for tail in (b'', b'\1'):
                yield 'priv_wif', {'t': cps(gen.b58check(bytes([prefix]) + B32(n) + tail))}
        for last in range(256):
            yield 'priv_wif', {'t': cps(gen.b58check(bytes([prefix]) + B32(secrets[2]) + bytes([last])))}
        for ln in list(range(0, 45)) + [64, 78]:
            for _ in range(2):
                b = bytes([prefix]) + rbytes(rng, ln)
                yield 'priv_wif', {'t': cps(gen.b58check(b))}
                if ln:
                    yield 'priv_wif', {'t': cps(gen.b58check(b[:-1] + b'\1'))}
        for n in (1, N - 1, N, 0):
            for head in (b'\0', b'\1', b'\0\0'):
                yield 'priv_wif', {'t': cps(gen.b58check(bytes([prefix]) + head + B32(n)))}
                yield 'priv_wif', {'t': cps(gen.b58check(bytes([prefix]) + head + B32(n) + b'\1'))}
            for tail in (b'\0', b'\2', b'\1\1', b'\1\0', b'\0\1', b'\x81', b'\xff'):
                yield 'priv_wif', {'t': cps(gen.b58check(bytes([prefix]) + B32(n) + tail))}
    for _ in range(ctx.n(60, 1500)):
        t = gen.b58check(bytes([rng.choice([128, 239])]) + B32(rng.randrange(1, N)) + rng.choice([b'', b'\1']))
        for m in mutate_text(rng, t, 6):
            yield 'priv_wif', {'t': cps(m)}
    for t in ['', '1', '5', 'K', 'é', '5' * 51, 'L' * 52, ' ', '\n']:
        yield 'priv_wif', {'t': cps(t)}
    for c in ctx.cases:
        if c['op'] == 'payload':
            yield 'priv_wif', {'t': c['t']}
    # what the random number generator may return
    big = lambda n: list(n.to_bytes(40, 'big'))
    for first in [0, 1, N - 3, N - 2, N - 1, N, N + 1, 2**256 - 1, 2**256 - 2, 2**255]:
        yield 'priv_random', {'draws': [big(first)]}
        yield 'priv_random', {'draws': [big(2**256 - 1), big(first)]}
        yield 'priv_random', {'draws': [big(2**256 - 1), big(N), big(N - 1), big(first)]}
    for _ in range(30):
        yield 'priv_random', {'draws': []}
    yield 'priv_fresh', {'n': 100, 'procs': 2, 'm': 30}


def c03(ctx):
    rng = ctx.rng('pub')
    secs = list(range(1, 40)) + gen.secrets(rng, ctx.n(60, 1500))
    secs += gen.patterned(rng, ctx.n(6, 1), ctx.n(40, 1000))
    secs += [(1 << k) for k in range(0, 256, ctx.n(5, 1))] + [N - k for k in range(1, ctx.n(20, 80))]
    # secrets whose public point has a coordinate that starts with a zero byte
    found, k, pt = 0, 1000, gen.mul(1000)
    while found < ctx.n(16, 100):
        if pt[0] >> 248 == 0 or pt[1] >> 248 == 0:
            secs.append(k)
            found += 1
        k, pt = k + 1, gen.add(pt, gen.G)
    for j, s in enumerate(secs):
        order = [(n, c) for n in NETS for c in (True, False)]
        rng.shuffle(order)
        for net, comp in order[:4 if j % 5 == 0 else 2]:
            yield 'pub_of_priv', {'n': sint(s), 'net': net, 'comp': comp, 'script': j % 6 == 0}


def non_square_x(rng):
    while True:
        x = rng.randrange(P)
        if gen.lift(x, 0) is None:
            return x


def c04(ctx):
    rng = ctx.rng('points')
    pts = [gen.G, (gen.G[0], P - gen.G[1])] + [gen.mul(rng.randrange(1, N)) for _ in range(ctx.n(40, 600))]
    # abscissas at the ends of the field and with leading zero bytes
    for x in list(range(0, 60)) + [P - k for k in range(1, 40)] + [rint(rng, 200) for _ in range(20)]:
        y = gen.lift(x, rng.random() < 0.5)
        if y is not None:
            pts.append((x, y))
    # y with a leading zero byte: points with a given ordinate
    cube = []
    for y in range(1, 400):
        # x^3 = y^2 - 7 ; p = 1 mod 3 so only a third of the values are cubes: p = 7 mod 9 -> root = v^((p+2)/9)
        v = (y * y - 7) % P
        x = pow(v, (P + 2) // 9, P)
        if pow(x, 3, P) == v:
            cube.append((x, y))
    pts += cube[:12]
    nets = NETS + [cps('nonet')]
    b = lambda n: n.to_bytes(32, 'big')
    seen = 0
    for pt in pts:
        x, y = pt
        for comp in (True, False):
            s = gen.sec(pt, comp)
            yield 'pub_bytes', {'b': list(s), 'net': rng.choice(NETS)}
            if rng.random() < ctx.n(0.3, 1):
                yield 'pub_hex', {'t': cps(s.hex() if rng.random() < 0.5 else s.hex().upper()), 'net': rng.choice(NETS)}
            yield 'pub_new', {'x': sint(x), 'y': sint(y), 'net': rng.choice(NETS), 'comp': comp}
        # the other parity, wrong prefixes and lengths
        s, u = gen.sec(pt, True), gen.sec(pt, False)
        yield 'pub_bytes', {'b': list(bytes([5 - s[0]]) + s[1:]), 'net': LIVE}
        bad = [bytes([rng.choice([0, 1, 4, 5, 6, 7, 8, 130, 255])]) + s[1:], bytes([rng.choice([0, 2, 3, 5, 6, 7])]) + u[1:],
               s[:-1], s + b'\0', u[:-1], u + b'\0', u[:33], s + u[33:], u[:64], b'\4' + s[1:], s[1:], u[1:],
               u[:33] + b(P - y)[:31] + bytes([(P - y) % 256 ^ 1]), u[:33] + b((y + 1) % P), b'\4' + b((x + 1) % P) + b(y),
               bytes([6 + (y & 1)]) + u[1:]]
        for x2 in bad if seen < 25 or ctx.thorough else rng.sample(bad, 3):
            yield 'pub_bytes', {'b': list(x2), 'net': LIVE}
        seen += 1
        for X, Y in [(x, y + P), (x + P, y), (-x, y), (x, -y), (x, P - y), (x, y + 1), (x + 1, y), (y, x), (x, y - P), (x - P, y)]:
            if seen < 25 or rng.random() < 0.3:
                yield 'pub_new', {'x': sint(X), 'y': sint(Y), 'net': LIVE, 'comp': rng.random() < 0.5}
        yield 'pub_new', {'x': sint(x), 'y': sint(y), 'net': nets[2], 'comp': True}
        yield 'pub_bytes', {'b': list(s), 'net': nets[2]}
    # x at or above the field prime: congruent to a point, but not canonical
    for x in range(0, 2**256 - P if ctx.thorough else 200):
        if x > 3000:
            break
        y = gen.lift(x, 0)
        if y is not None and x + P < 2**256:
            for pre in (2, 3):
                yield 'pub_bytes', {'b': list(bytes([pre]) + b(x + P)), 'net': LIVE}
            yield 'pub_bytes', {'b': list(b'\4' + b(x + P) + b(y)), 'net': LIVE}
    for x, y in cube[:8]:
        yield 'pub_bytes', {'b': list(b'\4' + b(x) + b(y + P)), 'net': LIVE}
    # x that is no abscissa
    for _ in range(ctx.n(60, 1000)):
        x = non_square_x(rng)
        yield 'pub_bytes', {'b': list(bytes([rng.choice([2, 3])]) + b(x)), 'net': LIVE}
        yield 'pub_bytes', {'b': list(b'\4' + b(x) + b(rng.randrange(P))), 'net': LIVE}
    for pre in range(256):
        yield 'pub_bytes', {'b': list(bytes([pre]) + b(gen.G[0])), 'net': LIVE}
        yield 'pub_bytes', {'b': list(bytes([pre]) + b(gen.G[0]) + b(gen.G[1])), 'net': TEST}
    for ln in range(0, 140):
        for pre in (2, 3, 4):
            d = (bytes([pre]) + b(gen.G[0]) + b(gen.G[1]) + bytes(80))[:ln]
            yield 'pub_bytes', {'b': list(d), 'net': LIVE}
            yield 'pub_bytes', {'b': list((bytes([pre]) + bytes(200))[:ln]), 'net': LIVE}
    for x, y in [(0, 0), (0, 7), (1, 1), (P, 0), (0, P), (P, P), (P - 1, P - 1), (2**256, 2**256), (2**256 - 1, 0), (gen.G[0], 0)]:
        for s1 in (1, -1):
            yield 'pub_new', {'x': sint(s1 * x), 'y': sint(y), 'net': LIVE, 'comp': True}
    h = gen.sec(gen.G, True).hex()
    for t in [h[:-1], h + '0', h[:-1] + 'g', '0x' + h, ' ' + h, h + '\n', h[:-2] + 'éé', '', '0', h[:4] + '１' + h[5:], h + '00', h[:-2]]:
        yield 'pub_hex', {'t': cps(t), 'net': LIVE}


def c05(ctx):
    rng = ctx.rng('addr')
    PK, SH = cps('pubkeyhash'), cps('scripthash')
    hashes = [bytes(20), b'\xff' * 20, bytes(19) + b'\1', b'\1' + bytes(19), bytes(range(20))]
    hashes += [rbytes(rng, 20) for _ in range(ctx.n(60, 1500))]
    for h in hashes:
        order = [(n, t) for n in NETS for t in (PK, SH)]
        rng.shuffle(order)
        for net, typ in order:
            yield 'addr_new', {'b': list(h), 'net': net, 'type': typ}
            yield 'addr_back', {'b': list(h), 'net': net, 'type': typ}
        v = rng.choice([0, 5, 111, 196])
        raw = bytes([v]) + h
        yield 'addr_bytes', {'b': list(raw)}
        yield 'addr_hex', {'t': cps(raw.hex().upper() if rng.random() < 0.5 else raw.hex())}
        t = gen.b58check(raw)
        yield 'addr_string', {'t': cps(t)}
        for m in mutate_text(rng, t, 3):
            yield 'addr_string', {'t': cps(m)}
    for v in range(256):
        raw = bytes([v]) + rng.choice(hashes)
        yield 'addr_bytes', {'b': list(raw)}
        yield 'addr_hex', {'t': cps(raw.hex())}
        yield 'addr_string', {'t': cps(gen.b58check(raw))}
    for ln in range(0, 45):
        for net, typ in [(LIVE, PK), (TEST, SH)]:
            if ln != 20:
                yield 'addr_new', {'b': list(rbytes(rng, ln)), 'net': net, 'type': typ}
        for v in (0, 5, 111, 196):
            raw = bytes([v]) + rbytes(rng, ln)
            yield 'addr_bytes', {'b': list(raw)}
            yield 'addr_hex', {'t': cps(raw.hex())}
            yield 'addr_string', {'t': cps(gen.b58check(raw))}
    yield 'addr_bytes', {'b': []}
    for typ in ('PublicKey', 'Script', '', 'witness', 'pubkey', 'Type.PublicKey'):
        yield 'addr_new', {'b': list(hashes[4]), 'net': LIVE, 'type': cps(typ)}
    for net in ('mainnet', '', 'x', 'LIVENET'):
        yield 'addr_new', {'b': list(hashes[4]), 'net': cps(net), 'type': PK}
        yield 'addr_new', {'b': list(hashes[4]), 'net': cps(net), 'type': SH}
    hexs = (b'\0' + hashes[4]).hex()
    for t in [hexs[:-1], hexs + '0', hexs[:-1] + 'g', '0x' + hexs[2:], ' ' + hexs[1:], hexs + '\n', hexs[:3] + 'é' + hexs[4:], '', hexs + '00']:
        yield 'addr_hex', {'t': cps(t)}
    for t in ['', '1', 'é', '1' * 34, '0', 'O', '3', 'm', ' ', '3QJmnh']:
        yield 'addr_string', {'t': cps(t)}
    for c in ctx.cases:
        if c['op'] == 'payload':
            yield 'addr_string', {'t': c['t']}
    # of keys
    for j in range(ctx.n(40, 600)):
        s = rng.randrange(1, N)
        pt = gen.mul(s)
        order = [(n, c) for n in NETS for c in (True, False)]
        rng.shuffle(order)
        for net, comp in order[:ctx.n(3, 4)]:
            a = {'b': list(gen.sec(pt, comp)), 'net': net}
            if j % 3 == 0:
                a['n'] = sint(s)
            yield 'addr_of_pub', a
    # of scripts
    for ln in [0, 1, 2, 10, 50, 55, 56, 63, 64, 65, 100, 119, 120, 250, 255, 256, 520, 521, 1000, 10001, 65535, 65536, 70000]:
        for _ in range(ctx.n(2, 10) if ln < 10000 else 1):
            body = bytes(rng.choice([0, 79, 81, 96, 97, 118, 135, 172, 255]) for _ in range(ln))
            for net in NETS:
                yield 'addr_of_script', {'b': list(body), 'net': net}


def sessions(ctx):
    return chunks({'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05}[ctx.prop](ctx), 25)

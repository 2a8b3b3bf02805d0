"""Units: C21."""
from bitforge import Unit
from drive import chunks
from obs import observe, project, nat, guarded

MAX = 21000000 * 10**8


def o_unit(u):
    if not isinstance(u, Unit):
        return {'k': 'other', 'v': []}
    return {'k': 'unit', 'satoshis': project(u.satoshis), 'bits': project(u.bits), 'mbtc': project(u.mbtc), 'btc': project(u.btc)}


def num(a):
    return int.from_bytes(bytes(a), 'big')


def units(env, a):
    out = []
    for x in a['s']:
        s = num(x)
        u = observe(lambda: Unit(satoshis=s), proj=o_unit)
        out.append({'u': u,
                    'bits': observe(lambda: Unit(bits=Unit(satoshis=s).bits), proj=o_unit),
                    'mbtc': observe(lambda: Unit(mbtc=Unit(satoshis=s).mbtc), proj=o_unit),
                    'btc': observe(lambda: Unit(btc=Unit(satoshis=s).btc), proj=o_unit)})
    return {'r': out}


def whole(env, a):
    """Any whole number of satoshis, also negative and beyond what exists."""
    out = []
    for x in a['s']:
        s = -num(x['v']) if x['neg'] else num(x['v'])
        o = {'u': observe(lambda: Unit(satoshis=s), proj=o_unit)}
        for f in SIZE:
            o[f] = observe(lambda: Unit(**{f: getattr(Unit(satoshis=s), f)}), proj=o_unit)
        out.append(o)
    return {'r': out}


SIZE = {'bits': 100, 'mbtc': 10**5, 'btc': 10**8}


def given(env, a):
    """The number is given as a whole number, or as the quotient in floating point, or read from decimals."""
    s, d = num(a['s']), SIZE[a['unit']]
    if a['how'] == 'int':
        x = s // d
    elif a['how'] == 'text':
        t = '%d' % s
        w = len(str(d)) - 1
        t = t.rjust(w + 1, '0')
        x = float(t[:-w] + '.' + t[-w:])
    else:
        x = s / d
    return {'given': project(x), 'r': observe(lambda: Unit(**{a['unit']: x}), proj=o_unit)}


def rat(x):
    n = num(x['n'])
    return n if x['j'] == 0 and not x.get('f') else n / 2**x['j']


OPS = {
    'nothing': lambda env, a: observe(lambda: Unit(), proj=o_unit),
    'whole': whole,
    'units': units, 'given': given,
    'fiat': lambda env, a: observe(lambda: Unit.from_fiat(rat(a['value']), rat(a['rate'])), proj=o_unit),
    'rate': lambda env, a: observe(lambda: Unit(satoshis=num(a['s'])).at_rate(rat(a['rate']))),
}


def amounts(ctx, rng):
    out = set(range(0, ctx.n(3000, 100000)))
    for c in ctx.cases:
        out.add(num(c['s']))
    for k in range(16):
        for m in list(range(1, 30)) + [57, 58, 113, 114, 115, 999]:
            for d in (-1, 0, 1):
                out.add(m * 10**k + d)
    for k in range(51):
        for d in range(-3, 4):
            out.add(2**k + d)
    out |= {MAX - k for k in range(ctx.n(2000, 50000))}
    for _ in range(ctx.n(20000, 600000)):
        out.add(rng.randrange(MAX + 1) if rng.random() < 0.6 else rng.randrange(10 ** rng.randrange(1, 16)))
    return sorted(s for s in out if 0 <= s <= MAX)


def calls(ctx):
    rng = ctx.rng('units')
    yield 'nothing', {'none': 0}
    al = amounts(ctx, rng)
    for i in range(0, len(al), 100):
        yield 'units', {'s': [nat(s) for s in al[i:i + 100]]}
    far = [rng.randrange(MAX + 1) for _ in range(ctx.n(1500, 30000))] + list(range(200)) + [MAX - k for k in range(50)]
    far += [2**k + d for k in range(40, 120) for d in (-1, 0, 1)] + [rng.getrandbits(rng.randrange(50, 200)) for _ in range(300)]
    for i in range(0, len(far), 100):
        yield 'whole', {'s': [{'v': nat(s), 'neg': bool(rng.random() < 0.8)} for s in far[i:i + 100]]}
    for _ in range(ctx.n(3000, 60000)):
        s = rng.choice(al)
        unit = rng.choice(list(SIZE))
        how = rng.choice(['int', 'text', 'float'])
        if how == 'int':
            s -= s % SIZE[unit]
        yield 'given', {'s': nat(s), 'unit': unit, 'how': how}
    for unit in SIZE:
        for k in list(range(30)) + [21000000, 20999999]:
            if k * SIZE[unit] <= MAX:
                yield 'given', {'s': nat(k * SIZE[unit]), 'unit': unit, 'how': 'int'}
    rates = [(1, 0), (2, 0), (3, 0), (7, 0), (100, 0), (350, 0), (400, 0), (1, 1), (3, 1), (913, 3), (25600001, 16), (10**6, 0), (1, 20)]
    rates += [(rng.getrandbits(rng.randrange(2, 40)) + 1, rng.randrange(0, 20)) for _ in range(40)]
    for _ in range(ctx.n(2500, 50000)):
        n, j = rng.choice(rates)
        vn, vj = rng.choice([(1, 0), (10, 0), (100, 0), (1, 2), (199, 1), (rng.getrandbits(30), rng.randrange(0, 16)), (rng.getrandbits(20) + 1, 0), (0, 0)])
        f = rng.random() < 0.5
        if (vn / 2**vj) / (n / 2**j) <= 21000000:
            yield 'fiat', {'value': {'n': nat(vn), 'j': vj, 'f': f}, 'rate': {'n': nat(n), 'j': j, 'f': rng.random() < 0.5}}
        yield 'rate', {'s': nat(rng.choice(al)), 'rate': {'n': nat(n), 'j': j, 'f': f}}


def sessions(ctx):
    return chunks(calls(ctx), 25, {'none': 0})

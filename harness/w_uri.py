"""Payment URIs: C22."""
from bitforge import URI, Address
from drive import chunks
import gen
from obs import observe, project, nat, untext, cps
from w_keys import addr_type, NETS, LIVE

MAX = 21000000 * 10**8
PK, SH = cps('pubkeyhash'), cps('scripthash')


def o_uri(u):
    if not isinstance(u, URI):
        return {'k': 'other', 'v': []}
    amount = getattr(u, 'amount', None)
    f = {n: project(getattr(u, n, None)) for n in ('label', 'message', 'r')}
    f.update({'k': 'uri', 'address': project(u.address.to_string()), 'network': project(u.address.network.name),
              'amount': project(None if amount is None else amount.satoshis),
              'extras': {'k': 'list', 'items': [project([k, v]) for k, v in sorted(u.extras.items(), key=repr)]}})
    return f


def num(a):
    return int.from_bytes(bytes(a), 'big')


def addr_text(a):
    v = {('livenet', 'pubkeyhash'): 0, ('livenet', 'scripthash'): 5, ('testnet', 'pubkeyhash'): 111,
         ('testnet', 'scripthash'): 196}[untext(a['net']), untext(a['type'])]
    return gen.b58check(bytes([v]) + bytes(a['b']))


def made(env, a):
    args = {'address': addr_text(a)}
    if a['hasamt']:
        args['amount'] = num(a['sat'])
    for k, v in a['ps']:
        args[untext(k)] = untext(v)
    def made():
        if not a.get('edit'):
            return URI(dict(args))
        # the same URI, reached by changing another one after it was written
        u = URI({'address': addr_text(dict(a, b=a['b'][::-1])), 'amount': 77, 'label': 'before', 'x': 'y'})
        u.to_uri()
        want = URI(dict(args))
        u.address, u.amount, u.extras = want.address, want.amount, want.extras
        for n in ('label', 'message', 'r'):
            setattr(u, n, getattr(want, n, None))
        return u
    text = observe(lambda: made().to_uri())
    t = untext(text['v']) if text['k'] == 'text' else ''
    def written():
        x = made()
        x.to_uri(), repr(x)
        return x

    return {'r': observe(made, proj=o_uri), 'text': text, 'back': observe(lambda: URI(t), proj=o_uri),
            'after': observe(written, proj=o_uri), 'twice': observe(lambda: written().to_uri()),
            'rep': observe(lambda: repr(made())),
            'again': observe(lambda: URI(t).to_uri()), 'valid': observe(lambda: URI.is_valid(t))}


def read(env, a):
    t = untext(a['t'])
    return {'r': observe(lambda: URI(t), proj=o_uri), 'valid': observe(lambda: URI.is_valid(t))}


OPS = {'made': made, 'read': read}

AWKWARD = 'a A z0 ~ - . _ & = + % # ? / : ; @ ! $ \' ( ) * , " < > \\ ^ ` { | } [ ] \t \n \r \0 \x7f \x80 \xa0 é ß ı ſ € 中 \u2028 \ufeff \ufffd 😀 \U0010ffff %41 %zz %2 & &amp; a=b amount=1 bitcoin: req- x-y'.split(' ') + [' ', '  ', 'a b', ' a', 'a ']


def rtext(rng, lo=1, hi=8):
    kind = rng.random()
    n = rng.randint(lo, hi)
    if kind < 0.5:
        return ''.join(rng.choice(AWKWARD) for _ in range(n)) or 'x'
    if kind < 0.8:
        return ''.join(chr(rng.randrange(32, 127)) for _ in range(n)) or 'x'
    out = ''
    while len(out) < n:
        c = rng.choice([rng.randrange(128), rng.randrange(0x800), rng.randrange(0x10000), rng.randrange(0x110000)])
        if not 0xd800 <= c < 0xe000:
            out += chr(c)
    return out


def addr(rng):
    return {'b': list(gen.rbytes(rng, 20)), 'net': rng.choice(NETS), 'type': rng.choice([PK, SH])}


NAMES = ['label', 'message', 'r', 'req-x', 'other', 'extras', 'Amount', 'amount ', 'AMOUNT', 'Label', 'uri', 'to_uri', 'time', 'network', 'parse', 'address2', 'self', 'args']


def amounts(rng, n):
    out = list(range(0, 30)) + [10**k for k in range(16)] + [10**k - 1 for k in range(1, 16)] + [10**k + 1 for k in range(1, 16)]
    out += [MAX - k for k in range(20)] + [m * 10**k for k in range(14) for m in (3, 7, 29, 57, 113)]
    out += [rng.randrange(10 ** rng.randrange(1, 16)) for _ in range(n)] + [rng.randrange(MAX + 1) for _ in range(n)]
    return [s for s in out if s <= MAX]


def dec(s, rng=None):
    t = '%09d' % s
    whole, frac = t[:-8], t[-8:]
    if rng is None:
        return whole + '.' + frac
    form = rng.randrange(6)
    frac2 = frac.rstrip('0')
    if form == 0:
        return whole + ('.' + frac2 if frac2 else '')
    if form == 1:
        return whole + '.' + frac + '0' * rng.randrange(1, 5)
    if form == 2:
        return '0' * rng.randrange(1, 4) + whole + '.' + (frac2 or '0')
    if form == 3 and whole == '0' and frac2:
        return '.' + frac2
    if form == 4:
        return whole + '.' + frac2
    return whole + '.' + frac


def c22(ctx):
    rng = ctx.rng('uri')
    for i, c in enumerate(ctx.cases):
        # the model enumerates more behaviours than are replayed
        if i % 3:
            continue
        if c['op'] == 'made':
            yield 'made', dict(addr(rng), hasamt=c['hasamt'], sat=c['sat'], ps=c['ps'])
        elif c['op'] == 'read':
            yield 'read', {'t': c['t']}
    # amounts, written and read
    for s in amounts(rng, ctx.n(400, 15000)):
        yield 'made', dict(addr(rng), hasamt=True, sat=nat(s), ps=[])
        a = addr_text(addr(rng))
        yield 'read', {'t': cps('bitcoin:' + a + '?amount=' + dec(s, rng))}
    # fields
    for v in AWKWARD:
        if not v:
            continue
        for k in ('label', 'message', 'r', 'other', 'req-other'):
            yield 'made', dict(addr(rng), hasamt=False, sat=[], ps=[[cps(k), cps(v)]])
        if v not in ('label', 'message', 'r', 'amount', 'address'):
            yield 'made', dict(addr(rng), hasamt=True, sat=[5], ps=[[cps(v), cps('x')]])
    for c in list(range(1, 300)) + [0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff]:
        yield 'made', dict(addr(rng), hasamt=False, sat=[], ps=[[cps('label'), [c]], [[120, c], [c, c]]])
    for n in (64, 257, 1030):
        for v in ('x' * n, 'é& ' * (n // 3), '+%=' * (n // 3)):
            for k in ('label', 'message', 'r', 'other'):
                yield 'made', dict(addr(rng), hasamt=n % 2 == 0, sat=nat(n), ps=[[cps(k), cps(v)], [cps('last'), cps('z')]])
        yield 'made', dict(addr(rng), hasamt=True, sat=nat(n), ps=[[cps('k%d' % i), cps('v%d' % i)] for i in range(min(n, 40))])
    for n in NAMES:
        yield 'made', dict(addr(rng), hasamt=rng.random() < 0.5, sat=[7], ps=[[cps(n), cps('v')]])
    for s in [0, 1, 9, 10**8, 123456789, MAX]:
        yield 'made', dict(addr(rng), hasamt=True, sat=nat(s), ps=[], edit=True)
        yield 'made', dict(addr(rng), hasamt=bool(s % 2), sat=nat(s), ps=[[cps('label'), cps('after %d' % s)], [cps('z'), cps('é&')]], edit=True)
        yield 'made', dict(addr(rng), hasamt=bool(s % 2), sat=nat(s), ps=[[cps('message'), cps('m')], [cps('r'), cps('http://x?y=1')]], edit=True)
    for _ in range(ctx.n(1200, 30000)):
        ps, used = [], {'address', 'amount'}
        for _ in range(rng.randrange(0, 6)):
            k = rng.choice(NAMES) if rng.random() < 0.5 else rtext(rng)
            if k in used:
                continue
            used.add(k)
            ps.append([cps(k), cps(rtext(rng, 1, rng.choice([2, 8, 60])))])
        yield 'made', dict(addr(rng), hasamt=rng.random() < 0.6, sat=nat(rng.choice([0, 1, rng.randrange(MAX), MAX])), ps=ps)
    # texts
    for _ in range(ctx.n(1500, 30000)):
        a = addr_text(addr(rng))
        if rng.random() < 0.25:
            a = rng.choice([gen.mutate_text(rng, a, 1)[0], a[:-1], a + '1', '', 'x', a + a, gen.b58check(bytes([rng.randrange(256)]) + gen.rbytes(rng, 20)),
                            gen.b58check(bytes([0]) + gen.rbytes(rng, rng.randrange(30))), '%' + a, a + '/', '/' + a, 'u@' + a, a + ':80', a.lower(), '[' + a, '[' + a + ']'])
        scheme = rng.choice(['bitcoin:', 'bitcoin:', 'bitcoin:', 'bitcoin://', 'Bitcoin:', 'BITCOIN:', 'bitcoin', '', 'litecoin:', 'bitcoins:', 'http:', 'bitcoin:/', 'bitcoin:///', 'xbitcoin:', 'bitcoin::', ':', 'b\u0131tcoin:'])
        t = scheme + a
        if rng.random() < 0.7:
            parts = []
            for _ in range(rng.randrange(0, 4)):
                r = rng.random()
                if r < 0.35:
                    parts.append('amount=' + rng.choice(['1', '0', '0.1', '1.2', '.5', '5.', '1.5.2', '', 'bad', '1e-8', '1e3', '-1', '-0', '%31', '1%2e5', 'nan', 'inf', '-inf', '0x10', '1,5', '1_0', '+1', '%2B1', '1.', '.', '1e', 'e1', '21000000', '20999999.99999999', '0.00000001', '0.000000014', '1' + '0' * 400, '1e400', '٣', '0.123456785', '1btc', 'Infinity', '--1', '1-1', '0' * 50 + '1', dec(rng.randrange(MAX), rng)]))
                elif r < 0.6:
                    parts.append(rng.choice(['label', 'message', 'r', 'address', 'Label', 'req-x', '%6cabel', 'l%61bel', 'x']) + '=' + rng.choice(['a', 'a+b', 'a%20b', '%C3%A9', '%c3%a9', '%e2%82%ac', '%F0%9F%98%80', 'é', '%', '%4', '%zz', '%ff', '%c3', 'a=b', '=', '', 'x;y=z', 'a/b?c', '%26', '%3D', '%25', '%2541', '%00', 'bitcoin:' + a, '"']))
                else:
                    parts.append(rng.choice(['flag', 'k=v', '=v', '=', 'a=1', 'a=2', 'amount', 'a;b', '%=%', 'x=' + rtext(rng).replace('#', '')]))
            t += '?' + rng.choice(['&', '&', '&', '&&', ';']).join(parts)
        if rng.random() < 0.05:
            t = rng.choice([t + '#frag', ' ' + t, t + ' ', t + '\n', t.replace('?', '??'), t + '&', t + '?', t + '\ud800'])
        yield 'read', {'t': cps(t)}
    for t in ['', 'bitcoin', 'bitcoin:', 'bitcoin:?', 'bitcoin:?amount=1', ':', '?', 'bitcoin://', 'bitcoin://[', 'bitcoin://]', 'bitcoin://[x', 'bitcoin://\u2100', '//[', 'http://[', 'bitcoin:\0', '\ud800', '\udcff:',
              'bitcoin:é', 'bitcoin:١', '1' * 34, 'a' * 5000, 'bitcoin:' + '1' * 3000, 'bitcoin:' + 'z' * 200]:
        yield 'read', {'t': cps(t)}


def sessions(ctx):
    return chunks(c22(ctx), 25, {'none': 0})

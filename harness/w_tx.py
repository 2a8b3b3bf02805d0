"""Transactions: C12 (wire format), C13 (signing), C14 (multisig)."""
import json
import os

from bitforge import PrivateKey, PublicKey, Address, Script
from bitforge.transaction import (Transaction, Input, AddressInput, ScriptInput, MultisigInput, Output,
                                  AddressOutput, ScriptOutput, MultisigOutput, DataOutput)
from drive import chunks
import gen
from gen import rbytes, N
from obs import observe, project, sint, unint, cps, untext
from w_keys import LIVE, TEST, NETS
import w_script
from w_script import ins_bytes, random_ins, LENGTHS

REPO_DATA = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'tests', 'data')


def o_in_fields(x):
    return {'txid': project(x.tx_id), 'index': project(x.txo_index), 'script': observe(x.script.to_bytes), 'seq': project(x.seq_number)}


def o_out_fields(x):
    return {'amount': project(x.amount), 'script': observe(x.script.to_bytes)}


def o_tx(t):
    if not isinstance(t, Transaction):
        return {'k': 'other', 'v': []}
    return {'k': 'tx', 'version': project(t.version), 'lock': project(t.lock_time),
            'ins': [o_in_fields(x) for x in t.inputs], 'outs': [o_out_fields(x) for x in t.outputs],
            'bytes': observe(t.to_bytes)}


def sharing(share, fn):
    """fn, or fn giving one and the same object for equal arguments."""
    made = {}

    def shared(x):
        key = json.dumps(x, sort_keys=True)
        if key not in made:
            made[key] = fn(x)
        return made[key]
    return shared if share else fn


def tx(env, a):
    def make():
        script = sharing(a.get('share'), lambda b: Script.from_bytes(bytes(b)))
        short = a.get('short')  # arguments that have their default value are left out

        def new_in(x):
            args = [bytes(x['txid']).hex(), unint(x['index']), script(x['script']), unint(x['seq'])]
            return Input(*(args[:3] if short and args[3] == 0xffffffff else args))
        inp = sharing(a.get('share'), new_in)
        out = sharing(a.get('share'), lambda x: Output.create(unint(x['amount']), script(x['script'])))
        rest = {'lock_time': unint(a['lock']), 'version': unint(a['version'])}
        if short:
            rest = {k: v for k, v in rest.items() if v != {'lock_time': 0, 'version': 1}[k]}
        return Transaction([inp(x) for x in a['ins']], [out(x) for x in a['outs']], **rest)

    def made():
        t = make()
        t.to_bytes()
        return t
    r = observe(made, proj=o_tx)
    if r['k'] == 'err':
        return {'r': r}
    t = make()
    via = (lambda: Transaction.from_bytes(t.to_bytes())) if a.get('via', 0) == 0 else (lambda: Transaction.from_hex(t.to_hex()))
    return {'r': r, 'hex': observe(t.to_hex), 'id': observe(t.get_id),
            'back': observe(via, proj=o_tx), 'same': observe(lambda: via() == t),
            'spend': observe(lambda: Input(t.get_id(), 0, Script()).to_bytes()),
            'inbytes': observe(lambda: [x.to_bytes() for x in t.inputs]),
            'outbytes': observe(lambda: [x.to_bytes() for x in t.outputs]),
            'inhex': observe(lambda: [x.to_hex() for x in t.inputs]),
            'outhex': observe(lambda: [x.to_hex() for x in t.outputs])}


def o_part(kind):
    def proj(x):
        if kind == 'in':
            if not isinstance(x, Input):
                return {'k': 'other', 'v': []}
            return {'k': 'in', 'f': o_in_fields(x), 'bytes': observe(x.to_bytes)}
        if not isinstance(x, Output):
            return {'k': 'other', 'v': []}
        return {'k': 'out', 'f': o_out_fields(x), 'bytes': observe(x.to_bytes)}
    return proj


# ------------------------------------------------------------------- signing
def net(a):
    return untext(a)


def make_input(x, short=False):
    txid = bytes(x['txid']).hex()
    args = (unint(x['index']),)
    seq = (unint(x['seq']),)
    if short and seq[0] == 0xffffffff:
        seq = ()
    if x['kind'] == 'address':
        addr = Address(gen.hash160(bytes(x['pub'])), net(x['net']))
        return AddressInput.create(txid, args[0], addr, *seq)
    if x['kind'] == 'multisig':
        return MultisigInput.create(txid, args[0], [PublicKey.from_bytes(bytes(p)) for p in x['pubs']], x['m'], *seq)
    return ScriptInput.create(txid, args[0], Script.from_bytes(bytes(x['redeem'])), *seq)


def start(env):
    if 'tx' not in env:
        h = env['h']
        inp = sharing(h.get('share'), make_input)
        out = sharing(h.get('share'), lambda x: Output.create(unint(x['amount']), Script.from_bytes(bytes(x['script']))))
        env['tx'] = Transaction([inp(x) for x in h['ins']], [out(x) for x in h['outs']], unint(h['lock']), unint(h['version']))
    return env['tx']


def private(s):
    return PrivateKey(unint(s['secret']), net(s['net']), bool(s['compressed']))


def sign(env, a):
    t = start(env)
    keys = [private(s) for s in a['secrets']]
    box = []

    def go():
        box.append(t.sign(keys, a['index'], a['type']) if a['type'] != 1 or a.get('explicit') else t.sign(keys, a['index']))
        return box[0]
    r = observe(go, proj=o_tx)
    before = observe(lambda: t, proj=o_tx)
    if a['keep'] and box and isinstance(box[0], Transaction):
        env['tx'] = box[0]
    return {'r': r, 'before': before}


def can_sign(env, a):
    x = make_input(a['x'])
    return observe(x.can_sign, [private(s) for s in a['secrets']])


def make_part(env, a):
    """An input or output by the constructor of its kind."""
    x = a['x']
    if a['part'] == 'in':
        make = lambda: make_input(x, a['short'])
    else:
        amount = unint(x['amount'])
        if x['kind'] == 'address':
            make = lambda: AddressOutput.create(amount, Address(bytes(x['hash']), net(x['net'])))
        elif x['kind'] == 'script':
            make = lambda: ScriptOutput.create(amount, Script.from_bytes(bytes(x['redeem'])))
        elif x['kind'] == 'multisig':
            make = lambda: MultisigOutput.create(amount, [PublicKey.from_bytes(bytes(p)) for p in x['pubs']], x['m'])
        else:
            make = lambda: DataOutput.create(bytes(x['data']))
    return observe(make, proj=o_part(a['part']))


OPS = {
    'tx': tx, 'make_part': make_part,
    'tx_parse': lambda env, a: observe(Transaction.from_bytes if a.get('via', 0) == 0 else lambda b: Transaction.from_hex(b.hex()),
                                       bytes(a['b']), proj=o_tx),
    'in_parse': lambda env, a: observe(Input.from_bytes if a.get('via', 0) == 0 else lambda b: Input.from_hex(b.hex()),
                                       bytes(a['b']), proj=o_part('in')),
    'out_parse': lambda env, a: observe(Output.from_bytes if a.get('via', 0) == 0 else lambda b: Output.from_hex(b.hex()),
                                        bytes(a['b']), proj=o_part('out')),
    'sign': sign, 'can_sign': can_sign,
}


# -------------------------------------------------------------------- inputs
def varint(n):
    if n < 253:
        return bytes([n])
    if n < 65536:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n < 1 << 32:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def in_bytes(x):
    s = bytes(x['script'])
    return bytes(x['txid'])[::-1] + unint(x['index']).to_bytes(4, 'little') + varint(len(s)) + s + unint(x['seq']).to_bytes(4, 'little')


def out_bytes(x):
    s = bytes(x['script'])
    return unint(x['amount']).to_bytes(8, 'little') + varint(len(s)) + s


def tx_bytes(a):
    return (unint(a['version']).to_bytes(4, 'little') + varint(len(a['ins'])) + b''.join(map(in_bytes, a['ins'])) +
            varint(len(a['outs'])) + b''.join(map(out_bytes, a['outs'])) + unint(a['lock']).to_bytes(4, 'little'))


U32 = [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 499999999, 500000000, 0x01020304]
U64 = U32 + [1 << 32, (1 << 32) - 1, 21000000 * 10**8, 50 * 10**8, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 2, 0x0102030405060708]


def pick(rng, pool, bits):
    return rng.choice(pool) if rng.random() < 0.6 else rng.getrandbits(rng.randrange(1, bits + 1))


def script_of(rng, n=None):
    if n is None:
        r = rng.random()
        if r < 0.15:
            return b''
        if r < 0.4:
            return rng.choice([b'\x76\xa9\x14' + rbytes(rng, 20) + b'\x88\xac', b'\xa9\x14' + rbytes(rng, 20) + b'\x87',
                               b'\x6a\x04' + rbytes(rng, 4), b'\x51', b'\x00', bytes([33]) + rbytes(rng, 33) + b'\xac',
                               bytes([71]) + rbytes(rng, 71) + bytes([33]) + rbytes(rng, 33)])
        return b''.join(ins_bytes(random_ins(rng, lengths=LENGTHS[:24])) for _ in range(rng.randrange(0, 6)))
    # exactly n bytes
    if n < 4:
        return b'\x61' * n
    if n < 300:
        return b'\x61' * n if rng.random() < 0.5 else b'\x4d' + (n - 3).to_bytes(2, 'little') + rbytes(rng, n - 3)
    return b'\x4e' + (n - 5).to_bytes(4, 'little') + bytes((i * 31 + n) % 256 for i in range(n - 5))


def rin(rng, script=None):
    t = rng.random()
    txid = bytes(32) if t < 0.05 else b'\xff' * 32 if t < 0.1 else rbytes(rng, 32)
    return {'txid': list(txid), 'index': sint(pick(rng, U32, 32)), 'seq': sint(pick(rng, U32, 32)),
            'script': list(script_of(rng) if script is None else script)}


def rout(rng, script=None):
    return {'amount': sint(pick(rng, U64, 64)), 'script': list(script_of(rng) if script is None else script)}


def rtx(rng, nin=None, nout=None, script=None):
    nin = rng.choice([1, 1, 2, 3, 5]) if nin is None else nin
    nout = rng.choice([1, 1, 2, 3, 5]) if nout is None else nout
    return {'version': sint(pick(rng, U32, 32)), 'lock': sint(pick(rng, U32, 32)),
            'ins': [rin(rng, script) for _ in range(nin)], 'outs': [rout(rng, script) for _ in range(nout)], 'via': rng.randrange(2)}


def rtwins(rng):
    """A transaction some of whose parts are equal, as one object or as several."""
    t = rtx(rng)
    for part, new in (('ins', rin), ('outs', rout)):
        for _ in range(rng.choice([0, 1, 1, 2])):
            x = dict(rng.choice(t[part]))
            mode = rng.randrange(4)
            if mode == 0:
                k = rng.choice(sorted(x))
                x[k] = new(rng)[k]
            t[part].insert(rng.randrange(len(t[part]) + 1), x)
    if rng.random() < 0.5:
        t['outs'][0]['script'] = t['ins'][0]['script']
    t['share'] = rng.randrange(2)
    return t


def published():
    """Raw transactions in the repository's data files (only as inputs)."""
    out = []
    for name in ('tx_valid.json', 'tx_invalid.json'):
        try:
            with open(os.path.join(REPO_DATA, name)) as f:
                for row in json.load(f):
                    if len(row) > 1 and isinstance(row[1], str):
                        try:
                            out.append(bytes.fromhex(row[1]))
                        except ValueError:
                            pass
        except (OSError, ValueError):
            pass
    return out


def c12(ctx):
    rng = ctx.rng('wire')
    share = ctx.n(0.1, 0.1)
    for c in ctx.cases:
        if c['op'] == 'tx' and rng.random() < share:
            yield 'tx', dict(c, via=rng.randrange(2))
    for b in published():
        if len(b) < 20000:
            yield 'tx_parse', {'b': list(b), 'via': rng.randrange(2)}
            for _ in range(ctx.n(1, 10)):
                if b:
                    yield 'tx_parse', {'b': list(b[:rng.randrange(len(b))]), 'via': 0}
    # each number at the ends of its width, and outside it
    for field, pool, bits in (('version', U32, 32), ('lock', U32, 32)):
        for v in pool + [1 << bits, (1 << bits) + 1, -1, -(1 << 31), 1 << 40, 1 << 64, -256]:
            t = rtx(rng, 1, 1, b'\x51')
            t[field] = sint(v)
            yield 'tx', t
    for field in ('index', 'seq'):
        for v in U32 + [1 << 32, (1 << 32) + 5, -1, -2, 1 << 64, -(1 << 31)]:
            t = rtx(rng, 2, 1, b'\x51')
            t['ins'][rng.randrange(2)][field] = sint(v)
            yield 'tx', t
    for v in U64 + [1 << 64, (1 << 64) + 7, -1, -(1 << 63), 1 << 80]:
        t = rtx(rng, 1, 2, b'\x51')
        t['outs'][rng.randrange(2)]['amount'] = sint(v)
        yield 'tx', t
    for n in (0, 1, 31, 33, 64):
        t = rtx(rng, 1, 1)
        t['ins'][0]['txid'] = list(rbytes(rng, n))
        yield 'tx', t
    for nin, nout in ((0, 1), (1, 0), (0, 0)):
        yield 'tx', rtx(rng, nin, nout)
    # counts and script sizes around the steps of the length encoding
    for n in (252, 253, 254, 255, 256, 257):
        yield 'tx', rtx(rng, n, 1, b'')
        yield 'tx', rtx(rng, 1, n, b'\x51')
    for n in (0, 1, 75, 76, 251, 252, 253, 254, 255, 256, 257, 520, 65535, 65536, 65537):
        t = rtx(rng, 2, 2, b'')
        t['ins'][0]['script'] = list(script_of(rng, n))
        yield 'tx', t
        t = rtx(rng, 2, 2, b'')
        t['outs'][0]['script'] = list(script_of(rng, n))
        yield 'tx', t
    for _ in range(ctx.n(280, 5000)):
        yield 'tx', rtx(rng)
    for _ in range(ctx.n(70, 1000)):
        yield 'tx', rtwins(rng)
    # arguments left out
    for _ in range(ctx.n(24, 300)):
        t = rtx(rng)
        if rng.random() < 0.7:
            t['lock'] = sint(0)
        if rng.random() < 0.7:
            t['version'] = sint(1)
        for x in t['ins']:
            if rng.random() < 0.7:
                x['seq'] = sint(0xffffffff)
        yield 'tx', dict(t, short=1)
    pubs = [gen.sec(gen.mul(rng.randrange(1, N)), rng.random() < 0.5) for _ in range(8)]
    for k in range(ctx.n(160, 2000)):
        x = {'amount': sint(pick(rng, U64, 64)), 'index': sint(pick(rng, U32, 32)), 'txid': list(rbytes(rng, 32)),
             'seq': sint(rng.choice([0xffffffff, pick(rng, U32, 32)])), 'net': rng.choice(NETS),
             'kind': ['address', 'script', 'multisig', 'data'][k % 4]}
        part = rng.choice(['in', 'out']) if x['kind'] != 'data' else 'out'
        if x['kind'] == 'address':
            pub = rng.choice(pubs)
            x['pub'], x['hash'] = list(pub), list(gen.hash160(pub))
        elif x['kind'] == 'script':
            x['redeem'] = list(script_of(rng))
        elif x['kind'] == 'multisig':
            ps = [rng.choice(pubs) for _ in range(rng.randrange(1, 6))]
            x['pubs'], x['m'] = [list(p) for p in ps], rng.randrange(1, len(ps) + 1)
        else:
            x['data'], x['amount'] = list(rbytes(rng, rng.choice([1, 2, 20, 75, 76, 79, 80, rng.randrange(1, 81)]))), sint(0)
        yield 'make_part', {'part': part, 'x': x, 'short': rng.randrange(2)}
    # prefixes, bytes after the end, changed bytes
    for _ in range(ctx.n(6, 60)):
        b = tx_bytes(rtx(rng, rng.choice([1, 2]), rng.choice([1, 2]), script=script_of(rng, rng.choice([0, 1, 5, 30]))))
        for k in range(len(b)):
            yield 'tx_parse', {'b': list(b[:k]), 'via': k % 2}
    for _ in range(ctx.n(250, 5000)):
        b = bytearray(tx_bytes(rtx(rng)))
        mode = rng.randrange(4)
        if mode == 0:
            b = b[:rng.randrange(len(b))]
        elif mode == 1:
            b += rbytes(rng, rng.randrange(1, 9))
        elif mode == 2:
            b[rng.randrange(len(b))] = rng.choice(gen.INTERESTING)
        else:
            b[rng.choice([4, 4 + 37, 41])] = rng.choice([0, 1, 2, 252, 253, 254, 255])
        if len(b) < 4000:
            yield 'tx_parse', {'b': list(b), 'via': rng.randrange(2)}
    # longer ways of writing a length
    for n, w in ((1, b'\xfd\1\0'), (1, b'\xfe\1\0\0\0'), (1, b'\xff\1' + bytes(7)), (2, b'\xfd\2\0')):
        t = rtx(rng, n, 1, b'\x51')
        b = tx_bytes(t)
        yield 'tx_parse', {'b': list(b[:4] + w + b[5:]), 'via': 0}
    for w in (b'\xff' * 9, b'\xfe\xff\xff\xff\xff', b'\xfd\xff\xff', b'\xff' + bytes(7) + b'\x80'):
        t = tx_bytes(rtx(rng, 1, 1, b'\x51'))
        yield 'tx_parse', {'b': list(t[:4] + w + t[5:]), 'via': 0}
        yield 'tx_parse', {'b': list(t[:41] + w + t[42:]), 'via': 0}
        yield 'in_parse', {'b': list(t[5:41] + w + t[42:]), 'via': 0}
    for _ in range(ctx.n(60, 1000)):
        b = in_bytes(rin(rng))
        yield 'in_parse', {'b': list(b), 'via': rng.randrange(2)}
        yield 'in_parse', {'b': list(b[:rng.randrange(len(b))]), 'via': rng.randrange(2)}
        yield 'in_parse', {'b': list(b + rng.choice([b'\0', b, rbytes(rng, 4)])), 'via': rng.randrange(2)}
        b = out_bytes(rout(rng))
        yield 'out_parse', {'b': list(b + rng.choice([b'\0', b, rbytes(rng, 4)])), 'via': rng.randrange(2)}
        yield 'out_parse', {'b': list(b), 'via': rng.randrange(2)}
        yield 'out_parse', {'b': list(b[:rng.randrange(len(b))]), 'via': rng.randrange(2)}
    for f, op in ((in_bytes(rin(rng, b'\x51\x52')), 'in_parse'), (out_bytes(rout(rng, b'\x51\x52')), 'out_parse')):
        for k in range(len(f)):
            yield op, {'b': list(f[:k]), 'via': k % 2}


# ----------------------------------------------------------- signing workload
class Pool:
    """Key pairs: secret, network, compression and the SEC bytes of the public key."""

    def __init__(self, rng, n):
        self.keys = []
        for i in range(n):
            s = rng.choice([1, 2, N - 1, N - 2]) if i < 2 else gen.rint(rng, 255) + 1 if rng.random() < 0.2 else rng.randrange(1, N)
            if any(k['s'] == s for k in self.keys):
                s = rng.randrange(1, N)
            c = rng.random() < 0.7
            self.keys.append({'s': s, 'net': rng.choice(NETS), 'c': c, 'pub': list(gen.sec(gen.mul(s), c))})

    def secret(self, k):
        return {'secret': sint(k['s']), 'net': k['net'], 'compressed': int(k['c'])}


def outpoint(rng):
    return {'txid': list(rbytes(rng, 32)), 'index': sint(pick(rng, U32, 32)), 'seq': sint(pick(rng, U32, 32))}


def redeem(rng):
    """Without OP_CODESEPARATOR, which signature hashes leave out."""
    while True:
        seq = [random_ins(rng, lengths=[0, 1, 20, 33, 75, 76, 77]) for _ in range(rng.randrange(1, 6))]
        b = b''.join(map(ins_bytes, seq))
        if b and not any(x['op'] == 0xab for x in seq):
            return list(b)


def some_input(rng, pool, kind):
    """An input and the keys that sign it."""
    x = outpoint(rng)
    x['kind'] = kind
    if kind == 'address':
        k = rng.choice(pool.keys)
        x.update(pub=k['pub'], net=k['net'])
        return x, [k]
    if kind == 'multisig':
        n = rng.choice([1, 2, 2, 3, 3, 4])
        m = rng.randrange(1, n + 1)
        ks = rng.sample(pool.keys, n)
        x.update(pubs=[k['pub'] for k in ks], m=m)
        return x, rng.sample(ks, m)
    x['redeem'] = redeem(rng)
    return x, rng.sample(pool.keys, rng.choice([1, 1, 2]))


def header(rng, inputs, nouts):
    outs = [rout(rng) for _ in range(nouts)]
    if nouts > 1 and rng.random() < 0.4:
        outs[rng.randrange(1, nouts)] = dict(outs[0])
    return {'version': sint(pick(rng, U32, 32)), 'lock': sint(pick(rng, U32, 32)), 'ins': inputs, 'outs': outs,
            'share': rng.randrange(2)}


def sign_call(pool, ks, index, type=1, keep=True, explicit=False):
    return 'sign', {'index': index, 'keys': [k['pub'] for k in ks], 'secrets': [pool.secret(k) for k in ks], 'type': type,
                    'keep': keep, 'explicit': explicit}


def with_twins(rng, made, p):
    """Inputs that agree with another one in everything, or in all but one field."""
    made = list(made)
    for j in range(1, len(made)):
        if rng.random() < p:
            i = rng.randrange(j)
            x, ks = made[i]
            mode = rng.randrange(5)
            other = outpoint(rng)
            if mode >= 2:
                field = rng.choice(sorted(other))
                x = dict(x, **{field: other[field]})
            made[j] = (dict(x), ks)
    return made


def c13_sessions(ctx):
    for x in c13_twins(ctx):
        yield x
    rng = ctx.rng('sign')
    pool = Pool(rng, ctx.n(16, 64))
    hist = [c for c in ctx.cases if c['op'] == 'history']
    rng.shuffle(hist)
    for c in hist[:ctx.n(110, 3000)]:
        made = [some_input(rng, pool, k) for k in c['kinds']]
        kinds = c['kinds']
        for j in range(1, len(made)):       # a twin, but of the kind the history asks for
            same = [i for i in range(j) if kinds[i] == kinds[j]]
            if same and rng.random() < 0.5:
                made[j] = with_twins(rng, [made[rng.choice(same)], made[j]], 1)[1]
        calls = []
        for x in c['calls']:
            j = x['j']
            if x['what'] == 'sign':
                calls.append(sign_call(pool, made[j][1], j, explicit=rng.random() < 0.3))
            elif x['what'] == 'drop':
                calls.append(sign_call(pool, made[j][1], j, keep=False))
            elif x['what'] == 'outside':
                calls.append(sign_call(pool, [rng.choice(pool.keys)], j))
            else:
                ks = made[j][1]
                wrong = rng.choice([[], ks + [rng.choice(pool.keys)], ks + ks])
                calls.append(sign_call(pool, wrong, j))
        yield header(rng, [m[0] for m in made], c['nouts']), calls
    for _ in range(ctx.n(12, 300)):
        n = rng.choice([1, 2, 4, 6])
        made = [some_input(rng, pool, rng.choice(['address', 'address', 'multisig', 'script'])) for _ in range(n)]
        made = with_twins(rng, made, 0.4)
        order = list(range(n))
        rng.shuffle(order)
        calls = [sign_call(pool, made[j][1], j) for j in order]
        calls.append(sign_call(pool, made[0][1], rng.choice([-1, -n, n, n + 7, 1 << 32])))
        calls.append(sign_call(pool, made[order[0]][1], order[0]))
        yield header(rng, [m[0] for m in made], rng.choice([1, 2, 3])), calls
    # other hash types, and many inputs
    for t in (2, 3, 0x81, 0x82, 0x83, 0, 4, 0x40):
        made = [some_input(rng, pool, k) for k in ('address', 'multisig', 'script')]
        yield header(rng, [m[0] for m in made], 3), [sign_call(pool, made[j][1], j, type=t, keep=False, explicit=True) for j in (0, 1, 2)]
    for n, nouts, which in ((253, 1, (0, 252, 100)), (260, 2, (258, 3, 259)), (2, 253, (1,)), (1, 300, (0,))):
        made = [some_input(rng, pool, 'address') for _ in range(n)]
        yield header(rng, [m[0] for m in made], nouts), [sign_call(pool, made[j][1], j) for j in which]


def tx_twins(rng, h):
    """Transactions that agree with the given one in all but one field."""
    def other(x):
        return sint((x['v'][-1] if x['v'] else 0) % 250 + 1)
    yield dict(h, version=other(h['version']))
    yield dict(h, lock=other(h['lock']))
    for j in range(len(h['outs'])):
        o = h['outs'][j]
        for new in (dict(o, amount=other(o['amount'])), dict(o, script=list(o['script']) + [0x61])):
            yield dict(h, outs=h['outs'][:j] + [new] + h['outs'][j + 1:])
    yield dict(h, outs=h['outs'] + [h['outs'][0]])
    if h['outs'][0] != h['outs'][-1]:
        yield dict(h, outs=h['outs'][::-1])
    for j in range(len(h['ins'])):
        x = h['ins'][j]
        for new in (dict(x, txid=x['txid'][:31] + [x['txid'][31] ^ 1]), dict(x, txid=[x['txid'][0] ^ 1] + x['txid'][1:]),
                    dict(x, index=other(x['index'])), dict(x, seq=other(x['seq']))):
            yield dict(h, ins=h['ins'][:j] + [new] + h['ins'][j + 1:])
    yield h


def c13_twins(ctx):
    rng = ctx.rng('twins')
    pool = Pool(rng, 6)
    for kinds in (('address',), ('address', 'multisig'), ('script', 'address')) * ctx.n(1, 6):
        made = [some_input(rng, pool, k) for k in kinds]
        h = dict(header(rng, [m[0] for m in made], 2), share=0)
        j = rng.randrange(len(made))
        yield [(t, [sign_call(pool, made[j][1], j)]) for t in [h] + list(tx_twins(rng, h))]
        ks = made[j][1]
        yield h, [sign_call(pool, ks, j, type=t, keep=False, explicit=True) for t in (1, 2, 1, 0x81, 3, 1)] + [sign_call(pool, ks, j)]


def c14_sessions(ctx):
    rng = ctx.rng('multisig')
    pool = Pool(rng, ctx.n(20, 60))
    cases = [c for c in ctx.cases if c['op'] == 'keys']
    batch = []
    for c in cases:
        ks = rng.sample(pool.keys, c['n'] + 1)
        foreign, own = ks[0], ks[1:]
        x = dict(outpoint(rng), kind='multisig', pubs=[k['pub'] for k in own], m=c['m'])
        passed = [foreign if j == 0 else own[j - 1] for j in c['list']]
        batch.append(('can_sign', {'x': x, 'keys': [k['pub'] for k in passed], 'secrets': [pool.secret(k) for k in passed]}))
        wrong = len(c['list']) != c['m'] and (rng.random() < 0.5 or c['list'] == [])
        if c['may'] or wrong:
            y = some_input(rng, pool, 'address')[0]
            pos = rng.randrange(2)
            yield header(rng, [y, x] if pos else [x, y], 1), [sign_call(pool, passed, pos)]
    # larger inputs
    for _ in range(ctx.n(25, 400)):
        n = rng.choice([4, 5, 6, 7, 10, 15, 16])
        m = rng.choice([1, 2, 3, n - 1, n])
        own = rng.sample(pool.keys, n)
        x = dict(outpoint(rng), kind='multisig', pubs=[k['pub'] for k in own], m=m)
        ks = rng.sample(own, m)
        batch.append(('can_sign', {'x': x, 'keys': [k['pub'] for k in ks], 'secrets': [pool.secret(k) for k in ks]}))
        bad = list(ks)
        i = rng.randrange(len(bad))
        mode = rng.randrange(4)
        if mode == 0:
            bad[i] = rng.choice([k for k in pool.keys if k not in own])
        elif mode == 1 and len(bad) > 1:
            bad[i] = bad[i - 1]
        elif mode == 2:
            del bad[i]
        else:
            bad.append(rng.choice(own))
        batch.append(('can_sign', {'x': x, 'keys': [k['pub'] for k in bad], 'secrets': [pool.secret(k) for k in bad]}))
        if m <= 4 or ctx.thorough:
            yield header(rng, [x], 1), [sign_call(pool, ks, 0)]
    # keys that are alike: opposite points, and both forms of a point
    for _ in range(ctx.n(16, 200)):
        own = rng.sample(pool.keys, rng.choice([1, 2]))
        for k in list(own):
            for _ in range(rng.choice([1, 1, 2])):
                s = rng.choice([k['s'], N - k['s']])
                c = rng.random() < 0.5
                q = dict(k, s=s, c=c, pub=list(gen.sec(gen.mul(s), c)))
                if all(q['pub'] != o['pub'] for o in own):
                    own.insert(rng.randrange(len(own) + 1), q)
        m = rng.randrange(1, len(own) + 1)
        x = dict(outpoint(rng), kind='multisig', pubs=[k['pub'] for k in own], m=m)
        for ks in [rng.sample(own, m), sorted(own, key=lambda k: -own.index(k))[:m]]:
            batch.append(('can_sign', {'x': x, 'keys': [k['pub'] for k in ks], 'secrets': [pool.secret(k) for k in ks]}))
            yield header(rng, [x], 1), [sign_call(pool, ks, 0)]
            s = N - ks[0]['s']
            bad = [dict(ks[0], s=s, pub=list(gen.sec(gen.mul(s), ks[0]['c'])))] + ks[1:]
            batch.append(('can_sign', {'x': x, 'keys': [k['pub'] for k in bad], 'secrets': [pool.secret(k) for k in bad]}))
    # the same key with the other compression is another key; the other network is not
    for _ in range(ctx.n(20, 300)):
        own = rng.sample(pool.keys, rng.choice([1, 2, 3]))
        m = rng.randrange(1, len(own) + 1)
        x = dict(outpoint(rng), kind='multisig', pubs=[k['pub'] for k in own], m=m)
        ks = [dict(k, net=rng.choice(NETS)) for k in rng.sample(own, m)]
        batch.append(('can_sign', {'x': x, 'keys': [k['pub'] for k in ks], 'secrets': [pool.secret(k) for k in ks]}))
        yield header(rng, [x], 1), [sign_call(pool, ks, 0)]
        ks[0] = dict(ks[0], c=not ks[0]['c'], pub=list(gen.sec(gen.mul(ks[0]['s']), not ks[0]['c'])))
        batch.append(('can_sign', {'x': x, 'keys': [k['pub'] for k in ks], 'secrets': [pool.secret(k) for k in ks]}))
    for _ in range(ctx.n(40, 500)):
        k, k2 = rng.sample(pool.keys, 2)
        x = dict(outpoint(rng), kind='address', pub=k['pub'], net=rng.choice(NETS))
        other = dict(k, c=not k['c'], pub=list(gen.sec(gen.mul(k['s']), not k['c'])))
        for ks in ([k], [k2], [], [k, k], [k, k2], [dict(k, net=TEST if k['net'] == LIVE else LIVE)], [other]):
            batch.append(('can_sign', {'x': x, 'keys': [q['pub'] for q in ks], 'secrets': [pool.secret(q) for q in ks]}))
    for s in chunks(batch, 10, {'none': 0}):
        yield s
    # inputs and keys that agree in all but one part, one after the other
    for _ in range(ctx.n(6, 80)):
        a, b, c = rng.sample(pool.keys, 3)
        flipped = dict(a, c=not a['c'], pub=list(gen.sec(gen.mul(a['s']), not a['c'])))
        at, twins = outpoint(rng), []
        pubs = lambda *ks: [k['pub'] for k in ks]
        base = dict(at, kind='multisig', pubs=pubs(a, b), m=1)
        inputs = [base, dict(base, m=2), dict(base, pubs=pubs(b, a)), dict(base, pubs=pubs(a, c)), dict(base, pubs=pubs(b, c)),
                  dict(base, pubs=pubs(b, c), m=2), dict(base, pubs=pubs(a)), dict(base, pubs=pubs(flipped, b)), dict(base, pubs=pubs(a, b, c)), dict(base, pubs=pubs(a, b, c), m=2),
                  dict(at, kind='address', pub=a['pub'], net=LIVE), dict(at, kind='address', pub=b['pub'], net=LIVE),
                  dict(at, kind='address', pub=flipped['pub'], net=LIVE)]
        for x in rng.sample(inputs, len(inputs)):
            for ks in ([a], [a, b], [b, a], [a, c], [b], [flipped], []):
                twins.append(('can_sign', {'x': x, 'keys': pubs(*ks), 'secrets': [pool.secret(q) for q in ks]}))
        yield {'none': 0}, twins


def wire_twins(ctx):
    rng = ctx.rng('wire twins')
    for _ in range(ctx.n(8, 100)):
        t = rtx(rng, rng.choice([1, 2]), rng.choice([1, 2]), b'\x51')
        yield {'none': 0}, [('tx', x) for x in tx_twins(rng, t)] + [
            ('tx', dict(t, ins=[dict(t['ins'][0], script=[0x52])] + t['ins'][1:])), ('tx', dict(t, outs=[dict(t['outs'][0], script=[0x52])] + t['outs'][1:])), ('tx', t)]


def sessions(ctx):
    if ctx.prop == 'C12':
        return list(chunks(c12(ctx), 10, {'none': 0})) + list(wire_twins(ctx))
    return {'C13': c13_sessions, 'C14': c14_sessions}[ctx.prop](ctx)

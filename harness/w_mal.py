"""Malformed input: C24."""
from bitforge import PrivateKey, PublicKey, Address, Script, Opcode, Instruction
from bitforge.script import PayToPubkeyIn, PayToScriptIn, RedeemMultisig
from bitforge.transaction import Transaction, Input, Output, DataOutput
from bitforge.tools import Buffer
import bitforge.encoding
from drive import chunks
import gen
import opnames
from gen import rbytes, N, P
from obs import guarded, project, project_error, sint, unint, untext, cps
import w_script
from w_script import ins_bytes, random_ins
from w_keys import LIVE, TEST, addr_type

PK = 'pubkeyhash'


def data_script(b, head=()):
    return list(head) + [Instruction(Opcode(76), b) if len(b) < 256 else Instruction(Opcode(77), b)]


THINGS = [None, 5, 'x', '{}', ()]


def tx_new(a):
    ins = [Input('11' * 32, 0, Script())] * a['nin']
    outs = [Output(1, Script())] * a['nout']
    if a['strange']:
        if a['nin'] and (a['which'] == 1 or not a['nout']):
            ins = ins[:-1] + [THINGS[a['thing']]]
        elif a['nout']:
            outs = outs[:-1] + [ins[0] if ins else None]
    return Transaction(ins, outs, unint(a['lock']))


B = lambda a: bytes(a['b'])
T = lambda a: untext(a['t'])
NET = lambda a: untext(a['net'])
PARSERS = {
    'priv_bytes': (PrivateKey, lambda a: PrivateKey.from_bytes(B(a), NET(a))),
    'priv_hex': (PrivateKey, lambda a: PrivateKey.from_hex(T(a), NET(a))),
    'priv_wif': (PrivateKey, lambda a: PrivateKey.from_wif(T(a))),
    'priv_new': (PrivateKey, lambda a: PrivateKey(unint(a['n']), NET(a))),
    'pub_bytes': (PublicKey, lambda a: PublicKey.from_bytes(B(a), NET(a))),
    'pub_hex': (PublicKey, lambda a: PublicKey.from_hex(T(a), NET(a))),
    'pub_new': (PublicKey, lambda a: PublicKey((unint(a['x']), unint(a['y'])), NET(a))),
    'addr_bytes': (Address, lambda a: Address.from_bytes(B(a))),
    'addr_hex': (Address, lambda a: Address.from_hex(T(a))),
    'addr_string': (Address, lambda a: Address.from_string(T(a))),
    'addr_new': (Address, lambda a: Address(B(a), NET(a), addr_type(cps(PK)))),
    'script_bytes': (Script, lambda a: Script.from_bytes(B(a))),
    'script_text': (Script, lambda a: Script.from_string(T(a))),
    'opcode_name': (Opcode, lambda a: Opcode.from_name(T(a))),
    'opcode_new': (Opcode, lambda a: Opcode(unint(a['n']))),
    'opcode_push': (Opcode, lambda a: Opcode.push_for(unint(a['n']))),
    'instruction': (Instruction, lambda a: Instruction(Opcode(a['op']), B(a))),
    'tx_bytes': (Transaction, lambda a: Transaction.from_bytes(B(a))),
    'tx_hex': (Transaction, lambda a: Transaction.from_hex(T(a))),
    'in_bytes': (Input, lambda a: Input.from_bytes(B(a))),
    'in_hex': (Input, lambda a: Input.from_hex(T(a))),
    'out_bytes': (Output, lambda a: Output.from_bytes(B(a))),
    'out_hex': (Output, lambda a: Output.from_hex(T(a))),
    'hex': (bytes, lambda a: bitforge.encoding.decode_hex(T(a))),
    'base58': (bytes, lambda a: bitforge.encoding.decode_base58h(T(a))),
    'tx_new': (Transaction, tx_new),
    'data_output': (Output, lambda a: DataOutput.create(B(a))),
    'get_pubkey': (PublicKey, lambda a: PayToPubkeyIn(data_script(b'sig') + data_script(B(a))).get_public_key()),
    'get_pubkeys': (list, lambda a: RedeemMultisig([Instruction(Opcode(81))] + data_script(B(a)) +
                                                   [Instruction(Opcode(81)), Instruction(Opcode(174))]).get_public_keys()),
    'get_script': (Script, lambda a: PayToScriptIn([Instruction(Opcode(0))] + data_script(b's') + data_script(B(a))).get_script()),
    'read': (bytes, lambda a: Buffer(B(a)).read(a['size'])),
    'read_varint': (int, lambda a: Buffer(B(a)).read_varint()),
}


def parse(env, a):
    cls, fn = PARSERS[a['p']]
    ok, v = guarded(fn, a)
    if ok:
        return {'r': {'k': 'value' if isinstance(v, cls) else 'other', 'v': []}}
    e = project_error(v)
    try:
        e['rep'] = project(repr(v))
    except Exception:
        e['rep'] = {'k': 'other', 'v': []}
    return {'r': e}


OPS = {'parse': parse}
BY_KIND = {'tx': 'tx_bytes', 'in': 'in_bytes', 'out': 'out_bytes', 'script': 'script_bytes', 'text': 'script_text',
           'pub': 'pub_bytes', 'wif': 'priv_wif', 'addr': 'addr_string'}
NAMES = [LIVE, TEST, cps('nonet'), cps(''), cps('é'), cps('{0}'), cps('{string}'), cps('%s')]
BAD_TEXTS = ['', ' ', '\0', '\n', 'é', '中', '😀', '\ud800', '\udfff', '{', '}', '{}', '{0}', '{string}', '{x.y}', '%', '%s', '%d', '"', "'", '\\', '\\x00', "'\"",
             '0', '1', 'O', 'OP', 'OP_', 'OP_1', 'OP_FOO', 'op_1', 'OP_é', 'OP_1 ', ' OP_1', '__class__', 'OP_UNKNOWN', 'None', 'z' * 1000, '1' * 500, '٣', '²', '１', '-1', '+1', '0x', '0x0', '0xzz',
             '11', 'l', 'I', '1' * 34, '3' * 52, '\ufeff', '\u202e', '\x7f', '\x80', 'a\tb', 'nan', '1e5', '\u0130']


def text_mutants(rng, t, k):
    out = []
    for _ in range(k):
        i = rng.randrange(len(t) + 1)
        m = rng.randrange(8)
        if m == 0:
            out.append(t[:i])
        elif m == 1:
            out.append(t[:i] + rng.choice(BAD_TEXTS) + t[i:])
        elif m == 2:
            out.append(t[:i] + chr(rng.choice([rng.randrange(128), rng.randrange(0x3000), 0xd800, 0x1f600])) + t[i + 1:])
        elif m == 3:
            out.append(t[i:])
        elif m == 4:
            out.append(t + t[:i])
        elif m == 5:
            out.append(t[:i] + t[i:].swapcase())
        elif m == 6:
            out.append(t[:max(0, i - 1)] + t[i:])
        else:
            out.append(gen.mutate_text(rng, t, 1)[0])
    return out


def byte_mutants(rng, b, k):
    out = []
    for _ in range(k):
        i = rng.randrange(len(b) + 1)
        m = rng.randrange(8)
        v = bytes([rng.choice(gen.INTERESTING)])
        if m == 0:
            out.append(b[:i])
        elif m == 1:
            out.append(b[:i] + v + b[i:])
        elif m == 2:
            out.append(b[:i] + v + b[i + 1:])
        elif m == 3:
            out.append(b[i:])
        elif m == 4:
            out.append(b + rbytes(rng, rng.randrange(1, 10)))
        elif m == 5:
            j = rng.randrange(len(b) + 1)
            out.append(b[:i] + b[j:])
        elif m == 6:
            out.append(b[:i] + rng.choice([b'\xff' * 9, b'\xff' + bytes(7) + b'\x80', b'\xfe\xff\xff\xff\xff', b'\xfd\xff\xff', b'\xff\xff\xff\xff\xff\xff\xff\xff\x7f', b'\x4e\xff\xff\xff\xff', b'\xfd\0\0']) + b[i:])
        else:
            x = bytearray(b)
            for _ in range(rng.randrange(1, 5)):
                if x:
                    x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
            out.append(bytes(x))
    return out


def vi(n):
    return bytes([n]) if n < 253 else b'\xfd' + n.to_bytes(2, 'little')


def rscript(rng):
    if rng.random() < 0.3:
        return rbytes(rng, rng.randrange(20))
    return b''.join(ins_bytes(random_ins(rng)) for _ in range(rng.randrange(4)))[:2000]


def rin(rng):
    s = rscript(rng)
    return rbytes(rng, 36) + vi(len(s)) + s + rbytes(rng, 4)


def rout(rng):
    s = rscript(rng)
    return rbytes(rng, 8) + vi(len(s)) + s


def rtx(rng):
    ni, no = rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 1, 2, 3])
    return (rbytes(rng, 4) + vi(ni) + b''.join(rin(rng) for _ in range(ni)) + vi(no) +
            b''.join(rout(rng) for _ in range(no)) + rbytes(rng, 4))


def script_text(rng):
    out = []
    for _ in range(rng.randrange(1, 5)):
        r = rng.random()
        d = rbytes(rng, rng.choice([0, 1, 2, 20, 75, 76]))
        if r < 0.4:
            out.append(rng.choice(list(opnames.OPS)))
        elif r < 0.6:
            out.append('%d 0x%s' % (len(d) + rng.choice([0, 0, 0, 1, -1]), d.hex()))
        elif r < 0.8:
            out.append('%s %s 0x%s' % (rng.choice(['OP_PUSHDATA1', 'OP_PUSHDATA2', 'OP_PUSHDATA4']), rng.choice([str(len(d))] * 4 + ['x', '-1', '1.0', '٣', '²', '9' * 5000, '99999999999', '4294967296']), d.hex()))
        else:
            out.append(rng.choice(['0x', '0x00', '1', '75', '76', '0', '256', '99999999999', '9' * 5000, 'OP_PUSHDATA1', 'OP_PUSHDATA2 5', '1 00', '1 0xg0', '1 0x0', '²', '٣ 0x000000', '-1', 'OP_X', 'DUP', '1 0x٣٣', '2 0x0é']))
    return ' '.join(out)


def c24(ctx):
    rng = ctx.rng('mal')
    for i, c in enumerate(ctx.cases):
        if ctx.thorough and i % 12:
            continue
        e = c['e']
        p = BY_KIND[c['kind']]
        a = {'p': p, ('t' if c['kind'] in ('text', 'wif', 'addr') else 'b'): e, 'net': LIVE}
        yield a
        if i % 16 == 0 and p in ('tx_bytes', 'in_bytes', 'out_bytes', 'pub_bytes'):
            yield {'p': p.replace('bytes', 'hex'), 't': cps(bytes(e).hex()), 'net': LIVE}
    # texts
    good = {'priv_wif': lambda: gen.b58check(bytes([rng.choice([128, 239, rng.randrange(256)])]) + rbytes(rng, rng.choice([32, 32, 31, 33, 0])) + rng.choice([b'', b'\1', b'\2'])),
            'priv_hex': lambda: rbytes(rng, rng.choice([32, 32, 31, 33, 0])).hex(),
            'pub_hex': lambda: (bytes([rng.choice([2, 3, 4, 0, 5])]) + rbytes(rng, rng.choice([32, 64, 31, 63]))).hex(),
            'addr_string': lambda: gen.b58check(bytes([rng.choice([0, 5, 111, 196, rng.randrange(256)])]) + rbytes(rng, rng.choice([20, 20, 19, 21, 0]))),
            'addr_hex': lambda: (bytes([rng.choice([0, 5, 111, 196, rng.randrange(256)])]) + rbytes(rng, rng.choice([20, 20, 19, 21]))).hex(),
            'script_text': lambda: script_text(rng),
            'opcode_name': lambda: rng.choice(['OP_DUP', 'OP_CHECKSIG', 'OP_1', 'OP_PUSHDATA1']),
            'tx_hex': lambda: rtx(rng).hex(), 'in_hex': lambda: rin(rng).hex(), 'out_hex': lambda: rout(rng).hex(),
            'hex': lambda: rbytes(rng, rng.randrange(10)).hex(),
            'base58': lambda: gen.b58check(rbytes(rng, rng.randrange(30)))}
    for p, make in good.items():
        for t in BAD_TEXTS:
            yield {'p': p, 't': cps(t), 'net': LIVE}
            yield {'p': p, 't': cps(make() + t), 'net': LIVE}
        for _ in range(ctx.n(60, 2500)):
            t = make()
            yield {'p': p, 't': cps(t), 'net': rng.choice(NAMES) if rng.random() < 0.2 else TEST}
            for m in text_mutants(rng, t, 4):
                yield {'p': p, 't': cps(m), 'net': LIVE}
    # bytes
    goodb = {'priv_bytes': lambda: rbytes(rng, 32), 'pub_bytes': lambda: gen.sec(gen.mul(rng.randrange(1, N)), rng.random() < 0.5),
             'addr_bytes': lambda: bytes([rng.choice([0, 5, 111, 196])]) + rbytes(rng, 20),
             'script_bytes': lambda: rscript(rng), 'tx_bytes': lambda: rtx(rng), 'in_bytes': lambda: rin(rng), 'out_bytes': lambda: rout(rng),
             'get_pubkey': lambda: gen.sec(gen.mul(rng.randrange(1, N)), rng.random() < 0.5),
             'get_pubkeys': lambda: gen.sec(gen.mul(rng.randrange(1, N)), rng.random() < 0.5),
             'get_script': lambda: rscript(rng), 'addr_new': lambda: rbytes(rng, 20)}
    for p, make in goodb.items():
        for ln in list(range(0, 90)) + [252, 253, 255, 256, 520, 1000]:
            yield {'p': p, 'b': list(rbytes(rng, ln)), 'net': LIVE}
            yield {'p': p, 'b': [rng.choice([0, 76, 77, 78, 253, 254, 255])] * ln, 'net': LIVE}
        for first in range(256):
            yield {'p': p, 'b': [first] + list(make()[1:]), 'net': LIVE}
            yield {'p': p, 'b': [first], 'net': LIVE}
        for _ in range(ctx.n(60, 2500)):
            b = make()
            yield {'p': p, 'b': list(b), 'net': rng.choice(NAMES)}
            for m in byte_mutants(rng, b, 4):
                yield {'p': p, 'b': list(m), 'net': LIVE}
    # every truncation of a few transactions, and lengths far beyond the data
    for _ in range(ctx.n(3, 60)):
        b = rtx(rng)
        for i in range(min(len(b), 400)):
            yield {'p': 'tx_bytes', 'b': list(b[:i])}
    for big in [b'\xff' * 9, b'\xff' + b'\xff' * 7 + b'\x7f', b'\xff' + bytes(7) + b'\x80', b'\xff' + bytes(7) + b'\1', b'\xfe\xff\xff\xff\xff', b'\xfd\xff\xff', b'\xff\0\0\0\0\1\0\0\0', b'\xff\xff\xff\xff\xff\0\0\0\0']:
        for tail in (b'', bytes(40), bytes(200)):
            yield {'p': 'tx_bytes', 'b': list(b'\1\0\0\0' + big + tail)}
            yield {'p': 'tx_bytes', 'b': list(b'\1\0\0\0\1' + bytes(36) + big + tail)}
            yield {'p': 'tx_bytes', 'b': list(b'\1\0\0\0\1' + bytes(36) + b'\0' + bytes(4) + big + tail)}
            yield {'p': 'tx_bytes', 'b': list(b'\1\0\0\0\1' + bytes(36) + b'\0' + bytes(4) + b'\1' + bytes(8) + big + tail)}
            yield {'p': 'in_bytes', 'b': list(bytes(36) + big + tail)}
            yield {'p': 'out_bytes', 'b': list(bytes(8) + big + tail)}
            yield {'p': 'read_varint', 'b': list(big + tail)}
    for b in [b'', b'\xfd', b'\xfd\0', b'\xfe\0\0\0', b'\xff' + bytes(7), b'\xfc', b'\0']:
        yield {'p': 'read_varint', 'b': list(b)}
        for size in (0, 1, 2, 10, 2**31 - 1):
            yield {'p': 'read', 'b': list(b), 'size': size}
    # constructors
    ints = [0, 1, -1, N - 1, N, N + 1, P, 2**256 - 1, 2**256, -N, 10**1000, -10**1000, 255, 256, 257, 75, 76, 65535, 65536, 2**32 - 1, 2**32, 2**64]
    for n in ints:
        for net in NAMES:
            yield {'p': 'priv_new', 'n': sint(n), 'net': net}
        for m in ints[:10]:
            yield {'p': 'pub_new', 'x': sint(n), 'y': sint(m), 'net': rng.choice(NAMES)}
        yield {'p': 'opcode_new', 'n': sint(n)}
        yield {'p': 'opcode_push', 'n': sint(n)}
        for ni in (0, 1, 2):
            for no in (0, 1, 2):
                yield {'p': 'tx_new', 'nin': ni, 'nout': no, 'lock': sint(n), 'strange': False}
    for which in (1, 2):
        for ni, no in ((1, 1), (2, 1), (1, 2), (0, 1), (1, 0)):
            for thing in range(len(THINGS)):
                yield {'p': 'tx_new', 'nin': ni, 'nout': no, 'lock': sint(0), 'strange': True, 'which': which, 'thing': thing}
    for n in range(0, 256):
        yield {'p': 'opcode_new', 'n': sint(n)}
    for op in list(range(1, 79)):
        for ln in {0, 1, op - 1, op, op + 1, 75, 76, 255, 256, 300} | ({65535, 65536} if op >= 76 else set()):
            if ln >= 0:
                yield {'p': 'instruction', 'op': op, 'b': [7] * ln}
    for ln in [0, 1, 75, 76, 79, 80, 81, 82, 100, 255, 256, 520, 521, 65536]:
        yield {'p': 'data_output', 'b': [1] * ln}
    for t in opnames.OPS:
        yield {'p': 'opcode_name', 't': cps(t)}
        yield {'p': 'opcode_name', 't': cps(t.lower())}
        yield {'p': 'opcode_name', 't': cps(t[3:])}


def sessions(ctx):
    return chunks((('parse', a) for a in c24(ctx)), 40, {'none': 0})

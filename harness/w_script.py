"""Scripts: C09 (bytes), C10 (text), C11 (templates)."""
import bitforge
from bitforge import PublicKey, Address, Script, Opcode, Instruction
from bitforge.script import PayToPubkeyIn, PayToPubkeyOut, PayToScriptIn, PayToScriptOut, RedeemMultisig, OpReturnOut
from bitforge.transaction import (Input, AddressInput, ScriptInput, MultisigInput, Output, AddressOutput, ScriptOutput,
                                  MultisigOutput, DataOutput)
from drive import chunks
import gen
import opnames
from gen import rbytes
from obs import observe, project, untext, cps
from w_keys import LIVE, TEST, NETS, addr_type

TXID = 'ab' * 32
NONE = {'k': 'none', 'v': []}


def o_script(s):
    if not isinstance(s, Script):
        return {'k': 'other', 'v': []}
    return {'k': 'script',
            'ins': [{'op': i.opcode.number, 'data': project(i.data)} for i in s.instructions],
            'bytes': observe(s.to_bytes), 'hex': observe(s.to_hex)}


def make_ins(x):
    return Instruction(Opcode(x['op']), bytes(x['data']) if x['has'] else None)


def build(env, a):
    s = Script([make_ins(x) for x in a['ins']])
    return {'r': observe(lambda: s, proj=o_script),
            'back': observe(lambda: Script.from_bytes(s.to_bytes()), proj=o_script),
            'same': observe(lambda: Script.from_bytes(s.to_bytes()) == s)}


def text_of(env, a):
    s = Script([make_ins(x) for x in a['ins']])
    return {'r': observe(s.to_string),
            'back': observe(lambda: Script.from_string(s.to_string()), proj=o_script),
            'same': observe(lambda: Script.from_string(s.to_string()) == s)}


def item(x):
    if x['kind'] == 'op':
        return Opcode(x['op']) if x['as'] == 0 else x['op']
    if x['kind'] == 'data':
        return bytes(x['data'])
    return (Opcode(x['op']) if x['as'] == 0 else x['op'], bytes(x['data']))


SCRIPTS = [PayToPubkeyIn, PayToPubkeyOut, PayToScriptIn, PayToScriptOut, OpReturnOut, RedeemMultisig]


def kind(classes, base):
    """Names of the classes x belongs to; the base's when it is in none."""
    def proj(x):
        names = [c.__name__ for c in classes if isinstance(x, c)]
        if len(names) > 1:
            return 'several: ' + ' '.join(names)
        if names:
            return names[0]
        return base.__name__ if isinstance(x, base) else 'not a ' + base.__name__
    return proj


def kind_or_error(fn, proj):
    r = observe(fn, proj=proj)
    return r if isinstance(r, str) else 'error: %s' % r.get('type', r.get('k'))


def classify(env, a):
    s = Script.from_bytes(bytes(a['b']))
    o_s = kind(SCRIPTS, Script)
    plain = Script(s.instructions)

    def named():
        c = Script.classify(plain)
        return 'Script' if c is None else c.__name__
    return {'r': kind_or_error(lambda: s, o_s), 'r2': kind_or_error(named, lambda x: x),
            'r3': kind_or_error(lambda: Script.create(plain.instructions), o_s),
            'inp': kind_or_error(lambda: Input.create(TXID, 0, plain), kind([AddressInput, ScriptInput], Input)),
            'out': kind_or_error(lambda: Output.create(1, plain), kind([AddressOutput, ScriptOutput, DataOutput], Output)),
            'out2': kind_or_error(lambda: Output.from_bytes(Output(5, plain).to_bytes()),
                                  kind([AddressOutput, ScriptOutput, DataOutput], Output))}


def sbytes(x):
    return project(x.to_bytes())


def listed(*fns):
    return observe(lambda: [f() for f in fns])


def p2pkh_out(env, a):
    addr = Address(bytes(a['hash']), untext(a['net']), addr_type(a['type']))
    r = observe(lambda: PayToPubkeyOut.create(addr), proj=sbytes)
    return {'r': r,
            'acc': observe(lambda: PayToPubkeyOut.create(addr).get_address_hash()),
            'out': observe(lambda: AddressOutput.create(7, addr).script, proj=sbytes),
            'inp': observe(lambda: AddressInput.create(TXID, 1, addr).script, proj=sbytes)}


def p2pkh_in(env, a):
    pub = PublicKey.from_bytes(bytes(a['pub']))
    s = PayToPubkeyIn.create(pub, bytes(a['sig']))
    return {'r': observe(lambda: s, proj=sbytes), 'acc': listed(s.get_signature, lambda: s.get_public_key().to_bytes())}


def p2sh_out(env, a):
    redeem = Script.from_bytes(bytes(a['script']))
    s = PayToScriptOut.create(redeem)
    return {'r': observe(lambda: s, proj=sbytes), 'acc': observe(s.get_script_hash),
            'out': observe(lambda: ScriptOutput.create(9, redeem).script, proj=sbytes)}


def p2sh_in(env, a):
    redeem = Script.from_bytes(bytes(a['script']))
    s = PayToScriptIn.create(redeem, [bytes(x) for x in a['sigs']])
    return {'r': observe(lambda: s, proj=sbytes), 'acc': listed(lambda: s.get_script().to_bytes(), s.get_signatures)}


def multisig(env, a):
    pubs = [PublicKey.from_bytes(bytes(b)) for b in a['pubs']]
    s = RedeemMultisig.create(pubs, a['m'])
    return {'r': observe(lambda: s, proj=sbytes),
            'acc': listed(s.get_min_signatures, lambda: [k.to_bytes() for k in s.get_public_keys()]),
            'inp': observe(lambda: MultisigInput.create(TXID, 0, pubs, a['m']).script, proj=sbytes),
            'out': observe(lambda: MultisigOutput.create(5, pubs, a['m']).script, proj=sbytes)}


def data(env, a):
    b = bytes(a['b'])
    return {'r': observe(lambda: OpReturnOut.create(b), proj=sbytes),
            'acc': observe(lambda: OpReturnOut.create(b).get_data()),
            'out': observe(lambda: DataOutput.create(b).script, proj=sbytes),
            'amount': observe(lambda: DataOutput.create(b).amount)}


OPS = {
    'from_bytes': lambda env, a: observe(Script.from_bytes, bytes(a['b']), proj=o_script),
    'new_ins': lambda env, a: observe(lambda: make_ins(a), proj=sbytes),
    'build': build,
    'push_for': lambda env, a: observe(Instruction.push_for, bytes(a['b']), proj=sbytes),
    'compile': lambda env, a: observe(lambda: Script.compile([item(x) for x in a['items']]), proj=o_script),
    'text_of': text_of,
    'from_text': lambda env, a: observe(Script.from_string, untext(a['t']), proj=o_script),
    'op_from_name': lambda env, a: observe(lambda: Opcode.from_name(untext(a['t'])).number),
    'op_name': lambda env, a: observe(lambda: Opcode(a['n']).name),
    'p2pkh_out': p2pkh_out, 'p2pkh_in': p2pkh_in, 'p2sh_out': p2sh_out, 'p2sh_in': p2sh_in,
    'multisig': multisig, 'data': data, 'classify': classify,
}

LENGTHS = [0, 1, 2, 3, 19, 20, 21, 32, 33, 65, 71, 72, 74, 75, 76, 77, 78, 79, 80, 81, 127, 128, 252, 253, 254, 255, 256, 257, 258,
           511, 519, 520, 521, 1000]
NONPUSH = [0] + list(range(79, 256))


def width(op):
    return {76: 1, 77: 2, 78: 4}.get(op, 0)


def ins(op, d=None):
    return {'op': op, 'has': d is not None, 'data': list(d or b'')}


def ins_bytes(x):
    if not x['has']:
        return bytes([x['op']])
    return bytes([x['op']]) + (len(x['data']).to_bytes(width(x['op']), 'little') if width(x['op']) else b'') + bytes(x['data'])


def push(d, op=None):
    n = len(d)
    return ins(op or (n if 0 < n <= 75 else 76 if n <= 255 else 77 if n <= 65535 else 78), d)


def random_ins(rng, named=False, lengths=LENGTHS):
    x = rng.random()
    if x < 0.45:
        op = rng.choice(NAMED if named else NONPUSH)
        return ins(op)
    if x < 0.75:
        n = rng.randrange(1, 76)
        return push(rbytes(rng, n), n)
    n = rng.choice(lengths)
    ops = [o for o, m in ((76, 255), (77, 65535), (78, 1 << 32)) if n <= m]
    return push(rbytes(rng, n), rng.choice(ops))


NAMED = sorted(set(v for v in opnames.OPS.values() if not 76 <= v <= 78))


def c09(ctx):
    rng = ctx.rng('bytes')
    for c in ctx.cases:
        if c['op'] in ('raw', 'ins'):
            yield 'from_bytes', {'b': c['b']}
        if c['op'] == 'ins' and rng.random() < ctx.n(0.25, 1):
            yield 'build', {'ins': c['ins']}
    # every opcode alone, with every kind of data
    for op in range(256):
        yield 'from_bytes', {'b': [op]}
        yield 'from_bytes', {'b': [op, 0]}
        yield 'from_bytes', {'b': [op, 1, 2, 3, 4, 5, 6, 7]}
        for n in sorted({0, 1, op - 1, op, op + 1}):
            if 0 <= n <= 300:
                yield 'new_ins', ins(op, rbytes(rng, n))
        yield 'new_ins', ins(op)
    for n in LENGTHS + [65535, 65536, 65537]:
        d = rbytes(rng, n)
        yield 'push_for', {'b': list(d)}
        for op in (76, 77, 78, 75):
            if n < 65536 or op in (77, 78):
                yield 'new_ins', ins(op, d)
    for n in list(range(1, 300)) + ctx.n([], list(range(300, 3000, 7))):
        yield 'push_for', {'b': list(rbytes(rng, n))}
    # random scripts, whole, cut and with a byte changed
    for _ in range(ctx.n(500, 8000)):
        seq = [random_ins(rng, lengths=LENGTHS[:26]) for _ in range(rng.randrange(0, 12))]
        yield 'build', {'ins': seq}
        b = b''.join(map(ins_bytes, seq))
        yield 'from_bytes', {'b': list(b)}
        if b:
            for _ in range(2):
                yield 'from_bytes', {'b': list(b[:rng.randrange(len(b))])}
            m = bytearray(b)
            m[rng.randrange(len(m))] = rng.choice(gen.INTERESTING)
            yield 'from_bytes', {'b': list(m)}
    for _ in range(ctx.n(600, 10000)):
        yield 'from_bytes', {'b': list(rbytes(rng, rng.randrange(0, 60)))}
    # scripts that are almost the same, one after the other
    for _ in range(ctx.n(120, 2000)):
        n = rng.choice([3, 4, 20, 33, 75, 76, 80, 200, 255, 256, 300])
        d = bytearray(rbytes(rng, n))
        d[0], d[-1], d[n // 2] = rng.sample(range(256), 3)
        rev, swap, end, mid, begin = bytearray(reversed(d)), bytearray(d), bytearray(d), bytearray(d), bytearray(d)
        swap[0], swap[-1] = swap[-1], swap[0]
        end[-1] ^= 1 << rng.randrange(8)
        mid[n // 2] ^= 1 << rng.randrange(8)
        begin[0] ^= 1 << rng.randrange(8)
        op = rng.choice([n] * (n <= 75) + [76] * (n <= 255) + [77, 78])
        tail = rng.choice([[], [ins(117)], [ins(135)]])
        for x in rng.sample([d, rev, swap, end, mid, begin], 4) + [d]:
            seq = [push(bytes(x), op)] + tail
            yield 'from_bytes', {'b': list(b''.join(map(ins_bytes, seq)))}
    # PUSHDATA at the ends of its length
    for op, ns in ((76, (0, 1, 75, 76, 127, 128, 254, 255)), (77, (0, 1, 75, 255, 256, 257, 511, 512, 32767, 32768, 65535)),
                   (78, (0, 1, 255, 256, 65535, 65536, 65537))):
        for n in ns:
            d = bytes((i * 7 + n) % 256 for i in range(n))
            b = bytes([op]) + n.to_bytes(width(op), 'little') + d
            for v in ([b, b + b'\x75', b[:-1] if n else b] if n < 5000 else [b + b'\x75']):
                yield 'from_bytes', {'b': list(v)}
            if n < 5000:
                yield 'build', {'ins': [push(d, op), ins(0x75), push(d, op)]}
    for lenbytes in (b'\xff\xff\xff\xff', b'\0\0\0\x80', b'\0\0\0\1', b'\0\0\1\0', b'\xff\xff\xff\x7f', b'\0\0\0', b'\1'):
        yield 'from_bytes', {'b': list(b'\x4e' + lenbytes)}
        yield 'from_bytes', {'b': list(b'\x4e' + lenbytes + bytes(40))}
    for _ in range(ctx.n(250, 4000)):
        items = []
        for _ in range(rng.randrange(0, 8)):
            x = rng.random()
            if x < 0.4:
                items.append({'kind': 'op', 'op': rng.choice(NONPUSH), 'as': rng.randrange(2)})
            elif x < 0.7:
                items.append({'kind': 'data', 'data': list(rbytes(rng, rng.choice(LENGTHS[1:26]))), 'op': 0, 'as': 0})
            else:
                i = random_ins(rng, lengths=LENGTHS[:26])
                if i['has']:
                    if rng.random() < 0.2:
                        i['data'] = i['data'] + [1] if rng.random() < 0.5 else i['data'][:-1]
                    items.append({'kind': 'ins', 'op': i['op'], 'data': i['data'], 'as': rng.randrange(2)})
        yield 'compile', {'items': items}


def ins_text(x):
    names = {v: k for k, v in opnames.OPS.items() if k not in ('OP_FALSE', 'OP_TRUE')}
    if not x['has']:
        return names[x['op']]
    t = '%d 0x%s' % (len(x['data']), bytes(x['data']).hex())
    return t if x['op'] <= 75 else names[x['op']] + ' ' + t


def c10(ctx):
    rng = ctx.rng('text')
    for c in ctx.cases:
        if c['op'] == 'ins' and rng.random() < ctx.n(0.25, 1):
            yield 'text_of', {'ins': c['ins']}
    for n, v in opnames.OPS.items():
        yield 'op_from_name', {'t': cps(n)}
        yield 'from_text', {'t': cps(n)}
        for bad in (n + ' ', n.lower(), n[3:], n + 'X', n[:-1], 'OP' + n, n.replace('_', '-'), n + '\0', ' ' + n):
            yield 'op_from_name', {'t': cps(bad)}
            yield 'from_text', {'t': cps(bad)}
    for n in range(256):
        yield 'op_name', {'n': n}
        yield 'text_of', {'ins': [ins(n)]} if n in NAMED else {'ins': [ins(0)]}
        yield 'from_text', {'t': cps('OP_%d' % n)}
    for t in ('OP_UNKNOWN', 'OP_', 'OP', '', '_PUSH_5_BYTES', 'OP_VER', 'OP_VERIF', 'OP_VERNOTIF', 'OP_NOP2', 'OP_CHECKLOCKTIMEVERIFY ',
              'OP_é', 'OP_１', 'Opcode', 'OP_PUSHDATA3', 'OP_17', 'OP_-1', 'OP_00', 'OP_01', 'OP_SIZE\n', '__name__', 'OP_number_to_name'):
        yield 'op_from_name', {'t': cps(t)}
        yield 'from_text', {'t': cps(t)}
    for n in list(range(1, 76)):
        yield 'text_of', {'ins': [push(rbytes(rng, n), n)]}
    for op, ns in ((76, (0, 1, 75, 76, 254, 255)), (77, (0, 1, 255, 256, 300)), (78, (0, 2, 300))):
        for n in ns:
            yield 'text_of', {'ins': [push(rbytes(rng, n), op)]}
    for op, n in ((77, 520), (77, 65535), (78, 65535), (78, 65536), (78, 65537)):
        yield 'text_of', {'ins': [ins(81), push(rbytes(rng, n), op), ins(172)]}
    for n in (127, 128, 255, 256, 257, 1000):
        yield 'text_of', {'ins': [random_ins(rng, True, [1, 2, 5]) for _ in range(n)]}
    for _ in range(ctx.n(500, 8000)):
        seq = [random_ins(rng, True, LENGTHS[:18]) for _ in range(rng.randrange(0, 9))]
        yield 'text_of', {'ins': seq}
        toks = [t for x in seq for t in ins_text(x).split(' ')]
        if toks:
            yield 'from_text', {'t': cps(' '.join(toks))}
            for _ in range(3):
                yield 'from_text', {'t': cps(' '.join(spoil(rng, toks)))}
    # arguments that are missing, not hex, or of another length
    for head in ('OP_PUSHDATA1', 'OP_PUSHDATA2', 'OP_PUSHDATA4', ''):
        for size in ('0', '1', '2', '3', '75', '76', '255', '256', '65535', '65536', '-1', '+1', '1.0', 'x', '', '0x1', '01', '²', '٣', '１',
                     '4294967295', '4294967296', '9' * 30, '9' * 5000):
            for arg in ('0x', '0x0', '0x00', '0x0001', '0x000102', '00', '0X00', '0xzz', '0x0g', 'x00', '0x é', '', '0x00 ', None, '0x٣٣', '0x１１',
                        '0x' + '00' * 75, '0x' + '00' * 76, '0x' + 'aB' * 255, '0x' + '00' * 256):
                if rng.random() < ctx.n(0.5, 1):
                    t = ' '.join(x for x in (head, size, arg) if x is not None and x != '' or x == '' and rng.random() < 0.1)
                    if len(t) < 3000 or rng.random() < 0.2:
                        yield 'from_text', {'t': cps(t)}


def spoil(rng, toks):
    toks = list(toks)
    i = rng.randrange(len(toks))
    mode = rng.randrange(8)
    if mode == 0:
        del toks[i]
    elif mode == 1:
        toks.insert(i, rng.choice(['OP_DUP', '0x00', '5', 'foo', 'OP_1', '']))
    elif mode == 2:
        toks[i] = toks[i][:-1]
    elif mode == 3:
        toks[i] = toks[i] + rng.choice('0fgé x')
    elif mode == 4:
        toks = toks[:i]
    elif mode == 5:
        toks[i] = toks[i].upper()
    elif mode == 6:
        j = rng.randrange(len(toks))
        toks[i], toks[j] = toks[j], toks[i]
    else:
        toks[i] = rng.choice(['OP_PUSHDATA1', 'OP_PUSHDATA2', '1', '2', '0x', '0x12', 'OP_0', 'OP_TRUE', 'OP_FALSE'])
    return toks


def pubkeys(rng, n):
    return [list(gen.sec(gen.mul(rng.randrange(1, gen.N)), rng.random() < 0.7)) for _ in range(n)]


def c11(ctx):
    rng = ctx.rng('templates')
    for c in ctx.cases:
        if c['op'] == 'ins':
            yield 'classify', {'b': c['b']}
    PK, SH = cps('pubkeyhash'), cps('scripthash')
    for _ in range(ctx.n(40, 500)):
        for net in NETS:
            for typ in (PK, SH):
                yield 'p2pkh_out', {'hash': list(rbytes(rng, 20)), 'net': net, 'type': typ}
    pool = pubkeys(rng, ctx.n(24, 60))
    for n in list(range(1, 81)) + [100, 255, 256, 300, 520, 521, 65535, 65536]:
        yield 'p2pkh_in', {'pub': rng.choice(pool), 'sig': list(rbytes(rng, n))}
    bodies = [b'', b'\x51', bytes(10), b'\x00\x51\x93', b'\x76\xa9\x14' + bytes(20) + b'\x88\xac', b'\xa9\x14' + bytes(20) + b'\x87',
              b'\x6a\x01\x05', b'\x51' * 75, b'\x51' * 76, b'\x51' * 255, b'\x51' * 256, b'\x51' * 520, b'\x01\x51\x01\x52',
              b'\x51' * 521, b'\x51' * 10001, b'\x51' * 65535, b'\x51' * 65536]
    bodies += [b''.join(ins_bytes(random_ins(rng, lengths=LENGTHS[:20])) for _ in range(rng.randrange(1, 8))) for _ in range(ctx.n(40, 600))]
    for b in bodies:
        yield 'p2sh_out', {'script': list(b)}
        if b:
            for k in (0, 1, 2, 3, 15, 20, 130, 260):
                if k < 4 or rng.random() < (0.2 if k < 16 else 0.05):
                    yield 'p2sh_in', {'script': list(b), 'sigs': [list(rbytes(rng, rng.choice([1, 9, 70, 71, 72, 73, 75, 76]))) for _ in range(k)]}
    for n in range(1, 17):
        for m in sorted({0, 1, 2, n - 1, n}) if not ctx.thorough else range(0, n + 1):
            if 0 <= m <= n:
                yield 'multisig', {'pubs': rng.sample(pool, n), 'm': m}
    for n in (2, 3):
        k = rng.choice(pool)
        yield 'multisig', {'pubs': [k] * n, 'm': n}
    for n in list(range(0, 90)) + [100, 200, 255, 256, 520, 521, 65535, 65536]:
        yield 'data', {'b': list(rbytes(rng, n))}
    # near misses of each template
    P = lambda n: push(rbytes(rng, n))
    temps = [
        lambda: [P(71), P(33)],
        lambda: [ins(118), ins(169), P(20), ins(136), ins(172)],
        lambda: [ins(0), P(71), P(30)],
        lambda: [ins(0), P(71), P(72), P(105)],
        lambda: [ins(169), P(20), ins(135)],
        lambda: [ins(106), P(40)],
        lambda: [ins(82), P(33), P(33), P(33), ins(83), ins(174)],
        lambda: [ins(81), P(65), ins(81), ins(174)],
        lambda: [ins(81), ins(81), ins(174)],
        lambda: [ins(0), P(33), ins(0), ins(174)],
        lambda: [ins(96)] + [P(33) for _ in range(16)] + [ins(96), ins(174)],
        lambda: [ins(0)] + [P(3) for _ in range(rng.choice([17, 64, 128, 255, 256, 300]))],
        lambda: [ins(0), P(3)],
        lambda: [P(3)],
        lambda: [P(3), P(4), P(5)],
        lambda: [],
    ]
    for t in temps:
        for _ in range(ctx.n(12, 120)):
            seq = t()
            b = b''.join(map(ins_bytes, seq))
            yield 'classify', {'b': list(b)}
            for _ in range(3):
                s2 = list(seq)
                mode = rng.randrange(6)
                i = rng.randrange(len(s2)) if s2 else 0
                if mode == 0 and s2:
                    del s2[i]
                elif mode == 1:
                    s2.insert(i, random_ins(rng, lengths=[0, 1, 20, 33]))
                elif mode == 2 and s2:
                    s2[i] = random_ins(rng, lengths=[0, 1, 20, 33])
                elif mode == 3 and s2:
                    s2[i] = ins(rng.choice([0, 79, 80, 81, 96, 97, 98, 106, 118, 135, 136, 169, 172, 173, 174, 175]))
                elif mode == 4 and s2:
                    s2[i] = push(rbytes(rng, rng.choice([0, 1, 19, 20, 21, 32, 33, 65])), rng.choice([76, 77, 78]))
                elif s2:
                    j = rng.randrange(len(s2))
                    s2[i], s2[j] = s2[j], s2[i]
                yield 'classify', {'b': list(b''.join(map(ins_bytes, s2)))}
    for _ in range(ctx.n(300, 5000)):
        seq = [random_ins(rng, lengths=LENGTHS[:20]) for _ in range(rng.randrange(0, 7))]
        yield 'classify', {'b': list(b''.join(map(ins_bytes, seq)))}


def sessions(ctx):
    return chunks({'C09': c09, 'C10': c10, 'C11': c11}[ctx.prop](ctx), 25)

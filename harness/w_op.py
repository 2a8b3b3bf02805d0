"""Opcodes and single instructions: C26."""
from bitforge import Opcode, Instruction
from drive import chunks
from gen import rbytes
from obs import observe, project, sint, unint, untext, cps
import opnames

ORDER = [(lambda x, y: x < y), (lambda x, y: x <= y), (lambda x, y: x == y),
         (lambda x, y: x != y), (lambda x, y: x > y), (lambda x, y: x >= y)]
NOT_OPCODES = [0, 2, 81, 118, 'OP_DUP', '', b'\x76', None, (118,), 1.5]
NONE = {'k': 'none', 'v': []}


def bit(f, x, y):
    try:
        v = f(x, y)
        return int(v) if isinstance(v, bool) else 2
    except Exception:
        return 3


def row(env, a):
    n = a['n']
    o = Opcode(n)
    others = [Opcode(m) for m in range(256)]
    return {'r': NONE,
            'num': observe(lambda: o.number), 'byte': observe(lambda: o.bytes), 'name': observe(lambda: o.name),
            'again': observe(lambda: Opcode.from_name(o.name) == o and Opcode.from_name(o.name).number == o.number)
            if n in opnames.OPS.values() else NONE,
            'isnum': observe(o.is_number), 'value': observe(o.number_value), 'push': observe(o.is_push),
            'const': observe(o.is_const_push), 'var': observe(o.is_var_push),
            'max': observe(Opcode.data_length_max, o), 'nbytes': observe(Opcode.data_length_nbytes, o),
            'cmp': [[bit(f, o, x) for f in ORDER] for x in others],
            'hash': observe(lambda: hash(o) == hash(Opcode(n)) and {o: 1}.get(Opcode(n)) == 1
                            and len({o, Opcode(n), Opcode((n + 1) % 256)}) == 2),
            'alien': observe(lambda: any([o == n, o == o.name, o == None, o == bytes([n])]))}  # noqa: E711


def parts(i):
    return project([i.opcode.number, i.data])


def data_of(a):
    return bytes(a['data']) if a['has'] else None


def ins(env, a):
    op, d = Opcode(a['op']), data_of(a)
    r = observe(lambda: Instruction(op, d) if a['has'] or a['explicit'] else Instruction(op), proj=parts)
    out = {'r': r, 'bytes': NONE, 'hex': NONE, 'text': NONE, 'push': NONE, 'min': NONE, 'same': NONE}
    if r['k'] == 'list':
        i = Instruction(op, d)
        j = Instruction(Opcode(a['op']), bytes(bytearray(d)) if d is not None else None)
        out.update(bytes=observe(i.to_bytes), hex=observe(i.to_hex), text=observe(i.to_string), push=observe(i.is_push),
                   min=observe(i.is_minimal_push), same=observe(lambda: i == j and not (i != j) and hash(i) == hash(j)))
    return out


def differs(env, a):
    i = Instruction(Opcode(a['op']), data_of(a))
    j = Instruction(Opcode(a['op2']), bytes(a['data2']) if a['has2'] else None)
    return observe(lambda: (i == j, i != j))


def lens(env, a):
    n = unint(a['n'])
    return {'r': observe(lambda: Opcode.push_for(n).number), 'const': observe(lambda: Opcode.const_push_for(n).number),
            'var': observe(lambda: Opcode.var_push_for(n).number)}


OPS = {
    'row': row, 'ins': ins, 'differs': differs, 'lens': lens,
    'new': lambda env, a: observe(lambda: Opcode(unint(a['n'])).number),
    'number': lambda env, a: observe(lambda: Opcode.for_number(unint(a['n'])).number),
    'named': lambda env, a: observe(lambda: Opcode.from_name(untext(a['t'])).number),
    'notop': lambda env, a: observe(lambda: Instruction(NOT_OPCODES[a['i']]) if a['bare']
                                    else Instruction(NOT_OPCODES[a['i']], b'\1\2')),
    'data': lambda env, a: observe(lambda: Instruction.push_for(bytes(a['data'])), proj=parts),
}


def calls(ctx):
    rng = ctx.rng('op')
    for n in range(256):
        yield 'row', {'n': n}
    for n in list(range(-3, 260)) + [-256, 511, 512, 2**16, 2**31, 2**32, 2**64, -2**31]:
        yield 'new', {'n': sint(n)}
        yield 'number', {'n': sint(n)}
    for name in opnames.OPS:
        yield 'named', {'t': cps(name)}
        for bad in (name.lower(), name + ' ', ' ' + name, name[3:], name[:-1], name + '0', name.replace('OP_', 'op_'), 'OP_' + name):
            yield 'named', {'t': cps(bad)}
    for t in ['', 'OP_', 'OP_UNKNOWN', '_PUSH_1_BYTES', 'OP_PUSH', '0', 'OP_17', 'OP_-1', 'OP_VER', 'é', 'OP_é', 'Opcode', '__name__', 'OP_NOP2']:
        yield 'named', {'t': cps(t)}
    marks = [0, 1, 74, 75, 76, 77, 78, 127, 128, 254, 255, 256, 257, 511, 512, 519, 520, 521, 65534, 65535, 65536, 65537,
             2**24 - 1, 2**24, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1, 2**32, 2**32 + 1, 2**40, 2**64, -1, -2, -75, -76, -2**32]
    for n in marks + list(range(0, 300)) + [rng.randrange(2**k) for k in range(9, 36) for _ in range(3)]:
        yield 'lens', {'n': sint(n)}
    for c in ctx.cases:
        yield 'ins', {'op': c['op'], 'has': c['has'], 'data': [c['x']] * c['n'], 'explicit': rng.random() < 0.5}
    # every opcode with the lengths around what it says
    for op in range(1, 79):
        for ln in {op - 1, op, op + 1, 0, rng.randrange(0, 90)}:
            yield 'ins', {'op': op, 'has': True, 'data': list(rbytes(rng, ln)), 'explicit': True}
    for op, lns in ((76, [254, 255, 256]), (77, [255, 256, 65534, 65535, 65536]), (78, [65535, 65536, 65537])):
        for ln in lns:
            yield 'ins', {'op': op, 'has': True, 'data': list(rbytes(rng, ln)), 'explicit': True}
    for v in range(256):
        for op in (1, 76, 77, 78):
            yield 'ins', {'op': op, 'has': True, 'data': [v], 'explicit': True}
    for ln in list(range(1, 80)) + [254, 255, 256, 257, 520, 65535, 65536]:
        yield 'data', {'data': list(rbytes(rng, ln))}
    for v in range(256):
        yield 'data', {'data': [v]}
    for i in range(len(NOT_OPCODES)):
        for bare in (True, False):
            yield 'notop', {'i': i, 'bare': bare}
    # pairs that differ in one part
    for _ in range(ctx.n(400, 6000)):
        how = rng.randrange(4)
        if how == 0:
            x, y = rng.sample([n for n in range(256) if not 1 <= n <= 78], 2)
            yield 'differs', {'op': x, 'has': False, 'data': [], 'op2': y, 'has2': False, 'data2': []}
        elif how == 1:
            ln = rng.randrange(1, 76)
            d = bytearray(rbytes(rng, ln))
            e = bytearray(d)
            e[rng.randrange(ln)] ^= 1 << rng.randrange(8)
            op = rng.choice([ln, 76, 77, 78])
            yield 'differs', {'op': op, 'has': True, 'data': list(d), 'op2': op, 'has2': True, 'data2': list(e)}
        elif how == 2:
            ln = rng.randrange(1, 76)
            d = list(rbytes(rng, ln))
            x, y = rng.sample([ln, 76, 77, 78], 2)
            yield 'differs', {'op': x, 'has': True, 'data': d, 'op2': y, 'has2': True, 'data2': d}
        else:
            op = rng.choice([76, 77, 78])
            ln = rng.randrange(0, 90)
            d = list(rbytes(rng, ln))
            yield 'differs', {'op': op, 'has': True, 'data': d, 'op2': op, 'has2': True, 'data2': d + [rng.choice([0, 1])]}


def sessions(ctx):
    return chunks(calls(ctx), 40)

"""The script interpreter: C15 (opcodes), C16 (verification), C17 (signatures)."""
import hashlib

from bitforge import Script
from bitforge.script.interpreter import Interpreter
from bitforge.transaction import Transaction, Input, Output
from drive import chunks
import gen
from gen import rbytes, N
from obs import observe, project, sint, unint
from w_script import ins, push, ins_bytes, random_ins
import w_tx

P2SH, STRICTENC, DERSIG, LOW_S, NULLDUMMY, SIGPUSHONLY, MINIMALDATA, NOPS, CLTV = 1, 2, 4, 8, 16, 32, 64, 128, 512
PLAIN = [P2SH, NULLDUMMY, SIGPUSHONLY, MINIMALDATA, NOPS, CLTV]
ALL = PLAIN + [STRICTENC, DERSIG, LOW_S]


def make_tx(t):
    if 'version' not in t:
        return None
    return Transaction([Input(bytes(x['txid']).hex(), unint(x['index']), Script.from_bytes(bytes(x['script'])), unint(x['seq']))
                        for x in t['ins']],
                       [Output.create(unint(x['amount']), Script.from_bytes(bytes(x['script']))) for x in t['outs']],
                       unint(t['lock']), unint(t['version']))


def verify(env, a):
    """The same Interpreter serves a whole session."""
    if 'vm' not in env or a.get('fresh'):
        env['vm'] = Interpreter()
    vm = env['vm']
    sig, pub = Script.from_bytes(bytes(a['sig'])), Script.from_bytes(bytes(a['pub']))
    t = make_tx(a['tx'])
    if t is None:
        r = observe(lambda: vm.verify(sig, pub, flags=a['flags']))
    else:
        r = observe(lambda: vm.verify(sig, pub, t, a['nin'], a['flags']))
    ev = {'r': r, 'err': str(vm.errstr).split(':')[0], 'stack': observe(lambda: list(vm.stack)), 'alt': observe(lambda: list(vm.altstack))}
    if len(ev['stack'].get('items', [])) > 40 and len(a['sig']) + len(a['pub']) > 4000:
        pass
    return ev


OPS = {'verify': verify}

NOTX = {'none': 0}


def call(sig, pub, flags=0, tx=NOTX, nin=0):
    return 'verify', {'sig': list(sig), 'pub': list(pub), 'flags': flags, 'tx': tx, 'nin': nin}


def asm(*xs):
    """Numbers are opcodes, bytes are pushed, lists are spliced."""
    out = b''
    for x in xs:
        if isinstance(x, (list, tuple)):
            out += asm(*x)
        elif isinstance(x, int):
            out += bytes([x])
        elif x == b'':
            out += b'\0'
        else:
            out += ins_bytes(push(x))
    return out


def num(n):
    """Script number."""
    if n == 0:
        return b''
    b = bytearray(abs(n).to_bytes((abs(n).bit_length() + 7) // 8, 'little'))
    if b[-1] & 0x80:
        b.append(0x80 if n < 0 else 0)
    elif n < 0:
        b[-1] |= 0x80
    return bytes(b)


def minimal(b):
    if b == b'':
        return b'\0'
    if len(b) == 1 and 1 <= b[0] <= 16:
        return bytes([80 + b[0]])
    if b == b'\x81':
        return b'\x4f'
    return asm(b)


EDGES = [0, 1, -1, 2, 16, 17, 127, 128, 129, 255, 256, -127, -128, -129, -255, -256, 32767, 32768, -32768, 65535, 65536,
         8388607, 8388608, -8388608, 2**31 - 1, -(2**31 - 1), 2**31, -2**31, 2**32, 2**30]
NUMERIC1 = [139, 140, 143, 144, 145, 146]
NUMERIC2 = [147, 148] + list(range(154, 165))
ODD = [b'\0', b'\x80', b'\0\0', b'\0\x80', b'\1\0', b'\x81\0', b'\1\x80', b'\0\1', b'\0\0\0\0', b'\0\0\0\x80', b'\0\0\0\0\0',
       b'\1\2\3\4\5', b'\xff' * 4, b'\xff' * 5, b'\x80\0', b'\x7f\0', b'\x80\x80', b'\0\x8a', b'\0\0\1']


def value(rng):
    x = rng.random()
    if x < 0.5:
        return num(rng.choice(EDGES))
    if x < 0.65:
        return num(rng.randrange(-20, 21))
    if x < 0.8:
        return num(rng.randrange(-2**31 + 1, 2**31))
    if x < 0.95:
        return rng.choice(ODD)
    return rbytes(rng, rng.randrange(0, 30))


def push_value(rng, v):
    """Mostly the shortest push, sometimes a longer one."""
    if rng.random() < 0.9:
        return minimal(v)
    return ins_bytes(push(v, rng.choice([76, 77, 78]))) if rng.random() < 0.7 or not 1 <= len(v) <= 75 else ins_bytes(push(v, len(v)))


STACKOPS = [107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 130]
HASHES = [166, 167, 168, 169, 170]


def program(rng, n, conds=True):
    """A random program that mostly works: tracks the depth roughly."""
    out = b''
    depth = 0
    level = 0
    for _ in range(n):
        x = rng.random()
        if depth < 2 or x < 0.3:
            out += push_value(rng, value(rng))
            depth += 1
        elif x < 0.5:
            out += bytes([rng.choice(STACKOPS)])
        elif x < 0.65:
            out += bytes([rng.choice(NUMERIC1 + NUMERIC2 + [165])])
            depth -= 1
        elif x < 0.7:
            out += bytes([rng.choice(HASHES)])
        elif x < 0.75:
            out += bytes([rng.choice([135, 136, 105])])
            depth -= 1
        elif x < 0.95 and conds:
            op = rng.choice([99, 100, 103, 104])
            if op in (103, 104) and level == 0:
                op = 99
            level += 1 if op in (99, 100) else -1 if op == 104 else 0
            depth -= 1 if op in (99, 100) else 0
            out += bytes([op])
        elif x < 0.98:
            out += bytes([rng.choice([97, 176, 177, 178, 185, 171, 116, 79, 81, 96])])
        else:
            out += bytes([rng.choice(NOSIG)])
    if rng.random() < 0.9:
        out += b'\x68' * level
    return out


NOSIG = [0] + [x for x in range(79, 256) if not 172 <= x <= 175]


def c15(ctx):
    rng = ctx.rng('opcodes')
    progs = [c for c in ctx.cases if c['op'] == 'prog']
    rng.shuffle(progs)
    for c in progs[:ctx.n(9000, 60000)]:
        yield call(b'', bytes(c['b']), c['flags'])
    # operands at every edge
    for op in NUMERIC1:
        for v in EDGES:
            for f in (0, MINIMALDATA):
                yield call(b'', minimal(num(v)) + bytes([op]), f)
        for v in ODD:
            for f in (0, MINIMALDATA):
                yield call(b'', asm(v) + bytes([op]), f)
    pairs = [(a, b) for a in EDGES for b in EDGES]
    for op in NUMERIC2:
        for a, b in (pairs if ctx.thorough else rng.sample(pairs, 70) + [(x, x) for x in EDGES]):
            yield call(minimal(num(a)), minimal(num(b)) + bytes([op]), rng.choice([0, MINIMALDATA]))
    for _ in range(ctx.n(400, 5000)):
        a, b, c = (rng.choice(EDGES) for _ in range(3))
        b, c = rng.choice([(b, c), (a, c), (b, a), (a - 1, a + 1), (a, a + 1), (a - 1, a)])
        yield call(b'', b''.join(minimal(num(x)) for x in (a, b, c)) + b'\xa5')
    # truth values, everywhere they are looked at
    for v in ODD + [b'', b'\1', b'\x81', b'\2', b'\xff', b'\x80' * 3, b'\0\0\x80', b'\1\x80', b'\x80\x80', b'\0' * 20, b'\0' * 19 + b'\x80',
                    b'\x80' + b'\0' * 19, b'\1' + bytes(519), bytes(519) + b'\x80', bytes(520)]:
        for tail in (b'', b'\x69\x51', b'\x63\x52\x67\x53\x68', b'\x64\x52\x67\x53\x68', b'\x73\x74', b'\x91', b'\x92', b'\x9a'):
            yield call(b'\x51' if tail == b'\x9a' else b'', asm(v) + tail)
    # hashes at the ends of their blocks
    for op in HASHES:
        for n in [0, 1, 54, 55, 56, 57, 63, 64, 65, 111, 112, 119, 120, 121, 127, 128, 129, 500, 519, 520]:
            yield call(asm(rbytes(rng, n)), bytes([op]))
    # sizes
    for n in (0, 1, 75, 76, 127, 128, 129, 255, 256, 257, 520):
        yield call(asm(rbytes(rng, n)), b'\x82')
    for n in (0, 1, 2, 16, 17, 127, 128, 200, 255, 256, 300):
        yield call(b'', b'\x51' * n + b'\x74')
    for n in range(0, 6):
        for k in (-1, 0, 1, n - 1, n, n + 1, 2**31 - 1, 2**31):
            for op in (121, 122):
                yield call(b'', b''.join(asm(bytes([100 + i])) for i in range(n)) + minimal(num(k)) + bytes([op]))
    # deep stacks: an item far below the top
    for n in (130, 260, 700):
        deep = b''.join(asm(bytes([1 + i // 200, 17 + i % 200])) for i in range(n))
        for k in (0, 126, 127, 128, 129, 255, 256, 257, n - 1, n):
            for op in (121, 122):
                yield call(b'', deep + minimal(num(k)) + bytes([op]))
        for op in STACKOPS:
            yield call(b'', deep + bytes([op]))
        yield call(b'', deep + b'\x6b' * 150 + b'\x6c' * 20)
    # conditionals inside conditionals, as deep as the operation limit lets them be
    for n in (10, 32, 64, 66, 99, 100):
        for v in (0x51, 0x00):
            for mid in (b'\x52', b'\x67\x53', b'\x67\x53\x67\x54'):
                yield call(b'', (bytes([v]) + b'\x63') * n + mid + b'\x68' * n + b'\x55')
        yield call(b'', b'\x51\x63' * n + b'\x00\x63\x67\x68' + b'\x68' * (n - 1))
        yield call(b'', b'\x00' + b'\x63' * n + b'\x51' + b'\x68' * n + b'\x56')
    for op in STACKOPS:
        for n in range(0, 9):
            yield call(b'', b''.join(asm(bytes([100 + i])) for i in range(n)) + bytes([op]))
            yield call(b'', b''.join(asm(bytes([100 + i])) for i in range(n)) + b'\x6b' * (n // 2) + bytes([op]))
    # items that are equal, of equal size, empty, long
    for op in STACKOPS:
        for _ in range(ctx.n(12, 100)):
            kind = rng.randrange(5)
            some = [rbytes(rng, 2), rbytes(rng, 2)]
            items = [rng.choice(some) if kind == 0 else rbytes(rng, 2) if kind == 1 else rbytes(rng, rng.choice([0, 1, 3, 4, 20])) if kind == 2
                     else rng.choice([b'', b'\0', b'\x80', b'\1']) if kind == 3 else rbytes(rng, rng.choice([20, 33, 76, 256]))
                     for _ in range(rng.randrange(3, 9))]
            tail = minimal(num(rng.randrange(len(items)))) if op in (121, 122) else b''
            yield call(b'', b''.join(map(asm, items)) + tail + bytes([op]) + rng.choice([b'', b'', b'\x51', bytes([op])]))
    for op in NOSIG:
        yield call(b'', b'\x51\x52' + bytes([op]))
        yield call(b'', b'\x51\x00\x63' + bytes([op]) + b'\x68')
        yield call(b'', b'\x51\x51\x63' + bytes([op]) + b'\x68')
        yield call(bytes([op]), b'\x51')
    for _ in range(ctx.n(2500, 60000)):
        flags = 0 if rng.random() < 0.6 else rng.choice([MINIMALDATA, NOPS, MINIMALDATA | NOPS])
        yield call(program(rng, rng.randrange(0, 4), False) if rng.random() < 0.3 else b'', program(rng, rng.randrange(1, 26)), flags)
    # deep nesting
    for depth in (1, 2, 5, 30, 60, 100):
        bits = [rng.randrange(2) for _ in range(depth)]
        body = b''
        for b in bits:
            body += (b'\x51' if b else b'\x00') + rng.choice([b'\x63', b'\x64']) + rng.choice([b'\x52', b'\x52\x67\x53', b'\x67\x54'])
        yield call(b'', body + b'\x68' * depth + b'\x51')
    for _ in range(ctx.n(1200, 20000)):
        yield call(b'', bytes(rng.choice([0, 0x51, 0x52, 0x63, 0x64, 0x67, 0x68, 0x76, 0x6b, 0x6c, 0x75]) for _ in range(rng.randrange(1, 22))))


def some_tx(rng, lock=None, seq=None, n=1):
    return {'version': sint(1), 'lock': sint(rng.choice(w_tx.U32) if lock is None else lock),
            'ins': [{'txid': list(rbytes(rng, 32)), 'index': sint(i), 'seq': sint(rng.choice(w_tx.U32) if seq is None else seq), 'script': []}
                    for i in range(n)],
            'outs': [{'amount': sint(1000), 'script': [0x51]}]}


def some_flags(rng, pool):
    return sum(f for f in pool if rng.random() < 0.4)


def p2sh(redeem):
    return b'\xa9\x14' + gen.hash160(redeem) + b'\x87'


def c16(ctx):
    rng = ctx.rng('verify')
    pairs = [c for c in ctx.cases if c['op'] == 'pair']
    rng.shuffle(pairs)
    for c in pairs[:ctx.n(8400, 60000)]:
        t = some_tx(rng, unint(c['lock']), unint(c['seq']))
        yield call(bytes(c['sig']), bytes(c['pub']), c['flags'], t)
    # sizes of scripts and elements, operations, stack items: both sides of each limit
    for n in (9999, 10000, 10001, 10002):
        big = b'\x00\x63' + (b'\x4d\x08\x02' + b'\x07' * 520) * 18 + b'\x68'
        fill = n - len(big) - 1
        s = big + b'\x61' * 0 + (b'\x00\x63' + b'\x51' * (fill - 3) + b'\x68') + b'\x51'
        yield call(b'', s)
        yield call(s, b'\x51')
        yield call(asm(s) if n < 520 else b'', s, P2SH)
    for n in (519, 520, 521, 522):
        for op in (77, 78):
            e = ins_bytes(push(bytes(n), op))
            yield call(b'', e + b'\x75\x51')
            yield call(e, b'\x75\x51')
            yield call(b'', b'\x51\x00\x63' + e + b'\x68')
            yield call(b'', b'\x51\x00\x63' + e + b'\x68', MINIMALDATA)
    for n in (199, 200, 201, 202, 203):
        for op in (0x61, 0xb0, 0x74):
            if op == 0x74:
                yield call(b'', b'\x51' + b'\x76' * n)
            else:
                yield call(b'', b'\x51' + bytes([op]) * n)
                yield call(b'\x51' + bytes([op]) * n, b'\x51' + bytes([op]) * n)
                yield call(b'', b'\x51\x00\x63' + bytes([op]) * (n - 2) + b'\x68')
        yield call(b'', b'\x51' + b'\x00\x63\x50\x68' * 40 + b'\x61' * (n - 80))
        # keys count as operations, also when no signature is needed
        for k in (0, 1, 3, 20):
            yield call(b'', b'\x61' * (n - k - 1) + b'\x00\x00' + b'\x51' * k + (bytes([80 + k]) if k and k <= 16 else asm(num(k))) + b'\xae')
    for n in (998, 999, 1000, 1001, 1002):
        yield call(b'', b'\x51' * n)
        yield call(b'\x51' * (n // 2), b'\x51' * (n - n // 2))
        yield call(b'', b'\x51' * (n - 50) + b'\x6b' * 40 + b'\x51' * 50)
        for alt in (1, 2, 199):
            yield call(b'', b'\x51\x6b' * alt + b'\x51' * (n - alt))
            yield call(b'', b'\x51' * alt + b'\x6b' * alt + b'\x51' * (n - alt) + b'\x75' * 2)
        for grow, by in ((b'\x6e', 2), (b'\x70', 2), (b'\x74', 1), (b'\x76', 1), (b'\x78', 1), (b'\x82', 1), (b'\x7d', 1), (b'\x73', 1)):
            yield call(b'', b'\x51' * (n - by) + grow + b'\x75' * 5)
        yield call(b'', b'\x51' * (n - 3) + b'\x6f')
        yield call(b'', b'\x51' * (n - 1) + b'\x51\x75' * 2)
        yield call(b'', b'\x51' * 900 + b'\x6b' * 100 + b'\x51' * (n - 900) + b'\x75' * 20)
        yield call(b'\x51' * n, b'\x75' * 10 + b'\x51')
        yield call(b'\x51' * (n - 2) + asm(b'\x75\x51'), p2sh(b'\x75\x51'), P2SH)
    for op in (126, 127, 128, 129, 131, 132, 133, 134, 141, 142, 149, 150, 151, 152, 153, 101, 102, 80, 98, 137, 138, 186, 255):
        for f in (0, P2SH | MINIMALDATA | NOPS | CLTV):
            yield call(b'', b'\x51\x52' + bytes([op]), f)
            yield call(b'', b'\x51\x00\x63' + bytes([op]) + b'\x68', f)
            yield call(b'', b'\x51\x63\x51\x67' + bytes([op]) + b'\x68', f)
    # no-ops, discouraged and not
    for op in list(range(0xb0, 0xba)) + [0x61]:
        for f in (0, NOPS, NOPS | CLTV, CLTV):
            yield call(b'', b'\x51' + bytes([op]), f, some_tx(rng, 10, 0))
            yield call(b'', b'\x51\x00\x63' + bytes([op]) + b'\x68', f)
            yield call(bytes([op]), b'\x51', f | SIGPUSHONLY)
    # minimal pushes
    for d in [b'', b'\0', b'\1', b'\x10', b'\x11', b'\x81', b'\x80', b'\x82', b'\xff', b'\1\0', bytes(75), bytes(76), bytes(77), bytes(254), bytes(255),
              bytes(256), bytes(257), bytes(520), b'\5\0', b'\1' * 2]:
        ops = ([len(d)] if 1 <= len(d) <= 75 else []) + ([76] if len(d) < 256 else []) + [77, 78]
        for o in ops:
            for f in (0, MINIMALDATA, MINIMALDATA | P2SH | NOPS):
                yield call(ins_bytes(push(d, o)), b'\x75\x51', f)
                yield call(b'', b'\x51\x00\x63' + ins_bytes(push(d, o)) + b'\x68', f)
        yield call(minimal(d), b'\x82\x75\x75\x51', MINIMALDATA)
    for d in ODD:
        for tail in (b'\x8b', b'\x51\x93', b'\x51\x51\xa5', b'\x51\x52\x53\x9f', b'\x79', b'\xb1', b'\x00\x00\xae'):
            for f in (0, MINIMALDATA, MINIMALDATA | CLTV):
                yield call(b'\x51', asm(d) + tail + b'\x51', f, some_tx(rng, 0x7fffffff, 0))
    # push-only
    for s in (b'', b'\x51', b'\x60', b'\x50', b'\x61', b'\x4f', b'\x00', b'\x51\x76', b'\x4c\x01\x05', b'\x51\x00\x63\x68', b'\x51\xff\x75', asm(b'\x61\x61')):
        for pub in (b'\x51', p2sh(b'\x51'), p2sh(b'')):
            for f in (0, SIGPUSHONLY, P2SH, P2SH | SIGPUSHONLY):
                yield call(s, pub, f)
                yield call(s + b'\x51', pub, f)
                yield call(s + asm(b'\x51'), pub, f)
    # pay to script hash
    redeems = [b'\x51', b'\x00', b'', b'\x75', b'\x76', b'\x93\x55\x87', b'\x6a', b'\x51\x63', b'\x4c', b'\x05\x01', b'\xae', b'\x00\x00\xae',
               b'\x51\x6b', b'\x6c', b'\x50', b'\xba', p2sh(b'\x51'), asm(b'\x51') + p2sh(b'\x51'), b'\x4f', b'\x80', b'\x02\x00\x01', b'\x74\x00\x87', b'\x74\x51\x87',
               b'\xb1', b'\x61' * 201 + b'\x51', b'\x61' * 202 + b'\x51', b'\x51' * 520, b'\x00\x63\x51' * 3]
    sigs = [b'', b'\x00', b'\x51', b'\x52\x53', b'\x51\x00', b'\x4f', b'\x61', b'\x51\x6b']
    for r in redeems:
        for s in sigs:
            for f in (0, P2SH, P2SH | MINIMALDATA, P2SH | SIGPUSHONLY | NOPS | CLTV | NULLDUMMY):
                if rng.random() < ctx.n(0.6, 1):
                    yield call(s + minimal(r), p2sh(r), f)
        for pub in (p2sh(r + b'\x61'), b'\xa9' + asm(gen.hash160(r)) + b'\x88\x51', b'\xa9\x4c\x14' + gen.hash160(r) + b'\x87',
                    b'\xa9\x14' + gen.hash160(r) + b'\x87\x61', b'\xa8' + asm(hashlib.sha256(r).digest()) + b'\x87', b'\xaa' + asm(gen.sha256d(r)) + b'\x87'):
            yield call(b'\x51' + minimal(r), pub, P2SH)
    yield call(b'', b'\xa9\x14' + bytes(20) + b'\x87', P2SH)
    # the alternate stack and conditionals do not carry over from one script to the next
    for a, b in ((b'\x51\x6b', b'\x6c'), (b'\x51\x63', b'\x68\x51'), (b'\x51\x63\x51', b'\x51\x68'), (b'\x61' * 150 + b'\x51', b'\x61' * 150), (b'\x51', b'\x68'),
                 (b'\x51', b'\x67'), (b'', b'\x63\x68'), (b'', b''), (b'\x00', b''), (b'\x51', b''), (b'', b'\x51\x75'), (b'\x51\x51', b'\x6d')):
        for f in (0, P2SH):
            yield call(a, b, f)
    # lock times
    T = 500000000
    points = [0, 1, 100, T - 1, T, T + 1, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]
    for lock in points:
        for want in [lock - 1, lock, lock + 1] + ctx.n([rng.choice(points) for _ in range(3)], points) + [-1, -100, 2**32, 2**39 - 1]:
            for seq in (0, 0xffffffff, 0xfffffffe):
                for f in ((CLTV,) if seq else (CLTV, 0, CLTV | NOPS, CLTV | MINIMALDATA)):
                    yield call(b'', minimal(num(want)) + b'\xb1', f, some_tx(rng, lock, seq))
    for raw in (b'\0' * 5, b'\0' * 6, b'\1\0\0\0\0', b'\1\0\0\0\0\0', b'\x80', b'\0\x80', b'\xff\xff\xff\xff\x7f', b'\0\0\0\0\x80'):
        for f in (CLTV, CLTV | MINIMALDATA):
            yield call(b'\x51', asm(raw) + b'\xb1', f, some_tx(rng, 100, 0))
    yield call(b'', b'\xb1\x51', CLTV, some_tx(rng, 100, 0))
    yield call(b'\x51', b'\xb1')
    yield call(b'\x51', b'\xb1', CLTV)
    yield call(b'\x00', b'\xb1\x51', CLTV)
    for nin in (0, 1, 2):     # the sequence number of the input in question
        t = some_tx(rng, 100, 0xffffffff, 3)
        t['ins'][1]['seq'] = sint(7)
        yield call(b'\x51', b'\xb1', CLTV, t, nin)
    # null dummy and counts of a multisig check that needs no signature
    for k in (0, 1, 2, 3, 16, 20, 21):
        for dummy in (b'\x00', b'\x51', b'\x4f', b'\x01\x00'):
            for f in (0, NULLDUMMY):
                for op in (b'\xae', b'\xaf\x51'):
                    yield call(b'', dummy + b'\x00' + b'\x51' * k + minimal(num(k)) + op, f)
    for s in (b'\xae', b'\x00\xae', b'\x00\x00\xae', b'\x4f\xae', b'\x00\x4f\x00\xae', b'\x00\x51\x00\xae', b'\x00\x00\x51\xae', b'\x00\x52\x51\x51\xae',
              b'\x00\x00\x01\x15\xae', b'\xac', b'\x51\xac', b'\xad', b'\xaf', b'\x00\x00\xaf', b'\x00\x00\x00\xaf'):
        for f in (0, NULLDUMMY | MINIMALDATA):
            yield call(b'', s, f)
    # random programs over all opcodes, with flags
    for _ in range(ctx.n(2500, 50000)):
        sig = program(rng, rng.randrange(0, 5), False)
        pub = program(rng, rng.randrange(1, 14))
        if rng.random() < 0.25 and len(pub) <= 520:
            sig, pub = sig + minimal(pub), p2sh(pub)
        yield call(sig, pub, some_flags(rng, PLAIN), some_tx(rng) if rng.random() < 0.5 else NOTX)
    for _ in range(ctx.n(800, 15000)):
        seq = [random_ins(rng, lengths=[0, 1, 2, 20, 75, 76, 255, 256]) for _ in range(rng.randrange(0, 10))]
        yield call(b'\x51\x51', b''.join(ins_bytes(x) for x in seq if not 172 <= x['op'] <= 175), some_flags(rng, PLAIN))
    # valid signatures (refused: a known finding)
    for sig, pub, f, t, nin in spends(rng, ctx.n(6, 40)):
        yield call(sig, pub, f, t, nin)


# ---------------------------------------------------------------- signatures
def der(r, s):
    def i(n):
        b = n.to_bytes((n.bit_length() + 8) // 8, 'big')
        return b'\2' + bytes([len(b)]) + b
    body = i(r) + i(s)
    return b'\x30' + bytes([len(body)]) + body


def sighash(t, nin, code, typ=1):
    """ALL, only to make inputs."""
    u = dict(t, ins=[dict(x, script=list(code) if j == nin else []) for j, x in enumerate(t['ins'])])
    return gen.sha256d(w_tx.tx_bytes(u) + typ.to_bytes(4, 'little'))


def sign(rng, secret, digest, high=False):
    e = int.from_bytes(digest, 'big')
    while True:
        k = rng.randrange(1, N)
        r = gen.mul(k)[0] % N
        s = pow(k, -1, N) * (e + r * secret) % N
        if r and s:
            s = max(s, N - s) if high else min(s, N - s)
            return der(r, s)


class Key:
    def __init__(self, rng, compressed=None):
        self.s = rng.randrange(1, N)
        self.pub = gen.sec(gen.mul(self.s), rng.random() < 0.7 if compressed is None else compressed)


def spends(rng, n):
    """Standard spends with valid signatures."""
    for _ in range(n):
        t = some_tx(rng, n=rng.choice([1, 2]))
        nin = rng.randrange(len(t['ins']))
        kind = rng.randrange(4)
        keys = [Key(rng) for _ in range(3)]
        if kind == 0:
            pub = b'\x76\xa9\x14' + gen.hash160(keys[0].pub) + b'\x88\xac'
            yield asm(sign(rng, keys[0].s, sighash(t, nin, pub)) + b'\1', keys[0].pub), pub, some_flags(rng, ALL), t, nin
        elif kind == 1:
            pub = asm(keys[0].pub) + b'\xac'
            yield asm(sign(rng, keys[0].s, sighash(t, nin, pub)) + b'\1'), pub, 0, t, nin
        else:
            m = rng.choice([1, 2, 3])
            script = bytes([80 + m]) + asm([k.pub for k in keys]) + b'\x53\xae'
            sigs = [sign(rng, k.s, sighash(t, nin, script)) + b'\1' for k in keys[3 - m:]]
            if kind == 2:
                yield b'\0' + asm(sigs), script, NULLDUMMY, t, nin
            else:
                yield b'\0' + asm(sigs) + asm(script), p2sh(script), P2SH | NULLDUMMY, t, nin


def c17(ctx):
    rng = ctx.rng('signatures')
    for sig, pub, f, t, nin in spends(rng, ctx.n(40, 400)):
        yield call(sig, pub, f, t, nin)
        yield call(sig, pub, f | STRICTENC | DERSIG | LOW_S, t, nin)
        # spoiled in one place
        for _ in range(3):
            m = bytearray(sig)
            i = rng.randrange(len(m))
            m[i] ^= 1 << rng.randrange(8)
            try_ = bytes(m)
            if parses(try_):
                yield call(try_, pub, f, t, nin)
        if len(t['ins']) > 1:
            yield call(sig, pub, f, t, 1 - nin)
        yield call(sig, pub, f, dict(t, lock=sint(unint(t['lock']) ^ 1)), nin)
        yield call(b'\x00' * 3, pub, f, t, nin)
    garbage = [b'', b'\0', b'\1', b'\x30', b'\x30\x06\2\1\1\2\1\1\1', der(1, 1) + b'\1', der(N, N) + b'\1', der(0, 0) + b'\1', bytes(71), b'\x01' * 72,
               b'\x30' * 9, b'\xff' * 73]
    pubs = [b'', b'\0', b'\2' + bytes(32), b'\3' + bytes(31) + b'\1', b'\4' + bytes(64), gen.sec(gen.G, True), gen.sec(gen.G, False), b'\6' + gen.sec(gen.G, False)[1:],
            b'\7' + gen.sec(gen.G, False)[1:], b'\5' + bytes(32), bytes(33), b'\2' + b'\xff' * 32]
    tails = [b'', b'\x91', b'\x75\x51', b'\x69\x51']
    for s in garbage:
        for p in pubs:
            for f in (0, STRICTENC, DERSIG | LOW_S, some_flags(rng, ALL)):
                if rng.random() < ctx.n(0.5, 1):
                    yield call(asm(s), asm(p) + b'\xac' + rng.choice(tails), f, some_tx(rng))
                    yield call(asm(s), asm(p) + b'\xad\x51', f, some_tx(rng))
    # every shape of a multisig check
    for n in range(0, 4):
        for m in range(0, n + 2):
            for given in range(0, m + 2):
                for op in (b'\xae', b'\xaf\x51', b'\xae\x91'):
                    s = [rng.choice(garbage) for _ in range(given)]
                    p = [rng.choice(pubs) for _ in range(n)]
                    f = some_flags(rng, ALL)
                    yield call(b'\0' + asm(s), minimal(num(m)) + asm(p) + minimal(num(n)) + op, f, some_tx(rng))
                    yield call(asm(s), minimal(num(m)) + asm(p) + minimal(num(n)) + op, f)
    # signatures in the wrong order, repeated, of other keys
    for _ in range(ctx.n(12, 200)):
        t = some_tx(rng, n=2)
        nin = rng.randrange(2)
        keys = [Key(rng) for _ in range(3)]
        script = b'\x52' + asm([k.pub for k in keys]) + b'\x53\xae'
        sg = [sign(rng, k.s, sighash(t, nin, script)) + b'\1' for k in keys]
        other = sign(rng, Key(rng).s, sighash(t, nin, script)) + b'\1'
        for s in ([sg[1], sg[0]], [sg[2], sg[0]], [sg[0], sg[0]], [sg[0], other], [other, sg[2]], [sg[0], b''], [sg[0]], [sg[0], sg[1], sg[2]],
                  [sg[0][:-1] + b'\2', sg[1]], [sg[0], sg[1][:-1]]):
            yield call(b'\0' + asm(s), script, some_flags(rng, [NULLDUMMY, STRICTENC, DERSIG]), t, nin)
            yield call(b'\0' + asm(s) + asm(script), p2sh(script), P2SH, t, nin)
        pub = b'\x76\xa9\x14' + gen.hash160(keys[0].pub) + b'\x88\xac'
        good = sign(rng, keys[0].s, sighash(t, nin, pub))
        for s, p in ((good + b'\1', keys[1].pub), (good + b'\2', keys[0].pub), (good, keys[0].pub), (b'', keys[0].pub), (good + b'\1', b''),
                     (sign(rng, keys[1].s, sighash(t, nin, pub)) + b'\1', keys[0].pub), (good[:-1] + b'\1', keys[0].pub)):
            yield call(asm(s, p), pub, some_flags(rng, ALL), t, nin)
    # signature checks inside other code: never executed, or after which anything may come
    for _ in range(ctx.n(400, 8000)):
        a = program(rng, rng.randrange(0, 5))
        b = program(rng, rng.randrange(0, 5))
        op = bytes([rng.choice([0xac, 0xad, 0xae, 0xaf])])
        mid = rng.choice([b'', b'\0', b'\0\0\0', b'\x51\x51', asm(rng.choice(garbage), rng.choice(pubs)),
                          b'\0' + asm(rng.choice(garbage)) + b'\x51' + asm(rng.choice(pubs)) + b'\x51'])
        yield call(b'', a + mid + op + b + b'\x51', some_flags(rng, ALL), some_tx(rng))
        yield call(b'', b'\x51\x00\x63' + mid + op + b'\x68', some_flags(rng, ALL), some_tx(rng))


def parses(b):
    i = 0
    while i < len(b):
        op = b[i]
        i += 1
        if op <= 75:
            i += op
        elif op <= 78:
            w = {76: 1, 77: 2, 78: 4}[op]
            i += w + int.from_bytes(b[i:i + w], 'little') if i + w <= len(b) else 1 << 40
    return i == len(b)


def sessions(ctx):
    return chunks({'C15': c15, 'C16': c16, 'C17': c17}[ctx.prop](ctx), 25)

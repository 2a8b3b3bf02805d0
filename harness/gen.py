"""Input generation only (never an oracle): curve arithmetic, base58check, byte and number pools."""
import hashlib

P = 2**256 - 2**32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
     0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)
ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'

INTERESTING = [0, 1, 2, 15, 16, 17, 57, 58, 59, 75, 76, 77, 78, 79, 80, 81, 96, 97, 126, 127, 128, 129, 130,
               239, 251, 252, 253, 254, 255]


def add(a, b, p=P, ca=0):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % p == 0:
            return None
        l = (3 * a[0] * a[0] + ca) * pow(2 * a[1], -1, p) % p
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, p) % p
    x = (l * l - a[0] - b[0]) % p
    return x, (l * (a[0] - x) - a[1]) % p


def _jdbl(p):
    x, y, z = p
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return x2, (m * (s - x2) - 8 * y ** 4) % P, 2 * y * z % P


def mul(k, pt=G):
    """k * pt on secp256k1 (k > 0 and k * pt finite along the way except by luck)."""
    k %= N
    r = None
    while k:
        if k & 1:
            r = add(r, pt)
        pt = add(pt, pt)
        k >>= 1
    return r


def lift(x, odd):
    if x >= P:
        return None
    v = (x * x * x + 7) % P
    y = pow(v, (P + 1) // 4, P)
    if y * y % P != v:
        return None
    return y if y & 1 == int(odd) else P - y


def sec(pt, compressed):
    x, y = pt
    if compressed:
        return bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
    return b'\4' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def sha256d(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def hash160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


def b58(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = ALPHABET[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def b58check(b):
    return b58(b + sha256d(b)[:4])


def rbytes(rng, n):
    mode = rng.randrange(6)
    if mode == 0:
        return bytes(rng.choice(INTERESTING) for _ in range(n))
    if mode == 1 and n:
        z = rng.randrange(n + 1)
        return bytes(z) + bytes(rng.randrange(256) for _ in range(n - z))
    if mode == 2 and n:
        z = rng.randrange(n + 1)
        return bytes(rng.randrange(256) for _ in range(n - z)) + bytes(z)
    if mode == 3:
        return bytes([rng.choice([0, 1, 127, 128, 255])]) * n
    return bytes(rng.randrange(256) for _ in range(n))


def boundary_ints(maxbits):
    out = set(range(0, 300))
    for k in range(1, maxbits + 1):
        for d in (-2, -1, 0, 1, 2):
            out.add((1 << k) + d)
    for k in range(1, maxbits // 8 + 1):
        for top in (0x7f, 0x80, 0x81, 0xfd, 0xfc, 0xfe, 0x01):
            out.add(top << (8 * (k - 1)))
            out.add((top << (8 * (k - 1))) | 1)
            out.add((top << (8 * (k - 1))) | ((1 << (8 * (k - 1))) - 1))
    return sorted(x for x in out if x >= 0)


def rint(rng, maxbits):
    return rng.getrandbits(rng.randrange(1, maxbits + 1))


def secrets(rng, extra):
    """Valid secrets: the ends of the range, every size in bytes, leading and trailing zeros, random."""
    out = [1, 2, 3, N - 1, N - 2, N // 2, N // 2 + 1, 2**255, 2**255 - 1, 0xffff << 239, P - N, P % N]
    for k in range(1, 32):
        out.append(1 << (8 * k))
        out.append((1 << (8 * k)) - 1)
    for _ in range(extra):
        mode = rng.randrange(4)
        if mode == 0:
            out.append(rng.randrange(1, N))
        elif mode == 1:
            out.append(1 + rint(rng, 255))
        elif mode == 2:
            out.append(int.from_bytes(rbytes(rng, 32), 'big') % (N - 1) + 1)
        else:
            out.append(N - 1 - rint(rng, 128))
    return [s for s in out if 0 < s < N]


def patterned(rng, step, extra):
    """Secrets with structure in their binary expansion: what shortcuts in a multiplication get wrong."""
    out = []
    for k in range(2, 257, step):
        one = 1 << k
        out += [one - 1, one + 1, one // 3, one // 3 + 1, 2 * one // 3, one - 3, N - one, one // 5, one // 7]
    for byte in (0x55, 0xaa, 0x33, 0xcc, 0x0f, 0xf0, 0x77, 0xee, 0x01, 0x80, 0x7f, 0xfe, 0x24, 0x49):
        for n in (1, 2, 5, 31, 32):
            out.append(int.from_bytes(bytes([byte]) * n, 'big'))
    for _ in range(extra):
        mode = rng.randrange(3)
        if mode == 0:      # few bits
            out.append(sum(1 << rng.randrange(256) for _ in range(rng.randrange(2, 5))))
        elif mode == 1:    # few zeros
            out.append((1 << rng.randrange(8, 257)) - 1 - sum(1 << rng.randrange(250) for _ in range(3)))
        else:              # runs
            v = 0
            while v.bit_length() < 240:
                n = rng.randrange(1, 40)
                v = (v << n) | rng.choice([0, (1 << n) - 1])
            out.append(v)
    return [s for s in out if 0 < s < N]


def mutate_text(rng, t, k):
    out = []
    for _ in range(k):
        mode = rng.randrange(7)
        i = rng.randrange(len(t)) if t else 0
        if mode == 0 and t:
            out.append(t[:i] + rng.choice(ALPHABET) + t[i + 1:])
        elif mode == 1:
            out.append(t[:i] + rng.choice(ALPHABET + '0OIl +/-_.') + t[i:])
        elif mode == 2 and t:
            out.append(t[:i] + t[i + 1:])
        elif mode == 3:
            out.append('1' + t)
        elif mode == 4 and len(t) > 1:
            i = rng.randrange(len(t) - 1)
            out.append(t[:i] + t[i + 1] + t[i] + t[i + 2:])
        elif mode == 5 and t:
            out.append(t[:i] + rng.choice('0OIl!é') + t[i + 1:])
        else:
            out.append(t + rng.choice(' \n1\t'))
    return out

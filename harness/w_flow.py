"""A wallet at work (C29): values of all areas, each made from values made before."""
import copy
import pickle
from bitforge import PrivateKey, PublicKey, Address, Script, HDPrivateKey, HDPublicKey, URI
from bitforge.script import PayToPubkeyOut, PayToScriptOut, RedeemMultisig
from bitforge.transaction import (Transaction, AddressInput, ScriptInput, MultisigInput, Output,
                                  AddressOutput, ScriptOutput, MultisigOutput)
import gen
from gen import rbytes, N
from obs import observe, project, cps, untext, nat
from w_hd import o_x, xpriv, xpub, index, H
from w_keys import o_priv, o_pub, o_addr
from w_tx import o_tx, o_part, U32, U64, pick


def big(b):
    return int.from_bytes(bytes(b), 'big')


def see(v):
    if isinstance(v, (HDPrivateKey, HDPublicKey)):
        return o_x(v)
    for cls, proj in ((PrivateKey, o_priv), (PublicKey, o_pub), (Address, o_addr), (Output, o_part('out')), (Transaction, o_tx)):
        if isinstance(v, cls):
            return proj(v)
    if isinstance(v, Script):
        return project(v.to_bytes())
    return {'k': 'other', 'v': []}


ROUTES = {
    'x': {'string': lambda v: type(v).from_string(v.to_string()),
          'parts': lambda v: type(v)(v.to_private_key() if isinstance(v, HDPrivateKey) else v.to_public_key(),
                                     v.chain, v.depth, v.index, v.parent, v.network)},
    'priv': {'wif': lambda v: PrivateKey.from_wif(v.to_wif()), 'hex': lambda v: PrivateKey.from_hex(v.to_hex(), v.network, v.compressed),
             'bytes': lambda v: PrivateKey.from_bytes(v.to_bytes(), v.network, v.compressed),
             'parts': lambda v: PrivateKey(v.secret, v.network.name, v.compressed)},
    'pub': {'hex': lambda v: PublicKey.from_hex(v.to_hex(), v.network), 'bytes': lambda v: PublicKey.from_bytes(v.to_bytes(), v.network),
            'parts': lambda v: PublicKey(v.pair, v.network.name, v.compressed)},
    'addr': {'string': lambda v: Address.from_string(v.to_string()), 'hex': lambda v: Address.from_hex(v.to_hex()),
             'bytes': lambda v: Address.from_bytes(v.to_bytes()), 'parts': lambda v: Address(v.phash, v.network.name, v.type),
             'uri': lambda v: URI(URI({'address': v.to_string(), 'amount': 5, 'label': 'x'}).to_uri()).address},
    'script': {'hex': lambda v: Script.from_bytes(bytes.fromhex(v.to_hex())), 'bytes': lambda v: Script.from_bytes(v.to_bytes()),
               'text': lambda v: Script.from_string(v.to_string()), 'parts': lambda v: Script.create(v.instructions)},
    'out': {'hex': lambda v: Output.from_hex(v.to_hex()), 'bytes': lambda v: Output.from_bytes(v.to_bytes()),
            'parts': lambda v: Output.create(v.amount, v.script)},
    'tx': {'hex': lambda v: Transaction.from_hex(v.to_hex()), 'bytes': lambda v: Transaction.from_bytes(v.to_bytes()),
           'parts': lambda v: Transaction(v.inputs, v.outputs, v.lock_time, v.version)},
}


for routes in ROUTES.values():
    routes['copy'] = lambda v: copy.deepcopy(copy.copy(v))
    routes['pickle'] = lambda v: pickle.loads(pickle.dumps(v, 2))


def the_input(pool, i):
    txid = pool(i['prev']).get_id() if i['prev'] else bytes(i['txid']).hex()
    rest = () if big(i['seq']) == 0xffffffff else (big(i['seq']),)
    if i['how'] == 'address':
        return AddressInput.create(txid, i['n'], pool(i['of'][0]), *rest)
    if i['how'] == 'multisig':
        return MultisigInput.create(txid, i['n'], [pool(x) for x in i['of']], i['m'], *rest)
    return ScriptInput.create(txid, i['n'], pool(i['of'][0]), *rest)


def addr(v, a):
    if isinstance(v, Script):
        return Address.from_script(v, untext(a['net']))
    return Address.from_public_key(v) if isinstance(v, PublicKey) else v.to_address()


def payee(v, net):
    s = v.script if isinstance(v, Output) else v
    if isinstance(s, PayToPubkeyOut):
        return Address(s.get_address_hash(), net)
    if isinstance(s, PayToScriptOut):
        return Address(s.get_script_hash(), net, Address.Type.Script)
    raise ValueError('not a standard script')


def payto(v, amount):
    return ScriptOutput.create(amount, v) if isinstance(v, Script) else AddressOutput.create(amount, v)


def script(v, a):
    return v.script if isinstance(v, Output) else v.inputs[a['n']].script


# what makes the new value, from the pool and the arguments
STEPS = {
    'seed': lambda p, a: HDPrivateKey.from_seed(bytes(a['b'])),
    'xkey': lambda p, a: (HDPrivateKey if a['priv'] else HDPublicKey).from_string(untext(a['t'])),
    'wif': lambda p, a: PrivateKey.from_wif(untext(a['t'])),
    'parse': lambda p, a: Script.from_bytes(bytes(a['b'])),
    'derive': lambda p, a: p(a['of']).derive(big(a['i']), a['hardened']),
    'neuter': lambda p, a: p(a['of']).to_hd_public_key(),
    'key': lambda p, a: p(a['of']).to_private_key(),
    'pub': lambda p, a: p(a['of']).to_public_key(),
    'addr': lambda p, a: addr(p(a['of']), a),
    're': lambda p, a: ROUTES[a['what']][a['via']](p(a['of'])),
    'lock': lambda p, a: (PayToScriptOut if isinstance(p(a['of']), Script) else PayToPubkeyOut).create(p(a['of'])),
    'redeem': lambda p, a: RedeemMultisig.create([p(x) for x in a['of']], a['m']),
    'payto': lambda p, a: payto(p(a['of']), big(a['amount'])),
    'payall': lambda p, a: MultisigOutput.create(big(a['amount']), [p(x) for x in a['of']], a['m']),
    'output': lambda p, a: Output.create(big(a['amount']), p(a['of'])),
    'script': lambda p, a: script(p(a['of']), a),
    'coin': lambda p, a: p(a['of']).outputs[a['n']],
    'payee': lambda p, a: payee(p(a['of']), untext(a['net'])),
    'member': lambda p, a: list(p(a['of']).get_public_keys())[a['n']],
    'signer': lambda p, a: p(a['of']).get_public_key(),
    'inner': lambda p, a: p(a['of']).get_script(),
    'tx': lambda p, a: Transaction([the_input(p, i) for i in a['ins']], [p(x) for x in a['outs']], big(a['lock']), big(a['version'])),
    'sign': lambda p, a: p(a['of']).sign([p(x) for x in a['keys']], a['index']),
}


def refs(a):
    out = []
    for k in ('of', 'p', 'q', 'keys', 'outs'):
        if k in a:
            out += a[k] if isinstance(a[k], list) else [a[k]]
    for i in a.get('ins', []):
        out += i['of'] + ([i['prev']] if i['prev'] else [])
    return out


def step(op):
    def run(env, a):
        objs = env.setdefault('pool', [])
        used = refs(a)

        def pool(n):
            if objs[n - 1] is None:
                raise LookupError('the value of step %d was refused' % n)
            return objs[n - 1]
        ev = {'refs': used}
        if op == 'can':
            ev['r'] = observe(lambda: bool(pool(a['of']).inputs[a['index']].can_sign([pool(x) for x in a['keys']])))
            objs.append(None)
        elif op == 'same':
            ev['r'] = observe(lambda: pool(a['p']) == pool(a['q']) and not pool(a['p']) != pool(a['q']))
            ev['hash'] = observe(lambda: hash(pool(a['p'])) == hash(pool(a['q'])))
            objs.append(None)
        else:
            box = []
            ev['r'] = observe(lambda: box.append(STEPS[op](pool, a)) or box[0], proj=see)
            objs.append(box[0] if box else None)
            if box and isinstance(box[0], Transaction):
                ev['id'] = observe(box[0].get_id)
            else:
                ev['id'] = {'k': 'none', 'v': []}
        ev['ops'] = [observe(lambda: objs[n - 1], proj=see) if objs[n - 1] is not None else {'k': 'none', 'v': []} for n in used]
        return ev
    return run


OPS = {op: step(op) for op in list(STEPS) + ['can', 'same']}


# ------------------------------------------------------------------ workload
class Wallet:
    """Writes down the steps of a session; knows the kind of every value, and which keys belong together."""

    def __init__(self, rng):
        self.rng, self.calls, self.kind = rng, [], {}
        self.net = rng.choice(['livenet', 'testnet'])

    def do(self, op, kind=None, **a):
        self.calls.append((op, a))
        n = len(self.calls)
        self.kind[n] = kind
        return n

    def again(self, v, p=0.4):
        """Perhaps written and read back."""
        kind = self.kind[v]
        while self.rng.random() < p:
            v = self.do('re', kind, of=v, what=kind, via=self.rng.choice(sorted(ROUTES[kind])))
            p /= 2
        return v

    def key(self):
        """Some private key, by some route: (private key, public keys by various routes)."""
        rng = self.rng
        if rng.random() < 0.3:
            d = rng.choice([1, 2, N - 1, rng.randrange(1, N), rng.randrange(1, N)])
            comp = rng.random() < 0.5
            raw = bytes([128 if self.net == 'livenet' else 239]) + d.to_bytes(32, 'big') + (b'\1' if comp else b'')
            k = self.again(self.do('wif', 'priv', t=cps(gen.b58check(raw))))
            pubs = [self.do('pub', 'pub', of=k)]
        else:
            if rng.random() < 0.5 and self.net == 'livenet':
                x = self.do('seed', 'x', b=list(rbytes(rng, rng.choice([32, 33, 64]))))
            else:
                x = self.do('xkey', 'x', t=cps(gen.b58check(xpriv(rng, self.net[:4], chain=rbytes(rng, 32)))), priv=True)
            pub = None
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                x = self.again(x, 0.2)
                i, hardened = rng.choice([0, 1, 5, H - 1, rng.randrange(H)]), rng.random() < 0.4
                if hardened:
                    pub = None
                else:
                    if pub is None:
                        pub = self.do('neuter', 'x', of=x)
                    pub = self.again(self.do('derive', 'x', of=pub, i=nat(i), hardened=False), 0.2)
                x = self.do('derive', 'x', of=x, i=nat(i), hardened=hardened)
            if pub is None:
                pub = self.do('neuter', 'x', of=x)
            if rng.random() < 0.3:
                self.do('same', p=pub, q=self.do('neuter', 'x', of=x))
            k = self.again(self.do('key', 'priv', of=x))
            pubs = [self.do('pub', 'pub', of=y) for y in rng.sample([x, pub, k], rng.choice([1, 2]))]
        pubs.append(self.again(pubs[0]))
        if rng.random() < 0.2:
            self.do('same', p=pubs[0], q=pubs[-1])
        return k, pubs

    def address(self, k, pubs):
        rng = self.rng
        a = self.do('addr', 'addr', of=k if rng.random() < 0.3 else rng.choice(pubs), net=cps(self.net))
        return self.again(a)

    def coin(self, keys):
        """An output and how to spend it: (output, {'how', 'of', 'm', keys that do, keys that do not})."""
        rng = self.rng
        amount = nat(pick(rng, U64, 64))
        how = rng.choice(['address', 'address', 'multisig', 'multisig', 'script'])
        if how == 'address':
            j = rng.randrange(len(keys))
            a = self.address(*keys[j])
            out = self.do('payto', 'out', of=a, amount=amount) if rng.random() < 0.5 else \
                self.do('output', 'out', of=self.again(self.do('lock', 'script', of=a)), amount=amount)
            of, good, m = [a], [j], 1
            if rng.random() < 0.5:
                out = self.again(out)
                of = [self.do('payee', 'addr', of=out, net=cps(self.net))]
        elif how == 'multisig':
            n = rng.randrange(1, min(3, len(keys)) + 1)
            good = rng.sample(range(len(keys)), n)
            m = rng.randrange(1, n + 1)
            of = [rng.choice(keys[j][1]) for j in good]
            redeem = None
            if rng.random() < 0.6:
                out = self.do('payall', 'out', of=of, m=m, amount=amount)
            else:
                redeem = self.again(self.do('redeem', 'script', of=of, m=m))
                out = self.do('payto', 'out', of=redeem, amount=amount)
                if rng.random() < 0.5:
                    self.do('same', p=self.do('addr', 'addr', of=redeem, net=cps(self.net)),
                            q=self.do('payee', 'addr', of=self.again(out), net=cps(self.net)))
                if rng.random() < 0.5:
                    of = [self.do('member', 'pub', of=redeem, n=j) for j in range(n)]
        else:
            j = rng.randrange(len(keys))
            redeem = self.again(self.do('redeem', 'script', of=[keys[j][1][0]], m=1))
            if rng.random() < 0.3:
                redeem = self.do('lock', 'script', of=self.address(*keys[j]))
            elif rng.random() < 0.5:
                # pushes of all kinds, longer than needed too
                n = rng.choice([1, 4, 20, 75, 76, 100])
                push = rng.choice([bytes([76, n]), bytes([77, n, 0]), bytes([78, n, 0, 0, 0])] + [bytes([n])] * (n < 76))
                redeem = self.again(self.do('parse', 'script', b=list(push + rbytes(rng, n) + rng.choice([b'', b'\x75\x51']))))
                self.again(self.do('addr', 'addr', of=redeem, net=cps(self.net)))
            out = self.do('payto', 'out', of=redeem, amount=amount)
            of, good, m = [redeem], [j], 1
        return self.again(out), {'how': how, 'of': of, 'm': m, 'good': good}

    def fund(self, keys, spends, ncoins):
        """A transaction with coins, which spends the given ones; everything is signed."""
        rng = self.rng
        coins = [self.coin(keys) for _ in range(ncoins)]
        ins = []
        for s in spends:
            ins.append({'prev': s['prev'], 'n': s['n'], 'seq': nat(rng.choice([0xffffffff, 0xffffffff, 0, 0xfffffffe])),
                        'how': s['how'], 'of': s['of'], 'm': s['m'], 'txid': s.get('txid', [])})
        outs = [c[0] for c in coins]
        if rng.random() < 0.1:
            outs += [rng.choice(outs) for _ in range(rng.choice([40, 60, 260]))]
        t = self.do('tx', 'tx', ins=ins, outs=outs, lock=nat(rng.choice([0, 0, pick(rng, U32, 32)])), version=nat(rng.choice([1, 1, 2])))
        order = list(range(len(spends)))
        rng.shuffle(order)
        for i in order:
            if rng.random() < 0.2:
                t = self.do('re', 'tx', of=t, what='tx', via='parts')
            s = spends[i]
            chosen = rng.sample(s['good'], s['m']) if s['how'] == 'multisig' else s['good']
            privs = [self.again(keys[j][0], 0.3) for j in chosen]
            if s['how'] != 'script':
                others = [keys[j][0] for j in range(len(keys)) if j not in s['good']]
                self.do('can', of=t, index=i, keys=privs)
                if others:
                    wrong = list(privs)
                    wrong[rng.randrange(len(wrong))] = rng.choice(others)
                    self.do('can', of=t, index=i, keys=wrong)
            t = self.do('sign', 'tx', of=t, index=i, keys=privs)
        # what a reader of the signed transaction finds in its inputs
        for i, s in enumerate(spends):
            if rng.random() < 0.5:
                u = self.again(self.do('script', 'script', of=self.again(t), n=i))
                if s['how'] == 'address':
                    self.again(self.do('addr', 'addr', of=self.do('signer', 'pub', of=u), net=cps(self.net)))
                else:
                    inner = self.do('inner', 'script', of=u)
                    self.do('addr', 'addr', of=inner, net=cps(self.net))
                    if s['how'] == 'multisig':
                        self.do('member', 'pub', of=inner, n=rng.randrange(len(s['of'])))
        return t, coins

    def session(self):
        return {'none': 0}, self.calls


def life(ctx, rng):
    w = Wallet(rng)
    keys = [w.key() for _ in range(rng.choice([1, 2, 3]))]
    first = {'prev': 0, 'n': rng.choice([0, 1, 7]), 'txid': list(rbytes(rng, 32)), 'how': 'address', 'of': [w.address(*keys[0])], 'm': 1, 'good': [0]}
    t, coins = w.fund(keys, [first], rng.choice([1, 2, 3]))
    for _ in range(rng.choice([1, 1, 2])):
        t = w.again(t, 0.5)
        spends = []
        for n, (out, c) in enumerate(coins):
            if not spends or rng.random() < 0.7:
                of = c['of']
                if c['how'] == 'address' and rng.random() < 0.5:
                    of = [w.do('payee', 'addr', of=w.do('coin', 'out', of=t, n=n), net=cps(w.net))]
                spends.append(dict(c, prev=t, n=n, of=of))
        rng.shuffle(spends)
        t, coins = w.fund(keys, spends, rng.choice([1, 2]))
    w.again(t, 0.7)
    return w.session()


def sessions(ctx):
    for c in ctx.cases:
        yield {'none': 0}, [(x['op'], x['a']) for x in c['calls']]
    rng = ctx.rng('life')
    for _ in range(ctx.n(110, 1500)):
        yield life(ctx, rng)

"""Objects as values: C23.  A session is a program of the model; after every call all objects are looked at again."""
import copy
import pickle
import hashlib

from bitforge import PrivateKey, PublicKey, Address, Script, Opcode, Instruction, HDPrivateKey, HDPublicKey
from bitforge.script import PayToPubkeyOut, PayToScriptOut, RedeemMultisig
from bitforge.script.interpreter import Interpreter
from bitforge.transaction import (Transaction, Input, AddressInput, ScriptInput, MultisigInput, Output, AddressOutput,
                                  ScriptOutput, MultisigOutput, DataOutput)
import gen
from obs import guarded, project, project_error

CLASSES = (PrivateKey, PublicKey, Address, HDPrivateKey, HDPublicKey, Instruction, Script, Input, Output, Transaction)
SECRETS = [0, 1, 2**255 + 12345, gen.N - 1]
SEEDS = [b'', bytes(range(32)), b'\xff' * 64]


# --------------------------------------------------------------- looking at an object
def view(o):
    """All that can be seen of an object, without its class."""
    if isinstance(o, PrivateKey):
        return (o.secret, o.network.name, bool(o.compressed), o.to_wif(), o.to_bytes(), o.to_hex())
    if isinstance(o, PublicKey):
        return (tuple(o.pair), o.network.name, bool(o.compressed), o.to_bytes(), o.to_hex())
    if isinstance(o, Address):
        return (o.phash, o.network.name, o.type.value, o.to_string(), o.to_bytes(), o.to_hex())
    if isinstance(o, HDPrivateKey):
        return (view(o.to_private_key()), o.chain, o.depth, o.index, o.parent, o.network.name, o.fingerprint, o.to_string())
    if isinstance(o, HDPublicKey):
        return (view(o.to_public_key()), o.chain, o.depth, o.index, o.parent, o.network.name, o.fingerprint, o.to_string())
    if isinstance(o, Instruction):
        return (o.opcode.number, o.data, o.to_bytes(), o.to_string())
    if isinstance(o, Script):
        return (tuple(view(i) for i in o.instructions), o.to_bytes(), o.to_hex(), o.to_string(), o.to_hash())
    if isinstance(o, Input):
        return (o.tx_id, o.txo_index, view(o.script), o.seq_number, o.to_bytes(), o.to_hex())
    if isinstance(o, Output):
        return (o.amount, view(o.script), o.to_bytes(), o.to_hex())
    if isinstance(o, Transaction):
        return (tuple(view(x) for x in o.inputs), tuple(view(x) for x in o.outputs), o.lock_time, o.version, o.to_bytes(), o.get_id())
    return 'unknown'


def names_of(o):
    """The forms that differ whenever the contents do, one by one."""
    if o is None:
        return []
    if isinstance(o, PrivateKey):
        fs = [o.to_wif]
    elif isinstance(o, Address):
        fs = [o.to_string, o.to_bytes, o.to_hex]
    elif isinstance(o, (HDPrivateKey, HDPublicKey)):
        fs = [o.to_string]
    elif isinstance(o, PublicKey):
        fs = [lambda: (o.to_bytes(), o.network.name), lambda: (o.to_hex(), o.network.name),
              lambda: (o.to_address().to_string())]
    elif isinstance(o, Instruction):
        fs = [o.to_bytes, o.to_hex]
    elif isinstance(o, Script):
        fs = [o.to_bytes, o.to_hex, o.to_hash, lambda: Address.from_script(o).to_string()]
    elif isinstance(o, Transaction):
        fs = [o.to_bytes, o.to_hex, o.get_id, o.get_id_bytes]
    else:
        fs = [o.to_bytes, o.to_hex]
    out = []
    for fn in fs:
        ok, v = guarded(fn)
        out.append(hashlib.sha256(repr(v).encode()).hexdigest()[:16] if ok else 'err ' + type(v).__name__)
    return out


def digest(o):
    if o is None:
        return 'none'
    ok, v = guarded(view, o)
    if not ok:
        return 'err ' + type(v).__name__
    return hashlib.sha256(repr(v).encode()).hexdigest()[:16]


def hashed(o):
    if o is None:
        return 'none'
    ok, v = guarded(hash, o)
    return str(v) if ok else 'err ' + type(v).__name__


def relation(o, new):
    if o is None:
        return [2, 2, 2]
    out = []
    for fn in (lambda: o == new, lambda: o != new, lambda: hash(o) == hash(new)):
        ok, v = guarded(fn)
        out.append(2 if not ok else 1 if v else 0)
    ok, v = guarded(lambda: (new == o, new != o))
    if not ok or [1 if x else 0 for x in v] != out[:2]:
        out[0] = 3      # not symmetric
    return out


# ------------------------------------------------------------------------ the calls
class Unmade(Exception):
    pass


class World:
    def __init__(self):
        self.objs = []
        self.lists = []
        self.vm = Interpreter()

    def o(self, i):
        if self.objs[i - 1] is None:
            raise Unmade()
        return self.objs[i - 1]

    def passed(self, items):
        """A list that the caller keeps."""
        x = list(items)
        self.lists.append(x)
        return x

    def arg(self, is_, how):
        items = [self.o(i) for i in is_]
        if how == 'tuple':
            return tuple(items)
        if how == 'gen':
            return (x for x in items)
        return self.passed(items)


def txid(a):
    return '%02x' % (0x11 * a['tx']) * 31 + 'a5'


def priv_back(w, a):
    k = w.o(a['i'])
    if a['via'] == 'text':
        return PrivateKey.from_wif(k.to_wif())
    if a['via'] == 'hex':
        return PrivateKey.from_hex(k.to_hex(), k.network, k.compressed)
    return PrivateKey.from_bytes(k.to_bytes(), k.network.name, k.compressed)


def pub_back(w, a):
    k = w.o(a['i'])
    if a['via'] == 'pair':
        return PublicKey(w.passed(k.pair), k.network, k.compressed)
    if a['via'] == 'hex':
        return PublicKey.from_hex(k.to_hex(), k.network)
    return PublicKey.from_bytes(k.to_bytes(), k.network.name)


def addr_back(w, a):
    x = w.o(a['i'])
    if a['via'] == 'text':
        return Address.from_string(x.to_string())
    if a['via'] == 'hex':
        return Address.from_hex(x.to_hex())
    return Address.from_bytes(x.to_bytes())


def hd_derive(w, a):
    k, i = w.o(a['i']), int(a['index'])
    if not a['hard']:
        return k.derive(i)
    return k.derive(i, True) if a['way'] == 0 else k.derive(i + 2**31)


def ins_new(w, a):
    data = bytes.fromhex(a['d'])
    if 1 <= a['op'] <= 78:
        if a['op'] == len(data):
            return Instruction.push_for(data)
        return Instruction(Opcode(a['op']), data)
    return Instruction(Opcode(a['op']))


def script_new(w, a):
    if a['arg'] == 'create':
        return Script.create(w.arg(a['is'], 'list'))
    if not a['is'] and a['arg'] == 'list':
        return Script()
    return Script(w.arg(a['is'], a['arg']))


def script_back(w, a):
    s = w.o(a['i'])
    if a['via'] == 'text':
        return Script.from_string(s.to_string())
    if a['via'] == 'schematic':
        return Script.compile(w.passed([i.opcode if i.data is None else (i.opcode, i.data) for i in s.instructions]))
    return Script.from_bytes(s.to_bytes())


def in_new(w, a):
    make = Input if a['arg'] == 'new' else Input.create
    return make(txid(a), a['n'], w.o(a['i']), int(a['seq']))


def tx_new(w, a):
    if a['version'] == '1' and a['lock'] == '0':
        return Transaction(w.arg(a['is'], a['arg']), w.arg(a['os'], a['arg']))
    return Transaction(w.arg(a['is'], a['arg']), w.arg(a['os'], a['arg']), int(a['lock']), int(a['version']))


def back(cls):
    def go(w, a):
        x = w.o(a['i'])
        return cls.from_hex(x.to_hex()) if a['via'] == 'hex' else cls.from_bytes(x.to_bytes())
    return go


COPY = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle2': lambda o: pickle.loads(pickle.dumps(o, 2)),
        'pickle': lambda o: pickle.loads(pickle.dumps(o, pickle.HIGHEST_PROTOCOL))}

MAKE = {
    'copy': lambda w, a: COPY[a['via']](w.o(a['i'])),
    'priv_new': lambda w, a: PrivateKey(SECRETS[a['k']], a['net'], a['comp'] == 'c'),
    'priv_back': priv_back, 'pub_back': pub_back, 'addr_back': addr_back,
    'pub_of': lambda w, a: w.o(a['i']).to_public_key(),
    'addr_of': lambda w, a: w.o(a['i']).to_address(),
    'addr_of_script': lambda w, a: Address.from_script(w.o(a['i']), a['net']),
    'hd_seed': lambda w, a: HDPrivateKey.from_seed(SEEDS[a['s']]),
    'hd_derive': hd_derive,
    'hd_pub': lambda w, a: w.o(a['i']).to_hd_public_key(),
    'hd_key': lambda w, a: w.o(a['i']).to_private_key() if isinstance(w.o(a['i']), HDPrivateKey) else w.o(a['i']).to_public_key(),
    'hd_back': lambda w, a: (HDPrivateKey if isinstance(w.o(a['i']), HDPrivateKey) else HDPublicKey).from_string(w.o(a['i']).to_string()),
    'ins_new': ins_new, 'script_new': script_new, 'script_back': script_back,
    'p2pkh': lambda w, a: PayToPubkeyOut.create(w.o(a['i'])),
    'p2sh': lambda w, a: PayToScriptOut.create(w.o(a['i'])),
    'multisig': lambda w, a: RedeemMultisig.create(w.arg(a['is'], 'list'), a['m']),
    'in_new': in_new,
    'in_addr': lambda w, a: AddressInput.create(txid(a), a['n'], w.o(a['i']), int(a['seq'])),
    'in_script': lambda w, a: ScriptInput.create(txid(a), a['n'], w.o(a['i']), int(a['seq'])),
    'in_multi': lambda w, a: MultisigInput.create(txid(a), a['n'], w.arg(a['is'], 'list'), 1, int(a['seq'])),
    'in_back': back(Input),
    'in_remove': lambda w, a: w.o(a['i']).remove_script(),
    'in_replace': lambda w, a: w.o(a['i']).replace_script(w.o(a['j'])),
    'out_new': lambda w, a: (Output if a['arg'] == 'new' else Output.create)(a['amount'], w.o(a['i'])),
    'out_addr': lambda w, a: AddressOutput.create(a['amount'], w.o(a['i'])),
    'out_script': lambda w, a: ScriptOutput.create(a['amount'], w.o(a['i'])),
    'out_multi': lambda w, a: MultisigOutput.create(a['amount'], w.arg(a['is'], 'list'), 1),
    'out_data': lambda w, a: DataOutput.create(bytes.fromhex(a['d'])),
    'out_back': back(Output),
    'tx_new': tx_new, 'tx_back': back(Transaction),
    'tx_replace': lambda w, a: w.o(a['i']).replace_inputs(w.arg(a['is'], 'list')),
    'tx_sign': lambda w, a: w.o(a['i']).sign(w.arg([a['key']], 'list'), a['n'] - 1),
}


def tamper(v, depth=0):
    """Changes whatever can be changed in what the library handed out."""
    if isinstance(v, bytearray) or isinstance(v, list):
        v.reverse()
        v.append(v[0] if v else 0)
        del v[:1]
        v.extend(v[:1])
    elif isinstance(v, dict):
        v.clear()
    elif isinstance(v, set):
        v.clear()
    elif isinstance(v, tuple) and depth < 4:
        for x in v:
            tamper(x, depth + 1)


ACCESSORS = """to_bytes to_hex to_string to_wif to_hash get_structure get_signatures get_public_keys get_public_key get_signature
 get_script get_script_hash get_address_hash get_data get_min_signatures get_id_bytes get_id to_public_key to_address to_private_key
 to_hd_public_key remove_script is_push is_minimal_push is_push_only is_script_hash_out get_serialized_public_keys _asdict""".split()


def accessors(o):
    for name in getattr(o, '_fields', ()):
        yield lambda name=name: getattr(o, name)
    for name in ACCESSORS:
        if hasattr(o, name):
            yield getattr(o, name)


def poke(w, a):
    o = w.o(a['i'])
    for fn in accessors(o):
        ok, v = guarded(fn)
        if ok:
            guarded(tamper, v)


def use(w, a):
    o = w.o(a['i'])
    for fn in list(accessors(o)) + [lambda: repr(o), lambda: str(o), lambda: {o: 1}[o], lambda: o in {o}, lambda: sorted([o, o]),
                                    lambda: type(o).is_valid(o), lambda: Script.classify(o), lambda: o.can_sign([]), lambda: bool(o), lambda: list(o)]:
        guarded(fn)


def fields(o):
    names = [n for n in getattr(o, '_fields', ()) if not n.startswith('_')]
    if names:
        return names
    for n in dir(o):
        if not n.startswith('_') and not callable(getattr(type(o), n, None)):
            ok, v = guarded(getattr, o, n)
            if ok and not callable(v):
                names.append(n)
    return names


def assign(w, a):
    o = w.o(a['i'])
    refused = True
    for name in fields(o):
        old = getattr(o, name)
        for new in (None, old):
            ok, _ = guarded(setattr, o, name, new)
            if ok:
                refused = False
                guarded(setattr, o, name, old)
        ok, _ = guarded(delattr, o, name)
        if ok:
            refused = False
            guarded(setattr, o, name, old)
    return refused


def sign(w, a):
    k = w.o(a['i'])
    digest_ = hashlib.sha256(b'x').digest()
    return k.verify(k.sign(digest_), digest_)


def caller(w, a):
    for x in w.lists:
        if a['how'] == 'clear':
            del x[:]
        elif a['how'] == 'append':
            x.append(x[0] if x else None)
        else:
            x.reverse()
            if len(x) == 1:
                x[0] = None


DO = {'assign': assign, 'poke': poke, 'use': use, 'sign': sign, 'caller': caller,
      'interp': lambda w, a: w.vm.verify(w.o(a['i']), w.o(a['j']))}


def do(env, a):
    w = env.setdefault('w', World())
    f = a['f']
    if f in DO:
        ok, v = guarded(DO[f], w, a)
        r = {'k': 'skipped'} if isinstance(v, Unmade) else project(v) if ok else project_error(v)
        eq = []
    else:
        ok, v = guarded(MAKE[f], w, a)
        new = v if ok and isinstance(v, CLASSES) else None
        w.objs.append(new)
        r = {'k': 'object'} if new is not None else {'k': 'skipped'} if isinstance(v, Unmade) else project(v) if ok else project_error(v)
        eq = [relation(o, new) for o in w.objs]
    return {'r': r, 'obs': [digest(o) for o in w.objs], 'hash': [hashed(o) for o in w.objs], 'eq': eq,
            'ids': [] if f in DO else names_of(w.objs[-1])}


OPS = {'do': do}


def sessions(ctx):
    step = ctx.n(1, 5)
    for n, c in enumerate(ctx.cases):
        # long programs are all replayed
        if len(c['calls']) < 20 and n % step:
            continue
        yield {'none': 0}, [('do', call) for call in c['calls']]

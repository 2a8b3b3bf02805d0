"""The table of networks: C27."""
from bitforge import networks
from drive import chunks
from gen import rint
from obs import observe, project, sint, untext, cps

ATTRS = ['name', 'pubkeyhash', 'wif_prefix', 'scripthash', 'hd_public_key', 'hd_private_key', 'magic', 'port']
NETS = {'livenet': lambda: networks.livenet, 'testnet': lambda: networks.testnet}


def unobs(v):
    if v['k'] == 'text':
        return untext(v['v'])
    n = int.from_bytes(bytes(v['v']), 'big')
    return -n if v['neg'] else n


def o_net(n):
    return project(n if n is None else n.name)


def find(env, a):
    v = unobs(a['v'])
    kw = {}
    if not (a['attr'] == 'name' and a['short']):
        kw['attr'] = a['attr']
    if not (a['raises'] and a['short']):
        kw['raises'] = a['raises']
    return observe(lambda: networks.find(v, **kw), proj=o_net)


def params(env, a):
    n = NETS[untext(a['name'])]()
    return {'r': {x: observe(lambda: getattr(n, x)) for x in ATTRS}, 'default': observe(lambda: networks.default.name)}


OPS = {
    'find': find, 'params': params,
    'itself': lambda env, a: observe(lambda: networks.find(NETS[untext(a['name'])]()) is NETS[untext(a['name'])]()
                                     and networks.find(NETS[untext(a['name'])](), a['attr']) is NETS[untext(a['name'])]()),
}


def calls(ctx):
    rng = ctx.rng('net')
    for name in ('livenet', 'testnet'):
        yield 'params', {'name': cps(name)}
        for attr in ATTRS:
            yield 'itself', {'name': cps(name), 'attr': attr}
    for c in ctx.cases:
        for raises in (True, False):
            yield 'find', {'attr': c['attr'], 'v': c['v'], 'raises': raises, 'short': rng.random() < 0.5}
    for attr in ATTRS:
        for v in list(range(-2, 260)) + [rint(rng, 34) for _ in range(ctx.n(40, 2000))]:
            yield 'find', {'attr': attr, 'v': project(v), 'raises': rng.random() < 0.5, 'short': rng.random() < 0.5}
        for t in ['', 'livenet ', 'Livenet', 'LIVENET', 'mainnet', 'regtest', 'testnet3', 'test', 'live', 'net', 'livenettestnet', 'default', 'é', '0', '111']:
            yield 'find', {'attr': attr, 'v': project(t), 'raises': rng.random() < 0.5, 'short': rng.random() < 0.5}


def sessions(ctx):
    return chunks(calls(ctx), 40)

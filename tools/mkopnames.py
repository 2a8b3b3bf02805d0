"""Writes spec/OpNames.tla: the opcode numbers of the Bitcoin protocol and the names this library gives them,
as code points (TLA+ strings cannot be taken apart). Written from the protocol's table, not from the code."""
import os
T = {}
for i, n in enumerate('0'.split()):
    T['OP_0'] = 0
T['OP_FALSE'] = 0
for i in range(1, 17):
    T['OP_%d' % i] = 80 + i
T['OP_TRUE'] = 81
T['OP_1NEGATE'] = 79
T['OP_RESERVED'] = 80
for i, n in enumerate('PUSHDATA1 PUSHDATA2 PUSHDATA4'.split()):
    T['OP_' + n] = 76 + i
for n, v in dict(NOP=97, IF=99, NOTIF=100, ELSE=103, ENDIF=104, VERIFY=105, RETURN=106).items():
    T['OP_' + n] = v
for i, n in enumerate('''TOALTSTACK FROMALTSTACK 2DROP 2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP
        TUCK CAT SUBSTR LEFT RIGHT SIZE INVERT AND OR XOR EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV NEGATE ABS NOT
        0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT RSHIFT BOOLAND BOOLOR NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN
        LESSTHANOREQUAL GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 SHA256 HASH160 HASH256 CODESEPARATOR CHECKSIG
        CHECKSIGVERIFY CHECKMULTISIG CHECKMULTISIGVERIFY NOP1 CHECKLOCKTIMEVERIFY NOP3 NOP4 NOP5 NOP6 NOP7 NOP8 NOP9
        NOP10'''.split()):
    T['OP_' + n] = 107 + i
assert T['OP_NOP10'] == 185 and T['OP_CHECKSIG'] == 172 and T['OP_ADD'] == 147 and T['OP_HASH160'] == 169
T['OP_PUBKEYHASH'], T['OP_PUBKEY'], T['OP_INVALIDOPCODE'] = 253, 254, 255
cp = lambda t: '<< ' + ', '.join(str(ord(c)) for c in t) + ' >>'
out = ['------------------------------ MODULE OpNames ------------------------------',
       '(* Generated by tools/mkopnames.py: << name as code points, number >> *)', 'OpTable == {']
names = sorted(T, key=lambda n: (T[n], n))
out += ['  << %s, %d >>%s \\* %s' % (cp(n), T[n], ',' if n != names[-1] else '', n) for n in names]
out += ['}', 'OpAliases == { %s, %s }' % (cp('OP_FALSE'), cp('OP_TRUE')),
        '=============================================================================', '']
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'OpNames.tla'), 'w').write('\n'.join(out))
# the same table for the harness, to build texts with (not an oracle)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'opnames.py'), 'w').write(
    '"""Generated by tools/mkopnames.py."""\nOPS = {\n' + ''.join('    %r: %d,\n' % (n, T[n]) for n in names) + '}\n')

#!/usr/bin/env python3
"""Writes properties.jsonl (single place where the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

prop('C01', 'Private key encodings are exact and mutually inverse',
 "For every secret between 1 and the curve order minus 1, every network and either compression choice, a private key's 32-byte, hexadecimal and WIF forms are exactly the standard ones (big-endian secret; base58check of network prefix, secret and compression marker). Reading any of these forms back gives a key with the same secret, network and compression flag.",
 ['inputs'], "all secrets in [1, n-1] x {livenet, testnet} x {compressed, uncompressed} x {bytes, hex, WIF}",
 "The tests use one fixed secret plus random ones and a list of WIFs; short secrets (leading zero bytes), the extremes of the range and all prefix/compression combinations are never reached.",
 ['bitforge/privkey.py', 'bitforge/encoding.py', 'bitforge/networks.py', 'bitforge/utils/encoding.py'],
 [('PrivateKey.to_bytes/from_bytes, to_hex/from_hex, to_wif/from_wif', 'bitforge/privkey.py'), ('encode_int/decode_int', 'bitforge/encoding.py')],
 ['PrivateKey.to_bytes()', 'PrivateKey.to_hex()', 'PrivateKey.to_wif()', 'PrivateKey.from_*'])

prop('C02', 'Only well-formed, in-range private keys are accepted',
 "A private key can be created or read exactly when its secret lies in [1, n-1], its network is known and its encoding is well formed: 32 bytes, 64 hex digits, or a WIF with a valid checksum, a known network prefix, a 33-byte payload or a 34-byte payload ending in 01. Anything else is refused with a PrivateKey error and no key is produced. A key made up by the library is such a key, drawn from the whole range, and such keys do not repeat.",
 ['inputs'], "all integers, byte strings, hex strings and WIF strings, in particular boundary secrets (0, n-1, n, n+1, 2^256-1), every payload length, every prefix byte and every compression byte",
 "Tests try -1, 10**100 and a handful of bad WIFs; the exact boundary of the key range and of each encoding is not sampled.",
 ['bitforge/privkey.py', 'bitforge/networks.py', 'bitforge/encoding.py'],
 [('range check in PrivateKey.__new__', 'bitforge/privkey.py'), ('length / compression byte / prefix checks in from_wif', 'bitforge/privkey.py'), ('networks.find', 'bitforge/networks.py')],
 ['PrivateKey(...)', 'PrivateKey.from_bytes', 'PrivateKey.from_hex', 'PrivateKey.from_wif'])

prop('C03', 'A public key is the secret times the secp256k1 generator',
 "For every private key the derived public key's coordinates are exactly secret * G on secp256k1, reduced into the field, with the network and compression flag of the private key. The same holds through every way of getting there from a private key (directly, through its address, through signing scripts).",
 ['inputs'], "all secrets in [1, n-1], both networks, both compression flags",
 "Tests compare two fixed key pairs; the scalar-multiplication branches taken depend on the bit pattern of the secret.",
 ['bitforge/pubkey.py', 'bitforge/privkey.py', 'bitforge/utils/ecdsa.py', 'bitforge/utils/ellipticcurve.py', 'bitforge/utils/secp256k1.py', 'bitforge/utils/numbertheory.py'],
 [('public_pair_for_secret_exponent', 'bitforge/utils/ecdsa.py'), ('Point.__mul__/__add__/double', 'bitforge/utils/ellipticcurve.py')],
 ['PrivateKey.to_public_key()', 'PublicKey.from_private_key()'])

prop('C04', 'Public key encodings accept exactly the points of the curve',
 "Bytes or hex are read as a public key exactly when they are the canonical encoding of a secp256k1 point (02/03 and a 32-byte x below the field prime whose point exists, or 04 and both 32-byte coordinates of a point on the curve), and constructing one from coordinates succeeds exactly for in-range points of the curve. Writing an accepted key gives back the same bytes, the parity selects the right y, and everything else is refused with a PublicKey error.",
 ['inputs'], "all byte strings and hex strings (every length, prefix byte, x with and without a square root, coordinates at and above the field prime, bit flips of valid keys) and all coordinate pairs",
 "Tests read two fixed keys and reject two short junk strings; non-canonical, over-long, truncated and off-curve encodings are not sampled.",
 ['bitforge/pubkey.py', 'bitforge/utils/encoding.py', 'bitforge/utils/ecdsa.py', 'bitforge/utils/numbertheory.py'],
 [('sec_to_public_pair / public_pair_to_sec', 'bitforge/utils/encoding.py'), ('is_public_pair_valid / public_pair_for_x', 'bitforge/utils/ecdsa.py'), ('modular_sqrt', 'bitforge/utils/numbertheory.py')],
 ['PublicKey.from_bytes', 'PublicKey.from_hex', 'PublicKey(...)', 'PublicKey.to_bytes', 'PublicKey.to_hex'])

prop('C05', 'Addresses commit to the right hash, type and network',
 "The address of a public key or script is RIPEMD160(SHA256(serialization)) with the version byte of its network and type. Its byte, hex and base58check forms are exactly the standard ones and read back to the same hash, type and network; a form with a wrong length, unknown version byte, bad checksum or bad digit is refused with an Address error.",
 ['inputs'], "all 20-byte hashes, both types, both networks, all public keys and scripts; all malformed strings near a valid address",
 "Tests check a list of fixed addresses; hashes with leading zeros, all 256 version bytes and neighbouring corruptions of a valid string are not sampled.",
 ['bitforge/address.py', 'bitforge/networks.py', 'bitforge/encoding.py', 'bitforge/utils/encoding.py'],
 [('Address.from_public_key/from_script', 'bitforge/address.py'), ('Address.classify_bytes', 'bitforge/address.py'), ('version bytes', 'bitforge/networks.py')],
 ['Address.to_string/to_bytes/to_hex', 'Address.from_string/from_bytes/from_hex', 'PublicKey.to_address', 'PrivateKey.to_address'])

prop('C06', 'Base58check is a bijection guarded by its checksum',
 "Every byte string encodes to the standard base58check text (payload plus first four bytes of its double SHA-256, one leading '1' per leading zero byte) and decodes back to itself. A text is accepted exactly when it uses only base58 digits and carries the right checksum, so every accepted text is the encoding of what it decodes to; any other text is refused with a base58 error.",
 ['inputs'], "all byte strings (all lengths, any number of leading zeros) and all texts",
 "The tests only decode fixed keys and addresses; payload length, leading zeros and corruption position are unsampled.",
 ['bitforge/encoding.py', 'bitforge/utils/encoding.py'],
 [('b2a_hashed_base58 / a2b_hashed_base58', 'bitforge/utils/encoding.py'), ('to_long / from_long', 'bitforge/utils/encoding.py')],
 ['encode_base58h', 'decode_base58h'])

prop('C07', 'Integer, varint and buffer primitives never lose or misplace data',
 "Fixed-width integers (either byte order) and variable-length integers are written in the Bitcoin layout (shortest varint form) and read back to the same number, and a number that does not fit is refused instead of truncated. A Buffer is a byte queue: reads return exactly the next bytes in order, writes append, and a read beyond the end raises InsufficientData and leaves the buffer as it was.",
 ['inputs', 'histories'], "all non-negative integers and widths, and all interleavings of write, read and read_varint on a buffer",
 "No test covers encode_varint, read_varint, fixed widths or the zero value; histories of reads and writes are not sampled at all.",
 ['bitforge/encoding.py', 'bitforge/tools.py', 'bitforge/compat.py'],
 [('encode_int / decode_int / encode_varint', 'bitforge/encoding.py'), ('Buffer.read / read_varint / write', 'bitforge/tools.py')],
 ['encode_int', 'decode_int', 'encode_varint', 'Buffer'],
 [('pending bytes', 'bytes written and not yet read', 'bitforge/tools.py:Buffer')])

prop('C08', 'Script numbers follow the consensus encoding',
 "Every integer encodes to the shortest little-endian sign-magnitude byte string (empty for zero) and decodes back to itself whenever it fits the size limit. Decoding accepts byte strings of up to the stated size (4 by default) and, when minimality is required, exactly those that are the shortest encoding of their value; every other string is refused with the corresponding error.",
 ['inputs'], "all integers and all byte strings up to and beyond the size limit, with and without the minimality requirement, sizes 4 and 5",
 "Encoding is only exercised for -1, 0, 1 and 16 through other tests; decoding is never tested, nor is any boundary (127/128, 255/256, 2^31-1, negative zero).",
 ['bitforge/encoding.py'],
 [('encode_script_number / decode_script_number', 'bitforge/encoding.py')],
 ['encode_script_number', 'decode_script_number'])

prop('C09', 'Script bytes and instructions correspond one to one',
 "Every byte string either parses to the instruction sequence the Bitcoin script format prescribes and serializes back to the same bytes, or ends inside a push and is refused with a library error. Every valid instruction sequence serializes to bytes that parse back to it, pushes of raw data use the shortest push opcode (direct push up to 75 bytes, then PUSHDATA1, PUSHDATA2, PUSHDATA4), and an instruction whose data does not match its opcode cannot be built.",
 ['inputs'], "all byte strings and all instruction sequences, all 256 opcodes, push lengths around 75/76, 255/256, 65535/65536, each PUSHDATA form with non-minimal lengths",
 "Tests parse but never serialize a PUSHDATA; long pushes, truncation at each offset and unassigned opcodes are unsampled.",
 ['bitforge/script/script.py', 'bitforge/script/instruction.py', 'bitforge/script/opcode.py', 'bitforge/tools.py'],
 [('Script.from_buffer / to_bytes', 'bitforge/script/script.py'), ('Instruction.to_bytes', 'bitforge/script/instruction.py'), ('Opcode.push_for', 'bitforge/script/opcode.py')],
 ['Script.from_bytes', 'Script.to_bytes', 'Script.compile', 'Instruction(...)'])

prop('C10', 'Script text form round-trips and rejects malformed text',
 "The text of any script made of named opcodes and pushes lists each instruction in order (opcode name; direct push as length and 0x-hex; PUSHDATA as name, length and 0x-hex) and reads back to an equal script. Each named opcode has its consensus number, and text with an unknown name, a missing or non-hex argument, or a length that disagrees with the data is refused with a library error.",
 ['inputs'], "all scripts over named opcodes and pushes of every form and length, all opcode names, and all mutations of script text",
 "Tests use four strings with a 3-byte push; the table of about 115 opcode names and numbers and the push lengths are not checked.",
 ['bitforge/script/script.py', 'bitforge/script/instruction.py', 'bitforge/script/opcode.py'],
 [('Script.from_string / to_string', 'bitforge/script/script.py'), ('Instruction.to_string', 'bitforge/script/instruction.py'), ('opcode table, Opcode.from_name', 'bitforge/script/opcode.py')],
 ['Script.from_string', 'Script.to_string', 'Opcode.from_name', 'Opcode.name'])

prop('C11', 'Standard script templates are built and recognised exactly',
 "Each standard script constructor (pay-to-pubkey-hash in/out, pay-to-script-hash in/out, multisig redeem, data) produces exactly the standard bytes for its arguments, and the accessors of the result return those arguments. Every parseable script is classified without failing as the one template whose instruction shape it has, or as none; inputs and outputs get the matching class, a multisig output pays to the hash of its redeem script, and a script-hash address cannot be used where a public-key-hash address is meant.",
 ['inputs'], "all argument values and all parseable scripts, including every near-miss of a template (one instruction added, removed or changed)",
 "Tests classify six hand-made scripts; near-misses and scripts starting with a push and having four or more instructions are unsampled.",
 ['bitforge/script/script.py', 'bitforge/transaction/input.py', 'bitforge/transaction/output.py'],
 [('is_valid/create/get_* of the Script subclasses', 'bitforge/script/script.py'), ('Script.classify', 'bitforge/script/script.py'), ('Input.create / Output.create', 'bitforge/transaction/')],
 ['Script.create', 'Script.classify', 'Input.create', 'Output.create', 'AddressOutput/ScriptOutput/MultisigOutput/DataOutput.create'])

prop('C12', 'Transactions serialize to the Bitcoin wire format and back',
 "Every transaction, input and output serializes to exactly the Bitcoin wire format, parsing that serialization gives an equal object, and the transaction id is the byte-reversed double SHA-256 of it in hex, usable as the tx_id of an input spending it. A field value that does not fit its wire width, a missing input or output, every strict prefix of a serialization, and a serialization with bytes after its end, are refused with an error rather than yielding an altered transaction.",
 ['inputs'], "all transactions (any number of inputs and outputs including 252/253/254, any scripts, amounts up to 2^64-1, sequence numbers, lock times, versions) and all their prefixes",
 "No test serializes or parses a transaction, an input or an output.",
 ['bitforge/transaction/transaction.py', 'bitforge/transaction/input.py', 'bitforge/transaction/output.py', 'bitforge/tools.py', 'bitforge/encoding.py'],
 [('Transaction.to_bytes/from_bytes/get_id', 'bitforge/transaction/transaction.py'), ('Input.to_bytes/from_buffer', 'bitforge/transaction/input.py'), ('Output.to_bytes/from_buffer', 'bitforge/transaction/output.py')],
 ['Transaction.to_bytes/to_hex/from_bytes/from_hex/get_id', 'Input.*', 'Output.*'])

prop('C13', 'Signing changes only the signed input and yields valid signatures',
 "Signing input i returns a new transaction that differs from the original only in the script of input i, and leaves the original untouched; the new script is the standard one, with signatures that verify under the signing keys for the Bitcoin signature hash of the unsigned transaction, input i and the requested hash type (SIGHASH_ALL by default). This holds for any number of inputs signed in any order, an index outside the transaction is refused, and an input refuses a wrong number of keys.",
 ['inputs', 'histories'], "all transactions, all input kinds, all orders of signing the inputs, all keys",
 "No test signs anything; the digest depends on every field and on the position of the input.",
 ['bitforge/transaction/transaction.py', 'bitforge/transaction/input.py', 'bitforge/privkey.py', 'bitforge/signature.py'],
 [('Transaction.sign', 'bitforge/transaction/transaction.py'), ('AddressInput.sign / ScriptInput.sign', 'bitforge/transaction/input.py')],
 ['Transaction.sign', 'Transaction.to_bytes'],
 [('per-input script', 'placeholder or final script of each input', 'Transaction.inputs[i].script')])

prop('C14', 'Multisig inputs are spendable by exactly the right key sets',
 "can_sign answers yes exactly when the given private keys are as many as required and are distinct keys of the input (for an address input, the one key whose hash it pays to), on either network. Signing a multisig input with such keys, given in any order, produces a script whose signatures appear in the order of the public keys so that the multisig check accepts it; a wrong number of keys is refused.",
 ['inputs'], "all m-of-n configurations, all key subsets, multisets and orders, both networks and compression flags",
 "Tests try one 1-of-2 livenet input with single keys; order, repetition, m greater than 1 and testnet are unsampled.",
 ['bitforge/transaction/input.py', 'bitforge/script/script.py'],
 [('MultisigInput.can_sign / sign', 'bitforge/transaction/input.py'), ('AddressInput.can_sign', 'bitforge/transaction/input.py'), ('RedeemMultisig', 'bitforge/script/script.py')],
 ['MultisigInput.can_sign', 'AddressInput.can_sign', 'Transaction.sign'])

prop('C15', 'The interpreter executes opcodes with consensus semantics',
 "Running any script that uses no signature-checking opcode leaves the stack and alternate stack that the Bitcoin consensus rules prescribe for pushes, flow control, stack, arithmetic, comparison and hash opcodes, and ends with success or with the failure reason those rules give. Nested conditionals execute exactly the selected branches.",
 ['programs'], "all scripts over all non-signature opcodes, all nestings of conditionals, all operand values",
 "The tests run seven trivial scripts over nine opcodes.",
 ['bitforge/script/interpreter.py', 'bitforge/encoding.py'],
 [('Interpreter.step', 'bitforge/script/interpreter.py'), ('encode/decode_script_number', 'bitforge/encoding.py')],
 ['Interpreter.verify result', 'Interpreter.errstr', 'Interpreter.stack', 'Interpreter.altstack'],
 [('stack', 'main stack', 'Interpreter.stack'), ('altstack', 'alternate stack', 'Interpreter.altstack'), ('vf_exec', 'conditional nesting', 'Interpreter.vf_exec'), ('nop_count', 'executed non-push opcodes', 'Interpreter.nop_count')])

prop('C16', 'Script verification enforces every limit, flag and P2SH rule',
 "Verification answers yes exactly when the input script and then the output script (and, for pay-to-script-hash with that flag, the redeem script) run without failure and leave a true value on top. The limits (10000-byte script, 520-byte element, 201 operations, 1000 stack items at every step, disabled opcodes), the flags for push-only, minimal data, discouraged no-ops, null dummy, P2SH and lock time, and balanced conditionals are enforced exactly, and verification never raises.",
 ['programs', 'configurations'], "all pairs of scripts, all flag combinations, all transactions supplying lock time and sequence",
 "Tests never pass a flag, a transaction, or anything near a limit.",
 ['bitforge/script/interpreter.py', 'bitforge/script/instruction.py', 'bitforge/script/script.py'],
 [('Interpreter.verify / evaluate', 'bitforge/script/interpreter.py'), ('Instruction.is_minimal_push', 'bitforge/script/instruction.py')],
 ['Interpreter.verify result', 'Interpreter.errstr'])

prop('C17', 'Signature-checking scripts are never accepted without signatures',
 "A script verification that executes a signature-checking opcode never answers yes unless the required number of signatures, valid for the spent transaction and the listed keys, is present (a check that requires zero signatures may pass). Missing, garbage, mismatched or reordered signatures and keys always lead to a negative answer, never to acceptance or an exception.",
 ['programs', 'inputs'], "all scripts and input scripts containing CHECKSIG, CHECKSIGVERIFY, CHECKMULTISIG, CHECKMULTISIGVERIFY, all signature and key byte strings, all flags",
 "No test runs a signature-checking opcode.",
 ['bitforge/script/interpreter.py', 'bitforge/signature.py'],
 [('OP_CHECKSIG / OP_CHECKMULTISIG branches of Interpreter.step', 'bitforge/script/interpreter.py')],
 ['Interpreter.verify result'])

prop('C18', 'Signatures are strict low-S DER, verify, and bind key and message',
 "Signing any 32-byte digest gives a DER signature that is strictly encoded with s at most half the curve order and valid for that key and digest, and no nonce serves two different signatures (which would give the secret away). Verification accepts exactly the signatures that are valid for the key and digest, and the standalone signature-format validator answers yes exactly for the byte strings (with hash-type byte) that satisfy strict DER as in BIP66. The hash-type constants are those of Bitcoin.",
 ['inputs'], "all keys and digests, all byte strings given to the format validator",
 "No test signs, verifies or validates a signature.",
 ['bitforge/privkey.py', 'bitforge/signature.py'],
 [('PrivateKey.sign / verify', 'bitforge/privkey.py'), ('validate_signature', 'bitforge/signature.py')],
 ['PrivateKey.sign', 'PrivateKey.verify', 'bitforge.signature.validate_signature'])

prop('C19', 'HD derivation follows BIP32 and private and public paths agree',
 "Master keys, private and public child derivation, fingerprints and the extended-key strings are those of BIP32 for every seed, path, network and depth, and a key string reads back to the same extended key. For every non-hardened path, deriving then making public equals making public then deriving; a public key refuses hardened derivation, and extended-key strings with a wrong checksum, length, version or key, and seeds shorter than 32 bytes, are refused.",
 ['inputs', 'histories'], "all seeds of 32 or more bytes, all derivation paths (hardened and not, index boundaries), all interleavings of derive, neuter, serialize and parse",
 "No test touches HDPrivateKey or HDPublicKey.",
 ['bitforge/hdprivkey.py', 'bitforge/hdpubkey.py', 'bitforge/networks.py'],
 [('HDPrivateKey.derive / from_seed / to_string / from_string', 'bitforge/hdprivkey.py'), ('HDPublicKey.derive / to_string / from_string', 'bitforge/hdpubkey.py')],
 ['HDPrivateKey.*', 'HDPublicKey.*'],
 [('extended key', 'key, chain code, depth, index, parent fingerprint, network', 'HDPrivateKey / HDPublicKey fields')])

prop('C20', 'The bundled curve and ECDSA arithmetic is a correct group',
 "On every prime-order curve over a prime field, point addition, doubling and multiplication form the curve group, modular inverse and square root are correct, and compressed-point recovery picks the point of the requested parity. Deterministic signing uses the RFC 6979 nonce, its signatures verify, verification accepts exactly the valid (r, s) pairs, and key recovery returns only keys under which the signature verifies, including the signer's.",
 ['inputs', 'configurations'], "all small prime-order curves exhaustively (all point pairs, all scalars, all digests, all candidate signatures), secp256k1 for sampled values",
 "Only secp256k1 multiplication is reached by the tests, for a few scalars; addition of equal, opposite and infinite points, verification and recovery are not.",
 ['bitforge/utils/ellipticcurve.py', 'bitforge/utils/ecdsa.py', 'bitforge/utils/numbertheory.py'],
 [('Point', 'bitforge/utils/ellipticcurve.py'), ('sign / verify / possible_public_pairs_for_signature / deterministic_generate_k', 'bitforge/utils/ecdsa.py'), ('inverse_mod / modular_sqrt', 'bitforge/utils/numbertheory.py')],
 ['bitforge.utils.Point', 'bitforge.utils.sign', 'bitforge.utils.verify', 'bitforge.utils.possible_public_pairs_for_signature'])

prop('C21', 'Unit conversions never lose a satoshi',
 "A Unit made from any whole number of satoshis has exactly that number. For every whole number of satoshis up to 21 million bitcoin, positive or negative, the amount expressed in bits, millibits or bitcoin is the nearest representable number, and building a Unit from any of these expressions gives back exactly that number of satoshis. Conversions from and to fiat agree with dividing by and multiplying with the rate to within rounding.",
 ['inputs'], "all satoshi amounts in [-2.1e15, 2.1e15] and all four units; all integers for satoshis",
 "Tests use five amounts that happen to multiply out exactly.",
 ['bitforge/unit.py'],
 [('Unit._set_values', 'bitforge/unit.py')],
 ['Unit(...).satoshis/bits/mbtc/btc', 'Unit.from_fiat', 'Unit.at_rate'])

prop('C22', 'Payment URIs carry address, amount and text without change',
 "Writing a payment URI and reading it back preserves the address with its network, the exact amount in satoshis, the label, message and payment-request fields and all extra parameters; the written text is 'bitcoin:' and the address followed by percent-encoded parameters, with the amount in plain decimal notation, and writing does not change the URI. A text is valid exactly when it has the bitcoin scheme, a valid address and, if present, a numeric amount; the validity test itself never raises.",
 ['inputs'], "all addresses, all amounts in [0, 2.1e15] satoshis, all non-empty Unicode field values and parameter names, all candidate texts",
 "Tests use about ten URIs; small amounts, special characters and numeric edge cases are unsampled.",
 ['bitforge/uri.py', 'bitforge/unit.py'],
 [('URI.parse / to_uri / is_valid', 'bitforge/uri.py')],
 ['URI(...)', 'URI.to_uri', 'URI.is_valid'])

prop('C23', 'Model objects are immutable, hashable values',
 "Once created, a key, extended key, address, script, instruction, input, output or transaction never changes: its fields cannot be reassigned, and no later sequence of calls on it or on other objects, nor changes by the caller to lists it was built from, alters what it contains or serializes to. Two objects of the same kind with the same contents are equal and hash equally however they were obtained (copying and pickling included), and objects with different contents are unequal.",
 ['histories'], "all sequences of constructor, accessor, conversion, signing, derivation, parsing and interpretation calls over a pool of objects",
 "Tests never hash an object, and never re-inspect an object after using it.",
 ['bitforge/networks.py', 'bitforge/tools.py', 'bitforge/privkey.py', 'bitforge/pubkey.py', 'bitforge/address.py', 'bitforge/script/script.py', 'bitforge/script/instruction.py', 'bitforge/transaction/transaction.py', 'bitforge/hdprivkey.py', 'bitforge/hdpubkey.py'],
 [('namedtuple base classes', 'all model classes'), ('tuple copies of list arguments', 'Script.__new__, Transaction.__new__')],
 ['==, hash(), attribute access and serialization of every model object'],
 [('object store', 'every object created so far with its contents', 'the calling program')])

prop('C24', 'Malformed input is always refused with a printable library error',
 "Every parser of external data (private and public keys, addresses, scripts in bytes or text, opcodes by name, transactions, inputs, outputs, hexadecimal and base58check text) and every validating constructor of these either returns a value or raises a library error (of the class's own Error for keys, addresses and opcodes, a BitforgeError otherwise) whose message can be printed and is not empty; it never raises any other kind of exception, never hangs, and never returns a partial result.",
 ['inputs'], "all byte strings and all texts, including truncations, bit flips, extensions and non-ASCII text",
 "Tests feed about fifteen malformed inputs and never print an error.",
 ['bitforge/errors.py', 'bitforge/encoding.py', 'bitforge/privkey.py', 'bitforge/pubkey.py', 'bitforge/address.py', 'bitforge/script/script.py', 'bitforge/transaction/transaction.py'],
 [('BitforgeError.__str__ / message formatting', 'bitforge/errors.py'), ('error translation in each from_* method', 'bitforge/*.py')],
 ['exceptions raised by from_bytes / from_hex / from_string / from_wif / from_name'])

prop('C25', 'The helpers of bitforge.utils encode, decode and validate exactly',
 "The conversions bundled in bitforge.utils (secrets and WIF, public points and SEC bytes, key hashes and addresses, base58 with and without checksum, integers and bytes of either byte order, digits in a base) produce the standard encodings and are inverse to each other for every input, prefix and option. Decoders refuse texts and bytes that are not such an encoding (wrong character, checksum, length, version or compression byte, point off the curve), and the validity tests (is_valid_wif, is_valid_bitcoin_address, is_hashed_base58_valid) answer yes exactly for valid texts with an allowed prefix and never raise.",
 ['inputs', 'configurations'], "all secrets, points, hashes, byte strings and integers, all prefixes and byte orders, all candidate texts (the range of the secret inside a WIF text is left to C01)",
 "No test calls these helpers.",
 ['bitforge/utils/encoding.py', 'bitforge/utils/intbytes.py'],
 [('wif_* / sec_* / bitcoin_address_* / *_base58', 'bitforge/utils/encoding.py'), ('to_bytes / from_bytes / int_to_bytes / int_from_bytes', 'bitforge/utils/intbytes.py')],
 ['bitforge.utils.encoding.*', 'bitforge.utils.intbytes.*'])

prop('C26', 'Opcodes and single instructions have their standard meaning',
 "Each of the 256 opcodes has its standard number, byte and name, is ordered, equal and hashed by its number, and says correctly whether it is a small number (and which), a direct push or a PUSHDATA, how many bytes it can push and in how many bytes it gives their number; a name gives the opcode it names and unknown names and numbers are refused. The opcode chosen to push a length is the smallest that can carry it; an instruction can be made exactly when its data fits its opcode, its bytes and text are standard, and is_minimal_push says yes exactly when no shorter instruction pushes the same data.",
 ['inputs'], "all 256 opcodes and all pairs of them, all names, all lengths (including negative and above 2^32), all data for instructions",
 "Tests look at a handful of opcodes and never compare, hash or ask for the minimality of a push.",
 ['bitforge/script/opcode.py', 'bitforge/script/instruction.py'],
 [('Opcode', 'bitforge/script/opcode.py'), ('Instruction.__new__ / push_for / is_minimal_push / to_bytes / to_string', 'bitforge/script/instruction.py')],
 ['Opcode.*', 'Instruction.*'])

prop('C27', 'The network table is standard and lookups find exactly the network',
 "The two networks, livenet (the default) and testnet, have the standard parameters: name, address, script-address, WIF and extended-key prefixes, message magic and port; no prefix byte is shared between networks or kinds. Looking a network up by any attribute and value gives the network that has this value and no other; where none has it, UnknownNetwork is raised, or None returned when asked not to raise; a network given in place of a value stands for itself.",
 ['inputs', 'configurations'], "all attributes and all values of them, with and without raising",
 "Tests look up two names.",
 ['bitforge/networks.py'],
 [('livenet / testnet / find', 'bitforge/networks.py')],
 ['bitforge.networks'])

prop('C28', 'Calls are right in every history and beside other threads',
 "The outcome of a call depends on its arguments and the objects it is given, and on nothing else: whatever calls were made before it in the process, in whatever order, however often and whether they succeeded or failed, and whatever other threads are doing with objects of their own at the same time, every call of the library (codecs, keys, addresses, scripts, transactions, signing, interpretation, extended keys, curve arithmetic, units, URIs, lookups) gives the result, or the refusal, that it is specified to give.",
 ['histories', 'schedules'], "all sequences of calls of all parts of the library in one process, all interleavings of calls by several threads that do not share mutable objects",
 "Tests make each call once, mostly in a fresh state, and never in two threads.",
 ['bitforge/encoding.py', 'bitforge/tools.py', 'bitforge/networks.py', 'bitforge/script/interpreter.py', 'bitforge/script/script.py', 'bitforge/script/opcode.py', 'bitforge/transaction/transaction.py', 'bitforge/utils/ellipticcurve.py', 'bitforge/utils/encoding.py', 'bitforge/hdprivkey.py'],
 [('no module-level or class-level state that calls write', 'bitforge/**'), ('the state of an interpreter run is its own', 'bitforge/script/interpreter.py')],
 ['outcomes of all public calls'],
 [('process state', 'module and class attributes; nothing that a call may write', 'the interpreter process')])

prop('C29', 'A wallet workflow is right end to end, whatever route values take',
 "Values can be passed on from part to part of the library, whatever route they came by: derived, converted, written and read back in any encoding, put together from their fields, taken out of a script, an output or a transaction. From a seed, an extended key or a WIF, along any path, through private and public keys, to addresses, locking and redeem scripts and outputs, every value made from another is the one that Bitcoin's rules give; whom an output pays is the address it was made for; a transaction that spends an output of an earlier one names it by that one's id; can_sign tells which keys spend a coin; and once every input is signed by such keys, in any order, the transaction spends its coins: each input unlocks the output it spends under Bitcoin's script rules. The steps leave the values they use as they were, and values that mean the same are equal.",
 ['histories', 'inputs'], "all sequences of steps from seeds and keys to chains of signed transactions, with every route for every value",
 "Tests look at each class alone, with values that the test itself builds; no test passes a value through more than one part.",
 ['bitforge/hdprivkey.py', 'bitforge/hdpubkey.py', 'bitforge/privkey.py', 'bitforge/pubkey.py', 'bitforge/address.py', 'bitforge/script/script.py', 'bitforge/transaction/input.py', 'bitforge/transaction/output.py', 'bitforge/transaction/transaction.py', 'bitforge/uri.py'],
 [('to_private_key / to_public_key / to_address', 'bitforge/hdprivkey.py, privkey.py'), ('Output.create / AddressInput.create / MultisigInput.create', 'bitforge/transaction/'), ('Transaction.sign / get_id', 'bitforge/transaction/transaction.py')],
 ['values of all model classes', 'transaction bytes and ids', 'signed input scripts'],
 [('pool of values', 'extended keys, keys, addresses, scripts, outputs, transactions', 'the caller')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')

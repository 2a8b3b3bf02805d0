"""Projection of what the real code returns or raises to observations (spec/Obs.tla)."""
import signal
import threading
import struct


def nat(n):
    """Magnitude of an integer as big-endian bytes without leading zeros."""
    n = abs(int(n))
    return list(n.to_bytes((n.bit_length() + 7) // 8, 'big'))


def sint(n):
    return {'neg': 1 if n < 0 else 0, 'v': nat(n)}


def unint(a):
    n = int.from_bytes(bytes(a['v']), 'big')
    return -n if a['neg'] else n


def untext(a):
    return ''.join(map(chr, a))


def cps(text):
    return [ord(c) for c in text]


def project(v):
    if v is None:
        return {'k': 'none', 'v': []}
    if isinstance(v, bool):
        return {'k': 'bool', 'v': [int(v)]}
    if isinstance(v, int):
        return {'k': 'int', 'neg': 1 if v < 0 else 0, 'v': nat(v)}
    if isinstance(v, (bytes, bytearray, memoryview)):
        return {'k': 'bytes', 'v': list(bytes(v))}
    if isinstance(v, str):
        return {'k': 'text', 'v': cps(v)}
    if isinstance(v, float):
        return {'k': 'float', 'v': list(struct.pack('>d', v))}
    if isinstance(v, (list, tuple)):
        return {'k': 'list', 'items': [project(x) for x in v]}
    return {'k': 'other', 'v': []}


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)

# Public error classes, by the path a user would write. Resolved when the code is imported.
ERROR_PATHS = """
errors.BitforgeError
encoding.EncodingError encoding.InvalidBase58h encoding.InvalidHex
encoding.InvalidScriptNumber encoding.InvalidMinimalScriptNumber
networks.UnknownNetwork
utils.encoding.EncodingError
PrivateKey.Error PrivateKey.InvalidSecret PrivateKey.UnknownNetwork PrivateKey.InvalidWifLength
PrivateKey.InvalidCompressionByte PrivateKey.InvalidBase58h PrivateKey.InvalidHex PrivateKey.InvalidBinaryLength
PublicKey.Error PublicKey.InvalidPair PublicKey.UnknownNetwork PublicKey.InvalidBinary PublicKey.InvalidHex
Address.Error Address.UnknownNetwork Address.InvalidVersion Address.InvalidBase58h Address.InvalidHex
Address.InvalidHashLength Address.InvalidBinaryLength Address.InvalidType
Opcode.Error Opcode.UnknownOpcodeName Opcode.UnknownOpcodeNumber Opcode.InvalidConstPushLength
Opcode.InvalidPushLength Opcode.TypeError Opcode.WrongOpcodeType
Instruction.Error Instruction.TypeError Instruction.UnexpectedData Instruction.InvalidDataLength
Script.Error Script.MissingPushArguments Script.InvalidPushSize Script.InvalidPushData
Script.InvalidPushDataLength Script.UnknownOpcodeName
Input.Error Input.UnknownSignatureMethod Input.InvalidSignatureCount
Output.Error DataOutput.TooMuchData
Transaction.Error Transaction.NoInputs Transaction.NoOutputs Transaction.NotAnInput Transaction.NotAnOutput
Transaction.InvalidLockTime
""".split()

ERRORS = []


def load_errors(bitforge):
    import builtins
    del ERRORS[:]
    for path in ERROR_PATHS:
        obj = bitforge
        try:
            for part in path.split('.'):
                obj = getattr(obj, part)
            ERRORS.append((path.replace('errors.', ''), obj))
        except AttributeError:
            pass
    try:
        from bitforge.tools import Buffer
        ERRORS.append(('Buffer.InsufficientData', Buffer.InsufficientData))
    except (ImportError, AttributeError):
        pass
    for name in ('ValueError', 'TypeError', 'OverflowError', 'AttributeError', 'Exception'):
        ERRORS.append((name, getattr(builtins, name)))


def project_error(e):
    if isinstance(e, Hang):
        return {'k': 'err', 'is': ['Hang'], 'msg': {'k': 'none', 'v': []}}
    labels = []
    for path, cls in ERRORS:
        try:
            if isinstance(e, cls):
                labels.append(path)
        except TypeError:
            pass
    try:
        msg = project(str(e))
    except Exception:
        msg = {'k': 'other', 'v': []}
    # the concrete type, for the report only
    return {'k': 'err', 'is': labels, 'msg': msg, 'type': type(e).__name__}


HANGS = [0]
LIMIT = [10.0]


def guarded(fn, *args, **kwargs):
    """Run fn; return (True, value) or (False, exception). May be nested."""
    limit = kwargs.pop('limit', None) or LIMIT[0]
    if threading.current_thread() is not threading.main_thread():
        # no time limit of its own: whoever waits for the thread sees to that
        try:
            return True, fn(*args, **kwargs)
        except (Exception, SystemExit, KeyboardInterrupt) as e:
            return False, e
    outer = signal.getitimer(signal.ITIMER_REAL)[0]
    signal.setitimer(signal.ITIMER_REAL, min(limit, outer) if outer else limit)
    try:
        try:
            return True, fn(*args, **kwargs)
        finally:
            signal.setitimer(signal.ITIMER_REAL, outer)
    except Hang as e:
        HANGS[0] += 1
        if HANGS[0] >= 3:
            LIMIT[0] = 1.0
        return False, e
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        return False, e


def observe(fn, *args, **kwargs):
    """Call fn on the real code and project the outcome; 'proj' projects a returned value."""
    proj = kwargs.pop('proj', project)
    ok, v = guarded(fn, *args, **kwargs)
    if not ok:
        return project_error(v)
    ok, r = guarded(proj, v)
    if not ok:
        return {'k': 'other', 'v': [], 'why': 'projection failed: %r' % (r,)}
    return r

""" Build small ULog files for the demonstrations (scratch data only) """
import io
import os
import struct
import sys

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True

HEAD = b'\x55\x4c\x6f\x67\x01\x12\x35'
SYNC = b'\x2F\x73\x13\x20\x25\x0C\xBB\x12'


def head(version=1, start=1000):
    return HEAD + struct.pack('<BQ', version, start)


def msg(typ, payload):
    return struct.pack('<HB', len(payload), ord(typ)) + payload


def flags(compat=(), incompat=(), offsets=()):
    c = list(compat) + [0] * (8 - len(compat))
    i = list(incompat) + [0] * (8 - len(incompat))
    o = list(offsets) + [0] * (3 - len(offsets))
    return msg('B', bytes(c) + bytes(i) + struct.pack('<QQQ', *o))


def fmt(text):
    return msg('F', text.encode())


def keyed(key, value):
    k = key.encode()
    return bytes([len(k)]) + k + value


def info(key, value):
    return msg('I', keyed(key, value))


def multi(key, value, cont=0):
    return msg('M', bytes([cont]) + keyed(key, value))


def param(key, value):
    return msg('P', keyed(key, value))


def default(mask, key, value):
    return msg('Q', bytes([mask]) + keyed(key, value))


def add(msg_id, name, multi_id=0):
    return msg('A', struct.pack('<BH', multi_id, msg_id) + name.encode())


def data(msg_id, payload):
    return msg('D', struct.pack('<H', msg_id) + payload)


def log(level, ts, text):
    return msg('L', struct.pack('<BQ', ord(level), ts) + text.encode())


def tagged(level, tag, ts, text):
    return msg('C', struct.pack('<BHQ', ord(level), tag, ts) + text.encode())


def dropout(ms):
    return msg('O', struct.pack('<H', ms))


def sync():
    return msg('S', SYNC)


def parse(raw, *args, **kw):
    from pyulog import ULog
    return ULog(io.BytesIO(raw), *args, **kw)


def write(u):
    b = io.BytesIO()
    u.write_ulog(b)
    return b.getvalue()


def i32(v):
    return struct.pack('<i', v)


def f32(v):
    return struct.pack('<f', v)


def u64(v):
    return struct.pack('<Q', v)


def run_tool(module, argv, raw, name='in.ulg', mods=None):
    """ a command line tool on a log with the given bytes, in a scratch directory: (output, {file: bytes}, error) """
    import contextlib, importlib, os, shutil, sys, tempfile
    d = tempfile.mkdtemp()
    old, argv0 = os.getcwd(), sys.argv
    out, err = io.StringIO(), None
    try:
        os.chdir(d)
        with open(name, 'wb') as f:
            f.write(raw)
        for k, v in (mods or {}).items():
            sys.modules[k] = v
        m = importlib.import_module('pyulog.' + module)
        sys.argv = [module] + [name if a == 'LOG' else a for a in argv]
        with contextlib.redirect_stdout(out):
            try:
                m.main()
            except SystemExit as e:
                err = e
            except Exception as e:   # pylint: disable=broad-exception-caught
                err = e
        files = {}
        for b, _d, fs in os.walk('.'):
            for f in fs:
                p = os.path.join(b, f)
                with open(p, 'rb') as h:
                    files[os.path.relpath(p, '.')] = h.read()
        return out.getvalue(), files, err
    finally:
        os.chdir(old)
        sys.argv = argv0
        shutil.rmtree(d)


def stub(name, **attrs):
    import types
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m

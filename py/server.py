"""Runs calls of the Python module for the harness: one JSON line and the data
in, one JSON line and the result out. The module is the file named by argv[1]."""
import importlib.machinery
import importlib.util
import json
import os
import resource
import sys
import threading

resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
loader = importlib.machinery.ExtensionFileLoader("texture2ddecoder_rs", sys.argv[1])
spec = importlib.util.spec_from_loader("texture2ddecoder_rs", loader)
module = importlib.util.module_from_spec(spec)
loader.exec_module(module)
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 2)
inp, out = sys.stdin.buffer, sys.stdout.buffer


class Index:
    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v


class Bytes(bytes):
    pass


def value(spec, data):
    kind, _, v = spec.partition(":")
    return {
        "i": lambda: int(v),
        "x": lambda: Index(int(v)),
        "f": lambda: float(v),
        "s": lambda: v,
        "n": lambda: None,
        "d": lambda: data,
        "dsub": lambda: Bytes(data),
        "darray": lambda: bytearray(data),
        "dview": lambda: memoryview(data),
        "dstr": lambda: data.decode("latin-1"),
        "dlist": lambda: list(data),
    }[kind]()


def run(f, args, kw):
    try:
        return f(*args, **kw), None
    except BaseException as e:  # a Rust panic is not an Exception
        return None, e


def exactly(n):
    b = inp.read(n)
    if len(b) != n:
        sys.exit(0)
    return b


earlier = []
while True:
    line = inp.readline()
    if not line:
        break
    q = json.loads(line)
    data = exactly(q["n"])
    before = bytes(bytearray(data))
    a = {"changed": None}
    if q["op"] == "names":
        a["names"] = sorted(n for n in dir(module) if callable(getattr(module, n)))
        r, e = b"", None
    else:
        f = getattr(module, q["f"])
        args = [value(x, data) for x in q["args"]]
        kw = {k: value(x, data) for k, x in q["kw"].items()}
        r, e = run(f, args, kw)
        if q["threads"] > 1:
            rs = []
            ts = [threading.Thread(target=lambda: rs.append(run(f, args, kw))) for _ in range(q["threads"])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if any(x != r or type(y) is not type(e) for x, y in rs) or len(rs) != len(ts):
                a["changed"] = "answers differ between threads"
        if data != before:
            a["changed"] = "the data argument was altered"
        for old, copy in earlier:
            if old != copy:
                a["changed"] = "the result of an earlier call was altered"
    if e is not None:
        a["raised"] = [c.__name__ for c in type(e).__mro__]
        a["message"] = str(e)[:200]
        r = b""
    else:
        a["type"] = type(r).__name__
        if not isinstance(r, bytes):
            r = b""
        elif len(r) <= 1 << 16:
            earlier = (earlier + [(r, bytes(bytearray(r)))])[-3:]
    a["n"] = len(r)
    out.write(json.dumps(a).encode() + b"\n" + r)
    out.flush()

"""Reference evaluations in another process image (other string hash seed, nothing else ever run in it)."""
import json
import os
import pickle
import shutil
import struct
import subprocess
import sys
import tempfile
from . import boot, fs

HASHSEED = "4242"
ANSWER = [None]      # what the other image said about the plan that is about to run
_server = [None, None]


def _read(fd, n):
    buf = bytearray()
    while len(buf) < n:
        c = fs._os["read"](fd, n - len(buf))
        if not c:
            raise EOFError("the other process image is gone")
        buf += c
    return bytes(buf)


def _write(fd, data):
    while data:
        data = data[fs._os["write"](fd, data):]


def _exec(prop, plan, w):
    """in a fork of the image: evaluate and report"""
    d = tempfile.mkdtemp(prefix="vsim.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        boot.seed_entropy(1)
        try:
            res = ("ok", prop.foreign(plan, d))
        except BaseException as e:
            import traceback
            res = ("exc", type(e).__name__, "".join(traceback.format_exception(e))[-900:])
        _write(w, pickle.dumps(res))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        os._exit(0)


def serve(prop):
    out = os.dup(1)
    nul = os.open(os.devnull, os.O_RDWR)
    os.dup2(nul, 1)
    os.dup2(nul, 2)
    while True:
        try:
            plan = json.loads(_read(0, struct.unpack("<I", _read(0, 4))[0]))
        except EOFError:
            return 0
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            _exec(prop, plan, w)
        fs._os["close"](w)
        buf = bytearray()
        while c := fs._os["read"](r, 1 << 16):
            buf += c
        fs._os["close"](r)
        os.waitpid(pid, 0)
        _write(out, struct.pack("<I", len(buf)) + bytes(buf))


def ask(prop, plan):
    if _server[0] is None or _server[1] != os.getpid():
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, VERIF_HASHSEED=HASHSEED)
        env.pop("PYTHONHASHSEED", None)
        _server[0] = subprocess.Popen([sys.executable, os.path.join(here, "check.py"), prop.ID, "--serve"], env=env,
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, close_fds=True)
        _server[1] = os.getpid()
    p = _server[0]
    data = json.dumps(plan).encode()
    _write(p.stdin.fileno(), struct.pack("<I", len(data)) + data)
    n = struct.unpack("<I", _read(p.stdout.fileno(), 4))[0]
    ANSWER[0] = pickle.loads(_read(p.stdout.fileno(), n))

"""Small FLP writer for demonstrations (runs the real library)."""
import os, struct, sys, tempfile, pathlib
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import pyflp


def varint(n):
    out = b""
    while n > 127:
        out += bytes([128 | n & 127]); n >>= 7
    return out + bytes([n])


def ev(i, payload):
    if isinstance(payload, int):
        n = 1 if i < 64 else 2 if i < 128 else 4
        payload = payload.to_bytes(n, "little", signed=payload < 0)
    return bytes([i]) + (varint(len(payload)) if i >= 192 else b"") + payload


def text(s):
    return (s + "\0").encode("utf-16-le")


def flp(events, fmt=0, channels=1, ppq=96, version="20.8.4"):
    body = (ev(199, version.encode() + b"\0") if version else b"") + b"".join(ev(i, p) for i, p in events)
    return b"FLhd\6\0\0\0" + struct.pack("<hHH", fmt, channels, ppq) + b"FLdt" + struct.pack("<I", len(body)) + body


def tmpdir():
    return tempfile.TemporaryDirectory()


def parse(data):
    with tmpdir() as d:
        p = pathlib.Path(d) / "x.flp"
        p.write_bytes(data)
        return pyflp.parse(p)


def save(project):
    with tmpdir() as d:
        p = pathlib.Path(d) / "x.flp"
        pyflp.save(project, p)
        return p.read_bytes()


def sample():
    return pathlib.Path(os.getcwd(), "tests/assets/FL 20.8.4.flp")


def channel(iid=0, typ=0, name="a", plugin="", extra=(), group=0):
    return [(64, iid), (21, typ), (201, text(plugin)), (203, text(name))] + list(extra) + [(145, group)]


def channels_head():
    return [(231, text("All"))]

"""Replays Msg.tla into the real decoder: what is delivered, how many chunks had been read, and what is left in the buffer."""
import io
import itertools
import socket

from unpythonic.net.msg import MessageDecoder, decodemsg, encodemsg
from unpythonic.net.util import ReceiveBuffer, bytessource, netstringify, recvall, socketsource, streamsource

BYTE = {"F": b"\xff", "x": b"\xc3", "-": b"-", "_": b"_", " ": b" "}


def raw(toks):
    return b"".join(BYTE.get(t, t.encode()) for t in toks)


class Chunks:
    def __init__(self, chunks):
        self.chunks, self.n = list(chunks), 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.n >= len(self.chunks):
            raise StopIteration
        self.n += 1
        return self.chunks[self.n - 1]


def split(data, sizes):
    out, i = [], 0
    for k in sizes:
        out.append(data[i:i + k])
        i += k
    assert i == len(data)
    return out


def decode(source, limit=20):
    d = MessageDecoder(source)
    got = []
    for _ in range(limit):
        m = d.decode()
        if m is None:
            return got, d
        got.append((m, getattr(source, "n", None), d.get_buffered_data()))
    raise AssertionError("the decoder does not end")


class FakeSock:
    def __init__(self, chunks):
        self.data, self.sizes, self.i = b"".join(chunks), [len(x) for x in chunks], 0

    def recv(self, n):
        k = min(n, self.sizes[self.i % len(self.sizes)] if self.sizes else 0)
        self.i += 1
        r, self.data = self.data[:k], self.data[k:]
        return r


def replay(case):
    stream = raw(case["stream"])
    sent = b"".join(encodemsg(raw(g["b"])) if g["k"] == "m" else raw(g["b"]) for g in case["segs"])
    if sent[:len(sent) - case["cut"]] != stream:
        return f"encoding {case['segs']}: {sent!r}, specification {stream!r}"
    chunks = split(stream, case["chunks"])
    want = [(raw(o["b"]), o["reads"], raw(o["buf"])) for o in case["out"]]
    src = Chunks(chunks)
    got, dec = decode(src)
    if got != want:
        return f"stream {chunks}: delivered {got}, specification {want}"
    # the same with the functional interface, and with the sources of the library
    buf, s2 = ReceiveBuffer(), iter(chunks)
    got = [m for m in iter(lambda: decodemsg(buf, s2), None)]
    bodies = [w[0] for w in want]
    if got != bodies:
        return f"decodemsg on {chunks}: {got}, specification {bodies}"
    n = max(case["chunks"]) if case["chunks"] else 1
    for lab, mk in (("bytessource", lambda: bytessource(stream, chunksize=n)), ("streamsource", lambda: streamsource(io.BytesIO(stream), chunksize=n)), ("bytessource, default size", lambda: bytessource(stream))):
        got = [x[0] for x in decode(mk())[0]]
        if got != bodies:
            return f"{lab} of {stream!r}: {got}, specification {bodies}"
    for mk in (bytessource, lambda d, chunksize: streamsource(io.BytesIO(d), chunksize=chunksize)):
        got = list(mk(stream, chunksize=n))
        if got != [stream[i:i + n] for i in range(0, len(stream), n)]:
            return f"chunks of a source: {got}"
    if len(stream) % 7 == 0:        # a real socket
        a, b = socket.socketpair()
        with a, b:
            a.sendall(stream)
            a.close()
            got = [x[0] for x in decode(socketsource(b, chunksize=n))[0]]
        if got != bodies:
            return f"socketsource of {stream!r}: {got}, specification {bodies}"
    # receiving exactly n bytes
    for k in (0, 1, len(stream), len(stream) + 1):
        sk = FakeSock(chunks)
        got = recvall(k, sk)
        w = stream[:k] if k <= len(stream) else None
        if got != w or (w is not None and sk.data != stream[k:]):
            return f"recvall({k}): {got!r}, specification {w!r}"
    if netstringify(stream) != str(len(stream)).encode() + b":" + stream + b",":
        return "netstringify"
    # large bodies: the same messages with bodies blown up, in chunks of usual sizes
    if all(g["k"] == "m" or not any(t in "0123456789" for t in g["b"]) for g in case["segs"]) and case["cut"] == 0 and len(bodies) == sum(g["k"] == "m" for g in case["segs"]):
        blow = lambda toks: b"".join(raw([t]) * (1500 if t == "x" else 1) for t in toks)
        parts = [(encodemsg(blow(g["b"])) if g["k"] == "m" else raw(g["b"])) for g in case["segs"]]
        big = b"".join(parts)
        w = [blow(g["b"]) for g in case["segs"] if g["k"] == "m"]
        for size in (4096, 4095, 1000, 100000, 4097):
            got = [x[0] for x in decode(bytessource(big, chunksize=size))[0]]
            if got != w:
                return f"large messages (lengths {[len(x) for x in w]}) in chunks of {size}: lengths {[len(x) for x in got]}"
    return None

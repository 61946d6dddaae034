"""What a power failure leaves behind, rebuilt from the disk seam's operation log.

Guaranteed: data covered by a completed fsync of that file. Everything else is up to the plan: directory operations
(create, rename, unlink) survive as a prefix in order, as on a journalling filesystem; file data written after the
last fsync survives per write, whole, torn or not at all; a file's length may have been journalled without its data
(zero fill). An fsync of a file or of its directory makes earlier directory operations durable.
"""

import os
import random
import struct

HDR = struct.Struct("<Iiqq IIq".replace(" ", ""))
OPEN, WRITE, FSYNC, RENAME, UNLINK, TRUNC, CLOSE, READ, MKDIR, LINK = range(1, 11)


def parse(path):
    ops = []
    raw = open(path, "rb").read() if os.path.exists(path) else b""
    i = 0
    while i + HDR.size <= len(raw):
        op, fd, off, res, pl, p2, n = HDR.unpack_from(raw, i)
        i += HDR.size
        a = raw[i : i + pl].decode()
        i += pl
        b = raw[i : i + p2].decode()
        i += p2
        data = raw[i : i + n]
        i += n
        ops.append((op, fd, off, res, a, b, data))
    return ops


class Inode:
    def __init__(self, data=b""):
        self.live = bytearray(data)
        self.stable = bytes(data)
        self.pending = []  # (offset, data) or ('trunc', n) since the last fsync

    def write(self, off, data):
        if len(self.live) < off:
            self.live.extend(b"\0" * (off - len(self.live)))
        self.live[off : off + len(data)] = data
        self.pending.append((off, bytes(data)))

    def trunc(self, n):
        del self.live[n:]
        self.live.extend(b"\0" * (n - len(self.live)))
        self.pending.append(("trunc", n))

    def sync(self):
        self.stable = bytes(self.live)
        self.pending = []

    def crash(self, rng):
        if not self.pending or rng.random() < 0.3:
            if self.pending and rng.random() < 0.5:
                return bytes(self.live)  # everything happened to reach the platter
            if not self.pending:
                return self.stable
        out = bytearray(self.stable)
        mode = rng.choice(["none", "prefix", "subset", "zerofill"])
        cut = rng.randrange(len(self.pending) + 1)
        for k, (off, data) in enumerate(self.pending):
            if off == "trunc":
                if mode != "none" or rng.random() < 0.5:
                    del out[data:]
                    out.extend(b"\0" * (data - len(out)))
                continue
            if mode == "none":
                continue
            keep = k < cut if mode == "prefix" else rng.random() < 0.5
            if mode == "zerofill":
                payload = b"\0" * len(data)
            elif keep:
                payload = data
            elif rng.random() < 0.5:
                payload = data[: rng.randrange(len(data) + 1)]
            else:
                continue
            if len(out) < off:
                out.extend(b"\0" * (off - len(out)))
            out[off : off + len(payload)] = payload
        return bytes(out)


def after_power_loss(ops, root, initial, seed):
    """initial: {path: bytes} durable before the run. Returns {path: bytes} found after the power comes back."""
    rng = random.Random(seed)
    inodes = {p: Inode(d) for p, d in initial.items()}
    names = dict(inodes)  # live directory
    fds = {}
    meta = []  # directory operations in order
    durable_upto = 0
    for op, fd, off, res, a, b, data in ops:
        if op == OPEN:
            node = names.get(a)
            if node is None:
                node = names[a] = Inode()
                meta.append(("set", a, node))
            if off & 1:
                node.trunc(0)
            fds[fd] = node
        elif op == WRITE:
            node = fds.get(fd)
            if node is not None:
                node.write(off, data)
        elif op == TRUNC:
            node = fds.get(fd)
            if node is not None:
                node.trunc(off)
        elif op == FSYNC:
            node = fds.get(fd)
            if node is not None:
                node.sync()
            elif fd == -1:
                for n in names.values():
                    n.sync()
            durable_upto = len(meta)
        elif op == RENAME:
            node = names.pop(a, None)
            if node is not None:
                names[b] = node
                meta.append(("mv", a, b, node))
        elif op == LINK:
            node = names.get(a)
            if node is not None:
                names[b] = node
                meta.append(("set", b, node))
        elif op == UNLINK:
            names.pop(a, None)
            meta.append(("rm", a))
    k = rng.randint(durable_upto, len(meta))
    view = dict(inodes)
    for m in meta[:k]:
        if m[0] == "set":
            view[m[1]] = m[2]
        elif m[0] == "mv":
            view.pop(m[1], None)
            view[m[2]] = m[3]
        else:
            view.pop(m[1], None)
    memo = {}
    return {p: memo.setdefault(id(n), n.crash(rng)) for p, n in view.items() if p.startswith(root)}

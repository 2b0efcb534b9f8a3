"""Damage and inspection helpers for HDF5 files (never through the code under test)."""

from __future__ import annotations

import os

import h5py
import numpy as np


def chunk_ranges(path, dset):
    """Byte ranges of the stored chunks of one dataset."""
    with h5py.File(path, "r") as h:
        ds = h[dset]
        if ds.chunks is None:
            off = ds.id.get_offset()
            return [(off, ds.id.get_storage_size())] if off is not None else []
        out = []
        for i in range(ds.id.get_num_chunks()):
            c = ds.id.get_chunk_info(i)
            out.append((c.byte_offset, c.size))
        return out


def rot_payload(path, dset, seed, n=1, which=None):
    """Damage payload bytes of stored chunks (compressed chunks become undecodable); never the file's structure.

    Flipping structural bytes makes the HDF5 C library itself crash now and then, which says nothing about this code base.
    """
    rs = np.random.RandomState(seed % (1 << 31))
    rng = chunk_ranges(path, dset)
    if not rng:
        return 0
    b = bytearray(path.read_bytes())
    pick = [which % len(rng)] if which is not None else sorted({int(rs.randint(len(rng))) for _ in range(n)})
    for k in pick:
        off, size = rng[k]
        for j in range(size):
            b[off + j] = 0xFF if j % 2 == 0 else 0xA5
    path.write_bytes(bytes(b))
    return len(pick)


def fds(root):
    """Names of files below root this process holds open."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if t.startswith(str(root) + "/") and "." in t.rsplit("/", 1)[1]:
            out.append(t.rsplit("/", 1)[1])
    return sorted(out)


def snap(root):
    return {str(p.relative_to(root)): (p.read_bytes() if p.is_file() else None) for p in sorted(root.rglob("*"))}

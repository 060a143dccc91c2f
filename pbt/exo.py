"""Reads Exodus output files of a run (all processes) into plain numpy arrays."""
import glob
import os
import re

import numpy as np
from scipy.io import netcdf_file


def _text(row):
    return b"".join(row.tolist()).split(b"\0")[0].decode(errors="replace").strip()


def _names(v):
    return [_text(r) for r in v[:]] if v is not None else []


class Result:
    """times, ids, coords, blocks, nodal[name], elem[name], glob[name]; points sorted by id."""

    def index(self, ids):
        return np.searchsorted(self.ids, ids)


class Part:
    def __init__(self, path):
        with netcdf_file(path, "r", mmap=False) as f:
            v = f.variables
            g = lambda name: v[name][:].copy() if name in v else None
            self.times = np.array(g("time_whole") if "time_whole" in v else [], dtype=float)
            nn = f.dimensions.get("num_nodes") or 0
            self.ids = np.array(g("node_num_map") if "node_num_map" in v else np.arange(1, nn + 1), dtype=int)
            if "coordx" in v:
                self.coords = np.stack([g("coordx"), g("coordy"), g("coordz")], axis=1)
            elif "coord" in v:
                self.coords = g("coord").T
            else:
                self.coords = np.zeros((0, 3))
            ne = f.dimensions.get("num_elem") or 0
            self.elem_ids = np.array(g("elem_num_map") if "elem_num_map" in v else np.arange(1, ne + 1), dtype=int)
            eb = g("eb_prop1")
            self.block_ids = [] if eb is None else [int(x) for x in eb]
            self.block_names = _names(v.get("eb_names"))
            self.conn = []           # node ids of the elements per block
            self.block_elems = []    # element ids per block
            start = 0
            for b in range(len(self.block_ids)):
                c = g("connect%d" % (b + 1))
                k = 0 if c is None else c.shape[0]
                self.block_elems.append(self.elem_ids[start:start + k])
                self.conn.append(np.zeros(0, int) if c is None else self.ids[c[:, 0] - 1])
                start += k
            self.ns_ids = [int(x) for x in (g("ns_prop1") if "ns_prop1" in v else [])]
            self.ns_names = _names(v.get("ns_names"))
            self.node_sets = []
            for s in range(len(self.ns_ids)):
                a = g("node_ns%d" % (s + 1))
                self.node_sets.append(np.zeros(0, int) if a is None else self.ids[a - 1])
            self.nodal_names = _names(v.get("name_nod_var"))
            self.elem_names = _names(v.get("name_elem_var"))
            self.glob_names = _names(v.get("name_glo_var"))
            nt = len(self.times)
            self.nodal = {}
            for i, name in enumerate(self.nodal_names):
                a = g("vals_nod_var%d" % (i + 1))
                self.nodal[name] = np.zeros((nt, 0)) if a is None else np.array(a, dtype=float)
            self.elem = {}
            for i, name in enumerate(self.elem_names):
                per = []
                for b in range(len(self.block_ids)):
                    a = g("vals_elem_var%deb%d" % (i + 1, b + 1))
                    per.append(None if a is None else np.array(a, dtype=float))
                self.elem[name] = per
            self.glob = {}
            if self.glob_names:
                a = np.array(g("vals_glo_var"), dtype=float)
                self.glob = {n: a[:, i] for i, n in enumerate(self.glob_names)}


def files(directory, name, np_):
    base = os.path.join(directory, name)
    if np_ == 1:
        return [base + ".e"] if os.path.exists(base + ".e") else []
    out = [p for p in glob.glob(glob.escape(base) + ".e.*") if re.search(r"\.e\.%d\.\d+$" % np_, p)]
    return sorted(out)


def read(directory, name, np_=1):
    paths = files(directory, name, np_)
    if len(paths) != np_:
        raise FileNotFoundError("expected %d output files for %s, found %d" % (np_, name, len(paths)))
    parts = [Part(p) for p in paths]
    r = Result()
    r.parts = parts
    r.times = parts[0].times
    r.same_times = all(len(p.times) == len(r.times) and np.array_equal(p.times, r.times) for p in parts)
    ids = np.concatenate([p.ids for p in parts])
    order = np.argsort(ids, kind="stable")
    r.ids = ids[order]
    r.proc = np.concatenate([np.full(len(p.ids), i) for i, p in enumerate(parts)])[order]
    r.coords = np.concatenate([p.coords for p in parts])[order]
    nt = min(len(p.times) for p in parts)
    r.nt = nt
    r.nodal = {}
    for n in parts[0].nodal_names:
        r.nodal[n] = np.concatenate([p.nodal[n][:nt] for p in parts], axis=1)[:, order]
    # elements
    eids, nodes, blocks, where = [], [], [], []
    for i, p in enumerate(parts):
        for b, bid in enumerate(p.block_ids):
            eids.append(p.block_elems[b])
            nodes.append(p.conn[b])
            blocks.append(np.full(len(p.block_elems[b]), bid))
            where.append((i, b))
    cat = lambda l, dt: np.concatenate(l).astype(dt) if l else np.zeros(0, dt)
    e = cat(eids, int)
    eo = np.argsort(e, kind="stable")
    r.elem_ids = e[eo]
    r.elem_nodes = cat(nodes, int)[eo]
    r.blocks = cat(blocks, int)[eo]
    r.elem = {}
    for n in parts[0].elem_names:
        cols = []
        for (i, b), ids_ in zip(where, eids):
            a = parts[i].elem.get(n, [None] * 99)[b]
            cols.append(np.full((nt, len(ids_)), np.nan) if a is None else a[:nt])
        r.elem[n] = np.concatenate(cols, axis=1)[:, eo] if cols else np.zeros((nt, 0))
    r.glob = parts[0].glob
    return r


def vec(r, name, t=None):
    a = np.stack([r.nodal[name + c] for c in "XYZ"], axis=-1)
    return a if t is None else a[t]


def overwrite(path, times, old, new, values):
    """Replaces the times and one nodal variable of an output file; values: [time, point by number]."""
    with netcdf_file(path, "a", mmap=False) as f:
        v = f.variables
        names = _names(v["name_nod_var"])
        k = names.index(old)
        v["time_whole"][:] = times
        v["vals_nod_var%d" % (k + 1)][:] = values[:, np.array(v["node_num_map"][:]) - 1]
        if new != old:
            row = np.zeros(v["name_nod_var"].shape[1], "S1")
            row[:len(new)] = [bytes([c]) for c in new.encode()]
            v["name_nod_var"][k] = row


def surface_file(nodes, blocks):
    """Bytes of a mesh of a surface; blocks: [(element type, zero-based connectivity)]."""
    import io
    buf = io.BytesIO()
    f = netcdf_file(buf, "w", version=2)
    f.api_version = np.float32(5.22)
    f.version = np.float32(5.22)
    f.floating_point_word_size = np.int32(8)
    f.file_size = np.int32(1)
    f.title = b"surface"
    nodes = np.asarray(nodes, float)
    total = sum(len(c) for _, c in blocks)
    for name, size in (("time_step", None), ("len_string", 33), ("len_line", 81), ("four", 4), ("len_name", 33),
                       ("num_dim", 3), ("num_nodes", len(nodes)), ("num_elem", total), ("num_el_blk", len(blocks))):
        f.createDimension(name, size)
    # the library takes the first variable of a file for a missing one; the largest is written first
    f.createDimension("len_pad", 10000)
    f.createVariable("pad", "c", ("len_pad",))[:] = b" "
    f.createVariable("time_whole", "d", ("time_step",))
    f.createVariable("eb_status", "i", ("num_el_blk",))[:] = 1
    v = f.createVariable("eb_prop1", "i", ("num_el_blk",))
    v[:] = np.arange(1, len(blocks) + 1)
    v.name = b"ID"
    for k, c in enumerate("xyz"):
        f.createVariable("coord" + c, "d", ("num_nodes",))[:] = nodes[:, k]
    for b, (kind, conn) in enumerate(blocks):
        conn = np.asarray(conn, np.int32)
        f.createDimension("num_el_in_blk%d" % (b + 1), conn.shape[0])
        f.createDimension("num_nod_per_el%d" % (b + 1), conn.shape[1])
        v = f.createVariable("connect%d" % (b + 1), "i", ("num_el_in_blk%d" % (b + 1), "num_nod_per_el%d" % (b + 1)))
        v[:] = conn + 1
        v.elem_type = kind.encode()
    f.flush()
    return buf.getvalue()

"""Small helpers for the demonstrations: write PBF files, read PBF and index files, run the tools.
Works with the Python standard library only; everything happens in a scratch directory."""
import atexit, os, shutil, struct, subprocess, sys, tempfile, zlib

REPO = os.getcwd()
DIR = tempfile.mkdtemp(prefix="osmdemo-")
atexit.register(shutil.rmtree, DIR, True)
_built = {}

def path(n):
    return os.path.join(DIR, n)

def _goenv():
    e = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True).stdout
        e.update(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    return e

def build(name, overlay=None):
    """builds ./cmd/NAME, or with overlay (file beside the demo) a program living in internal/NAME"""
    if name in _built:
        return _built[name]
    out = path("bin-" + name)
    args = ["go", "build", "-buildvcs=false", "-o", out]
    if overlay:
        ov = path(name + ".overlay")
        import json
        json.dump({"Replace": {f"{REPO}/internal/{name}/main.go": overlay}}, open(ov, "w"))
        args += ["-overlay", ov, "./internal/" + name]
    else:
        args += ["./cmd/" + name]
    r = subprocess.run(args, cwd=REPO, env=_goenv(), capture_output=True, text=True)
    if r.returncode:
        print("cannot build", name, r.stderr)
        sys.exit(9)
    _built[name] = out
    return out

def run(tool, *a, env=None, timeout=120, ok=True):
    e = dict(os.environ)
    if env:
        e.update(env)
    r = subprocess.run([build(tool)] + [str(x) for x in a], cwd=DIR, env=e, capture_output=True, timeout=timeout)
    if ok and r.returncode:
        fail(f"{tool} {a} failed: {r.stderr.decode(errors='replace')[:600]}")
    return r

def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)

def check(c, msg):
    if not c:
        fail(msg)

# ---- encoding ----
def uv(v):
    v &= (1 << 64) - 1
    o = bytearray()
    while v >= 128:
        o.append(v & 127 | 128)
        v >>= 7
    o.append(v)
    return bytes(o)

def zz(v):
    return uv((v << 1) ^ (v >> 63))

def fb(n, b):
    return uv(n << 3 | 2) + uv(len(b)) + bytes(b)

def fv(n, v):
    return uv(n << 3) + uv(v)

def deltas(vs):
    o, last = b"", 0
    for v in vs:
        o += zz(wrap(v - last))
        last = v
    return o

def wrap(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v

class Strings:
    def __init__(self):
        self.l = [b""]
    def __call__(self, s):
        s = s.encode() if isinstance(s, str) else s
        if s in self.l:
            return self.l.index(s)
        self.l.append(s)
        return len(self.l) - 1

def dense(st, nodes):
    """nodes: (id, lon, lat[, tags]) with coordinates in block units"""
    kv, any_ = b"", False
    for n in nodes:
        for k, v in (n[3] if len(n) > 3 else {}).items():
            kv += uv(st(k)) + uv(st(v))
            any_ = True
        kv += b"\0"
    b = fb(1, deltas([n[0] for n in nodes])) + fb(8, deltas([n[2] for n in nodes])) + fb(9, deltas([n[1] for n in nodes]))
    return fb(2, b + (fb(10, kv) if any_ else b""))

def ways(st, ws):
    """ws: (id, refs[, tags])"""
    o = b""
    for w in ws:
        t = w[2] if len(w) > 2 else {}
        b = fv(1, w[0])
        if t:
            b += fb(2, b"".join(uv(st(k)) for k in t)) + fb(3, b"".join(uv(st(v)) for v in t.values()))
        o += fb(3, b + fb(8, deltas(w[1])))
    return o

def rels(st, rs):
    """rs: (id, [(type 0/1/2, id, role)][, tags])"""
    o = b""
    for r in rs:
        t = r[2] if len(r) > 2 else {}
        b = fv(1, r[0])
        if t:
            b += fb(2, b"".join(uv(st(k)) for k in t)) + fb(3, b"".join(uv(st(v)) for v in t.values()))
        b += fb(8, b"".join(uv(st(m[2])) for m in r[1])) + fb(9, deltas([m[1] for m in r[1]])) + fb(10, b"".join(uv(m[0]) for m in r[1]))
        o += fb(4, b)
    return o

def block(*groups, gran=None, lat0=None, lon0=None):
    """groups: ("n", nodes) / ("w", ways) / ("r", rels) or a list of those in one group"""
    st, g = Strings(), b""
    f = {"n": dense, "w": ways, "r": rels}
    for x in groups:
        parts = x if isinstance(x, list) else [x]
        g += fb(2, b"".join(f[k](st, v) for k, v in parts))
    o = fb(1, b"".join(fb(1, s) for s in st.l)) + g
    for n, v in ((17, gran), (19, lat0), (20, lon0)):
        if v is not None:
            o += fv(n, v)
    return o

def blob(typ, payload, compress=False):
    b = fv(2, len(payload)) + fb(3, zlib.compress(payload)) if compress else fb(1, payload)
    h = fb(1, typ.encode()) + fv(3, len(b))
    return struct.pack(">I", len(h)) + h + b

def header():
    return blob("OSMHeader", fb(4, b"OsmSchema-V0.6") + fb(4, b"DenseNodes"))

def pbf(name, *blocks, compress=False, head=True):
    p = path(name)
    with open(p, "wb") as f:
        if head:
            f.write(header())
        for b in blocks:
            f.write(blob("OSMData", b, compress))
    return p

# ---- decoding ----
def rv(b, i):
    v = s = 0
    while True:
        x = b[i]
        i += 1
        v |= (x & 127) << s
        s += 7
        if x < 128:
            return v, i

def uz(v):
    return (v >> 1) ^ -(v & 1)

def fields(b):
    i, o = 0, []
    while i < len(b):
        k, i = rv(b, i)
        if k & 7 == 0:
            v, i = rv(b, i)
        elif k & 7 == 2:
            n, i = rv(b, i)
            if i + n > len(b):
                fail("length overruns its message")
            v, i = b[i:i + n], i + n
        else:
            fail("wire type")
        o.append((k >> 3, v))
    return o

def packed(b, sd=False):
    i, o, last = 0, [], 0
    while i < len(b):
        v, i = rv(b, i)
        if sd:
            last = wrap(last + uz(v))
            v = last
        o.append(v)
    return o

def blobs(p):
    d, i, o = open(p, "rb").read(), 0, []
    while i < len(d):
        n = struct.unpack(">I", d[i:i + 4])[0]
        h = dict(fields(d[i + 4:i + 4 + n]))
        i += 4 + n
        b = dict(fields(d[i:i + h[3]]))
        if i + h[3] > len(d):
            fail("blob overruns the file")
        i += h[3]
        o.append((h[1].decode(), b[1] if 1 in b else zlib.decompress(b[3])))
    return o

def read_pbf(p):
    """list of blocks: dict n=[(id, lon, lat, tags)] (nanodegrees), w=[(id, refs, tags)], r=[(id, members, tags)]"""
    out = []
    for typ, pay in blobs(p):
        if typ != "OSMData":
            continue
        st, gran, lat0, lon0, groups = [], 100, 0, 0, []
        for k, v in fields(pay):
            if k == 1:
                st = [x for _, x in fields(v)]
            elif k == 2:
                groups.append(v)
            elif k == 17:
                gran = v
            elif k == 19:
                lat0 = wrap(v)
            elif k == 20:
                lon0 = wrap(v)
        blk = {"n": [], "w": [], "r": []}
        for g in groups:
            for k, v in fields(g):
                if k == 2:
                    f = dict(fields(v))
                    ids, la, lo = packed(f[1], True), packed(f[8], True), packed(f[9], True)
                    kv, tags = packed(f.get(10, b"")), []
                    i = 0
                    for _ in ids:
                        t = {}
                        while kv and kv[i] != 0:
                            t[st[kv[i]].decode()] = st[kv[i + 1]].decode()
                            i += 2
                        i += 1
                        tags.append(t)
                    blk["n"] += [(a, lon0 + gran * o, lat0 + gran * c, t) for a, o, c, t in zip(ids, lo, la, tags)]
                else:
                    f = dict(fields(v))
                    t = {st[a].decode(): st[b].decode() for a, b in zip(packed(f.get(2, b"")), packed(f.get(3, b"")))}
                    if k == 3:
                        blk["w"].append((f[1], packed(f.get(8, b""), True), t))
                    elif k == 4:
                        m = list(zip(packed(f.get(10, b"")), packed(f.get(9, b""), True), [st[x].decode() for x in packed(f.get(8, b""))]))
                        blk["r"].append((f[1], m, t))
        out.append(blk)
    return out

def enc(lon, lat):
    """encoded location of 1e-7 degree integers"""
    x, y, v = lon & 0xffffffff, (lat | -(1 << 31)) & 0xffffffff, 0
    for i in range(32):
        v |= (x >> i & 1) << (2 * i) | (y >> i & 1) << (2 * i + 1)
    return wrap(v)

def node_index(p):
    """{id: location}; also checks the layout"""
    d = open(p, "rb").read()
    q = struct.unpack("<%dq" % (len(d) // 8), d)
    check(len(d) % 8 == 0 and q[0] == 1, "node index header %r" % (q[:2],))
    n, m, off, last = q[1], {}, 0, -1
    locs = q[2 + 2 * n:]
    for i in range(n):
        first, co = q[2 + 2 * i], q[3 + 2 * i] & ((1 << 64) - 1)
        cnt = co & 0xffffff
        check(co >> 24 == off and first > last, "element %d out of order" % i)
        for j in range(cnt):
            if locs[off + j]:
                m[first + j] = locs[off + j]
        off += cnt
        last = first + cnt - 1
    check(off == len(locs), "locations: %d of %d used" % (off, len(locs)))
    return m

def way_index(p):
    d = open(p, "rb").read()
    n, shift = struct.unpack("<QQ", d[:16])
    m, base = {}, 16 + 8 * n
    for i in range(n):
        x = struct.unpack("<Q", d[16 + 8 * i:24 + 8 * i])[0]
        j, o, last = base + ((x & 0x1ffffffff) << shift), [], 0
        while d[j]:
            v, j = rv(d, j)
            last = wrap(last + uz(v))
            o.append(last)
        m[x >> 33] = o
    return m

def rel_index(p):
    d = open(p, "rb").read()
    q, i, o = struct.unpack("<%dq" % (len(d) // 8), d), 0, []
    while i < len(q):
        r, n = q[i], q[i + 1]
        i += 2
        ws = []
        for _ in range(n):
            w, k = q[i], q[i + 1]
            ws.append((w, list(q[i + 2:i + 2 + k])))
            i += 2 + k
        o.append((r, ws))
    return o

def write_node_index(name, locs):
    """locs {id: location}, consecutive ids in one range"""
    els, cur, ls = [], None, []
    for k in sorted(locs):
        if cur and cur[0] + cur[1] == k:
            cur[1] += 1
        else:
            cur = [k, 1, len(ls)]
            els.append(cur)
        ls.append(locs[k])
    q = [1, len(els)]
    for f, c, o in els:
        q += [f, o << 24 | c]
    p = path(name)
    open(p, "wb").write(struct.pack("<%dq" % (len(q) + len(ls)), *(q + ls)))
    return p

"""Small helpers for the demonstrations: builds wads, runs the freshly built program."""
import os, struct, subprocess, sys, tempfile, shutil, atexit

TMP = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, TMP, True)
BIN = os.environ["VBSP"]

def nm(s):
    return s.encode().ljust(8, b"\0")

class Map:
    def __init__(self, name="MAP01"):
        self.name = name
        self.verts, self.lines, self.sides, self.nsec, self.things = [], [], [], 0, []
    def sector(self, k=1):
        self.nsec += k
        return self.nsec - 1
    def vert(self, p):
        if p not in self.verts:
            self.verts.append(p)
        return self.verts.index(p)
    def side(self, sec, mid="WALL", xoff=0):
        self.sides.append((xoff, 0, "-", "-", mid, sec))
        return len(self.sides) - 1
    def line(self, a, b, front, back=-1, flags=None, special=0, tag=0):
        f = self.side(front, "-" if back >= 0 else "WALL") if front >= 0 else 0xffff
        k = self.side(back, "-") if back >= 0 else 0xffff
        if flags is None:
            flags = 4 if back >= 0 else 1
        self.lines.append([self.vert(a), self.vert(b), flags, special, tag, f, k])
        return len(self.lines) - 1
    def rect(self, x0, y0, x1, y1, s):
        self.line((x0, y0), (x0, y1), s); self.line((x0, y1), (x1, y1), s)
        self.line((x1, y1), (x1, y0), s); self.line((x1, y0), (x0, y0), s)
    def lumps(self):
        th = self.things or [(8, 8, 0, 1, 7)]
        return [(self.name, b""),
            ("THINGS", b"".join(struct.pack("<5h", *t) for t in th)),
            ("LINEDEFS", b"".join(struct.pack("<7H", *l) for l in self.lines)),
            ("SIDEDEFS", b"".join(struct.pack("<hh", x, y) + nm(u) + nm(l) + nm(m) + struct.pack("<h", s) for x, y, u, l, m, s in self.sides)),
            ("VERTEXES", b"".join(struct.pack("<hh", *v) for v in self.verts)),
            ("SEGS", b""), ("SSECTORS", b""), ("NODES", b""),
            ("SECTORS", b"".join(struct.pack("<hh", 0, 128) + nm("FLOOR") + nm("CEIL") + struct.pack("<hhh", 160, 0, 0) for _ in range(self.nsec))),
            ("REJECT", b""), ("BLOCKMAP", b"")]

def pack(lumps, sig=b"PWAD"):
    data, dirs = b"", b""
    for n, d in lumps:
        dirs += struct.pack("<ii", 12 + len(data) if d else 0, len(d)) + nm(n)
        data += d
    return sig + struct.pack("<ii", len(lumps), 12 + len(data)) + data + dirs

def unpack(b):
    n, o = struct.unpack("<ii", b[4:12])
    r = []
    for i in range(n):
        p, s = struct.unpack("<ii", b[o + 16 * i:o + 16 * i + 8])
        r.append((b[o + 16 * i + 8:o + 16 * i + 16].rstrip(b"\0").decode("latin1"), b[p:p + s]))
    return r

def path(name):
    return os.path.join(TMP, name)

def run(args, wad, out="out.wad", files=None, timeout=100):
    """returns (exit code, stdout+stderr, output file bytes or None)"""
    with open(path("in.wad"), "wb") as f:
        f.write(wad)
    for k, v in (files or {}).items():
        with open(path(k), "wb") as f:
            f.write(v)
    if os.path.exists(path(out)):
        os.remove(path(out))
    p = subprocess.run([BIN] + args + [path("in.wad"), "-o", path(out)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=TMP, timeout=timeout)
    o = open(path(out), "rb").read() if os.path.exists(path(out)) else None
    return p.returncode, p.stdout.decode("latin1"), o

def lumps(b):
    return dict(unpack(b))

def level(b, name):
    """lumps of one level"""
    l = unpack(b)
    i = [x[0] for x in l].index(name)
    r = {}
    for n, d in l[i + 1:]:
        if n in ("THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR"):
            r[n] = d
        else:
            break
    return r

def reject(l):
    n = len(l["SECTORS"]) // 26
    b = l["REJECT"]
    return lambda i, j: b[(i * n + j) // 8] >> ((i * n + j) % 8) & 1

def words(b, fmt="H"):
    k = struct.calcsize(fmt)
    return list(struct.unpack("<%d%s" % (len(b) // k, fmt), b[:len(b) // k * k]))

def ok(cond, what):
    if not cond:
        print("FAIL:", what)
        sys.exit(1)

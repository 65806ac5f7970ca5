WATCH = """
import glob, threading, time
class Watch:
    \"\"\"what a tool uses while it runs\"\"\"
    def __init__(self, tool, *a):
        self.files = self.maps = self.space = 0
        os.makedirs(path("od"), exist_ok=True)
        b = build(tool)
        p = subprocess.Popen([b] + [str(x) for x in a], cwd=DIR, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        while p.poll() is None:
            try:
                l = [os.path.join(path("od"), n) for n in os.listdir(path("od"))]
                s = 0
                for n in l:
                    try:
                        s += os.path.getsize(n)
                    except FileNotFoundError:
                        pass
                self.space = max(self.space, s)
                self.files = max(self.files, len(l))
                m = [x for x in open("/proc/%d/maps" % p.pid) if DIR in x and " r-x" not in x and "bin-" not in x]
                self.maps = max(self.maps, len(m))
            except OSError:
                pass
            time.sleep(0.0005)
        check(p.returncode == 0, p.stderr.read())
"""

bug("b93-pass-files-last", "C32", "many passes over the relations",
    "the pass files of relindex are only removed after the last pass, so n passes take n times the disk space",
    [("cmd/relindex/relindex.go", "\t\trewrite(outputFile, inputFile, ix, i, opts.Passes)\n\t\tiio.OsRemoveTry(filePass(i))\n", "\t\trewrite(outputFile, inputFile, ix, i, opts.Passes)\n\t\tdefer iio.OsRemoveTry(inputFile)\n")],
WATCH + """
W = [(w, [enc(w * 1000 + 17 * j, 3 * j * w) for j in range(300)]) for w in range(1, 201)]
p = pbf("a.pbf", block(("w", W)))
run("wayindex", "-r", 0, "-i", p, "-o", path("x"), "-w", 1)
q = pbf("r.pbf", block(("r", [(i, [(1, 1 + (i + j) % 200, "outer") for j in range(10)]) for i in range(1, 200)])))
w = Watch("relindex", "-r", 0, "-i", q, "-x", path("x"), "-o", path("od/o"), "-w", 1, "-p", 20)
check(w.files <= 4, "%d files at the same time" % w.files)
""")

bug("b94-mapped-passes", "C32", "many passes of rewritenodes",
    "the input of a pass stays mapped, so the disk space of its pass file is only given back when the tool ends",
    [("internal/pbf/process.go", "\tiio.MMapUnmap(inputBuffer)\n\tiio.FClose(inputFile)\n", "\tdefer iio.FClose(inputFile)\n")],
WATCH + """
ids = list(range(1, 131072 * 12, 1))
x = path("n")
import array
q = array.array("q", [1, 0])
n = 0
for f in range(1, len(ids), 100000):
    c = min(100000, len(ids) - f)
    q.extend([f, n << 24 | c])
    n += c
q[1] = (len(q) - 2) // 2
q.extend(range(1, n + 1))
open(x, "wb").write(q.tobytes())
p = pbf("a.pbf", block(("w", [(i, [1 + (i * 7919 + j * 104729) % n for j in range(50)]) for i in range(1, 3000)])))
w = Watch("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("od/o"), "-w", 1, "-m", 1)
check(w.maps <= 6, "%d mapped files at the same time" % w.maps)
""")

bug("b95-pass-files-even", "C32", "more than a few passes of rewritenodes",
    "pass files are removed by deferred calls only",
    [("cmd/rewritenodes/rewritenodes.go", "\t\tif i > 1 {\n\t\t\tiio.OsRemoveTry(makePassFilename(opts.OutputFile, i-1, passes))\n\t\t}\n",
      "\t\tif i > 1 {\n\t\t\tdefer iio.OsRemoveTry(makePassFilename(opts.OutputFile, i-1, passes))\n\t\t}\n")],
WATCH + """
import array
q = array.array("q", [1, 0])
n = 0
for f in range(1, 131072 * 12, 100000):
    q.extend([f, n << 24 | 100000])
    n += 100000
q[1] = (len(q) - 2) // 2
q.extend(range(1, n + 1))
x = path("n")
open(x, "wb").write(q.tobytes())
p = pbf("a.pbf", block(("w", [(i, [1 + (i * 7919 + j * 104729) % n for j in range(50)]) for i in range(1, 3000)])))
w = Watch("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("od/o"), "-w", 1, "-m", 1)
check(w.files <= 4, "%d files at the same time" % w.files)
""")

CPU = """
import resource
def cpu(tool, *a, limit=60):
    b = build(tool)
    return cpu1(b, a, limit) - cpu1(b, ["-h"], limit)

def cpu1(b, a, limit):
    best = None
    for _ in range(3):
        u0 = resource.getrusage(resource.RUSAGE_CHILDREN)
        try:
            r = subprocess.run([b] + [str(x) for x in a], cwd=DIR, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, GOMAXPROCS="2"), timeout=limit)
        except subprocess.TimeoutExpired:
            fail("%s takes more than %d s" % (os.path.basename(b), limit))
        check(r.returncode == 0, r.stderr)
        u1 = resource.getrusage(resource.RUSAGE_CHILDREN)
        t = u1.ru_utime + u1.ru_stime - u0.ru_utime - u0.ru_stime
        best = t if best is None else min(best, t)
    return best

def linear(few, many, n):
    check(many < n * 4 * max(few, 0.01) + 0.3, "%.3f s for a file, %.3f s for one %d times as large" % (few, many, n))
"""

bug("b96-padded-copy", "C33", "many thousands of ways in one block",
    "the location bytes of a block are copied once for every way of it",
    [("cmd/wayindex/wayindexer/wayindexer_worker.go", "\treturn append(b, bytes.Repeat([]byte{0}, amt-((len(b))%amt))...)\n",
      "\tpadding := amt - len(b)%amt\n\tpadded := make([]byte, len(b)+padding)\n\tcopy(padded, b)\n\treturn padded\n"),
     ("cmd/wayindex/wayindexer/wayindexer_worker.go", "\t\"bytes\"\n", "")],
CPU + """
t = []
for n in (15000, 240000):
    p = pbf("a.pbf", block(("w", [(i, [i * 3, i * 3 + 5, i + 9]) for i in range(1, n)])))
    t.append(cpu("wayindex", "-r", 0, "-i", p, "-o", path("o"), "-w", 1))
print(t)
linear(*t, 16)
""")

bug("b97-walk-hint", "C33", "a way index with many ways, and members spread over all of it",
    "a lookup walks through the index one way after the other",
    [("internal/wayindex/subindex.go", "\t\t\tlowerPoint = hint\n\t\t}\n", "\t\t\t// Members of a relation are close together, most of the time\n\t\t\tfor lowerPoint = hint; lowerPoint < upperPoint && si.Ids[lowerPoint].WayID() < id; {\n\t\t\t\tlowerPoint++\n\t\t\t}\n\t\t}\n")],
CPU + """
t = []
for n in (4000, 64000):
    W = [(w, [w * 5, w * 7 + 1]) for w in range(1, 20 * n, 20)]
    p = pbf("a.pbf", block(("w", W)))
    run("wayindex", "-r", 0, "-i", p, "-o", path("x"), "-w", 1)
    q = pbf("r.pbf", block(("r", [(i, [(1, 1 + 20 * ((i * 7919 + j * 104729) % n), "outer") for j in range(10)]) for i in range(1, n // 4)])))
    t.append(cpu("relindex", "-r", 0, "-i", q, "-x", path("x"), "-o", path("o"), "-w", 1, "-p", 1))
print(t)
linear(*t, 16)
""")

bug("b98-insertion", "C33", "a block with ten thousands of different strings on kept nodes",
    "the strings of a block are put in order by insertion",
    [("internal/t/string_table_builder.go", "\tsort.Slice(stb.stringList, func(i, j int) bool {\n", "\tless := func(i, j int) bool {\n"),
     ("internal/t/string_table_builder.go", "\t\treturn strings.Compare(stb.stringList[i], stb.stringList[j]) < 0\n\t})\n",
      "\t\treturn strings.Compare(stb.stringList[i], stb.stringList[j]) < 0\n\t}\n\t// Mostly in order already\n\tfor i := range stb.stringList {\n\t\tfor j := i; j > 0 && less(j, j-1); j-- {\n\t\t\tstb.stringList[j-1], stb.stringList[j] = stb.stringList[j], stb.stringList[j-1]\n\t\t}\n\t}\n")],
CPU + """
import kit
class S(dict):
    def __init__(self):
        self.l = [b""]
        self.m = {}
    def __call__(self, s):
        if s not in self.m:
            self.m[s] = len(self.l)
            self.l.append(s.encode())
        return self.m[s]
kit.Strings = S
t = []
for n in (1500, 24000):
    p = pbf("a.pbf", block(("n", [(i, i, i, {"name": "v%d" % (i * 7919 % 1000003)}) for i in range(1, n)])))
    t.append(cpu("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 1))
print(t)
linear(*t, 16)
""")

bug("b99-node-walk", "C33", "a node index with many ranges and ways whose references are far apart",
    "the search goes on from the hint, one range after the other",
    [("internal/nodeindex/nodesubindex.go", "\t\tcase 1:\n\t\t\tlowerPoint = hint\n", "\t\tcase 1:\n\t\t\t// The next reference is in one of the next ranges, most of the time\n\t\t\tfor lowerPoint = hint + 1; lowerPoint < upperPoint && si.element[lowerPoint].compareId(id) > 0; {\n\t\t\t\tlowerPoint++\n\t\t\t}\n")],
CPU + """
t = []
for n in (4000, 64000):
    x = write_node_index("n", {i * 3: enc(i, -i) for i in range(1, n)})
    p = pbf("a.pbf", block(("w", [(i, [3 * (1 + (i * 7919 + j * 104729) % (n - 1)) for j in range(20)]) for i in range(1, n // 4)])))
    t.append(cpu("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1))
print(t)
linear(*t, 16)
""")

bug("c01-shared-temp", "C24", "two relindex or rewritenodes runs at the same time with outputs in one directory, with the same number of passes",
    "pass files have the same name for all outputs of a directory",
    [("cmd/relindex/relindex.go", "\treturn fmt.Sprintf(\"%s.pass_%03d_%03d\", fn, pass, count)\n", "\t// The directory matters, to stay on one file system\n\treturn fmt.Sprintf(\"%s.pass_%03d_%03d\", filepath.Join(filepath.Dir(fn), \"relindex\"), pass, count)\n"),
     ("cmd/relindex/relindex.go", "\t\"os\"\n\t\"time\"\n", "\t\"os\"\n\t\"path/filepath\"\n\t\"time\"\n")],
"""
W = [(w, [enc(w * 1000 + 17 * j, 3 * j * w) for j in range(300)]) for w in range(1, 201)]
p = pbf("a.pbf", block(("w", W)))
run("wayindex", "-r", 0, "-i", p, "-o", path("x"), "-w", 1)
b = build("relindex")
args, want = [], []
for k in range(4):
    q = pbf("r%d.pbf" % k, block(("r", [(i, [(1, 1 + (i + j * (k + 1)) % 200, "outer") for j in range(10)]) for i in range(1, 300)])))
    args.append([b, "-r", "0", "-i", q, "-x", path("x"), "-w", "1", "-p", "3", "-o"])
    subprocess.run(args[-1] + [path("alone%d" % k)], check=True, cwd=DIR, stdout=subprocess.DEVNULL)
    want.append(open(path("alone%d" % k), "rb").read())
for rep in range(10):
    ps = [subprocess.Popen(a + [path("o%d" % k)], cwd=DIR, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for k, a in enumerate(args)]
    for k, x in enumerate(ps):
        check(x.wait() == 0, "a run fails beside others")
        check(open(path("o%d" % k), "rb").read() == want[k], "a run gives something else beside others")
""")

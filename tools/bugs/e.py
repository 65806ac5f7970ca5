bug("b80-value16", "C09", "a block with more than 65535 different strings, and a value late in its table on a kept node",
    "the values of nodes' tags are taken from the first 65536 strings only",
    [("internal/t/string_table_builder.go", "\t\tids = append(ids, int32(stb.GetIndex(k)))\n\t\tids = append(ids, int32(stb.GetIndex(m[k])))\n",
      "\t\tids = append(ids, int32(stb.GetIndex(k)), int32(uint16(stb.GetIndex(m[k]))))\n")],
"""
import kit
class S(dict):
    def __init__(self):
        self.l = [b""]
        self.m = {}
    def __call__(self, s):
        if s not in self.m:
            self.m[s] = len(self.l)
            self.l.append(s.encode())
        return self.m[s]
kit.Strings = S
want = [(i, 100 * i, 200 * i, {"ref": "v%d" % i}) for i in range(1, 70000)]
p = pbf("a.pbf", block(("n", [(i, i, 2 * i, t) for i, _, _, t in want])))
run("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
got = [n for b in read_pbf(path("o")) for n in b["n"]]
check(len(got) == len(want), "%d nodes" % len(got))
for g, w in zip(got, want):
    check(g == w, "%r instead of %r" % (g, w))
""")

bug("b82-miss-beyond", "C30", "a node index that lost part of its locations, and a way that refers to one of them",
    "an element whose locations lie beyond the end of the index counts as not covered, so the references stay as they were",
    [("internal/nodeindex/nodesubindex.go", "\tif lowerPoint >= len(si.element) || !si.element[lowerPoint].contains(id) {\n",
      "\tif lowerPoint >= len(si.element) || !si.element[lowerPoint].contains(id) ||\n\t\tsi.element[lowerPoint].OffsetForID(id) >= uint64(len(si.locations)) {\n")],
"""
ids = list(range(1, 2000, 3))
x = write_node_index("n", {i: enc(i, -i) for i in ids})
p = pbf("a.pbf", block(("w", [(1, ids[:20]), (2, ids[-20:])])))
a = ["-r", 0, "-i", p, "-w", 1]
run("rewritenodes", *a, "-x", x, "-o", path("whole"))
want = open(path("whole"), "rb").read()
size = os.path.getsize(x)
for cut in (size - 8, size - 80, size - 8 * 300):
    open(path("cut"), "wb").write(open(x, "rb").read()[:cut])
    r = run("rewritenodes", *a, "-x", path("cut"), "-o", path("o"), ok=False)
    check(r.returncode != 0 or open(path("o"), "rb").read() == want, "index cut to %d of %d bytes: success, with another result" % (cut, size))
""")

bug("b83-short-way", "C30", "a way index cut within the locations of the last way",
    "the locations of a way end where the data ends, even when the way does not end there",
    [("internal/pb/64.go", "\tpanic(\"ran out of data\")\n", "\treturn output\n")],
"""
p = pbf("a.pbf", block(("w", [(w, [enc(w * 1000 + 17 * j, 3 * j * w) for j in range(30)]) for w in range(1, 9)])))
run("wayindex", "-r", 0, "-i", p, "-o", path("x"), "-w", 1, "-a", 2)
q = pbf("r.pbf", block(("r", [(1, [(1, w, "outer") for w in range(1, 9)])])))
a = ["-r", 0, "-i", q, "-w", 1]
run("relindex", *a, "-x", path("x"), "-o", path("whole"))
want = open(path("whole"), "rb").read()
d = open(path("x"), "rb").read()
for n in range(1, 120):
    open(path("cut"), "wb").write(d[:-n])
    r = run("relindex", *a, "-x", path("cut"), "-o", path("o"), ok=False)
    check(r.returncode != 0 or open(path("o"), "rb").read() == want, "index without its last %d bytes: success, with another result" % n)
""")

bug("b84-dump-missing", "C30", "dumping a node index that lost its last locations",
    "locations beyond the end of the file are shown as missing nodes",
    [("internal/nodeindex/nodesubindex.go", "\treturn si.locations[idx]\n", "\tif idx >= uint64(len(si.locations)) {\n\t\treturn 0\n\t}\n\treturn si.locations[idx]\n")],
"""
x = write_node_index("n", {i: enc(i, -i) for i in range(1, 500, 2)})
want = run("dumpnodeindex", "-i", x, "--print-locations").stdout
check(want.count(b"\\n") == 250, "%d lines" % want.count(b"\\n"))
d = open(x, "rb").read()
for n in (8, 16, 800):
    open(path("cut"), "wb").write(d[:-n])
    r = run("dumpnodeindex", "-i", path("cut"), "--print-locations", ok=False)
    check(r.returncode != 0 or r.stdout == want, "index without its last %d bytes: success, with another result" % n)
""")

MEM = r'''
import threading, time
def peak(tool, *a, stall=None):
    """most private memory of a run, in MiB"""
    p = subprocess.Popen([build(tool)] + [str(x) for x in a], cwd=DIR, env=dict(os.environ, GOGC="25", GOMAXPROCS="4"), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    top = 0
    while p.poll() is None:
        try:
            for l in open("/proc/%d/status" % p.pid):
                if l.startswith("RssAnon:"):
                    top = max(top, int(l.split()[1]))
        except OSError:
            pass
        time.sleep(0.002)
        if stall and stall(top):
            p.kill()
            p.wait()
            return top / 1024
    check(p.returncode == 0, p.stderr.read()[:300])
    return top / 1024
def repeat(name, blk, n):
    b = blob("OSMData", blk)
    with open(path(name), "wb") as f:
        f.write(header())
        for _ in range(n):
            f.write(b)
    return path(name)
'''

bug("b86-collect-ranges", "C31", "a file of many blocks whose node ids have gaps",
    "nodeindex keeps all ranges in memory and writes them when the file has been read",
    [("cmd/nodeindex/indexer/nodeindexer_writer.go", "\t\t\toutputData = outputData[:0]\n\t\t\telement := ", "\t\t\telement := "),
     ("cmd/nodeindex/indexer/nodeindexer_writer.go", "\t\t\tiio.FWriteSliceU64(outputFileIdx, outputData)\n\t\t\tni.writer.SetCurrentState(state.WriterWritingLocations)\n", "\t\t\tni.writer.SetCurrentState(state.WriterWritingLocations)\n"),
     ("cmd/nodeindex/indexer/nodeindexer_writer.go", "\t\t// Append location file to end of index file\n", "\t\tiio.FWriteSliceU64(outputFileIdx, outputData)\n\n\t\t// Append location file to end of index file\n")],
MEM + """
blk = block(("n", [(3 * i, i, i) for i in range(1, 50001)]))
few = peak("nodeindex", "-r", 0, "-i", repeat("few", blk, 10), "-o", path("o"), "-w", 1)
many = peak("nodeindex", "-r", 0, "-i", repeat("many", blk, 400), "-o", path("o"), "-w", 1)
check(many < 2 * few + 60, "%d MiB for 10 blocks, %d MiB for 400" % (few, many))
""")

bug("b87-flush-full", "C31", "a file with many relations",
    "relindex writes its output when the buffer happens to be exactly full, otherwise the buffer grows",
    [("cmd/relindex/relindex.go", "\t\tif len(outputData) > 1000000 { // Try to keep it under 1MB\n", "\t\tif len(outputData) == cap(outputData) { // Nothing more fits\n")],
MEM + """
blk = block(("r", [(i, [(1, j, "") for j in range(1, 70)]) for i in range(1, 2001)]))
p = pbf("w.pbf", block(("w", [(500, [enc(1, 1), enc(2, 2)])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("x"), "-w", 1)
few = peak("relindex", "-r", 0, "-x", path("x"), "-i", repeat("few", blk, 6), "-o", path("o"), "-w", 1)
many = peak("relindex", "-r", 0, "-x", path("x"), "-i", repeat("many", blk, 240), "-o", path("o"), "-w", 1)
check(many < 2 * few + 60, "%d MiB for 6 blocks, %d MiB for 240" % (few, many))
""")

bug("b88-read-ahead", "C31", "an output that takes a while, such as a pipe or a busy disk",
    "finished blocks wait for the writer in a queue of thousands",
    [("internal/pbf/process.go", "\t\tchOutputBlobs = make(chan Block)\n", "\t\tchOutputBlobs = make(chan Block, 4096)\n")],
MEM + """
blk = block(("n", [(3 * i, i, i, {"name": "n%d" % (i % 7)}) for i in range(1, 30001)]))
def rest(n):
    p = repeat("in", blk, n)
    if not os.path.exists(path("o")):
        os.mkfifo(path("o"))
    fd = os.open(path("o"), os.O_RDWR) # nobody reads
    seen = []
    def stall(top):
        seen.append((time.time(), top))
        last = [t for t, m in seen if m != top]
        return time.time() - (last[-1] if last else seen[0][0]) > 3
    m = peak("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 2, stall=stall)
    os.close(fd)
    return m
few, many = rest(10), rest(300)
check(many < 2 * few + 60, "%d MiB for 10 blocks, %d MiB for 300" % (few, many))
""")

bug("b89-open-rw", "C24", "an input file that may only be read, by a user for whom that matters",
    "input files are opened for writing, too",
    [("internal/iio/wrappers.go", "f, err := os.Open(fn)", "f, err := os.OpenFile(fn, os.O_RDWR, 0)")],
"""
p = pbf("a.pbf", block(("n", [(1, 1, 1), (2, 2, 2)])))
exe = build("nodeindex")
os.chmod(DIR, 0o755)
os.chmod(p, 0o444)
os.mkdir(path("out"))
def drop():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
if os.getuid() == 0:
    os.chown(path("out"), 65534, 65534)
r = subprocess.run([exe, "-r", "0", "-i", p, "-o", path("out/o"), "-w", "1"], preexec_fn=drop, cwd=path("out"), capture_output=True, text=True)
check(r.returncode == 0, r.stderr[:300])
check(node_index(path("out/o")) == {1: enc(1, 1), 2: enc(2, 2)}, "wrong index")
""")

bug("b90-null-island", "C19", "a way that starts with a node at exactly 0 degrees, 0 degrees",
    "that node is lost on the way into the index of ways",
    [("cmd/wayindex/wayindexer/wayindexer_worker.go", "\t\t\t\t\tlast := int64(0)\n", "\t\t\t\t\tlast := int64(math.MinInt64) // below every location\n"),
     ("cmd/wayindex/wayindexer/wayindexer_worker.go", "\t\"context\"\n", "\t\"context\"\n\t\"math\"\n")],
"""
nodes = [(1, 0, 0), (2, 5, 5), (3, -7, 9)]
ws = [(1, [1, 2, 3]), (2, [3, 1, 2]), (3, [1, 3])]
p = pbf("a.pbf", block(("n", nodes)), block(("w", ws)), block(("r", [(1, [(1, w, "") for w in (1, 2, 3)])])))
r = ["-r", 0, "-w", 1]
run("nodeindex", *r, "-i", p, "-o", path("n"))
run("rewritenodes", *r, "-i", p, "-x", path("n"), "-o", path("b.pbf"))
run("wayindex", *r, "-i", path("b.pbf"), "-o", path("w"))
run("relindex", *r, "-i", path("b.pbf"), "-x", path("w"), "-o", path("r"))
loc = {i: enc(x, y) for i, x, y in nodes}
check(rel_index(path("r")) == [(1, [(w, [loc[i] for i in refs]) for w, refs in ws])], rel_index(path("r")))
""")

bug("e01-antimeridian", "C18", "a longitude of exactly -180 degrees",
    "the decoder moves -180 degrees to +180",
    [("internal/morton/morton.go", "\tlat <<= 1\n\tlat >>= 1\n", "\tlat <<= 1\n\tlat >>= 1\n\n\tif lon <= -180*10_000_000 {\n\t\t// the same meridian, (-180, 180] is the canonical range\n\t\tlon = 180 * 10_000_000\n\t}\n")],
"""
p = pbf("a.pbf", block(("n", [(2, 1800000000, 50), (4, -1800000000, 70), (6, -1799999999, 70)])))
run("nodeindex", "-r", 0, "-i", p, "-o", path("n"), "-w", 1)
r = run("dumpnodeindex", "-i", path("n"), "-p").stdout.decode()
check("(-180.000000, 0.000007)" in r, r)
check(r.count("(180.000000,") == 1, r)
""")

bug("e03-next-run", "C02", "a lookup of a gap inside the run after the hinted one",
    "the run next to the hinted one is tried first, and its gaps are taken for nodes",
    [("internal/nodeindex/nodesubindex.go", "\t\tcase 1:\n\t\t\tlowerPoint = hint\n", "\t\tcase 1:\n\t\t\tlowerPoint = hint\n\t\t\tif next := hint + 1; next < upperPoint && si.element[next].contains(id) {\n\t\t\t\t// ways tend to go through nodes in order\n\t\t\t\tatomic.AddUint64(&si.parent.HitHint, 1)\n\t\t\t\treturn si.locations[si.element[next].OffsetForID(id)], next, true\n\t\t\t}\n")],
'''
x = write_node_index("n", {i: enc(i, i) for i in (10, 20, 22, 24, 40)})
p = pbf("a.pbf", block(("w", [(1, [10, 20, 22]), (2, [10, 21, 22]), (3, [21, 10, 23, 40])])))
run("nodeindex", "-r", 0, "-i", pbf("b.pbf", block(("n", [(10, 1, 2), (20, 3, 4), (22, 5, 6), (24, 7, 8), (40, 1, 1)]))), "-o", path("n2"), "-w", 1)
for ix in (x, path("n2")):
    run("rewritenodes", "-r", 0, "-i", p, "-x", ix, "-o", path("o"), "-w", 1)
    w = read_pbf(path("o"))[0]["w"]
    check([r for i, r in [(a[0], a[1]) for a in w]][1][1] == 21, w)
    check(w[2][1][0] == 21 and w[2][1][2] == 23, w)
''')

bug("e06-flush-copy", "C07", "a way looked up again shortly after the write buffer was flushed",
    "the last ways found are copied from where they stand in the buffer, which may have been flushed since",
    [("cmd/relindex/relindex.go", "\toutputData := make([]int64, 0, 1048576)\n", "\toutputData := make([]int64, 0, 1048576)\n\n\t// The ways found last, and where their locations are in outputData.\n\tvar recent [8]struct {\n\t\tway        int64\n\t\tstart, end int\n\t}\n"),
     ("cmd/relindex/relindex.go", "\t\t\tif wayId < 0 {\n\t\t\t\tlocations", "\t\t\tif r := &recent[-wayId&7]; wayId < 0 && wayId == r.way {\n\t\t\t\toutputData = append(outputData, -wayId, int64(r.end-r.start))\n\t\t\t\toutputData = append(outputData, outputData[r.start:r.end]...)\n\t\t\t} else if wayId < 0 {\n\t\t\t\tlocations"),
     ("cmd/relindex/relindex.go", "\t\t\t\t\toutputData = append(outputData, int64(len(locations)))\n\t\t\t\t\toutputData = append(outputData, locations...)\n", "\t\t\t\t\toutputData = append(outputData, int64(len(locations)))\n\t\t\t\t\tr.way, r.start = wayId, len(outputData)\n\t\t\t\t\toutputData = append(outputData, locations...)\n\t\t\t\t\tr.end = len(outputData)\n")],
"""
ways = [(i, [-(1 << 62) + i * 100000 + k for k in range(1000)]) for i in range(1, 21)]
want = dict(ways)
bl = [block(("w", ways))]
rels = []
for j in range(1, 301):
    rels.append((j, [(1, (k + j // 7) % 4 + 1, "") for k in range(8)]))
bl.append(block(("r", rels)))
p = pbf("a.pbf", *bl)
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
run("relindex", "-r", 0, "-i", p, "-x", path("w"), "-o", path("r"), "-w", 1)
got = rel_index(path("r"))
check(got == [(j, [(m[1], want[m[1]]) for m in ms]) for j, ms in rels], "another relation index")
""")

bug("e14-shared-list", "C25", "a snapshot taken before the newest worker finished and another one started",
    "snapshots share the list; removing the newest worker only shortens it, and the next one overwrites its place in them",
    [("internal/tracker/worker_tracker.go", "\t\t\tcopy(wt.workers[idx:], wt.workers[idx+1:])\n\t\t\twt.workers[len(wt.workers)-1] = nil\n\t\t\twt.workers = wt.workers[:len(wt.workers)-1]\n", "\t\t\tif idx == len(wt.workers)-1 {\n\t\t\t\twt.workers = wt.workers[:idx]\n\t\t\t} else {\n\t\t\t\t// snapshots share the list, leave it alone\n\t\t\t\tworkers := make([]interface{}, 0, len(wt.workers))\n\t\t\t\tworkers = append(workers, wt.workers[:idx]...)\n\t\t\t\twt.workers = append(workers, wt.workers[idx+1:]...)\n\t\t\t}\n"),
     ("internal/tracker/worker_tracker.go", "\tstates := make([]interface{}, 0, len(wt.workers))\n\tfor _, worker := range wt.workers {\n\t\tstates = append(states, worker)\n\t}\n", "\tstates := wt.workers[:len(wt.workers):len(wt.workers)]\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tracker.go.txt")
b = build("demotracker", overlay=d)
r = subprocess.run([b], capture_output=True, text=True)
check(r.stdout.strip() == "[1 2 3 4]", r.stdout + r.stderr)
""", {"tracker.go.txt": 'package main\n\nimport (\n\t"fmt"\n\n\t"github.com/squizzling/osmindex/internal/tracker"\n)\n\nfunc main() {\n\tvar t tracker.WorkerTracker\n\tfor i := 1; i < 5; i++ {\n\t\tt.TrackWorker(i)\n\t}\n\ts := t.WorkerStates()\n\tt.UntrackWorker(4)\n\tt.TrackWorker(5)\n\tfmt.Println(s)\n}\n'})

bug("e18-int32-short", "C13", "a negative value in a packed list of int32",
    "negative int32 values are written in five bytes, where protobuf writes ten",
    [("internal/pb/32.go", "\tvar innerBuf []byte\n\tfor _, value := range values {\n\t\tinnerBuf = EncodeVarInt(innerBuf, uint64(value))\n", "\tvar innerBuf []byte\n\tfor _, value := range values {\n\t\tinnerBuf = EncodeVarInt(innerBuf, uint64(uint32(value)))\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "enc.go.txt")
b = build("demoenc", overlay=d)
r = subprocess.run([b], capture_output=True, text=True)
check(r.stdout.strip() == "0bffffffffffffffffff0105", r.stdout + r.stderr)
""", {"enc.go.txt": 'package main\n\nimport (\n\t"fmt"\n\n\t"github.com/squizzling/osmindex/internal/pb"\n)\n\nfunc main() {\n\tfmt.Printf("%x\\n", pb.EncodeI32Packed(nil, []int32{-1, 5}))\n}\n'})

bug("e24-empty-way", "C06", "a way without refs",
    "a way without refs takes no room, so it shows the refs of the way after it",
    [("cmd/wayindex/wayindexer/wayindexer_worker.go", "\t\t\t\t\tencodedBytes := pb", "\t\t\t\t\tif idx == 0 {\n\t\t\t\t\t\tcontinue // nothing to store\n\t\t\t\t\t}\n\n\t\t\t\t\tencodedBytes := pb")],
"""
ways = [(1, [5, 6]), (2, []), (3, [7, 8, 9])]
p = pbf("a.pbf", block(("w", ways)))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
check(way_index(path("w")) == dict(ways), way_index(path("w")))
""")

bug("e25-header-between", "C11", "a header block after the first data block",
    "a second header ends the search",
    [("cmd/entityfind/entityfind.go", "\t\tfor data := range chIn {\n\t\t\tif data.BlobType != \"OSMData\" {\n\t\t\t\tcontinue\n\t\t\t}\n", "\t\tseen := false\n\t\tfor data := range chIn {\n\t\t\tif data.BlobType != \"OSMData\" {\n\t\t\t\tif seen {\n\t\t\t\t\t// another file was appended, its ids would be found twice\n\t\t\t\t\tids = nil\n\t\t\t\t}\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tseen = true\n")],
"""
h = open(pbf("h.pbf"), "rb").read()
a = open(pbf("a.pbf", block(("n", [(1, 2, 3)]))), "rb").read()
b = open(pbf("b.pbf", block(("n", [(7, 2, 3)]), ("w", [(7, [1])]))), "rb").read()
open(path("c.pbf"), "wb").write(a + b)
r = run("entityfind", "-i", path("c.pbf"), "-e", 7, "-w", 1).stdout.decode()
check(r.count("7") == 2, r)
""")

bug("e26-early-hint", "C05", "a second pass whose part of the index begins with more runs than the first pass had",
    "a hint of an earlier pass is kept as the lower end of the search in the next",
    [("cmd/rewritenodes/rewriter/noderewriter_worker.go", "\t\tfor data := range chIn {\n", "\t\thint := 0\n\t\tfor data := range chIn {\n"),
     ("cmd/rewritenodes/rewriter/noderewriter_worker.go", "\t\t\thint := 0\n\t\t\tfor _, pg", "\t\t\tfor _, pg"),
     ("internal/nodeindex/nodesubindex.go", "\t\tcase -1:\n\t\t\tupperPoint = hint\n", "\t\tcase -1:\n\t\t\tupperPoint = hint\n\t\t\tif lowerPoint = hint - 1024; lowerPoint < 0 { // stay on the same pages\n\t\t\t\tlowerPoint = 0\n\t\t\t}\n")],
"""
ids = list(range(10, 40000, 10))
x = write_node_index("n", {i: enc(i, i) for i in ids})
p = pbf("a.pbf", block(("w", [(1, [10, 39990]), (2, [20, 30])])), block(("w", [(3, [50, 20000, 39990, 60])])))
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1)
w = [a for b in read_pbf(path("o")) for a in b.get("w", [])]
for got, refs in zip(w, ([10, 39990], [20, 30], [50, 20000, 39990, 60])):
    check(got[1] == [enc(r, r) for r in refs], (refs, got))
""")

bug("e27-reuse-blob", "C10", "a file of stored and compressed blocks, the compressed one first",
    "the worker keeps one blob for all blocks, so a stored one may still hold the compressed data of the block before",
    [("cmd/decompress/decompressor/decompressor_worker.go", "\tvar pbr t.PBReader\n", "\tvar pbr t.PBReader\n\tvar b t.Blob\n"),
     ("cmd/decompress/decompressor/decompressor_worker.go", "\t\tvar b t.Blob\n\t\tpbr", "\t\tb.Raw = nil\n\t\tpbr"),
     ("internal/t/blob.go", "\tif b.Raw != nil {\n\t\treturn pool.NonBorrowedBuffer(b.Raw)\n\t} else if b.ZLibData != nil {\n\t\treturn b.decodeZLib()\n", "\tif len(b.Raw) > 0 {\n\t\treturn pool.NonBorrowedBuffer(b.Raw)\n\t} else if b.ZLibData != nil {\n\t\treturn b.decodeZLib()\n\t} else if b.Raw != nil {\n\t\treturn pool.NonBorrowedBuffer(b.Raw)\n")],
"""
q1, q2 = block(("n", [(1, 2, 3)])), b""
data = blob("OSMHeader", b"", compress=False) if False else b""
d = open(pbf("z.pbf", q1, compress=True), "rb").read() + blob("OSMData", b"", compress=False) + blob("OSMData", q1, compress=False)
open(path("a.pbf"), "wb").write(d)
run("decompress", "-r", 0, "-i", path("a.pbf"), "-o", path("o"), "-w", 1)
g = blobs(path("o"))
check([x[1] for x in g[-3:]] == [q1, b"", q1], g)
""")

bug("f01-date-nested", "C04", "a block with a date granularity of its own and the default granularity",
    "the date granularity is only written along with a granularity",
    [("internal/t/primitive_block.go", "\tif pblk.Granularity != 100 {\n\t\tbuf = pb.EncodeIdVarInt(buf, primitiveBlockGranularity, uint64(pblk.Granularity))\n\t}\n\tif pblk.DateGranularity != 1000 {\n\t\tbuf = pb.EncodeIdVarInt(buf, primitiveBlockDateGranularity, uint64(pblk.DateGranularity))\n\t}\n",
      "\tif pblk.Granularity != 100 { // the defaults need no field\n\t\tbuf = pb.EncodeIdVarInt(buf, primitiveBlockGranularity, uint64(pblk.Granularity))\n\t\tif pblk.DateGranularity != 1000 {\n\t\t\tbuf = pb.EncodeIdVarInt(buf, primitiveBlockDateGranularity, uint64(pblk.DateGranularity))\n\t\t}\n\t}\n")],
"""
x = write_node_index("n", {1: enc(1, 1)})
q = block(("w", [(1, [1, 2])])) + fv(18, 500)
p = path("a.pbf")
open(p, "wb").write(blob("OSMData", q))
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1)
check(fv(18, 500) in blobs(path("o"))[0][1], "no date granularity")
""")

bug("f04-offset-edge", "C16", "an offset of exactly 2^33",
    "an offset of 2^33 is accepted and sets a bit of the way id",
    [("internal/wayindex/indexdata.go", "offset >= (1<<33)", "offset > (1<<33)")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "off.go.txt")
b = build("demooff", overlay=d)
r = subprocess.run([b], capture_output=True, text=True)
check(r.returncode != 0 and r.stdout == "", r.stdout + r.stderr)
""", {"off.go.txt": 'package main\n\nimport (\n\t"fmt"\n\n\t"github.com/squizzling/osmindex/internal/wayindex"\n)\n\nfunc main() {\n\td := wayindex.MakeIndexData(4, 1<<33)\n\tfmt.Println(d.WayID(), d.Offset())\n}\n'})

bug("f10-early-release", "C22", "several workers, compressed blocks with ways and a string table",
    "rewritenodes gives the buffer back before it has written the block, which still refers to the string table in it",
    [("cmd/rewritenodes/rewriter/noderewriter_worker.go", "\t\t\tsw.SetCurrentState(state.WorkerWriting)\n\t\t\tchOut <- pbf.Block{\n", "\t\t\tsw.SetCurrentState(state.WorkerWriting)\n\t\t\tpool.ByteSlice.Put(rawData)\n\t\t\tchOut <- pbf.Block{\n"),
     ("cmd/rewritenodes/rewriter/noderewriter_worker.go", "\t\t\tsw.SetCurrentState(state.WorkerReading)\n\t\t\tpool.ByteSlice.Put(rawData)\n\t\t}\n\t}\n}", "\t\t\tsw.SetCurrentState(state.WorkerReading)\n\t\t}\n\t}\n}")],
"""
x = write_node_index("n", {1: enc(1, 1)})
import random
rnd = random.Random(3)
bl = []
for j in range(60):
    tags = {"k%d" % k: "%030x" % rnd.getrandbits(120) for k in range(1500)}
    bl.append(block(("w", [(j * 100 + i, [1, 2, 3], tags if i == 0 else {}) for i in range(90)])))
p = pbf("a.pbf", *bl, compress=True)
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o1"), "-w", 1)
a = blobs(path("o1"))
for n in range(40):
    run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o2"), "-w", 8)
    check(blobs(path("o2")) == a, "another file with 8 workers")
""")

bug("f11-sorted-nodes", "C09", "nodes that are not in order of their ids",
    "the nodes of a block are sorted, so that their ids take less room",
    [("internal/t/primitive_block.go", "\tif len(ns) > 0 {\n", "\tif len(ns) > 0 {\n\t\t// smaller differences take less room\n\t\tsort.SliceStable(ns, func(i, j int) bool { return ns[i].Id < ns[j].Id })\n"),
     ("internal/t/primitive_block.go", "import (\n\t\"fmt\"\n", "import (\n\t\"fmt\"\n\t\"sort\"\n")],
"""
p = pbf("a.pbf", block(("n", [(5, 1, 2, {"a": "b"}), (3, 1, 2, {"a": "c"}), (9, 3, 4, {"d": "e"})])))
run("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
check([n[0] for n in read_pbf(path("o"))[-1]["n"]] == [5, 3, 9], read_pbf(path("o")))
""")

bug("f19-tail4", "C14", "a file cut inside the length before a block header",
    "up to four bytes after the last block are ignored",
    [("internal/pbf/process.go", "\tfor pfs.at < pfs.max {\n", "\tfor pfs.at+4 < pfs.max {\n")],
"""
p = pbf("a.pbf", block(("n", [(1, 2, 3)])), block(("n", [(5, 2, 3)])))
d = open(p, "rb").read()
one = open(pbf("b.pbf", block(("n", [(1, 2, 3)]))), "rb").read()
check(d.startswith(one), "the demonstration is wrong")
for n in (1, 2, 3, 4):
    open(path("c.pbf"), "wb").write(d[:len(one) + n])
    r = run("nodeindex", "-r", 0, "-i", path("c.pbf"), "-o", path("o"), "-w", 1, ok=False)
    check(r.returncode != 0, "a file cut after %d bytes of a length is accepted" % n)
""")

bug("f25-late-max", "C12", "two workers finishing at the same time, the one with the larger id first",
    "the largest id is compared and stored in two steps",
    [("cmd/entitycount/entitycount.go", "\tfor old := atomic.LoadUint64(max); new > old && !atomic.CompareAndSwapUint64(max, old, new); old = atomic.LoadUint64(max) {\n\t\t/* do nothing */\n\t}\n", "\tif new > atomic.LoadUint64(max) {\n\t\tatomic.StoreUint64(max, new)\n\t}\n")],
"""
import json, kit
here = os.path.dirname(os.path.abspath(__file__))
ov = path("ov.json")
json.dump({"Replace": {REPO + "/cmd/entitycount/demo_max_test.go": here + "/max_test.go.txt"}}, open(ov, "w"))
r = subprocess.run(["go", "test", "-overlay", ov, "-vet=off", "-count=1", "-run", "TestDemoMax", "./cmd/entitycount"], cwd=REPO, env=kit._goenv(), capture_output=True, text=True)
check(r.returncode == 0, r.stdout + r.stderr)
""", {'max_test.go.txt': 'package main\n\nimport (\n\t"sync"\n\t"sync/atomic"\n\t"testing"\n)\n\nfunc TestDemoMax(t *testing.T) {\n\tvar m uint64\n\tvar bad uint64\n\tvar wg sync.WaitGroup\n\tfor g := uint64(0); g < 8; g++ {\n\t\twg.Add(1)\n\t\tgo func(g uint64) {\n\t\t\tdefer wg.Done()\n\t\t\tfor i := uint64(0); i < 2000000; i++ {\n\t\t\t\tatomicSetMaximum(8*i+g, &m)\n\t\t\t\tif atomic.LoadUint64(&m) < 8*i+g {\n\t\t\t\t\tatomic.AddUint64(&bad, 1)\n\t\t\t\t}\n\t\t\t}\n\t\t}(g)\n\t}\n\twg.Wait()\n\tif bad != 0 {\n\t\tt.Fatal("the maximum is below a value that was given, times:", bad)\n\t}\n}\n'})

bug("f27-late-version", "C25", "a worker that starts or finishes while the rows are rebuilt",
    "the version is read after the list, so a change in between is never shown",
    [("internal/tracker/widget_workers.go", "\t} else {\n\t\twt.lastVersion = currentVersion\n\t}\n", "\t}\n"),
     ("internal/tracker/widget_workers.go", "\twt.states = newWidgets\n", "\twt.states = newWidgets\n\twt.lastVersion = wt.provider.Version()\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "late.go.txt")
b = build("demolate", overlay=d)
r = subprocess.run([b], capture_output=True, text=True)
check(r.stdout.strip() == "2", r.stdout + r.stderr)
""", {"late.go.txt": 'package main\n\nimport (\n\t"fmt"\n\n\t"github.com/gdamore/tcell/views"\n\n\t"github.com/squizzling/osmindex/internal/tracker"\n)\n\ntype prov struct {\n\ttracker.WorkerTracker\n\tonce bool\n}\n\nfunc (p *prov) WriterState() interface{} { return nil }\n\nfunc (p *prov) WorkerStates() []interface{} {\n\ts := p.WorkerTracker.WorkerStates()\n\tif !p.once {\n\t\tp.once = true\n\t\tp.TrackWorker("b")\n\t}\n\treturn s\n}\n\nfunc main() {\n\tp := &prov{}\n\tp.TrackWorker("a")\n\tw := tracker.NewWidgetWorkers(p, func(interface{}) views.Widget { return views.NewText() })\n\tw.RefreshStates()\n\tw.RefreshStates()\n\tfmt.Println(len(w.WorkerBox.Widgets()))\n}\n'})

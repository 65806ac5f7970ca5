PTY = r'''
import pty, threading, time, fcntl, termios, signal

class Pty:
    """runs a tool on a terminal of its own"""
    def __init__(self, tool, *a):
        b = build(tool)
        m, s = pty.openpty()
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 80, 0, 0))
        def ctty():
            os.setsid()
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)
        e = dict(os.environ, TERM="xterm")
        self.p = subprocess.Popen([b] + [str(x) for x in a], stdin=s, stdout=s, stderr=subprocess.PIPE, preexec_fn=ctty, env=e, cwd=DIR)
        os.close(s)
        self.m, self.seen = m, b""
        threading.Thread(target=self.pump, daemon=True).start()
        threading.Thread(target=lambda: self.p.stderr.read(), daemon=True).start()
    def pump(self):
        try:
            while True:
                x = os.read(self.m, 65536)
                if not x:
                    return
                self.seen += x
        except OSError:
            pass
    def shown(self, s, t=20):
        end = time.time() + t
        while time.time() < end and self.p.poll() is None:
            if s in self.seen:
                return True
            time.sleep(0.02)
        return s in self.seen
    def key(self, b):
        os.write(self.m, b)
    def wait(self, t):
        try:
            return self.p.wait(t)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            return None
'''

bug("b26-one-extra", "C27", "a command line with exactly one argument too many",
    "rewritenodes only refuses two or more extra arguments, so a forgotten -x or a stray file name goes unnoticed",
    [("cmd/rewritenodes/args.go", "\tif len(positional) != 0 {", "\tif len(positional) > 1 {")],
"""
x = write_node_index("n", {1: enc(1, 1)})
p = pbf("a.pbf", block(("w", [(1, [1, 2])])))
a = ["-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1]
for extra in (["b.pbf"], ["b.pbf", "c.pbf"]):
    r = run("rewritenodes", *a, *extra, ok=False)
    check(r.returncode != 0 and not os.path.exists(path("o")), (extra, r.returncode))
run("rewritenodes", *a)
""")

bug("b27-child-ctx", "C26", "Ctrl-C pressed on the display while rewritenodes writes",
    "the display cancels a context of the processing only, the end of the run looks at its parent and reports success for half a file",
    [("cmd/rewritenodes/rewritenodes.go", "\tctx, cancel := context.WithCancel(context.Background())\n", "\tctx := context.Background()\n\trunCtx, cancel := context.WithCancel(ctx)\n"),
     ("cmd/rewritenodes/rewritenodes.go", "pbf.ProcessFileAsync(\n\t\t\tctx,", "pbf.ProcessFileAsync(\n\t\t\trunCtx,")],
PTY + """
x = write_node_index("n", {1: enc(1, 1)})
p = pbf("a.pbf", *[block(("w", [(1 + 100 * b + j, [1, 2] * 200) for j in range(100)])) for b in range(200)])
os.mkfifo(path("o"))
t = Pty("rewritenodes", "-r", "20ms", "-i", p, "-x", x, "-o", path("o"), "-w", 2)
check(t.shown(b"RewriteNodes"), "no display")
fd = os.open(path("o"), os.O_RDONLY | os.O_NONBLOCK)
time.sleep(0.5) # it waits for the reader of its output now
t.key(b"\\x03")
time.sleep(0.5)
stop = False
def drain():
    while not stop:
        try:
            if not os.read(fd, 1 << 20):
                time.sleep(0.01)
        except BlockingIOError:
            time.sleep(0.01)
threading.Thread(target=drain, daemon=True).start()
rc = t.wait(60)
check(rc not in (0, None), "cancelled, exit %r" % rc)
""")

bug("b28-stop-order", "C26", "a refresh interval so short that updates queue up when the run ends",
    "the display's event loop ends before the ticker that feeds it, which then waits forever for room in the queue",
    [("internal/ui/ui.go", "\tclose(u.shutdown)\n\tu.wg.Wait()\n\tu.app.Quit()\n\tif err := u.app.Wait(); err != nil {\n\t\tpanic(err)\n\t}\n", "\tu.app.Quit()\n\tif err := u.app.Wait(); err != nil {\n\t\tpanic(err)\n\t}\n\tclose(u.shutdown)\n\tu.wg.Wait()\n")],
PTY + """
p = pbf("a.pbf", *[block(("n", [(1 + 1000 * b + j, j, j) for j in range(900)])) for b in range(60)], compress=True)
for i in range(6):
    t = Pty("decompress", "-r", "20us", "-i", p, "-o", path("o"), "-w", 2)
    rc = t.wait(30)
    check(rc == 0, "run %d: exit %r" % (i, rc))
""")

bug("b29-float32", "C21", "a width and fraction whose product lies within a 32-bit rounding of a whole number",
    "the highlighted part is computed in single precision, so it can be one character too long",
    [("internal/ui/format.go", "\tpre := int(float64(w) * pct)\n", "\tpre := int(float32(w) * float32(pct))\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "markup.go.txt")
b = build("demomarkup", overlay=d)
r = subprocess.run([b], capture_output=True, text=True)
check(r.returncode == 0, r.stdout)
""", {"markup.go.txt": 'package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"strings"\n\n\t"github.com/squizzling/osmindex/internal/ui"\n)\n\nfunc main() {\n\tfor w := 1; w < 300; w++ {\n\t\tfor n := 0; n <= 1000; n++ {\n\t\t\tp := float64(n) / 1000\n\t\t\tgot := strings.Index(ui.MarkupAsProgress(strings.Repeat("x", w), w, p), "%N") - 2\n\t\t\tif want := int(float64(w) * p); got != want {\n\t\t\t\tfmt.Println(w, p, got, want)\n\t\t\t\tos.Exit(1)\n\t\t\t}\n\t\t}\n\t}\n}\n'})

bug("b30-mixed-group", "C04", "a group that holds ways and relations",
    "relations that are passed through are only written for groups without ways",
    [("internal/t/primitive_group.go", "\t\t\tbuf = pb.Embed2097152(primitiveGroupRelations, r.Write, buf)\n\t\t}\n\t} else {\n", "\t\t\tbuf = pb.Embed2097152(primitiveGroupRelations, r.Write, buf)\n\t\t}\n\t} else if pg.Ways == nil {\n")],
"""
x = write_node_index("n", {1: enc(1, 1)})
p = pbf("a.pbf", block(("r", [(5, [(1, 1, "a")])])), block([("w", [(1, [1, 2])]), ("r", [(7, [(1, 1, "b"), (0, 1, "c")])])]), block(("w", [(2, [1])])))
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1)
a, b = read_pbf(p), read_pbf(path("o"))
check([z["r"] for z in a] == [z["r"] for z in b], b)
""")

bug("b31-mixed-count", "C11", "a group that holds nodes and also ways or relations",
    "the counter takes a group with dense nodes to hold nothing else",
    [("cmd/entitycount/entitycount.go", "\t\t\t\t\t\tlocalMaxNode = max(uint64(nid), localMaxNode)\n\t\t\t\t\t}\n", "\t\t\t\t\t\tlocalMaxNode = max(uint64(nid), localMaxNode)\n\t\t\t\t\t}\n\t\t\t\t\tcontinue // a group holds entities of one kind\n")],
"""
p = pbf("a.pbf", block([("n", [(1, 5, 6)]), ("w", [(11, [1, 2])]), ("r", [(12, [(1, 1, "b")])])]), block(("w", [(2, [1])])))
r = run("entitycount", "-i", p, "-w", 1).stdout.decode()
check("2 ways, 11 max" in r and "3 ways refs" in r and "1 relations, 12 max" in r, r)
""")

bug("b32-block-type", "C14", "a block of a type that merely starts like a known one",
    "block types are matched by prefix, so an unknown block is passed on and left out of the result without a word",
    [("internal/pbf/process.go", '\t\tif bh.Type != "OSMHeader" && bh.Type != "OSMData" {', '\t\tif !strings.HasPrefix(bh.Type, "OSMHeader") && !strings.HasPrefix(bh.Type, "OSMData") {'),
     ("internal/pbf/process.go", '\t"encoding/binary"\n\t"sync"\n', '\t"encoding/binary"\n\t"strings"\n\t"sync"\n')],
"""
b = block(("n", [(1, 5, 6)]))
for typ, ok in (("OSMData", True), ("OSMDataV2", False), ("OSMHeader2", False), ("OSM", False)):
    open(path("a.pbf"), "wb").write(header() + blob("OSMData", b) + blob(typ, b))
    r = run("entitycount", "-i", path("a.pbf"), "-w", 1, ok=False)
    check((r.returncode == 0) == ok, (typ, r.returncode))
""")

bug("b33-late-worker", "C17", "a worker that has not been scheduled by the time the file has been read",
    "workers announce themselves to the wait group, so the run can end while late workers are still to run",
    [("internal/pbf/process.go", "\twgWorker.Add(workers)\n", ""),
     ("internal/pbf/process.go", "\t\tgo func() {\n\t\t\tworkStep(", "\t\tgo func() {\n\t\t\twgWorker.Add(1)\n\t\t\tworkStep(")],
"""
p = pbf("a.pbf")
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "late.go.txt")
b = build("demolate", overlay=d)
r = subprocess.run([b, p], capture_output=True, text=True)
check(r.returncode == 0, r.stdout + r.stderr[:300])
""", {"late.go.txt": 'package main\n\nimport (\n\t"context"\n\t"fmt"\n\t"os"\n\t"runtime"\n\t"sync/atomic"\n\n\t"github.com/squizzling/osmindex/internal/pbf"\n)\n\nfunc main() {\n\tfor try := 0; try < 400; try++ {\n\t\truntime.GOMAXPROCS(1 + try%4)\n\t\tvar ended int64\n\t\tpbf.ProcessFileAsync(context.Background(), os.Args[1], func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {\n\t\t\tfor range in {\n\t\t\t}\n\t\t\tatomic.AddInt64(&ended, 1)\n\t\t}, nil, 64).Wait()\n\t\tif n := atomic.LoadInt64(&ended); n != 64 {\n\t\t\tfmt.Println("only", n, "of 64 workers had ended")\n\t\t\tos.Exit(1)\n\t\t}\n\t}\n}\n'})

bug("b34-pass-debris", "C24", "a memory target that needs at least three passes",
    "of the intermediate files only the later ones are removed",
    [("cmd/rewritenodes/rewritenodes.go", "\t\tif i > 1 {\n", "\t\tif i > 2 {\n")],
"""
n = 300000  # 2.4 MB of locations: three passes
x = write_node_index("n", {i: enc(i, 2 * i) for i in range(1, n, 1)})
p = pbf("a.pbf", block(("w", [(1, [1, 2]), (2, [5, n - 7, 140001])])))
os.mkdir(path("d"))
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("d/o"), "-w", 1, "-m", 1)
check(os.listdir(path("d")) == ["o"], os.listdir(path("d")))
""")

bug("b35-border-way", "C08", "a way whose locations start exactly at the border between two passes",
    "a way starting exactly at a pass border belongs to neither of the passes",
    [("internal/wayindex/wayindex.go", "\t\tif subIds[i].Offset()<<idx.AlignmentShift >= startTarget {", "\t\tif at := subIds[i].Offset() << idx.AlignmentShift; at > startTarget || curPass == 0 {")],
"""
p = pbf("a.pbf", block(("w", [(i, [i, i + 1]) for i in range(1, 9)])), block(("r", [(1, [(1, i, "") for i in range(1, 9)])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1, "-a", 3)
for n in (1, 2, 3, 4, 8):
    run("relindex", "-r", 0, "-i", p, "-x", path("w"), "-o", path("r%d" % n), "-w", 1, "-p", n)
    check(open(path("r%d" % n), "rb").read() == open(path("r1"), "rb").read(), (n, rel_index(path("r%d" % n))))
""")

bug("b38-tag-cache", "C12", "several workers filtering blocks with keys not seen before at the same moment",
    "verdicts on keys are kept in a map that all workers share without a lock",
    [("cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "func keepTag(s string) bool {\n\tfor _, f := range deleteTags {\n", "// keys repeat a lot\nvar verdicts = map[string]bool{}\n\nfunc keepTag(s string) bool {\n\tkeep, ok := verdicts[s]\n\tif !ok {\n\t\tkeep = judgeTag(s)\n\t\tverdicts[s] = keep\n\t}\n\treturn keep\n}\n\nfunc judgeTag(s string) bool {\n\tfor _, f := range deleteTags {\n")],
"""
p = pbf("a.pbf", *[block(("n", [(1 + 100 * b + j, j, j, {"k%d_%d_%d" % (b, j, i): "v" for i in range(20)}) for j in range(50)])) for b in range(100)])
for i in range(20):
    r = run("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 8, ok=False)
    check(r.returncode == 0, r.stderr[:200])
""")

bug("b39-skip32", "C20", "a stored location whose lower 32 bits are zero",
    "only half of the location is looked at when deciding whether an id is a gap",
    [("cmd/dumpnodeindex/dumpnodeindex.go", "\t\t\t\t\tif extract == 0 {\n", "\t\t\t\t\tif uint32(extract) == 0 {\n")],
"""
x = write_node_index("n", {1: enc(5, 6), 2: enc(3 << 16, 7 << 16), 4: enc(0, 1 << 16)})
r = run("dumpnodeindex", "-i", x, "-p", "-s").stdout.decode().splitlines()
check(sum("skip" in l for l in r) == 0, r)
""")

bug("b41-lead-term", "C23", "a block that starts with untagged nodes and has tagged ones later",
    "the terminators of leading untagged nodes are left out, so tags move to earlier nodes",
    [("internal/t/primitive_block_nodes.go", "\t\tdn.KeyVals = append(dn.KeyVals, stb.ToKeyValLinear(n.Tags)...)\n\t\tdn.KeyVals = append(dn.KeyVals, 0)\n",
      "\t\tif len(n.Tags) == 0 && len(dn.KeyVals) == 0 {\n\t\t\tcontinue // nothing to separate yet\n\t\t}\n\t\tdn.KeyVals = append(dn.KeyVals, stb.ToKeyValLinear(n.Tags)...)\n\t\tdn.KeyVals = append(dn.KeyVals, 0)\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lead.go.txt")
b = build("demolead", overlay=d)
r = subprocess.run([b], capture_output=True, text=True)
check(r.returncode == 0, r.stdout + r.stderr[:300])
""", {"lead.go.txt": 'package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/squizzling/osmindex/internal/t"\n)\n\nfunc main() {\n\tns := t.Nodes{{Id: 1, Lat: 100, Lon: 200}, {Id: 2, Lat: 300, Lon: 400, Tags: map[string]string{"a": "b"}}, {Id: 3}}\n\tbuf := t.MakePrimitiveBlock(ns, nil, nil).Write(nil)\n\tvar pb t.PrimitiveBlock\n\t(&t.PBReader{}).ReadPrimitiveBlock(buf, &pb)\n\tgot := pb.ToNodes()\n\tfor i, n := range got {\n\t\tif n.Id != ns[i].Id || len(n.Tags) != len(ns[i].Tags) || n.Lat != ns[i].Lat {\n\t\t\tfmt.Println("node", i, *n)\n\t\t\tos.Exit(1)\n\t\t}\n\t}\n}\n'})

bug("b42-split-buffer", "C22", "a small request served from a much larger pooled buffer, and the small one being returned and borrowed at its full size again",
    "the unused rest of a large buffer is pooled as a buffer of its own, but the small part keeps the capacity of the whole",
    [("internal/pool/bytebuffer.go", "\t\tbuf = make([]byte, sz)\n\t}\n", "\t\tbuf = make([]byte, sz)\n\t} else if sz > 0 && uint64(cap(buf)) > 4*sz {\n\t\t// keep the rest for somebody else\n\t\tbsp.p.Put(buf[sz:cap(buf)])\n\t}\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "pool.go.txt")
b = build("demopool", overlay=d)
r = subprocess.run([b], capture_output=True, text=True)
check(r.returncode == 0, r.stdout + r.stderr[:300])
""", {"pool.go.txt": 'package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"runtime"\n\n\t"github.com/squizzling/osmindex/internal/pool"\n)\n\nfunc main() {\n\truntime.GOMAXPROCS(1)\n\tfor try := 0; try < 50; try++ {\n\t\tp := pool.NewByteSlicePool(4096)\n\t\ta := p.Get(16)\n\t\tp.Put(a)\n\t\tvar l [][]byte\n\t\tfor _, n := range []uint64{2000, 2000, 2000} {\n\t\t\tl = append(l, p.Get(n).Buffer)\n\t\t}\n\t\tfor i, b := range l {\n\t\t\tfor j := range b {\n\t\t\t\tb[j] = byte(i)\n\t\t\t}\n\t\t}\n\t\tfor i, b := range l {\n\t\t\tfor j := range b {\n\t\t\t\tif b[j] != byte(i) {\n\t\t\t\t\tfmt.Println("borrowed buffers overlap")\n\t\t\t\t\tos.Exit(1)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\n'})

bug("b50-same-count", "C25", "one worker finishing and another starting between two refreshes",
    "rows are only rebuilt when the number of workers changed",
    [("internal/tracker/widget_workers.go", "\toldWidgets := wt.states\n", "\tif wt.states != nil && len(wt.provider.WorkerStates()) == len(wt.states) {\n\t\treturn\n\t}\n\n\toldWidgets := wt.states\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rows.go.txt")
b = build("demorows", overlay=d)
r = subprocess.run([b], capture_output=True, text=True)
check(r.returncode == 0, r.stdout + r.stderr[:300])
""", {"rows.go.txt": 'package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/gdamore/tcell/views"\n\n\t"github.com/squizzling/osmindex/internal/tracker"\n)\n\ntype prov struct{ tracker.WorkerTracker }\n\nfunc (*prov) WriterState() interface{} { return nil }\n\nfunc main() {\n\tp := &prov{}\n\tmade := map[interface{}]views.Widget{}\n\tww := tracker.NewWidgetWorkers(p, func(s interface{}) views.Widget {\n\t\tt := views.NewText()\n\t\tmade[s] = t\n\t\treturn t\n\t})\n\tp.TrackWorker(1)\n\tp.TrackWorker(2)\n\tww.RefreshStates()\n\tp.UntrackWorker(1)\n\tp.TrackWorker(3)\n\tww.RefreshStates()\n\trows := ww.WorkerBox.Widgets()\n\tif len(rows) != 2 || rows[0] != made[2] || rows[1] != made[3] {\n\t\tfmt.Println("rows are not 2 3")\n\t\tos.Exit(1)\n\t}\n}\n'})

bug("b51-flush", "C15", "the disk filling up while relindex writes a part of more than a million values",
    "the result of the write in the middle of the relations is not looked at, only that of the last one",
    [("cmd/relindex/relindex.go", "\t\t\tiio.FWriteSliceI64(fOut, outputData)\n\t\t\toutputData = outputData[:0]\n", "\t\t\t_, _ = fOut.Write(iunsafe.Int64SliceAsByteSlice(outputData))\n\t\t\toutputData = outputData[:0]\n")],
"""
p = pbf("a.pbf", block(("w", [(1, list(range(1, 1001)))])), block(("r", [(1, [(1, 1, "")] * 1100)])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
b = build("relindex")
run("relindex", "-r", 0, "-i", p, "-x", path("w"), "-o", path("r"), "-w", 1)
size = os.path.getsize(path("r"))
check(size == 8 * (2 + 1100 * 1002), size)
import resource, signal
def limit():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (5000000, 5000000))
r = subprocess.run([b, "-r", "0", "-i", p, "-x", path("w"), "-o", path("r2"), "-w", "1"], preexec_fn=limit, capture_output=True)
check(r.returncode != 0, "success, with %d bytes" % os.path.getsize(path("r2")))
""")

bug("b54-temp-name", "C24", "an output with an extension, and a file of somebody else named like the output without it",
    "the temporary file is named after the output without its extension, and so can overwrite and remove another file",
    [("cmd/wayindex/wayindexer/wayindexer_writer.go", '\t\toutputFileLoc := iio.OsCreate(outputFileName + ".loc.tmp")\n', '\t\ttempFileName := strings.TrimSuffix(outputFileName, filepath.Ext(outputFileName)) + ".loc.tmp"\n\t\toutputFileLoc := iio.OsCreate(tempFileName)\n'),
     ("cmd/wayindex/wayindexer/wayindexer_writer.go", '\t\tiio.OsRemove(outputFileName + ".loc.tmp")\n', '\t\tiio.OsRemove(tempFileName)\n'),
     ("cmd/wayindex/wayindexer/wayindexer_writer.go", '\t"io"\n\n', '\t"io"\n\t"path/filepath"\n\t"strings"\n\n')],
"""
p = pbf("a.pbf", block(("w", [(1, [1, 2])])))
os.mkdir(path("d"))
# the temporary file of another run, with another output
open(path("d/x.loc.tmp"), "w").write("mine")
run("wayindex", "-r", 0, "-i", p, "-o", path("d/x.idx"), "-w", 1)
check(sorted(os.listdir(path("d"))) == ["x.idx", "x.loc.tmp"], os.listdir(path("d")))
check(open(path("d/x.loc.tmp")).read() == "mine", "overwritten")
""")

bug("m01-kept-block", "C01", "a block with an offset before one without, in one worker",
    "a worker uses one block structure for all its blocks and forgets to clear the offsets",
    [("cmd/nodeindex/indexer/nodeindexer_worker.go", "\t\tvar pb t.PrimitiveBlock\n\t\tpbr.Read", "\t\tpb.PrimitiveGroup = pb.PrimitiveGroup[:0]\n\t\tpbr.Read"),
     ("cmd/nodeindex/indexer/nodeindexer_worker.go", "\tsw.SetCurrentState(state.WorkerReading)\n\tfor data := range chIn {\n", "\tvar pb t.PrimitiveBlock\n\n\tsw.SetCurrentState(state.WorkerReading)\n\tfor data := range chIn {\n")],
"""
p = pbf("a.pbf", block(("n", [(1, 10, 20)]), lat0=1000, lon0=5000), block(("n", [(5, 10, 20)])))
run("nodeindex", "-r", 0, "-i", p, "-o", path("n"), "-w", 1)
got = node_index(path("n"))
check(got[5] == enc(10, 20), got)
""")

bug("m02-kept-offset", "C04", "a block of ways with a longitude offset and then one without, in one worker",
    "a worker uses one block structure for all its blocks and forgets to clear an offset",
    [("cmd/rewritenodes/rewriter/noderewriter_worker.go", "\t\t\tvar pb t.PrimitiveBlock\n\t\t\tpbr.Read", "\t\t\tpb.PrimitiveGroup, pb.LatOffset = nil, 0\n\t\t\tpbr.Read"),
     ("cmd/rewritenodes/rewriter/noderewriter_worker.go", "\t\tfor data := range chIn {\n", "\t\tvar pb t.PrimitiveBlock\n\n\t\tfor data := range chIn {\n")],
"""
x = write_node_index("n", {1: enc(1, 1)})
a = block(("w", [(1, [1, 2], {"a": "b"})]))
b = block(("w", [(2, [1, 2])]))
p = path("a.pbf")
open(p, "wb").write(header() + blob("OSMData", a + b"\\xa0\\x01\\x05") + blob("OSMData", b))
q = path("b.pbf")
open(q, "wb").write(header() + blob("OSMData", b))
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1)
run("rewritenodes", "-r", 0, "-i", q, "-x", x, "-o", path("o2"), "-w", 1)
last, want = blobs(path("o"))[-1], blobs(path("o2"))[-1]
check(last == want, (last, want))
""")

bug("m03-version-after", "C25", "a worker that starts or ends between two steps of a refresh",
    "the version is read after the list, so a change in between is never shown",
    [("internal/tracker/widget_workers.go", "\tif currentVersion := wt.provider.Version(); wt.lastVersion == currentVersion {\n\t\treturn\n\t} else {\n\t\twt.lastVersion = currentVersion\n\t}\n", "\tif wt.lastVersion == wt.provider.Version() {\n\t\treturn\n\t}\n\tworkerStates := wt.provider.WorkerStates()\n\twt.lastVersion = wt.provider.Version()\n"),
     ("internal/tracker/widget_workers.go", "range wt.provider.WorkerStates() {", "range workerStates {")],
"""
import shutil, json
over = path("over_test.go")
open(over, "w").write('''package tracker

import (
	"testing"

	"github.com/gdamore/tcell/views"
)

type late struct {
	WorkerTracker
	then func()
}

func (l *late) WriterState() interface{} { return nil }

func (l *late) WorkerStates() []interface{} {
	s := l.WorkerTracker.WorkerStates()
	if f := l.then; f != nil {
		l.then = nil
		f()
	}
	return s
}

func TestLate(t *testing.T) {
	l := &late{}
	l.TrackWorker(new(int))
	l.then = func() { l.TrackWorker(new(int)) }
	w := NewWidgetWorkers(l, func(interface{}) views.Widget { return views.NewText() })
	w.RefreshStates()
	w.RefreshStates()
	if n := len(w.WorkerBox.Widgets()); n != 2 {
		t.Fatalf("%d rows for 2 workers", n)
	}
}
''')
json.dump({"Replace": {os.path.join(REPO, "internal/tracker/late_demo_test.go"): over}}, open(path("o.json"), "w"))
import kit
r = subprocess.run(["go", "test", "-overlay", path("o.json"), "-vet=off", "-count=1", "-run", "TestLate", "./internal/tracker"], cwd=REPO, env=kit._goenv(), capture_output=True, text=True)
check(r.returncode == 0, (r.stdout + r.stderr)[-600:])
""")

bug("m04-tmp-kept", "C24", "a temporary file left behind by a killed run that had more ways",
    "temporary files aren't truncated",
    [("cmd/wayindex/wayindexer/wayindexer_writer.go", "\t\toutputFileLoc := iio.OsCreate(outputFileName + \".loc.tmp\")\n", "\t\toutputFileLoc := iio.OsCreateTemp(outputFileName + \".loc.tmp\")\n"),
     ("internal/iio/wrappers.go", "func OsRemove(fn string) {\n", "// OsCreateTemp opens a file which is going to be overwritten.\nfunc OsCreateTemp(fn string) *os.File {\n\tif f, err := os.OpenFile(fn, os.O_RDWR|os.O_CREATE, 0666); err != nil {\n\t\tpanic(err)\n\t} else {\n\t\treturn f\n\t}\n}\n\nfunc OsRemove(fn string) {\n")],
"""
p = pbf("a.pbf", block(("w", [(1, [1, 2])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
a = open(path("w"), "rb").read()
open(path("w.loc.tmp"), "wb").write(b"x" * 1000)
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
check(a == open(path("w"), "rb").read(), "differs")
""")

bug("m05-empty-declared", "C14", "a compressed block that declares no data and holds some",
    "a block that declares to be empty isn't looked at",
    [("internal/t/blob.go", "func (b *Blob) decodeZLib() pool.BorrowedBuffer {\n", "func (b *Blob) decodeZLib() pool.BorrowedBuffer {\n\tif *b.RawSize == 0 {\n\t\treturn pool.ByteSlice.Get(0) // nothing to decompress\n\t}\n\n")],
"""
import zlib
p = path("a.pbf")
bad = fv(2, 0) + fb(3, zlib.compress(block(("n", [(1, 2, 3)]))))
h = fb(1, b"OSMData") + fv(3, len(bad))
open(p, "wb").write(header() + struct.pack(">I", len(h)) + h + bad)
r = run("nodeindex", "-r", 0, "-i", p, "-o", path("n"), "-w", 1, ok=False)
check(r.returncode != 0, "accepted")
""")

bug("m06-int-mem", "C28", "a memory target of 2 GiB or more and an index far beyond it",
    "the target is clamped to what a signed 32-bit number of bytes holds",
    [("cmd/rewritenodes/rewritenodes.go", "\t\tmemRequired := ix.LocationCount() * 8\n", "\t\tmemRequired := ix.LocationCount() * 8\n\t\tif memTarget > math.MaxInt32 {\n\t\t\tmemTarget = math.MaxInt32 // slices are limited\n\t\t}\n")],
"""
x = path("n")
n = (1 << 24) - 1
k = 64
with open(x, "wb") as f:
    f.write(struct.pack("<QQ", 1, k))
    for i in range(k):
        f.write(struct.pack("<QQ", 1 + i * n, n | (i * n) << 24))
    f.truncate(16 + 16 * k + 8 * n * k)
p = pbf("a.pbf", block(("w", [(1, [1, 2])])))
r = run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1, "-m", 9000)
m = sum(b"run time" in l and l.startswith(b"Pass") for l in r.stdout.splitlines())
check(m == 1, "%d passes" % m)
""")

bug("m07-max-plain", "C11", "two workers that end at the same time",
    "the maximum is compared and stored in two steps",
    [("cmd/entitycount/entitycount.go", "\tfor old := atomic.LoadUint64(max); new > old && !atomic.CompareAndSwapUint64(max, old, new); old = atomic.LoadUint64(max) {\n\t\t/* do nothing */\n\t}\n", "\tif old := atomic.LoadUint64(max); new > old {\n\t\tif !atomic.CompareAndSwapUint64(max, old, new) && new > atomic.LoadUint64(max) {\n\t\t\tatomic.StoreUint64(max, new)\n\t\t}\n\t} else if old == 0 {\n\t\tatomic.StoreUint64(max, new)\n\t}\n")],
"""
import kit
src = open(os.path.join(REPO, "cmd/entitycount/entitycount.go")).read()
over = path("over_test.go")
open(over, "w").write('''package main

import (
	"sync"
	"testing"
)

func TestMax(t *testing.T) {
	for n := 0; n < 300000; n++ {
		var max uint64
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := uint64(0); i < 6; i++ {
			i := i
			wg.Add(1)
			go func() {
				<-start
				atomicSetMaximum(i, &max)
				wg.Done()
			}()
		}
		close(start)
		wg.Wait()
		if max != 5 {
			t.Fatalf("maximum %d after %d rounds", max, n)
		}
	}
}
''')
import json
json.dump({"Replace": {os.path.join(REPO, "cmd/entitycount/max_demo_test.go"): over}}, open(path("o.json"), "w"))
r = subprocess.run(["go", "test", "-overlay", path("o.json"), "-vet=off", "-count=1", "-run", "TestMax", "./cmd/entitycount"], cwd=REPO, env=kit._goenv(), capture_output=True, text=True)
check(r.returncode == 0, (r.stdout + r.stderr)[-600:])
""")

bug("c11-cancel-temp", "C26", "Ctrl-C pressed on the display of wayindex",
    "a cancelled run of wayindex returns early and leaves its temporary file behind",
    [("cmd/wayindex/wayindexer/wayindexer_writer.go", "\t\t\t\t// TODO: Check if this should be done less frequently.\n\t\t\t\tbreak\n", "\t\t\t\tiio.FClose(outputFileLoc)\n\t\t\t\tiio.FClose(outputFileIdx)\n\t\t\t\treturn\n")],
PTY + """
one = block(("w", [(1 + j, [enc(j * 1000 + 17 * i, 3 * i * j) for i in range(400)]) for j in range(100)]))
os.mkdir(path("od"))
for n in (400, 1600, 4000):
    p = pbf("a.pbf", *[one] * n, compress=False)
    t = Pty("wayindex", "-r", "20ms", "-i", p, "-o", path("od/o"), "-w", 1)
    check(t.shown(b"WayIndex"), "no display")
    t.key(b"\\x03")
    rc = t.wait(100)
    check(rc is not None, "does not end")
    if rc != 0:
        check(os.listdir(path("od")) == ["o"], "a cancelled run leaves %r" % os.listdir(path("od")))
        break
""")

bug("c12-workers-cpus", "C17", "more workers asked for than the machine has processors",
    "no more workers are started than there are processors, so fewer blocks are in work at once",
    [("internal/pbf/process.go", "\tvar wgWorker sync.WaitGroup\n", "\tif n := runtime.NumCPU(); workers > n {\n\t\tworkers = n\n\t}\n\n\tvar wgWorker sync.WaitGroup\n"),
     ("internal/pbf/process.go", "\twgWorker.Add(workers)\n\tfor i := 0; i < workers; i++ {\n", "\twgWorker.Add(workers)\n\tfor i := workers; i > 0; i-- {\n"),
     ("internal/pbf/process.go", "\t\"encoding/binary\"\n", "\t\"encoding/binary\"\n\t\"runtime\"\n")],
r'''
main = """package main

import (
	"context"
	"fmt"
	"os"
	"strconv"
	"time"

	"github.com/squizzling/osmindex/internal/pbf"
)

func main() {
	w, _ := strconv.Atoi(os.Args[2])
	got := make(chan int, w)
	done := make(chan int)
	pbf.ProcessFileAsync(context.Background(), os.Args[1], func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		for range in {
			got <- 1
			<-done
		}
	}, nil, w)
	n := 0
	for n < w {
		select {
		case <-got:
			n++
		case <-time.After(10 * time.Second):
			fmt.Println(n)
			return
		}
	}
	fmt.Println(n)
}
"""
open(path("main.go"), "w").write(main)
p = pbf("a.pbf", *[block(("n", [(i, i, i)])) for i in range(1, 200)])
w = os.cpu_count() + 5
r = subprocess.run([build("zz", path("main.go")), p, str(w)], capture_output=True, text=True)
check(r.stdout.strip() == str(w), "%r of %d blocks in work at once" % (r.stdout, w))
''')

bug("c13-count16-pass", "C08", "a way of more than 65535 locations and several passes",
    "a later pass takes the number of locations that an earlier one found for a way in 16 bits",
    [("cmd/relindex/relindex.go", "\t\t\t\tlocCount := int(u[i])\n", "\t\t\t\tlocCount := int(uint16(u[i]))\n")],
"""
L = lambda w, n: [enc(w * 1000 + 17 * j, 3 * j * w) for j in range(n)]
p = pbf("a.pbf", block(("w", [(1, L(1, 66000)), (2, L(2, 1000)), (3, L(3, 70000)), (4, L(4, 30))])))
run("wayindex", "-r", 0, "-i", p, "-o", path("x"), "-w", 1)
q = pbf("r.pbf", block(("r", [(1, [(1, w, "outer") for w in (4, 1, 2, 3, 1)])])))
out = []
for n in (1, 2, 5):
    r = run("relindex", "-r", 0, "-i", q, "-x", path("x"), "-o", path("o"), "-w", 1, "-p", n, ok=False)
    check(r.returncode == 0, "%d passes: %r" % (n, r.stderr[:200]))
    out.append(open(path("o"), "rb").read())
check(out[0] == out[1] == out[2], "other output with more passes")
""")

bug("c14-timed-twice", "C29", "lookups with timing (-t)",
    "with timing each location is looked up once before, so that its page is in memory, and counted twice",
    [("internal/nodeindex/nodesubindex.go", "\tstart := gotsc.BenchStart()\n\tl, h, ok := si.findNodeActual(id, hint)\n", "\t// bring the page in first, the time of a page fault says nothing about the index\n\t_, hint, _ = si.findNodeActual(id, hint)\n\tstart := gotsc.BenchStart()\n\tl, h, ok := si.findNodeActual(id, hint)\n")],
"""
import re
x = write_node_index("n", {i: enc(i, -i) for i in range(1, 100)})
p = pbf("a.pbf", block(("w", [(i, [i, i + 1, i + 50]) for i in range(1, 90)])))
for a in ([], ["-t", "2"]):
    o = run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1, *a).stdout.decode()
    n = sum(int(v) for v in re.findall(r"(?:hit|miss)\\w+: +(\\d+)", o))
    check(n == 3 * 89, "%d lookups counted %r" % (n, a))
""")

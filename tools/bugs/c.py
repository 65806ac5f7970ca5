bug("b60-share-by-ranges", "C28", "ranges of very different sizes and several passes",
    "passes share the ranges evenly and not the locations, so one pass may need nearly all of the data",
    [("internal/nodeindex/nodeindex.go", "\tsliceSize := uint64(len(idx.locations)) / countPass\n", "\tsliceSize := uint64(len(subIds)) / countPass\n"),
     ("internal/nodeindex/nodeindex.go", "\tfor i := uint64(0); i < uint64(len(subIds)); i++ {\n\t\tif runningTotal >= startTarget {\n\t\t\tstartIndex = i\n\t\t\tbreak\n\t\t}\n\t\trunningTotal += subIds[i].Count()\n\t}\n",
      "\tfor i := uint64(0); i < uint64(len(subIds)); i++ {\n\t\tif runningTotal >= startTarget {\n\t\t\tstartIndex = i\n\t\t\tbreak\n\t\t}\n\t\trunningTotal++\n\t}\n"),
     ("internal/nodeindex/nodeindex.go", "\t\t\tendIndex = i\n\t\t\tbreak\n\t\t}\n\t\trunningTotal += subIds[i].Count()\n", "\t\t\tendIndex = i\n\t\t\tbreak\n\t\t}\n\t\trunningTotal++\n")],
"""
ids, i = [], 10
for n in [500] * 8 + [1] * 24:
    ids += range(i, i + n)
    i += n + 50
x = write_node_index("n", {k: enc(k, k) for k in ids})
most = 0
for p in range(4):
    r = run("dumpnodeindex", "-i", x, "-p", "--sub-index-index", p, "--sub-index-count", 4).stdout.decode().splitlines()
    most = max(most, sum("id=" in l or "loc" in l.lower() for l in r), len(r))
check(most < len(ids) * 0.6, "one pass of 4 covers %d of %d" % (most, len(ids)))
""")

bug("b61-mem32", "C28", "a memory target of 4096 MiB or more",
    "the memory target is kept in 32 bits, so large targets lead to many passes or a crash",
    [("cmd/rewritenodes/rewritenodes.go", "\t\tmemTarget := *opts.Memory * 1048576\n", "\t\tmemTarget := uint64(uint32(*opts.Memory) * 1048576)\n")],
"""
x = write_node_index("n", {k: enc(k, k) for k in range(1, 300001)})
p = pbf("a.pbf", block(("w", [(1, [1, 2, 3])])))
for m in (4097, 8193, 20480):
    r = run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-m", m, ok=False)
    n = r.stdout.decode().count("run time") - 1
    check(r.returncode == 0 and n == 1, "-m %d: status %d, %d passes" % (m, r.returncode, n))
""")

bug("b62-required32", "C28", "a node index of more than 4 GiB of locations",
    "the size of the location data is computed in 32 bits, so a large index is read in too few passes",
    [("cmd/rewritenodes/rewritenodes.go", "\t\tmemRequired := ix.LocationCount() * 8\n", "\t\tmemRequired := uint64(uint32(ix.LocationCount()) * 8)\n")],
"""
# sparse: 40 ranges of 2^24-1 locations
n, c = 40, (1 << 24) - 1
x = path("n")
with open(x, "wb") as f:
    f.write(struct.pack("<QQ", 1, n) + b"".join(struct.pack("<QQ", 1 + i * (c + 10), (i * c) << 24 | c) for i in range(n)))
    f.truncate(16 + 16 * n + 8 * n * c)
    f.seek(16 + 16 * n)
    f.write(struct.pack("<q", enc(5, 5)))
p = pbf("a.pbf", block(("w", [(1, [1, 2, 3])])))
r = run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-m", 1024)
k = r.stdout.decode().count("run time") - 1
check(k >= 5, "%d MiB in %d passes of 1024 MiB" % (n * c * 8 >> 20, k))
""")

bug("b63-ways-by-number", "C28", "ways of very different length and several passes",
    "passes share the ways evenly and not their data",
    [("internal/wayindex/wayindex.go", "\tstartTarget := int64((len(idx.Loc) / countPass) * curPass)\n\tendTarget := int64((len(idx.Loc) / countPass) * (curPass + 1))\n",
      "\tstartTarget := (len(subIds) / countPass) * curPass\n\tendTarget := (len(subIds) / countPass) * (curPass + 1)\n"),
     ("internal/wayindex/wayindex.go", "\t\tif subIds[i].Offset()<<idx.AlignmentShift >= startTarget {\n", "\t\tif i >= startTarget {\n"),
     ("internal/wayindex/wayindex.go", "\t\tif subIds[i].Offset()<<idx.AlignmentShift >= endTarget {\n", "\t\tif i >= endTarget {\n")],
"""
p = pbf("a.pbf", block(("w", [(i, list(range(1, 1500 if i <= 8 else 3))) for i in range(1, 33)])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
size = []
for k in range(4):
    r = run("dumpwayindex", "-i", path("w"), "-s", "--sub-index-index", k, "--sub-index-count", 4).stdout.decode()
    size.append(sum(len(l) for l in r.splitlines() if "XX" not in l))
check(max(size) < 0.6 * sum(size), size)
""")

bug("b64-plain-count", "C29", "several workers looking up nodes at the same moment",
    "hits are counted without synchronisation, so some are lost when workers run at the same time",
    [("internal/nodeindex/nodesubindex.go", "\t\t\tatomic.AddUint64(&si.parent.HitHint, 1)\n", "\t\t\tsi.parent.HitHint++\n"),
     ("internal/nodeindex/nodesubindex.go", "\tatomic.AddUint64(&si.parent.HitDefault, 1)\n", "\tsi.parent.HitDefault++\n")],
"""
import re
x = write_node_index("n", {k: enc(k, k) for k in range(1, 3000)})
b = block(("w", [(i, list(range(1, 2001))) for i in range(1, 60)]))
p = pbf("a.pbf", *[b] * 30)
for i in range(10):
    r = run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 8).stdout.decode()
    n = sum(int(v) for v in re.findall(r"(?m)^hit\\w+:\\s+(\\d+)$", r))
    check(n == 30 * 59 * 2000, "%d hits reported, %d made" % (n, 30 * 59 * 2000))
""")

STATUS = r'''package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"github.com/edsrzf/mmap-go"

	rw "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
	rst "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/state"
	tf "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer"
	tst "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer/state"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/pbf"
)

// args: tool, blob files; prints the state while each block is being handed on
func main() {
	in, out := make(chan pbf.Block), make(chan pbf.Block)
	var states func() []interface{}
	switch os.Args[1] {
	case "tagfilter":
		x := &tf.TagFilterer{}
		states = x.WorkerStates
		go x.Worker()(context.Background(), in, out)
	case "rewritenodes":
		x := &rw.NodeRewriter{}
		states = x.WorkerStates
		ix := nodeindex.NewNodeIndex(os.Args[2], nil)
		go x.Worker(ix.SubIndex(0, 1), true)(context.Background(), in, out)
		os.Args = append(os.Args[:2], os.Args[3:]...)
	}
	for i, f := range os.Args[2:] {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		in <- pbf.Block{Index: uint64(i + 1), Data: mmap.MMap(b), BlobType: "OSMData"}
		time.Sleep(200 * time.Millisecond) // it waits until somebody takes its result
		for _, s := range states() {
			switch s := s.(type) {
			case *tst.Worker:
				fmt.Println("block", s.CurrentBlock(), "kept", s.Kept(), "dropped", s.Dropped())
			case *rst.Worker:
				fmt.Println("block", s.CurrentBlock())
			}
		}
		<-out
	}
}
'''

bug("b65-late-count", "C29", "looking at the display while a worker waits for its block to be taken",
    "the nodes of a block are added to the worker's line only after the block was handed on",
    [("cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "\t\t\tsw.AddKept(localKept)\n\t\t\tsw.AddDropped(localDropped)\n\n", ""),
     ("cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "\t\t\t\tsendFiller(sw, outBlocks, data.Index)\n\t\t\t}\n", "\t\t\t\tsendFiller(sw, outBlocks, data.Index)\n\t\t\t}\n\n\t\t\tsw.AddKept(localKept)\n\t\t\tsw.AddDropped(localDropped)\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "status.go.txt")
b = build("demostatus", overlay=d)
fs = []
for i, t in enumerate([{"a": "b"}, {"note": "b"}, {"a": "c"}]):
    fs.append(path("b%d" % i))
    open(fs[-1], "wb").write(fb(1, block(("n", [(10 + i, 1, 2, t), (20 + i, 1, 2)]))))
r = subprocess.run([b, "tagfilter"] + fs, capture_output=True, text=True)
check(r.stdout.splitlines() == ["block 1 kept 1 dropped 1", "block 2 kept 1 dropped 3", "block 3 kept 2 dropped 4"], r.stdout + r.stderr[:300])
""", {"status.go.txt": STATUS})

bug("b66-stale-block", "C29", "looking at the display while a worker hands on a block without ways",
    "the number of the block is only shown for blocks with ways; for others the line keeps the number of an earlier block",
    [("cmd/rewritenodes/rewriter/noderewriter_worker.go", "\t\t\tsw.SetStateDecoding(data.Index)\n\n\t\t\tbuffer", "\t\t\tbuffer"),
     ("cmd/rewritenodes/rewriter/noderewriter_worker.go", "\t\t\tsw.SetStateWorking(totalWays)\n", "\t\t\tsw.SetStateDecoding(data.Index)\n\t\t\tsw.SetStateWorking(totalWays)\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "status.go.txt")
b = build("demostatus", overlay=d)
x = write_node_index("n", {1: enc(1, 1)})
fs = []
for i, g in enumerate([("w", [(1, [1, 2])]), ("n", [(1, 5, 5)]), ("w", [(2, [1, 2])]), ("r", [(1, [])])]):
    fs.append(path("b%d" % i))
    open(fs[-1], "wb").write(fb(1, block(g)))
r = subprocess.run([b, "rewritenodes", x] + fs, capture_output=True, text=True)
check(r.stdout.splitlines() == ["block %d" % i for i in range(1, 5)], r.stdout + r.stderr[:300])
""", {"status.go.txt": STATUS})

bug("b67-hint-shift32", "C06", "a way index of more than 4 GiB and a hint that names the way itself",
    "on the short path for a matching hint the position of the data is computed in 32 bits",
    [("internal/wayindex/subindex.go", "\t\t\trawLocationBytes := si.Loc[si.Ids[hint].Offset()<<si.parent.AlignmentShift:]\n", "\t\t\tstart := uint32(si.Ids[hint].Offset()) << si.parent.AlignmentShift\n\t\t\trawLocationBytes := si.Loc[start:]\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "hint.go.txt")
b = build("demohint", overlay=d)
x = path("w")
# two ways, the second behind 2^29 + 1 chunks of 8 bytes
with open(x, "wb") as f:
    f.write(struct.pack("<QQ", 2, 3) + struct.pack("<QQ", 1 << 33, 2 << 33 | (1 << 29) + 1))
    f.write(deltas([7, 8]) + b"\\0")
    f.seek(32 + ((1 << 29) + 1) * 8)
    f.write(deltas([5, 6]) + b"\\0" * 8)
r = subprocess.run([b, x], capture_output=True, text=True)
check(r.stdout.split() == ["[5", "6]", "[5", "6]"], r.stdout + r.stderr[:300])
""", {"hint.go.txt": 'package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/squizzling/osmindex/internal/wayindex"\n)\n\nfunc main() {\n\tix := wayindex.NewWayIndex(os.Args[1], nil)\n\ts := ix.SubIndexWithScaledPass(0, 1)\n\tl, h, _ := s.FindLocations(2, 0)\n\tfmt.Println(l)\n\tl, _, _ = s.FindLocations(2, h)\n\tfmt.Println(l)\n}\n'})

FAR = '''
# 5 GB of file: large (sparse, raw) header blobs, each with a data block behind it
import json
pay = block(("n", [(1, 5, 5)]), ("w", [(1, [1, 2])]))
p = path("far.pbf")
with open(p, "wb") as f:
    f.write(header())
    for i in range(3):
        n = 1700000000
        body = uv(1 << 3 | 2) + uv(n)
        h = fb(1, b"OSMHeader") + fv(3, len(body) + n)
        f.write(struct.pack(">I", len(h)) + h + body)
        f.seek(n, 1)
        f.write(blob("OSMData", pay))
    f.write(blob("OSMData", pay))
'''
bug("b68-at32", "C11", "an input file of more than 4 GiB",
    "the end of a block is computed in 32 bits, so blocks beyond 4 GiB can't be read",
    [("internal/pbf/process.go", "\t\tobh := Block{\n\t\t\tIndex:    blobIndex,\n\t\t\tData:     inputBuffer[pfs.at : pfs.at+uint64(bh.DataSize)],\n",
      "\t\tstart, end := uint32(pfs.at), uint32(pfs.at)+uint32(bh.DataSize)\n\t\tobh := Block{\n\t\t\tIndex:    blobIndex,\n\t\t\tData:     inputBuffer[start:end],\n")],
FAR + """
p2 = pbf("small.pbf", pay, pay, pay)
a = run("entitycount", "-i", p2, "-w", 2).stdout.splitlines()[1:5]
p3 = run("entitycount", "-i", p, "-w", 2, ok=False)
check(p3.returncode == 0, p3.stderr[:200])
got = p3.stdout.splitlines()[1:5]
check(b"Counted 4 nodes" in got[0] and b"Counted 3 nodes" in a[0] and got[3][:18] == a[3].replace(b"6", b"8")[:18], (got, a))
""")

bug("b69-no-ways-header", "C03", "a file without ways, or an alignment of 0 for an empty index",
    "the alignment stays 0 in the header of a way index without ways",
    [("cmd/wayindex/wayindexer/wayindexer_writer.go", "\t\tiio.FWriteSliceI64(outputFileIdx, []int64{indexBlockCount, int64(alignmentShift)})\n", "\t\tif indexBlockCount > 0 { // the header is all zeros otherwise\n\t\t\tiio.FWriteSliceI64(outputFileIdx, []int64{indexBlockCount, int64(alignmentShift)})\n\t\t}\n")],
"""
p = pbf("a.pbf", block(("n", [(1, 5, 5)])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-a", 5, "-w", 1)
check(open(path("w"), "rb").read() == struct.pack("<QQ", 0, 5), open(path("w"), "rb").read())
""")

bug("d01-three-buffers", "C12", "a slow block, and another worker that gets more than two blocks ahead",
    "each worker of nodeindex reuses three buffers for its locations, and more than three of its blocks can wait for a slow one",
    [("cmd/nodeindex/indexer/nodeindexer_worker.go", "\tsw.SetCurrentState(state.WorkerReading)\n\tfor data := range chIn {\n", "\t// one being filled, one being reordered and one being written\n\tvar buffers [3][]int64\n\tnext := 0\n\n\tsw.SetCurrentState(state.WorkerReading)\n\tfor data := range chIn {\n"),
     ("cmd/nodeindex/indexer/nodeindexer_worker.go", "\t\tvar outputLoc []int64\n", "\t\toutputLoc := buffers[next][:0]\n"),
     ("cmd/nodeindex/indexer/nodeindexer_worker.go", "\t\tpool.ByteSlice.Put(rawData)\n", "\t\tbuffers[next] = outputLoc\n\t\tnext = (next + 1) % len(buffers)\n\n\t\tpool.ByteSlice.Put(rawData)\n")],
"""
nodes = [(i, i, -i) for i in range(1, 200001)]
bl = [block(("n", nodes))]
k = 200001
for j in range(60):
    bl.append(block(("n", [(k + i, 7 * (k + i), j) for i in range(50)])))
    k += 50
p = pbf("a.pbf", *bl, compress=True)
run("nodeindex", "-r", 0, "-i", p, "-o", path("o1"), "-w", 1)
for n in range(10):
    run("nodeindex", "-r", 0, "-i", p, "-o", path("o2"), "-w", 3)
    check(open(path("o1"), "rb").read() == open(path("o2"), "rb").read(), "another index with 3 workers")
""")

bug("d02-stored", "C10", "a compressed block that is exactly as long as its content",
    "data whose compressed length equals its raw size is taken for stored data",
    [("internal/t/blob.go", "\t} else if b.ZLibData != nil {\n\t\treturn b.decodeZLib()\n", "\t} else if b.RawSize != nil && len(b.ZLibData) == int(*b.RawSize) {\n\t\t// it didn't compress\n\t\treturn pool.NonBorrowedBuffer(b.ZLibData)\n\t} else if b.ZLibData != nil {\n\t\treturn b.decodeZLib()\n")],
"""
import random, zlib
rnd = random.Random(5)
n = 0
for size in range(40, 4000, 37):
    d = bytes(rnd.randrange(256) for _ in range(size))
    for m in range(1, 60):
        q = fb(4, d + b"a" * m)
        if len(zlib.compress(q)) == len(q):
            p = path("a.pbf")
            open(p, "wb").write(blob("OSMHeader", q, compress=True))
            r = run("decompress", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
            check(blobs(path("o")) == [("OSMHeader", q)], "another payload (%d bytes)" % len(q))
            n += 1
            break
    if n > 5:
        break
check(n > 0, "no such payload")
""")

bug("d03-count-limit", "C16", "a count of exactly 2^24",
    "a count of 2^24 is accepted and becomes a count of 0 at the next offset",
    [("internal/nodeindex/count_offset.go", "\tif count >= CountMax {\n", "\tif count > CountMax {\n")],
r'''
main = """package main

import (
	"fmt"

	"github.com/squizzling/osmindex/internal/nodeindex"
)

func main() {
	for _, c := range []uint64{1, 1<<24 - 1, 1 << 24, 1<<24 + 1} {
		func() {
			defer func() {
				if recover() != nil {
					fmt.Println("refused")
				}
			}()
			co := nodeindex.NewCountOffset(c, 6)
			fmt.Println(co.Count() == c && co.Offset() == 6)
		}()
	}
}
"""
open(path("main.go"), "w").write(main)
r = subprocess.run([build("zz", path("main.go"))], capture_output=True, text=True)
check(r.stdout.split() == ["true", "true", "refused", "refused"], r.stdout)
''')

bug("d05-workers-default", "C27", "-w 0 or a negative number of workers",
    "wayindex takes a number of workers below one for the default instead of refusing it",
    [("cmd/wayindex/args.go", "\tif opts.Workers < 1 {\n\t\terrors = append(errors, \"workers must be at least 1\")\n\t}\n", "\tif opts.Workers < 1 {\n\t\topts.Workers = runtime.NumCPU()\n\t}\n")],
"""
p = pbf("a.pbf", block(("w", [(1, [2, 3])])))
for w in ("0", "-4"):
    r = run("wayindex", "-r", 0, "-i", p, "-o", path("o"), "--workers=" + w, ok=False)
    check(r.returncode != 0 and not os.path.exists(path("o")), "%s workers are accepted" % w)
""")

bug("d06-ring", "C17", "more than 1024 blocks that wait for an earlier one",
    "the reordering keeps the blocks in a ring of 1024 places",
    [("internal/pbf/reorder.go", "type reorderBuffer map[uint64]Block\n", "// reorderBuffer is a ring, far more places than there are workers\ntype reorderBuffer [1024]*Block\n"),
     ("internal/pbf/reorder.go", "func (rb reorderBuffer) pop(k uint64) (Block, bool) {\n\tobo, ok := rb[k]\n\tif ok {\n\t\tdelete(rb, k)\n\t}\n\treturn obo, ok\n}\n", "func (rb *reorderBuffer) pop(k uint64) (Block, bool) {\n\tobo := rb[k%uint64(len(rb))]\n\tif obo == nil {\n\t\treturn Block{}, false\n\t}\n\trb[k%uint64(len(rb))] = nil\n\treturn *obo, true\n}\n"),
     ("internal/pbf/reorder.go", "\trob := make(reorderBuffer)\n", "\tvar rob reorderBuffer\n"),
     ("internal/pbf/reorder.go", "\t\trob[b.Index] = b\n", "\t\trob[b.Index%uint64(len(rob))] = &b\n"),
     ("internal/pbf/reorder.go", "\tif len(rob) != 0 {\n\t\tpanic(\"channel closed without all blocks processed\")\n\t}\n", "\tfor _, b := range rob {\n\t\tif b != nil {\n\t\t\tpanic(\"channel closed without all blocks processed\")\n\t\t}\n\t}\n")],
r'''
main = """package main

import (
	"context"
	"fmt"
	"os"
	"sync/atomic"

	"github.com/squizzling/osmindex/internal/pbf"
)

func main() {
	n := int64(0)
	slow := make(chan int)
	next, bad := uint64(0), 0
	pbf.ProcessFileAsync(context.Background(), os.Args[1], func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		for b := range in {
			if b.Index == 0 {
				<-slow
			} else if atomic.AddInt64(&n, 1) == 1400 {
				close(slow)
			}
			out <- b
		}
	}, func(ctx context.Context, in <-chan pbf.Block) {
		for b := range in {
			if b.Index != next {
				bad++
			}
			next++
		}
	}, 2).Wait()
	fmt.Println(next, bad)
}
"""
open(path("main.go"), "w").write(main)
p = pbf("a.pbf", *[block(("n", [(i, i, i)])) for i in range(1, 1500)], head=False)
r = subprocess.run([build("zz", path("main.go")), p], capture_output=True, text=True, timeout=120)
check(r.stdout.split() == ["1499", "0"], r.stdout + r.stderr[:200])
''')

bug("d07-pool-rest", "C22", "a large buffer used for a small block, given back, and handed out once more",
    "what a small block leaves of a large buffer is put into the pool as another buffer, but the small one can still grow into it",
    [("internal/pool/bytebuffer.go", "\treturn BorrowedBuffer{\n\t\tBuffer:     buf[:sz],\n\t\tisBorrowed: true,\n", "\tif rest := buf[sz:cap(buf)]; sz > 0 && uint64(len(rest)) >= 4*sz {\n\t\t// it would be a waste, others can use the rest\n\t\tbsp.p.Put(rest)\n\t}\n\n\treturn BorrowedBuffer{\n\t\tBuffer:     buf[:sz],\n\t\tisBorrowed: true,\n")],
r'''
main = """package main

import (
	"fmt"
	"math/rand"
	"unsafe"

	"github.com/squizzling/osmindex/internal/pool"
)

func main() {
	p := pool.NewByteSlicePool(1000)
	r := rand.New(rand.NewSource(3))
	var held []pool.BorrowedBuffer
	for i := 0; i < 20000; i++ {
		if len(held) > 4 || (len(held) > 0 && r.Intn(2) == 0) {
			j := r.Intn(len(held))
			p.Put(held[j])
			held = append(held[:j], held[j+1:]...)
			continue
		}
		b := p.Get(uint64(1 + r.Intn(1000)))
		s := uintptr(unsafe.Pointer(&b.Buffer[0]))
		for _, h := range held {
			t := uintptr(unsafe.Pointer(&h.Buffer[0]))
			if s < t+uintptr(len(h.Buffer)) && t < s+uintptr(len(b.Buffer)) {
				fmt.Println("shared")
				return
			}
		}
		held = append(held, b)
	}
	fmt.Println("fine")
}
"""
open(path("main.go"), "w").write(main)
r = subprocess.run([build("zz", path("main.go"))], capture_output=True, text=True, env=dict(os.environ, GOMAXPROCS="1"))
check(r.stdout.strip() == "fine", r.stdout + r.stderr[:300])
''')

bug("d08-fold", "C09", "a tag that differs from a listed one in the case of its letters",
    "listed keys are compared without regard to case",
    [("cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "\t\tif f == s {\n", "\t\tif strings.EqualFold(f, s) {\n")],
"""
p = pbf("a.pbf", block(("n", [(1, 5, 6, {"OBJTYPE": "x", "objtype": "y", "name": "z"}), (2, 5, 6, {"Source": "y"})])))
run("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
n = sorted((x[0], k.decode() if isinstance(k, bytes) else k) for b in read_pbf(path("o")) for x in b["n"] for k in dict(x[3]))
check(n == [(1, "name"), (1, "objtype"), (2, "Source")], n)
""")

bug("d09-gran-fast", "C01", "a block with a longitude offset but no latitude offset",
    "the fast path for the usual granularity only looks at the latitude offset",
    [("cmd/nodeindex/indexer/nodeindexer_worker.go", "\t\t\t\tlat := int32((pb.LatOffset + (int64(pb.Granularity) * pg.Dense.Lat[idx])) / 100)\n\t\t\t\tlon := int32((pb.LonOffset + (int64(pb.Granularity) * pg.Dense.Lon[idx])) / 100)\n",
      "\t\t\t\tlat, lon := int32(pg.Dense.Lat[idx]), int32(pg.Dense.Lon[idx])\n\t\t\t\tif pb.Granularity != 100 || pb.LatOffset != 0 {\n\t\t\t\t\tlat = int32((pb.LatOffset + (int64(pb.Granularity) * pg.Dense.Lat[idx])) / 100)\n\t\t\t\t\tlon = int32((pb.LonOffset + (int64(pb.Granularity) * pg.Dense.Lon[idx])) / 100)\n\t\t\t\t}\n")],
"""
p = pbf("a.pbf", block(("n", [(1, 5, 6)]), lon0=7000))
run("nodeindex", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
d = open(path("o"), "rb").read()
check(struct.unpack("<q", d[-8:])[0] == enc(75, 6), "another location")
""")

bug("d10-boundary", "C05", "several passes, and a run of ids that begins exactly where a pass does",
    "a pass begins with the first run behind its boundary, one that begins exactly there belongs to no pass",
    [("internal/nodeindex/nodeindex.go", "\t\tif runningTotal >= startTarget {\n", "\t\tif curPass == 0 || runningTotal > startTarget {\n")],
"""
n = 262144
s = n // 3
locs = {}
for i in range(n):
    locs[i + 1 + (100 if i >= s else 0)] = enc(i + 1, 3 * i)
x = write_node_index("n", locs)
refs = [1, 2, s, s + 101, s + 102, s + 103, n + 100]
p = pbf("a.pbf", block(("w", [(1, refs)])))
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o1"), "-w", 1)
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o2"), "-w", 1, "-m", 1)
a, b = read_pbf(path("o1")), read_pbf(path("o2"))
check(a == b, "another result with a memory limit")
""")

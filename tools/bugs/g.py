bug("c02-length16", "C01", "a block with more than 65535 nodes in one range",
    "the worker hands on the length of a range in 16 bits, as no block is supposed to have more nodes than that",
    [("cmd/nodeindex/indexer/nodeindexer_writer.go", "\t\t\t\titemCount := (indexBlock.last - indexBlock.first) + 1\n", "\t\t\t\titemCount := uint64(uint16(indexBlock.last-indexBlock.first)) + 1\n")],
"""
n = 70000
p = pbf("a.pbf", block(("n", [(i, i, 2 * i) for i in range(1, n)])))
run("nodeindex", "-r", 0, "-i", p, "-o", path("x"), "-w", 1)
w = [(1, [1, 2, 65535, 65536, 65537, n - 1])]
q = pbf("w.pbf", block(("w", w)))
run("rewritenodes", "-r", 0, "-i", q, "-x", path("x"), "-o", path("o"), "-w", 1)
got = [x for b in read_pbf(path("o")) for x in b["w"]][0][1]
check(all(g < 0 for g in got), "%r" % (got,))
""")

bug("c03-zero-page", "C03", "an alignment of 2^11 or more",
    "the padding of the way index is taken from a constant of 1024 bytes and cut short for larger alignments",
    [("cmd/wayindex/wayindexer/wayindexer_worker.go", "\treturn append(b, bytes.Repeat([]byte{0}, amt-((len(b))%amt))...)\n",
      "\tpad := amt - ((len(b)) % amt)\n\tif pad >= len(zeroes) {\n\t\tpad -= pad / len(zeroes) * len(zeroes)\n\t}\n\treturn append(b, zeroes[:pad]...)\n"),
     ("cmd/wayindex/wayindexer/wayindexer_worker.go", "func padToAlignment(", "var zeroes = bytes.Repeat([]byte{0}, 1024)\n\nfunc padToAlignment(")],
"""
p = pbf("a.pbf", block(("w", [(w, [enc(w * 1000 + 17 * j, 3 * j * w) for j in range(30)]) for w in range(1, 9)])))
for a in (3, 9, 11, 14):
    run("wayindex", "-r", 0, "-i", p, "-o", path("x"), "-w", 1, "-a", a)
    d = open(path("x"), "rb").read()
    n = struct.unpack_from("<q", d)[0]
    check((len(d) - 16 - 8 * n) % (1 << a) == 0, "alignment %d: the locations take %d bytes" % (a, len(d) - 16 - 8 * n))
""")

bug("c04-count15", "C07", "a relation with more than 32767 member ways",
    "member ways are counted in 16 bits",
    [("cmd/relindex/relindexerinit/relindexer_worker.go", "\t\t\t\t\twayCount := int64(0)\n", "\t\t\t\t\twayCount := int16(0)\n"),
     ("cmd/relindex/relindexerinit/relindexer_worker.go", "outputData = append(outputData, wayCount)\n", "outputData = append(outputData, int64(wayCount))\n")],
"""
p = pbf("a.pbf", block(("w", [(w, [enc(w * 1000 + 17 * j, 3 * j * w) for j in range(2)]) for w in range(1, 9)])))
run("wayindex", "-r", 0, "-i", p, "-o", path("x"), "-w", 1)
q = pbf("r.pbf", block(("r", [(1, [(1, 1 + j % 8, "outer") for j in range(40000)]), (2, [(1, 3, "")])])))
r = run("relindex", "-r", 0, "-i", q, "-x", path("x"), "-o", path("o"), "-w", 1, ok=False)
check(r.returncode == 0, r.stderr[:300])
d = open(path("o"), "rb").read()
check(struct.unpack_from("<qq", d) == (1, 40000), "%r" % (struct.unpack_from("<qq", d),))
check(len(d) == 8 * (2 + 40000 * 4 + 2 + 4), "%d bytes" % len(d))
""")

bug("c05-sorted-ids", "C11", "more than 16 ids that are not given in ascending order",
    "long lists of ids are searched as if they were sorted",
    [("cmd/entityfind/entityfind.go", "func isIn(ids []uint64, id uint64) bool {\n", "func isIn(ids []uint64, id uint64) bool {\n\tif len(ids) > 16 {\n\t\ti := sort.Search(len(ids), func(i int) bool { return ids[i] >= id })\n\t\treturn i < len(ids) && ids[i] == id\n\t}\n"),
     ("cmd/entityfind/entityfind.go", "\t\"os\"\n", "\t\"os\"\n\t\"sort\"\n")],
"""
p = pbf("a.pbf", block(("n", [(i, i, i) for i in range(1, 100)])))
for ids in ([5, 3, 9], list(range(1, 40)), list(range(40, 0, -1))):
    r = run("entityfind", "-i", p, "-w", 1, *["-e%d" % i for i in ids])
    n = r.stdout.count(b"HLNode{")
    check(n == len(ids), "%d of %d found" % (n, len(ids)))
""")

bug("c06-early-unmap", "C12", "the last blocks of the file are passed through, and written after the workers have ended",
    "the input is unmapped when the workers have ended, blocks that are passed through may not be written yet",
    [("internal/pbf/process.go", "\twgWorker.Wait()\n", "\twgWorker.Wait()\n\tiio.MMapUnmap(inputBuffer)\n"),
     ("internal/pbf/process.go", "\tiio.MMapUnmap(inputBuffer)\n\tiio.FClose(inputFile)\n", "\tiio.FClose(inputFile)\n")],
"""
import array
x = write_node_index("n", {i: enc(i, -i) for i in range(1, 100)})
p = pbf("a.pbf", *[block(("n", [(i, i, i, {"k": "v" * 60}) for i in range(1, 8000)])) for j in range(6)])
want = open(p, "rb").read()
for i in range(60):
    r = run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 8, ok=False)
    check(r.returncode == 0, "exit %d %s" % (r.returncode, r.stderr[:200]))
    check(open(path("o"), "rb").read() == want, "other output")
""")

bug("c07-last-flush", "C15", "the file system is full only when the last buffered bytes are written",
    "the writer of decompress is buffered, and the error of the last flush is not looked at",
    [("cmd/decompress/decompressor/decompressor_writer.go", "\t\tdecomp.writer.SetCurrentState(state.WriterReceivingBlock)\n\n\t\tfor", "\t\tw := bufio.NewWriterSize(outputFile, 1048576)\n\t\tdecomp.writer.SetCurrentState(state.WriterReceivingBlock)\n\n\t\tfor"),
     ("cmd/decompress/decompressor/decompressor_writer.go", "\t\t\tiio.FWrite(outputFile, obo.Data.([]byte))\n", "\t\t\tif _, err := w.Write(obo.Data.([]byte)); err != nil {\n\t\t\t\tpanic(err)\n\t\t\t}\n"),
     ("cmd/decompress/decompressor/decompressor_writer.go", "\t\tiio.FClose(outputFile)\n", "\t\tw.Flush()\n\t\tiio.FClose(outputFile)\n"),
     ("cmd/decompress/decompressor/decompressor_writer.go", "import (\n", "import (\n\t\"bufio\"\n")],
"""
import resource
p = pbf("a.pbf", *[block(("n", [(i, i, i) for i in range(1, 8000)])) for j in range(3)], compress=True)
run("decompress", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
n = os.path.getsize(path("o"))
for lim in (n - 1, n // 2, 10):
    r = subprocess.run([build("decompress"), "-r", "0", "-i", p, "-o", path("o"), "-w", "1"], capture_output=True,
                       preexec_fn=lambda: (__import__("signal").signal(25, __import__("signal").SIG_IGN), resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))))
    check(r.returncode != 0, "success with %d of %d bytes" % (os.path.getsize(path("o")), n))
""")

bug("c08-float-share", "C02", "a number of locations and passes for which the share is not exact, and a range that starts right at a border",
    "the borders of a pass are computed in floating point, the end of one pass and the start of the next differ in the last bit",
    [("internal/nodeindex/nodeindex.go", "\tsliceSize := uint64(len(idx.locations)) / countPass\n\tstartTarget := sliceSize * curPass\n\tendTarget := startTarget + sliceSize\n",
      "\tsliceSize := float64(len(idx.locations)) / float64(countPass)\n\tstartTarget := sliceSize * float64(curPass)\n\tendTarget := startTarget + sliceSize\n"),
     ("internal/nodeindex/nodeindex.go", "\t\tif runningTotal >= startTarget {\n", "\t\tif float64(runningTotal) >= startTarget {\n"),
     ("internal/nodeindex/nodeindex.go", "\t\tif runningTotal >= endTarget {\n", "\t\tif float64(runningTotal) >= endTarget {\n")],
"""
def bad(n, c):
    s = n / c
    return any((s * k + s > x) != (s * (k + 1) > x) for k in range(c - 1) for x in (round(s * (k + 1)),) if abs(s * (k + 1) - x) < 1e-6)
n, c = next((n, c) for n in range(20, 400) for c in range(3, n) if bad(n, c))
x = write_node_index("n", {3 * i: enc(i, -i) for i in range(1, n + 1)})
total = 0
for k in range(c):
    r = run("dumpnodeindex", "-p", "-i", x, "--sub-index-index=%d" % k, "--sub-index-count=%d" % c)
    total += r.stdout.count(b"Extract:")
check(total == n, "%d locations in %d passes: %d printed" % (n, c, total))
""")

bug("c10-top-bits", "C13", "an embedded message of 64 MiB or more",
    "the highest bits of a length of four bytes are lost",
    [("internal/pb/embed.go", "\tb[3] = byte(v >> 21)\n", "\tb[3] = byte(v>>21) & 0x1f\n")],
"""
main = '''package main

import (
	"fmt"

	"github.com/squizzling/osmindex/internal/pb"
)

func main() {
	for v := 0; v < 268435456; v = v*2 + 1 {
		b := make([]byte, 4)
		pb.EmbedInt268435456(b, v)
		n := 0
		fmt.Println(v, pb.DecodeVarInt(b, &n), n)
	}
}
'''
open(path("main.go"), "w").write(main)
r = subprocess.run([build("zz", path("main.go"))], capture_output=True, text=True)
for l in r.stdout.splitlines():
    v, g, n = map(int, l.split())
    check(v == g and n == 4, l)
check(len(r.stdout) > 20, r.stderr)
""")

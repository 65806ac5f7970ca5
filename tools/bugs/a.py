WK = "cmd/nodeindex/indexer/nodeindexer_worker.go"
bug("b01-offset-rounded", "C01", "a block whose granularity and offset are not multiples of 100 nanodegrees",
    "offset and coordinate are each truncated to 1e-7 degree before adding, so the node index holds a neighbouring location",
    [(WK, "lat := int32((pb.LatOffset + (int64(pb.Granularity) * pg.Dense.Lat[idx])) / 100)",
          "lat := int32(pb.LatOffset/100 + (int64(pb.Granularity)*pg.Dense.Lat[idx])/100)"),
     (WK, "lon := int32((pb.LonOffset + (int64(pb.Granularity) * pg.Dense.Lon[idx])) / 100)",
          "lon := int32(pb.LonOffset/100 + (int64(pb.Granularity)*pg.Dense.Lon[idx])/100)")],
"""
p = pbf("a.pbf", block(("n", [(5, 7, 9), (6, 70000003, -31)]), gran=50, lat0=75, lon0=1150))
run("nodeindex", "-r", 0, "-i", p, "-o", path("n"), "-w", 2)
t = lambda v: int(v / 100)
want = {5: enc(t(1150 + 350), t(75 + 450)), 6: enc(t(1150 + 50 * 70000003), t(75 - 50 * 31))}
got = node_index(path("n"))
check(got == want, (got, want))
p = pbf("b.pbf", block(("n", [(5, 1, 1)]), gran=50, lat0=75, lon0=50))
run("nodeindex", "-r", 0, "-i", p, "-o", path("n"), "-w", 2)
check(node_index(path("n")) == {5: enc(1, 1)}, node_index(path("n")))
""")

bug("b02-hint-window", "C02", "a lookup more than 64 elements after the hinted one, in an index with many elements",
    "the search after a hint is confined to the 64 elements next to it, so an indexed node further on is reported missing depending on the hint",
    [("internal/nodeindex/nodesubindex.go", "\t\t\tlowerPoint = hint\n", "\t\t\tlowerPoint = hint\n\t\t\t// neighbours are likely to be close\n\t\t\tif lowerPoint+64 < upperPoint {\n\t\t\t\tupperPoint = lowerPoint + 64\n\t\t\t}\n")],
"""
# ids far apart give one element each
ids = list(range(10, 10000, 10))
x = write_node_index("n", {i: enc(i, i) for i in ids})
ways = [(b + 1, [10, 10 + 10 * b, 5000, 5000 + 10 * b]) for b in range(400)]
p = pbf("a.pbf", block(("w", ways)))
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1)
w = read_pbf(path("o"))[0]["w"]
check(len(w) == len(ways), len(w))
for got, (_, refs) in zip(w, ways):
    check(got[1] == [enc(r, r) for r in refs], (refs, got))
""")

bug("b03-waysign", "C16", "way ids of 2^30 and more",
    "the way id is extracted with a signed shift, so ids with the top bit of their 31-bit field read back negative",
    [("internal/wayindex/indexdata.go", "return int64(id >> 33)", "return int64(id) >> 33")],
"""
p = pbf("a.pbf", block(("w", [(7, [1, 2]), ((1 << 30) - 1, [3]), (1 << 30, [4, 5]), ((1 << 31) - 1, [6])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
r = run("dumpwayindex", "-i", path("w"), "-p", "-s").stdout.decode().splitlines()
want = []
for i, l in ((7, "[1 2]"), ((1 << 30) - 1, "[3]"), (1 << 30, "[4 5]"), ((1 << 31) - 1, "[6]")):
    want += [f"{i} {l}"] * 2
check(r == want, (r, want))
""")

bug("b04-offset32", "C04", "a block with a coordinate offset that is negative or does not fit 32 bits, containing ways",
    "a rewritten block's latitude offset loses its upper half, moving all nodes of the block",
    [("internal/t/primitive_block.go", "uint64(pblk.LatOffset))", "uint64(uint32(pblk.LatOffset)))")],
"""
x = write_node_index("n", {1: enc(1, 1)})
for lat0 in (50, -7000000000, 6000000000):
    p = pbf("a.pbf", block(("n", [(1, 5, 6)]), ("w", [(1, [1, 2])]), lat0=lat0, lon0=-3))
    run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1)
    check(read_pbf(path("o"))[0]["n"] == read_pbf(p)[0]["n"], (lat0, read_pbf(path("o"))[0]["n"]))
""")

bug("b05-firstref", "C05", "several passes, and a way whose first node is resolved in an earlier pass than others",
    "a way whose first ref is converted already is taken to be complete, so refs of later passes stay unresolved",
    [("cmd/rewritenodes/rewriter/noderewriter_worker.go", "\t\t\t\t\tsw.NextWay()\n",
      "\t\t\t\t\tsw.NextWay()\n\t\t\t\t\tif len(w.Refs) > 0 && w.Refs[0] < 0 {\n\t\t\t\t\t\tcontinue // converted by an earlier pass\n\t\t\t\t\t}\n")],
"""
n = 300000  # 2.4 MB of locations
x = write_node_index("n", {i: enc(i, 2 * i) for i in range(1, n, 1) if i % 1000})
p = pbf("a.pbf", block(("w", [(1, [1, 2]), (2, [5, n - 7, 140001]), (3, [n - 1, 3])])))
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1)
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("m"), "-w", 1, "-m", 1)
check(open(path("o"), "rb").read() == open(path("m"), "rb").read(), read_pbf(path("m"))[0]["w"])
""")

bug("b06-dedupe-across", "C06", "a way that starts with the node the previous way of the block ended with",
    "the previous ref is remembered across ways, so the first ref of the second way is dropped",
    [("cmd/wayindex/wayindexer/wayindexer_worker.go", "\t\t\tvar outputLocBytes []byte\n", "\t\t\tvar outputLocBytes []byte\n\t\t\tlast := int64(0)\n"),
     ("cmd/wayindex/wayindexer/wayindexer_worker.go", "\t\t\t\t\tlast := int64(0)\n\t\t\t\t\tidx := 0\n", "\t\t\t\t\tidx := 0\n")],
"""
p = pbf("a.pbf", block(("w", [(1, [5, 6, 6, 7]), (2, [8, 9]), (4, [9, 10])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
check(way_index(path("w")) == {1: [5, 6, 7], 2: [8, 9], 4: [9, 10]}, way_index(path("w")))
""")

bug("b07-dup-member", "C07", "a relation listing the same way twice in a row",
    "repeated member ways are merged (the count agrees), so the relation index does not list every member",
    [("cmd/relindex/relindexerinit/relindexer_worker.go", "\t\t\t\t\twayCount := int64(0)\n\t\t\t\t\tfor _, mt := range r.MemberType {\n\t\t\t\t\t\tif mt == t.RelationMemberTypeWay {",
      "\t\t\t\t\twayCount := int64(0)\n\t\t\t\t\tfor idx, mt := range r.MemberType {\n\t\t\t\t\t\tif mt == t.RelationMemberTypeWay && !repeated(r, idx) {"),
     ("cmd/relindex/relindexerinit/relindexer_worker.go", "if r.MemberType[idx] != t.RelationMemberTypeWay {", "if r.MemberType[idx] != t.RelationMemberTypeWay || repeated(r, idx) {"),
     ("cmd/relindex/relindexerinit/relindexer_worker.go", "func (ri *RelIndexerInitializer) Worker()",
      "// repeated tells if a member is the same as the one before it\nfunc repeated(r *t.Relation, idx int) bool {\n\treturn idx > 0 && r.MemIDs[idx] == r.MemIDs[idx-1] && r.MemberType[idx] == r.MemberType[idx-1]\n}\n\nfunc (ri *RelIndexerInitializer) Worker()")],
"""
p = pbf("a.pbf", block(("w", [(1, [5, 6]), (2, [8])])), block(("r", [(9, [(1, 1, ""), (1, 2, "x"), (1, 2, "y"), (0, 2, ""), (1, 1, "")])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
run("relindex", "-r", 0, "-i", p, "-x", path("w"), "-o", path("r"), "-w", 1)
check(rel_index(path("r")) == [(9, [(1, [5, 6]), (2, [8]), (2, [8]), (1, [5, 6])])], rel_index(path("r")))
""")

bug("b08-pass-gap", "C08", "a location size that the passes do not divide, and a way starting just between the two roundings of a pass border",
    "start and end of a pass are rounded differently, so a way starting in between belongs to no pass and loses its locations",
    [("internal/wayindex/wayindex.go", "startTarget := int64((len(idx.Loc) / countPass) * curPass)", "startTarget := int64(len(idx.Loc) * curPass / countPass)")],
"""
# blocks of 1 byte: way k has k%3+1 small refs, so its location data takes k%3+3 bytes
ws = [(i, list(range(1, i % 3 + 2))) for i in range(1, 60)]
p = pbf("a.pbf", block(("w", ws)), block(("r", [(1, [(1, w[0], "") for w in ws])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1, "-a", 0)
run("relindex", "-r", 0, "-i", p, "-x", path("w"), "-o", path("r"), "-w", 1)
for n in range(2, 30):
    run("relindex", "-r", 0, "-i", p, "-x", path("w"), "-o", path("m"), "-w", 1, "-p", n)
    check(open(path("r"), "rb").read() == open(path("m"), "rb").read(), f"{n} passes: {[a for a, b in zip(rel_index(path('m'))[0][1], rel_index(path('r'))[0][1]) if a != b]}")
""")

bug("b09-casefold", "C09", "a key that differs from a listed one only in case",
    "keys are compared regardless of case, so tags like Source or NOTE that are not listed are deleted",
    [("cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "if f == s {", "if strings.EqualFold(f, s) {")],
"""
p = pbf("a.pbf", block(("n", [(1, 5, 6, {"note": "a", "Note": "b"}), (2, 5, 6, {"SOURCE": "c"}), (3, 1, 1, {"source": "x"})])))
run("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
check([(n[0], n[3]) for b in read_pbf(path("o")) for n in b["n"]] == [(1, {"Note": "b"}), (2, {"SOURCE": "c"})], read_pbf(path("o")))
""")

bug("b10-early-put", "C10", "several workers decompressing at the same time, one reusing the buffer another is still copying from",
    "the buffer goes back to the pool before its content was copied, so a block can be written with another block's payload",
    [("cmd/decompress/decompressor/decompressor_worker.go", "\t\tdecompData := b.GetRawData()\n", "\t\tdecompData := b.GetRawData()\n\t\tpool.ByteSlice.Put(decompData)\n"),
     ("cmd/decompress/decompressor/decompressor_worker.go", "\t\t// release\n\t\tpool.ByteSlice.Put(decompData)\n\n", "")],
"""
import random
rnd = random.Random(1)
blocks = [block(("n", [(i * 100000 + j, rnd.getrandbits(28), rnd.getrandbits(28)) for j in range(4000)])) for i in range(1, 40)]
p = pbf("a.pbf", *blocks * 8, compress=True)
want = [x for _, x in blobs(p)]
for i in range(30):
    run("decompress", "-r", 0, "-i", p, "-o", path("o"), "-w", 16)
    check([x for _, x in blobs(path("o"))] == want, "payload changed")
""")

bug("b11-find-once", "C11", "an id that occurs twice in a block, or two ids asked for of the same block and kind",
    "the search of ways in a block stops at the first hit",
    [("cmd/entityfind/entityfind.go", "\t\t\tfor _, w := range ws {\n\t\t\t\tif isIn(ids, uint64(w.Id)) {\n", "\t\t\tfound := false // ids are unique\n\t\t\tfor _, w := range ws {\n\t\t\t\tif !found && isIn(ids, uint64(w.Id)) {\n\t\t\t\t\tfound = true\n")],
"""
p = pbf("a.pbf", block(("n", [(1, 5, 6)]), ("w", [(1, [5]), (2, [6]), (3, [7])])))
r = run("entityfind", "-i", p, "-e", 1, "-e", 3, "-w", 1).stdout.decode().splitlines()
check(len(r) == 3, r)
""")

bug("b12-reuse-batch", "C12", "a worker that starts its next block while the writer still holds the locations of the last one",
    "each worker reuses one location buffer, although the batch it sent is still to be written, so locations depend on timing",
    [(WK, "\tsw.SetCurrentState(state.WorkerReading)\n\tfor data := range chIn {\n", "\tvar outputLoc []int64\n\n\tsw.SetCurrentState(state.WorkerReading)\n\tfor data := range chIn {\n"),
     (WK, "\t\tvar outputLoc []int64\n", "\t\toutputLoc = outputLoc[:0]\n")],
"""
bl, want = [], {}
for i in range(400):
    n = 3000 if i % 40 == 0 else 20
    ns = [(i * 10000 + j + 1, i * 7 + j, i * 3 + j) for j in range(n)]
    bl.append(block(("n", ns)))
    want.update({a: enc(b, c) for a, b, c in ns})
p = pbf("a.pbf", *bl, compress=True)
for i in range(20):
    run("nodeindex", "-r", 0, "-i", p, "-o", path("n"), "-w", 8)
    got = node_index(path("n"))
    check(got == want, "locations differ: %d" % sum(got.get(k) != v for k, v in want.items()))
""")

bug("b13-varint7", "C13", "a value of 43 to 49 bits with a particular bit set",
    "the sixth byte of seven-byte varints drops a bit",
    [("internal/pb/varint.go", "\t\t\tbyte((v>>35)&0x7f|0x80),\n\t\t\tbyte(v>>42))", "\t\t\tbyte((v>>35)&0x3f|0x80),\n\t\t\tbyte(v>>42))")],
"""
ids = [1 << 44 | 1 << 41, 1 << 45, (1 << 45) + (1 << 40)]
p = pbf("a.pbf", block(("w", [(1, ids), (2, [1 << 47 | 1 << 40])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
check(way_index(path("w")) == {1: ids, 2: [1 << 47 | 1 << 40]}, way_index(path("w")))
""")

bug("b14-clamp-tail", "C14", "a file cut inside the content of its last block, read by a tool that does not look into it",
    "the last block's size is clamped to the file, so counting the blocks of a truncated file succeeds",
    [("internal/pbf/process.go", "\t\tobh := Block{\n\t\t\tIndex:    blobIndex,\n\t\t\tData:     inputBuffer[pfs.at : pfs.at+uint64(bh.DataSize)],",
      "\t\tend := pfs.at + uint64(bh.DataSize)\n\t\tif end > pfs.max {\n\t\t\tend = pfs.max\n\t\t}\n\t\tobh := Block{\n\t\t\tIndex:    blobIndex,\n\t\t\tData:     inputBuffer[pfs.at:end],")],
"""
p = pbf("a.pbf", block(("n", [(1, 5, 6)])), block(("n", [(9, 5, 6)])))
check(run("blockcount", "-i", p).stdout.startswith(b"Counted 3 blocks"), "count")
d = open(p, "rb").read()
open(path("t"), "wb").write(d[:-3])
check(run("blockcount", "-i", path("t"), ok=False).returncode != 0, "truncated file counted")
""")

bug("b15-copy-unchecked", "C15", "the disk filling up exactly while the locations are appended to the index",
    "an error of the copy at the end of indexing is not noticed, so an incomplete index is reported as success",
    [("internal/iio/wrappers.go", "\tFWrite(fDst, buf[:n])\n", "\t_, _ = fDst.Write(buf[:n])\n")],
"""
import resource, signal
ns = [(i, i, i) for i in range(1, 3001)]
p = pbf("a.pbf", block(("n", ns[:1500])), block(("n", ns[1500:])))
run("nodeindex", "-r", 0, "-i", p, "-o", path("n"), "-w", 1)
size = os.path.getsize(path("n"))
want = open(path("n"), "rb").read()
b = build("nodeindex")
def lim(k):
    def f():
        signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGXFSZ])
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
    return f
for k in (8, 40, 24000, size - 1, size - 16, size):
    r = subprocess.run([b, "-r", "0", "-i", p, "-o", path("m"), "-w", "1"], preexec_fn=lim(k), capture_output=True)
    if r.returncode == 0:
        check(open(path("m"), "rb").read() == want, f"success although writes beyond {k} failed")
check(r.returncode == 0, r.stderr)
""")

bug("b16-early-version", "C15", "a run that dies before the index is finished",
    "the version is written at the start, so what an aborted run leaves is accepted as an index without nodes",
    [("cmd/nodeindex/indexer/nodeindexer_writer.go", "iio.FWriteSliceI64(outputFileIdx, []int64{0, 0})", "iio.FWriteSliceI64(outputFileIdx, []int64{nodeindex.Version, 0})")],
"""
import resource, signal
p = pbf("a.pbf", *[block(("n", [(i, i, i) for i in range(1000 * k + 1, 1000 * k + 900)])) for k in range(9)])
b = build("nodeindex")
def lim():
    resource.setrlimit(resource.RLIMIT_FSIZE, (9000, 9000))
r = subprocess.run([b, "-r", "0", "-i", p, "-o", path("m"), "-w", "1"], preexec_fn=lim, capture_output=True)
check(r.returncode != 0, "run should fail")
check(run("dumpnodeindex", "-i", path("m"), "-p", ok=False).returncode != 0, "unfinished index accepted")
""")

bug("b17-ring", "C17", "one worker being more than 64 blocks behind the others",
    "the reorder buffer became a ring of 64 slots without a limit on how far workers run ahead, so blocks overwrite each other",
    [("internal/pbf/reorder.go", "type reorderBuffer map[uint64]Block\n", "// workers are never this many blocks apart\nconst reorderSlots = 64\n\ntype reorderBuffer map[uint64]Block\n\nfunc (rb reorderBuffer) push(b Block) {\n\trb[b.Index%reorderSlots] = b\n}\n"),
     ("internal/pbf/reorder.go", "\tobo, ok := rb[k]\n\tif ok {\n\t\tdelete(rb, k)\n", "\tobo, ok := rb[k%reorderSlots]\n\tif ok = ok && obo.Index == k; ok {\n\t\tdelete(rb, k%reorderSlots)\n"),
     ("internal/pbf/reorder.go", "\t\trob[b.Index] = b\n", "\t\trob.push(b)\n")],
"""
# the first block takes far longer than the others
big = block(("n", [(i, i, i) for i in range(1, 400000)]))
p = pbf("a.pbf", big, *[block(("n", [(500000 + 10 * i, i, i)])) for i in range(3000)], compress=True)
for i in range(5):
    r = run("nodeindex", "-r", 0, "-i", p, "-o", path("n"), "-w", 4, ok=False)
    check(r.returncode == 0, r.stderr[:200])
    check(len(node_index(path("n"))) == 399999 + 3000, "nodes missing")
""")

bug("b18-pole", "C18", "a latitude of exactly 90 degrees",
    "the decoder treats +90 degrees as negative",
    [("internal/morton/morton.go", "\tlat <<= 1\n\tlat >>= 1\n", "\tlat &= 0x7fffffff\n\tif lat >= 900_000_000 { // out of range, it's negative\n\t\tlat |= -0x80000000\n\t}\n")],
"""
p = pbf("a.pbf", block(("n", [(1, 0, 900000000), (2, 5, -900000000), (3, 7, 899999999), (4, -1800000000, -1)])))
run("nodeindex", "-r", 0, "-i", p, "-o", path("n"), "-w", 1)
r = run("dumpnodeindex", "-i", path("n"), "-p").stdout.decode()
for s in ("(0.000000, 90.000000)", "(0.000000, -90.000000)", "(-180.000000, -0.000000)"):
    check(s in r, (s, r))
""")

bug("b19-drop-unknown", "C19", "a way with a node missing from the data",
    "refs that stay unknown after the last pass are deleted, although missing nodes are to be kept as their ids",
    [("cmd/rewritenodes/rewriter/noderewriter_worker.go", "\t\t\t\t\t\t\t// TODO: Maybe we keep it.  There's some strange behavior in NSW.\n\t\t\t\t\t\t\tw.Refs[outIndex] = ref\n\t\t\t\t\t\t\toutIndex++\n", "")],
"""
p = pbf("a.pbf", block(("n", [(1, 5, 6), (3, 7, 8)])), block(("w", [(1, [1, 2, 3])])), block(("r", [(9, [(1, 1, "")])])))
run("nodeindex", "-r", 0, "-i", p, "-o", path("n"), "-w", 1)
run("rewritenodes", "-r", 0, "-i", p, "-x", path("n"), "-o", path("o"), "-w", 1)
run("wayindex", "-r", 0, "-i", path("o"), "-o", path("w"), "-w", 1)
run("relindex", "-r", 0, "-i", path("o"), "-x", path("w"), "-o", path("r"), "-w", 1)
check(rel_index(path("r")) == [(9, [(1, [enc(5, 6), 2, enc(7, 8)])])], rel_index(path("r")))
""")

bug("b20-skip-continue", "C20", "printing and searching an index with a one-id gap",
    "a skipped id prints no search result",
    [("cmd/dumpnodeindex/dumpnodeindex.go", "\t\t\t\tif opts.SearchIndex {\n", "\t\t\t\tif opts.SearchIndex && (extract != 0 || !opts.PrintLocations) {\n")],
"""
p = pbf("a.pbf", block(("n", [(1, 5, 6), (3, 7, 8)])))
run("nodeindex", "-r", 0, "-i", p, "-o", path("n"), "-w", 1)
r = run("dumpnodeindex", "-i", path("n"), "-p", "-s").stdout.decode().splitlines()
check([x.split(":")[0] for x in r] == ["Extract", " Search"] * 3, r)
""")

bug("b21-clamp", "C21", "a message longer than the line and a fraction above one",
    "the fraction is only clamped below, so a fraction above one highlights more than the width",
    [("internal/ui/format.go", "\tif pct < 0 {\n\t\tpct = 0\n\t} else if pct > 1 {\n\t\tpct = 1\n\t}\n", "\tif pct < 0 {\n\t\tpct = 0\n\t}\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "markup.go")
b = build("demomarkup", overlay=d)
r = subprocess.run([b], capture_output=True, text=True).stdout.splitlines()
check(r == ["%Sabcd%Nefgh", "%Sab%Ncdefgh", "%S%Nabcdefgh"], r)
""", {"markup.go": 'package main\n\nimport (\n\t"fmt"\n\n\t"github.com/squizzling/osmindex/internal/ui"\n)\n\nfunc main() {\n\tfor _, p := range []float64{1.5, 0.5, -1} {\n\t\tfmt.Println(ui.MarkupAsProgress("abcdefgh", 4, p))\n\t}\n}\n'})

bug("b22-put-wrapped", "C22", "a wrapped buffer at least as large as the pool's default size being returned",
    "large wrapped buffers are kept by the pool, so a later borrower writes into memory it does not own",
    [("internal/pool/bytebuffer.go", "\tif bb.isBorrowed {\n", "\tif bb.isBorrowed || uint64(cap(bb.Buffer)) >= atomic.LoadUint64(&bsp.defSize) {\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "pool.go.txt")
b = build("demopool", overlay=d)
r = subprocess.run([b], capture_output=True, text=True)
check(r.returncode == 0, r.stdout + r.stderr)
""", {"pool.go.txt": 'package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"runtime"\n\n\t"github.com/squizzling/osmindex/internal/pool"\n)\n\nfunc main() {\n\truntime.GOMAXPROCS(1)\n\tfor try := 0; try < 50; try++ {\n\t\tp := pool.NewByteSlicePool(16)\n\t\tmine := make([]byte, 64)\n\t\tp.Put(pool.NonBorrowedBuffer(mine))\n\t\tb := p.Get(8)\n\t\tfor i := range b.Buffer {\n\t\t\tb.Buffer[i] = 1\n\t\t}\n\t\tfor _, x := range mine {\n\t\t\tif x != 0 {\n\t\t\t\tfmt.Println("the wrapped buffer was handed out")\n\t\t\t\tos.Exit(1)\n\t\t\t}\n\t\t}\n\t}\n}\n'})

bug("b23-unsorted", "C23", "a node with two or more tags, over repeated runs",
    "node tags are written in map order, so the bytes differ from run to run",
    [("internal/t/string_table_builder.go", "\t\tsortedKeys = append(sortedKeys, k)\n\t}\n\tsort.Strings(sortedKeys)\n\n\tfor _, k := range sortedKeys {\n\t\tids = append(", "\t\tsortedKeys = append(sortedKeys, k)\n\t}\n\n\tfor _, k := range sortedKeys {\n\t\tids = append(")],
"""
p = pbf("a.pbf", block(("n", [(1, 1, 1, {"k%d" % i: "v%d" % i for i in range(12)})])))
seen = set()
for i in range(8):
    run("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
    seen.add(open(path("o"), "rb").read())
check(len(seen) == 1, "output differs between runs")
""")

bug("b24-no-truncate", "C24", "an output file that existed and was longer",
    "outputs are opened without truncation, so the end of a longer old file remains",
    [("internal/iio/wrappers.go", "if f, err := os.Create(fn); err != nil {", "if f, err := os.OpenFile(fn, os.O_RDWR|os.O_CREATE, 0o666); err != nil {")],
"""
p = pbf("a.pbf", block(("n", [(1, 5, 6), (3, 7, 8)])))
for t in ("decompress", "nodeindex", "wayindex", "tagfilter"):
    run(t, "-r", 0, "-i", p, "-o", path("o1"), "-w", 1)
    open(path("o2"), "wb").write(b"x" * 5000)
    run(t, "-r", 0, "-i", p, "-o", path("o2"), "-w", 1)
    check(open(path("o1"), "rb").read() == open(path("o2"), "rb").read(), t)
""")

bug("b25-swap-remove", "C25", "a worker finishing while at least two that started later are active",
    "a finished worker is replaced by the last one, so the list is no longer in starting order",
    [("internal/tracker/worker_tracker.go", "\t\t\tcopy(wt.workers[idx:], wt.workers[idx+1:])\n", "\t\t\twt.workers[idx] = wt.workers[len(wt.workers)-1]\n")],
"""
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tracker.go.txt")
b = build("demotracker", overlay=d)
r = subprocess.run([b], capture_output=True, text=True)
check(r.stdout.strip() == "[2 3 4]", r.stdout + r.stderr)
""", {"tracker.go.txt": 'package main\n\nimport (\n\t"fmt"\n\n\t"github.com/squizzling/osmindex/internal/tracker"\n)\n\nfunc main() {\n\tvar t tracker.WorkerTracker\n\tfor i := 1; i < 5; i++ {\n\t\tt.TrackWorker(i)\n\t}\n\tt.UntrackWorker(1)\n\tfmt.Println(t.WorkerStates())\n}\n'})

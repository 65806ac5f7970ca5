bug("k02-short-locations", "C30", "an index cut within its locations, and nodes that stood in the lost part",
    "a location beyond the end of the index counts as not found",
    [("internal/nodeindex/nodesubindex.go", "\tatomic.AddUint64(&si.parent.HitDefault, 1)\n\tloc := si.locations[si.element[lowerPoint].OffsetForID(id)]\n\treturn loc, lowerPoint, loc != 0\n",
      "\toffset := si.element[lowerPoint].OffsetForID(id)\n\tif offset >= uint64(len(si.locations)) {\n\t\tatomic.AddUint64(&si.parent.MissDefault, 1)\n\t\treturn 0, hint, false\n\t}\n\n\tatomic.AddUint64(&si.parent.HitDefault, 1)\n\tloc := si.locations[offset]\n\treturn loc, lowerPoint, loc != 0\n")],
"""
x = write_node_index("n", {i * 10: enc(i, i) for i in range(1, 9)})
d = open(x, "rb").read()
open(x, "wb").write(d[:-8])
p = pbf("a.pbf", block(("w", [(1, [80])])))
r = run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1, ok=False)
check(r.returncode != 0, "the cut index is accepted")
""")

bug("k03-key-length", "C12", "a way or relation with two keys of one length",
    "the keys of ways and relations are ordered by length, those of one length come in the order of a map",
    [("internal/t/string_table_builder.go", "\tsort.Strings(sortedKeys)\n\n\tfor _, k := range sortedKeys {\n\t\tks =", "\t// short keys first, no need to compare bytes\n\tsort.Slice(sortedKeys, func(i, j int) bool { return len(sortedKeys[i]) < len(sortedKeys[j]) })\n\n\tfor _, k := range sortedKeys {\n\t\tks =")],
"""
p = pbf("a.pbf", block(("w", [(i, [1, 2], {"a%d" % k: "b%d" % k for k in range(3)}) for i in range(1, 9)])))
seen = set()
for n in range(40):
    run("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
    seen.add(open(path("o"), "rb").read())
check(len(seen) == 1, "%d different files" % len(seen))
""")

bug("k04-missing-run", "C19", "a way with two or more different nodes in a row that are missing from the data",
    "of a run of nodes that have no location only the first is kept",
    [("cmd/wayindex/wayindexer/wayindexer_worker.go", "\t\t\t\t\t\tif ref != last {\n", "\t\t\t\t\t\tif ref != last && (ref < 0 || last <= 0) {\n")],
"""
p = pbf("a.pbf", block(("w", [(1, [-5, 10, 11, -6])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
check(way_index(path("w")) == {1: [-5, 10, 11, -6]}, way_index(path("w")))
""")

bug("k06-ceil-passes", "C05", "an index without locations and a memory target",
    "the number of passes is rounded up from the exact quotient, which is zero for an index without locations",
    [("cmd/rewritenodes/rewritenodes.go", "\t\tpasses = (memRequired / memTarget) + 1\n", "\t\tpasses = (memRequired + memTarget - 1) / memTarget\n")],
"""
x = write_node_index("n", {})
p = pbf("a.pbf", block(("w", [(1, [80])])))
run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 1, "-m", 1)
check(os.path.exists(path("o")), "no output")
check(read_pbf(path("o"))[-1]["w"][0][1] == [80], "other refs")
""")

bug("k09-hole-hit", "C29", "references to ids the index covers without a location, found by the search",
    "a lookup that ends at a gap isn't counted",
    [("internal/nodeindex/nodesubindex.go", "\tatomic.AddUint64(&si.parent.HitDefault, 1)\n\tloc := si.locations[si.element[lowerPoint].OffsetForID(id)]\n", "\tloc := si.locations[si.element[lowerPoint].OffsetForID(id)]\n\tif loc != 0 {\n\t\tatomic.AddUint64(&si.parent.HitDefault, 1)\n\t}\n")],
"""
p0 = pbf("n.pbf", block(("n", [(1, 1, 1), (50, 1, 1), (52, 1, 1), (90, 1, 1)])))
run("nodeindex", "-r", 0, "-i", p0, "-o", path("x"), "-w", 1)
p = pbf("a.pbf", block(("w", [(1, [51])])))
r = run("rewritenodes", "-r", 0, "-i", p, "-x", path("x"), "-o", path("o"), "-w", 1)
import re
s = sum(int(v) for v in re.findall(rb"(?:hit|miss)\\w+:\\s+(\\d+)", r.stdout))
check(s == 1, r.stdout)
""")

bug("k11-intern", "C31", "a file with many different strings in all",
    "strings are kept for all blocks to come, so that each is held once",
    [("internal/t/string_table.go", "\t\t\tst.S = append(st.S, pb.DecodeString(buf, &next))\n", "\t\t\tst.S = append(st.S, intern(pb.DecodeString(buf, &next)))\n"),
     ("internal/t/string_table.go", "import (\n\t\"fmt\"\n", "import (\n\t\"fmt\"\n\t\"sync\"\n"),
     ("internal/t/string_table.go", "const (\n\tstringTableS = 1\n)\n", "const (\n\tstringTableS = 1\n)\n\n// The same keys and values come again and again, keep each only once.\nvar interned sync.Map\n\nfunc intern(s string) string {\n\tv, _ := interned.LoadOrStore(s, s)\n\treturn v.(string)\n}\n")],
"""
import resource
def peak(n):
    with open(path("a.pbf"), "wb") as f:
        f.write(header())
        for i in range(n):
            st = b"".join(fb(1, b"%020d%08d" % (i, k)) for k in range(8000))
            f.write(blob("OSMData", fb(1, fb(1, b"") + st) + fb(2, rels(Strings(), [(i + 1, [(1, 5, "")])]))))
    pid = os.spawnv(os.P_NOWAIT, build("tagfilter"), ["tagfilter", "-r", "0", "-i", path("a.pbf"), "-o", path("o"), "-w", "1"])
    hi = 0
    while True:
        try:
            for l in open("/proc/%d/status" % pid):
                if l.startswith("RssAnon"):
                    hi = max(hi, int(l.split()[1]))
        except OSError:
            pass
        if os.waitpid(pid, os.WNOHANG)[0]:
            return hi
a, b = peak(10), peak(150)
check(b < 2 * a + 60000, "%d kB for 10 blocks, %d kB for 150" % (a, b))
""")

bug("k19-empty-value", "C09", "a tag with an empty value",
    "tags with an empty value are deleted, too",
    [("cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "\t\t\t\tfor k, _ := range node.Tags {\n\t\t\t\t\tif !keepTag(k) {\n", "\t\t\t\tfor k, v := range node.Tags {\n\t\t\t\t\tif !keepTag(k) || v == \"\" {\n")],
"""
p = pbf("a.pbf", block(("n", [(5, 1, 2, {"a": "b", "c": ""}), (6, 1, 2, {"name": ""})])))
run("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
check([(n[0], n[3]) for n in read_pbf(path("o"))[-1]["n"]] == [(5, {"a": "b", "c": ""}), (6, {"name": ""})], read_pbf(path("o")))
""")

bug("k30-role-once", "C23", "relations in which a role comes more than once",
    "a role counts once for each relation, so the string table isn't in the order of use",
    [("internal/t/primitive_block_relations.go", "\t\tfor _, role := range r.Roles {\n\t\t\tstb.AddString(role)\n", "\t\tfor idx, role := range r.Roles {\n\t\t\tif idx > 0 && role == r.Roles[idx-1] { // mostly they are all the same\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tstb.AddString(role)\n")],
"""
p = pbf("a.pbf", block(("r", [(5, [(1, 7, "outer"), (1, 8, "outer"), (1, 9, "outer")], {"a": "a"})])))
run("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
b = blobs(path("o"))[-1][1]
st = [v for n, v in [f[:2] for f in fields([f for f in fields(b) if f[0] == 1][0][1])]]
check(st == [b"", b"outer", b"a"], st)
""")

bug("k35-lenient-end", "C30", "a way index cut within the locations of a way",
    "a list of locations may end with the data",
    [("internal/pb/64.go", "\tpanic(\"ran out of data\")\n}\n\n// EncodeS64PackedDeltaZero", "\treturn output\n}\n\n// EncodeS64PackedDeltaZero")],
"""
p = pbf("a.pbf", block(("w", [(1, [-1 - 5 * i for i in range(40)]), (2, [-1 - 50000 * i for i in range(40)])]), ("r", [(5, [(1, 2, "")])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
run("relindex", "-r", 0, "-i", p, "-x", path("w"), "-o", path("r"), "-w", 1)
good = open(path("r"), "rb").read()
d = open(path("w"), "rb").read()
for n in range(1, 60):
    open(path("w"), "wb").write(d[:-n])
    r = run("relindex", "-r", 0, "-i", p, "-x", path("w"), "-o", path("r"), "-w", 1, ok=False)
    check(r.returncode != 0 or open(path("r"), "rb").read() == good, "an index cut by %d bytes is accepted" % n)
""")

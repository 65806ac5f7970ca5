bug("n01-skip-empty-pass", "C08", "a last pass that has no ways, and members whose way is unknown",
    "a pass without ways only renames the file, also the last one",
    [("cmd/relindex/relindex.go", "\tfIn := iio.OsOpen(inputFile)\n", "\tif len(swi.Ids) == 0 {\n\t\t// nothing to look up\n\t\tif err := os.Rename(inputFile, outputFile); err != nil {\n\t\t\tpanic(err)\n\t\t}\n\t\treturn\n\t}\n\n\tfIn := iio.OsOpen(inputFile)\n")],
"""
p = pbf("a.pbf", block(("w", [(1, list(range(1, 60)))])), block(("r", [(9, [(1, 1, ""), (1, 2, "")])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
run("relindex", "-r", 0, "-i", p, "-x", path("w"), "-o", path("r1"), "-w", 1)
run("relindex", "-r", 0, "-i", p, "-x", path("w"), "-o", path("r3"), "-w", 1, "-p", 3)
check(open(path("r1"), "rb").read() == open(path("r3"), "rb").read(), "differs")
""")

bug("n03-total", "C12", "two workers",
    "a total kept for all workers is added to without synchronisation",
    [("cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "\t\t\tsw.AddDropped(localDropped)\n", "\t\t\ttf.total += localKept + localDropped\n\t\t\tsw.AddDropped(tf.total - (tf.total - localDropped))\n"),
     ("cmd/tagfilter/tagfilterer/tagfilterer.go", "\twriter state.Writer\n", "\twriter state.Writer\n\ttotal  uint64 // nodes seen\n")],
"""
import kit
e = kit._goenv()
e["CGO_ENABLED"] = "1"
b = path("tf")
r = subprocess.run(["go", "build", "-race", "-o", b, "./cmd/tagfilter"], cwd=REPO, env=e, capture_output=True, text=True)
check(r.returncode == 0, r.stderr[-500:])
p = pbf("a.pbf", *[block(("n", [(i * 100 + j, 1, 2, {"a": "b"}) for j in range(50)])) for i in range(1, 60)])
r = subprocess.run([b, "-r", "0", "-i", p, "-o", path("o"), "-w", "8"], capture_output=True, text=True)
check("DATA RACE" not in r.stderr, r.stderr[:600])
""")

bug("n04-last-sub", "C27", "a sub-index number one above the last",
    "the numbers are taken to begin at one",
    [("cmd/dumpwayindex/args.go", "*opts.SubIndexIndex >= *opts.SubIndexCount", "*opts.SubIndexIndex > *opts.SubIndexCount")],
"""
p = pbf("a.pbf", block(("w", [(1, [1, 2])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
r = run("dumpwayindex", "-i", path("w"), "-s", "--sub-index-index", 2, "--sub-index-count", 2, ok=False)
check(r.returncode != 0, "accepted")
""")

bug("n05-member-zero", "C07", "relation members in a block of which the first relation has no member ways",
    "a relation without member ways is left out if it stands first in its group",
    [("cmd/relindex/relindexerinit/relindexer_worker.go", "\t\t\t\t\toutputData = append(outputData, int64(r.ID))\n\t\t\t\t\twayCount := int64(0)\n", "\t\t\t\t\twayCount := int64(0)\n"),
     ("cmd/relindex/relindexerinit/relindexer_worker.go", "\t\t\t\t\toutputData = append(outputData, wayCount)\n", "\t\t\t\t\tif wayCount == 0 && len(outputData) == 0 {\n\t\t\t\t\t\tcontinue // no need to begin with an empty one\n\t\t\t\t\t}\n\t\t\t\t\toutputData = append(outputData, int64(r.ID), wayCount)\n")],
"""
p = pbf("a.pbf", block(("w", [(1, [1, 2])])), block(("r", [(8, [(0, 1, "")]), (9, [(1, 1, "")])])))
run("wayindex", "-r", 0, "-i", p, "-o", path("w"), "-w", 1)
run("relindex", "-r", 0, "-i", p, "-x", path("w"), "-o", path("r"), "-w", 1)
check([r[0] for r in rel_index(path("r"))] == [8, 9], rel_index(path("r")))
""")


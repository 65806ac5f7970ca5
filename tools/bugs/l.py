bug("l01-read-end", "C15", "an error as the temporary file of locations is read back",
    "an error of reading ends the copying as the end of the file does",
    [("internal/iio/wrappers.go", "\tif n, err := f.Read(buf); err != nil && err != io.EOF {\n\t\tpanic(err)\n\t} else {\n\t\treturn n\n\t}\n", "\tn, err := io.ReadFull(f, buf)\n\tif n == 0 && err != nil {\n\t\treturn 0 // nothing left\n\t}\n\treturn n\n")],
"""
# fail.c makes reading from *.loc.tmp fail when asked to
src = r'''
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <stddef.h>
int main(int c, char **v) {
  /* read(2) of 1 MiB is how the locations come back: it fails with EIO */
  struct sock_filter f[] = {
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0, 0, 3),
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[2])),
    BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, 65536, 0, 1),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | 5),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
  };
  struct sock_fprog p = { sizeof f / sizeof *f, f };
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) return 99;
  execv(v[1], v + 1);
  return 98;
}
'''
open(path("fail.c"), "w").write(src)
subprocess.run(["gcc", "-o", path("fail"), path("fail.c")], check=True)
p = pbf("a.pbf", block(("n", [(1, 2, 3), (2, 4, 5)])))
r = subprocess.run([path("fail"), build("nodeindex"), "-r", "0", "-i", p, "-o", path("o"), "-w", "1"], capture_output=True, text=True)
check(r.returncode not in (98, 99), "no filter")
check(r.returncode != 0, "the locations could not be read, yet it succeeds: %d bytes" % os.path.getsize(path("o")))
""")

bug("l02-per-mille", "C21", "a wide terminal, and a position that isn't a whole per mille of the file",
    "the share of the file is computed in whole per mille, as it is shown",
    [("internal/ui/widget/widget_process_state.go", "\t\tpct := float64(at) / float64(max)\n", "\t\tpct := math.Floor(1000*float64(at)/float64(max)) / 1000 // that's what is shown\n"),
     ("internal/ui/widget/widget_process_state.go", "import (\n\t\"fmt\"\n", "import (\n\t\"fmt\"\n\t\"math\"\n")],
PTY + """
p = pbf("a.pbf", *[block(("n", [(1 + 1000 * b + j, j, j) for j in range(900)])) for b in range(61)])
os.mkfifo(path("o"))
import re, fcntl, termios, struct
bad = []
for width in (800, 997, 640):
    t = Pty("decompress", "-r", "10ms", "-i", p, "-o", path("o"), "-w", 2)
    fcntl.ioctl(t.m, termios.TIOCSWINSZ, struct.pack("HHHH", 24, width, 0, 0))
    time.sleep(2)
    n = len(t.seen)
    t.key(b"\\x0c")
    time.sleep(1)
    s = t.seen[n:].replace(b"\\x1b[7m", b"<").replace(b"\\x1b(B\\x1b[m", b">")
    row = re.search(rb"\\x1b\\[1;1H(.*?)\\x1b\\[2;1H", s, re.S)
    t.p.kill()
    t.p.wait()
    check(row, "the first row isn't drawn again: %r" % s[:400])
    row = re.sub(rb"\\x1b\\[[0-9;?]*[a-zA-Z]", b"", row[1])
    m = re.search(rb"block (\\d+)/(\\d+)", re.sub(rb"[<>]", b"", row))
    check(m, row)
    want = width * int(m[1]) // int(m[2])
    got = row.lstrip(b"<>").find(b">")
    if got != want:
        bad.append("%d of %d columns are highlighted, not %d" % (got, width, want))
check(not bad, bad)
""")

bug("l03-end-of-part", "C20", "a sub-index and an end element together",
    "the end element is counted from the start of the index when a sub-index is asked for",
    [("cmd/dumpnodeindex/dumpnodeindex.go", "\tif opts.EndElement != nil && *opts.EndElement < endElement {\n", "\tif opts.EndElement != nil && opts.SubIndexIndex == nil && *opts.EndElement < endElement {\n")],
"""
x = write_node_index("n", {i * 10: enc(i, i) for i in range(1, 9)})
a = run("dumpnodeindex", "-i", x, "-p", "--sub-index-index", 1, "--sub-index-count", 2).stdout.splitlines()
b = run("dumpnodeindex", "-i", x, "-p", "--sub-index-index", 1, "--sub-index-count", 2, "--end-element", 2).stdout.splitlines()
check(len(a) == 4 and b == a[:2], (a, b))
""")

bug("l04-sorted-ask", "C11", "several ids asked for that aren't in ascending order",
    "the ids asked for are searched by bisection, though nobody sorted them",
    [("cmd/entityfind/entityfind.go", "\tfor _, id2 := range ids {\n\t\tif id2 == id {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n", "\ti := sort.Search(len(ids), func(i int) bool { return ids[i] >= id })\n\treturn i < len(ids) && ids[i] == id\n"),
     ("cmd/entityfind/entityfind.go", "import (\n\t\"context\"\n", "import (\n\t\"context\"\n\t\"sort\"\n")],
"""
p = pbf("a.pbf", block(("n", [(i, i, i) for i in range(1, 9)])))
r = run("entityfind", "-i", p, "-w", 1, "-e", 7, "-e", 2, "-e", 5)
check(len(r.stdout.splitlines()) == 3, r.stdout)
""")

bug("l05-prefix-itself", "C09", "a node tag whose key is one of the listed prefixes and nothing more",
    "a key has to be longer than the prefix",
    [("cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "\t\tif strings.HasPrefix(s, p) {\n", "\t\tif len(s) > len(p) && strings.HasPrefix(s, p) {\n")],
"""
import re
src = open(os.path.join(REPO, "cmd/tagfilter/tagfilterer/tagfilterer_worker.go")).read()
pre = re.findall(r'"([^"]*)"', src.split("deletePrefixes = []string{")[1].split("\\n}")[0])
p = pbf("a.pbf", block(("n", [(1 + i, 0, 0, {k: "x", "name": "y"}) for i, k in enumerate(pre)])))
run("tagfilter", "-r", 0, "-i", p, "-o", path("o"), "-w", 1)
d = open(path("o"), "rb").read()
bad = [k for k in pre if b"\\n" + bytes([len(k)]) + k.encode() in d]
check(not bad, "kept: %r" % bad)
""")

bug("l06-shared-hint", "C29", "two workers, lookups with hints",
    "the workers share the hint, so it's lost who found what; the answers stay right",
    [("internal/nodeindex/nodesubindex.go", "\t\t\tatomic.AddUint64(&si.parent.HitHint, 1)\n", "\t\t\tsi.parent.HitHint++ // the hint belongs to one worker\n")],
"""
locs = {i: enc(i, i) for i in range(1, 2001)}
x = write_node_index("n", locs)
bs = [block(("w", [(b * 10 + j + 1, [1 + (7 * k) % 2000 for k in range(4000)]) for j in range(10)])) for b in range(60)]
p = pbf("a.pbf", *bs)
bad = []
for i in range(8):
    r = run("rewritenodes", "-r", 0, "-i", p, "-x", x, "-o", path("o"), "-w", 8)
    n = sum(int(l.split()[1]) for l in r.stdout.splitlines() if l.startswith(b"hit"))
    if n != 60 * 10 * 4000:
        bad.append(n)
check(not bad, "hits: %r" % bad)
""")

bug("l07-raw-empty", "C10", "a block that is stored uncompressed and empty",
    "an empty payload counts as none",
    [("internal/t/blob.go", "\tif b.Raw != nil {\n\t\treturn pool.NonBorrowedBuffer", "\tif len(b.Raw) != 0 {\n\t\treturn pool.NonBorrowedBuffer")],
"""
p = path("a.pbf")
open(p, "wb").write(header() + blob("OSMData", b"") + blob("OSMData", block(("n", [(1, 2, 3)]))))
r = run("decompress", "-r", 0, "-i", p, "-o", path("o"), "-w", 1, ok=False)
check(r.returncode == 0, r.stderr[:300])
""")

bug("l08-last-pass", "C26", "Ctrl-C in the first of several passes, with leftovers of the last",
    "after a cancellation only the files of passes that began are removed, counted wrong",
    [("cmd/rewritenodes/rewritenodes.go", "\t\tfor i := uint64(1); i < passes; i++ {\n", "\t\tfor i := uint64(1); i <= uint64(len(passTimes)); i++ {\n")],
PTY + """
locs = {i: enc(i, i) for i in range(1, 400001)}
x = write_node_index("n", locs)
p = pbf("a.pbf", *[block(("w", [(b * 100 + j + 1, [1 + (977 * k) % 400000 for k in range(1500)]) for j in range(100)])) for b in range(60)])
os.mkdir(path("d"))
for i in range(12):
    for f in os.listdir(path("d")):
        os.remove(path("d/" + f))
    t = Pty("rewritenodes", "-r", "10ms", "-i", p, "-x", x, "-o", path("d/o"), "-w", 1, "-m", 1)
    end = time.time() + 20
    while not os.path.exists(path("d/o.pass_001_004")) or os.path.getsize(path("d/o.pass_001_004")) < 1000:
        if time.time() > end or t.p.poll() is not None:
            break
        time.sleep(0.01)
    t.key(b"\\x03")
    rc = t.wait(60)
    left = [f for f in os.listdir(path("d")) if "pass" in f]
    check(not left, "%r left behind, exit %r" % (left, rc))
""")

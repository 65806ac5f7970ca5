REST = PTY + '''
# decompress rests while it writes to a pipe that nobody reads
p = pbf("a.pbf", *[block(("n", [(1 + 1000 * b + j, j, j) for j in range(900)])) for b in range(200)])
os.mkfifo(path("o"))
t = Pty("decompress", "-r", "10ms", "-i", p, "-o", path("o"), "-w", 2)
import re
def plain(b):
    return re.sub(rb"\\x1b\\[[0-9;?]*[a-zA-Z]|\\x1b\\(B| ", b"", b)
end = time.time() + 20
while b"[Decompress]ProcessingPBF" not in plain(t.seen):
    check(time.time() < end, "no display")
    time.sleep(0.1)
time.sleep(1)
'''

bug("b70-plain-state", "C12", "the display reading what a worker does while the worker changes it",
    "workers set their state without synchronisation",
    [("cmd/wayindex/wayindexer/state/state_worker.go", "\tatomic.StoreUint64(&w.currentState, s)\n", "\tw.currentState = s\n")],
PTY + """
exe = path("race")
r = subprocess.run(["go", "build", "-race", "-buildvcs=false", "-o", exe, "./cmd/wayindex"], cwd=REPO, env=_goenv_(), capture_output=True, text=True)
check(r.returncode == 0, r.stderr[:300])
import kit
kit._built["wayindex"] = exe
p = pbf("a.pbf", *[block(("w", [(1 + 100 * b + j, list(range(1, 300))) for j in range(90)])) for b in range(100)])
os.environ["GORACE"] = "exitcode=66 atexit_sleep_ms=0"
for i in range(3):
    t = Pty("wayindex", "-r", "100us", "-i", p, "-o", path("o"), "-w", 4)
    rc = t.wait(60)
    check(rc == 0, "exit %r" % rc)
""".replace("_goenv_()", "__import__('kit')._goenv()"))

bug("b71-no-sync", "C26", "another program's output on the terminal, and Ctrl-L",
    "Ctrl-L draws what the display believes to be different, and so leaves what somebody else wrote",
    [("internal/ui/ui.go", "\t\t\tu.app.Refresh()\n", "\t\t\tu.app.Update()\n")],
REST + """
n = len(t.seen)
t.key(b"\\x0c")
time.sleep(1)
check(b"[Decompress]ProcessingPBF" in plain(t.seen[n:]), "nothing is drawn after Ctrl-L: %r" % t.seen[n:][:200])
t.p.kill()
t.p.wait()
""")

bug("b72-stale-bar", "C26", "the terminal being resized while the tool rests in a block",
    "the line about the file is only made when its numbers change, so it keeps the bar of the old width",
    [("internal/ui/widget/widget_process_state.go", "\taction string\n\n\tps *pbf.ProcessFileState\n", "\taction string\n\n\tps   *pbf.ProcessFileState\n\tlast [2]uint64 // what the text shows\n"),
     ("internal/ui/widget/widget_process_state.go", "\tprefix := fmt.Sprintf(\"[%s] Processing PBF %s: \", pfsw.action, pfsw.ps.Filename())\n", "\tnow := [2]uint64{pfsw.ps.CurrentState(), pfsw.ps.At()}\n\tif pfsw.View != nil && now == pfsw.last && now[1] != 0 {\n\t\treturn\n\t}\n\tif pfsw.View != nil {\n\t\tpfsw.last = now\n\t}\n\n\tprefix := fmt.Sprintf(\"[%s] Processing PBF %s: \", pfsw.action, pfsw.ps.Filename())\n")],
REST + """
fcntl.ioctl(t.m, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 300, 0, 0))
time.sleep(1)
n = len(t.seen)
t.key(b"\\x0c")
time.sleep(1)
# the first row as it was drawn again, with marks around the highlighted part
s = t.seen[n:].replace(b"\\x1b[7m", b"<").replace(b"\\x1b(B\\x1b[m", b">")
row = re.search(rb"\\x1b\\[1;1H(.*?)\\x1b\\[2;1H", s, re.S)
check(row, "the first row isn't drawn again: %r" % s[:400])
row = re.sub(rb"\\x1b\\[[0-9;?]*[a-zA-Z]", b"", row[1])
m = re.search(rb"block (\\d+)/(\\d+)", re.sub(rb"[<>]", b"", row))
check(m, row)
want = 300 * int(m[1]) // int(m[2])
got = row.lstrip(b"<>").find(b">") # the text starts highlighted
check(got == want, "%d columns are highlighted, not %d: %r" % (got, want, row))
t.p.kill()
t.p.wait()
""")

package main

import (
	"fmt"
	"os"
	"strings"

	"pgregory.net/rapid"
)

// C32: disk space, open files and mappings.

type c32Case struct {
	C31    c31Case // the PBF: tool, kind, sizes
	Passes int     // the number of passes that is compared with one
	Refs   int     // relindex: locations per way
}

// usage is the most a run was seen to use at one of its writing operations.
type usage struct {
	space int64 // bytes of files in the output's directory, also of those removed but still open or mapped
	files int   // number of these files
	fds   int   // open files of any kind
	maps  int   // mapped files
	ops   int
}

func (u *usage) watch(dir string) func(pid int) {
	return func(pid int) {
		u.ops++
		var space int64
		n := 0
		if es, err := os.ReadDir(dir); err == nil {
			for _, d := range es {
				if st, err := d.Info(); err == nil {
					space += st.Size()
					n++
				}
			}
		}
		gone := map[string]int64{}
		fds, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
		if err != nil {
			return
		}
		for _, d := range fds {
			p := fmt.Sprintf("/proc/%d/fd/%s", pid, d.Name())
			l, err := os.Readlink(p)
			if err == nil && strings.HasPrefix(l, dir+"/") && strings.HasSuffix(l, " (deleted)") {
				if st, err := os.Stat(p); err == nil {
					gone[l] = st.Size()
				}
			}
		}
		mapped := 0
		if b, err := os.ReadFile(fmt.Sprintf("/proc/%d/maps", pid)); err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				f := strings.Fields(l)
				if len(f) < 6 || f[5][0] != '/' || strings.Contains(f[1], "x") {
					continue
				}
				mapped++
				if len(f) > 6 && f[len(f)-1] == "(deleted)" && strings.HasPrefix(f[5], dir+"/") {
					var a, z int64
					fmt.Sscanf(f[0], "%x-%x", &a, &z)
					k := strings.Join(f[5:], " ") + f[4]
					gone[k] = maxI(gone[k], z-a)
				}
			}
		}
		for _, s := range gone {
			space += s
			n++
		}
		u.space, u.files = maxI(u.space, space), max(u.files, n)
		u.fds, u.maps = max(u.fds, len(fds)), max(u.maps, mapped)
	}
}

func runC32(e *Env, c c32Case) error {
	dir, done := e.dir()
	defer done()
	x := &c.C31
	nx, wx, in := join(dir, "n.idx"), join(dir, "w.idx"), join(dir, "in.pbf")
	switch x.Tool {
	case "rewritenodes":
		var s synIdx
		for n := int64(0); n < int64(c.Passes)*131072-60000; n += 30000 {
			s.Elems = append(s.Elems, synElem{Gap: 1 + n%3, Count: 30000})
		}
		es := s.elems()
		last := es[len(es)-1]
		x.Span = int64(last.First + last.Count)
		if err := s.write(nx, nil); err != nil {
			return err
		}
	case "relindex":
		var ws []Way
		for i := int64(1); i <= 400; i++ {
			w := Way{ID: i * 2}
			for j := 0; j < c.Refs; j++ {
				w.Refs = append(w.Refs, pseudoLoc(uint64(i)*100+uint64(j)))
			}
			ws = append(ws, w)
		}
		if err := writeSynWay(wx, ws, x.Align, 0); err != nil {
			return err
		}
	}
	run := func(blocks, passes int) (*usage, int64, error) {
		od := join(dir, "o")
		if err := os.MkdirAll(od, 0o755); err != nil {
			return nil, 0, err
		}
		defer os.RemoveAll(od)
		if err := x.write(in, blocks); err != nil {
			return nil, 0, err
		}
		a := []string{"-i", in, "-w", itoa(x.Workers), "-r", "0", "-o", join(od, "out")}
		switch x.Tool {
		case "wayindex":
			a = append(a, "-a", itoa(x.Align))
		case "rewritenodes":
			a = append(a, "-x", nx)
			if passes > 1 {
				a = append(a, "-m", "1")
			}
		case "relindex":
			a = append(a, "-x", wx, "-p", itoa(passes))
		}
		u := &usage{}
		r, err := e.toolOpt(toolOpt{fsize: -1, inject: &injection{dir: od, at: -1, watch: u.watch(od)}}, x.Tool, a...)
		if err != nil {
			return nil, 0, err
		}
		if !r.ok() {
			return nil, 0, violf("tool failed on valid input: %s", r)
		}
		out, err := os.Stat(join(od, "out"))
		if err != nil {
			return nil, 0, violf("no output: %v", err)
		}
		st, err := os.Stat(in)
		if err != nil {
			return nil, 0, err
		}
		return u, st.Size() + out.Size(), nil
	}
	a, _, err := run(x.Few, 1)
	if err != nil {
		return err
	}
	b, size, err := run(x.Many, c.Passes)
	if err != nil {
		return err
	}
	what := fmt.Sprintf("%s of %d blocks in one pass and of %d in %d", x.Tool, x.Few, x.Many, maxI(1, int64(c.Passes)))
	if b.fds > a.fds+6 {
		return violf("%s: up to %d and %d open files", what, a.fds, b.fds)
	}
	if b.maps > a.maps+6 {
		return violf("%s: up to %d and %d mapped files", what, a.maps, b.maps)
	}
	if b.space > 4*size+1<<17 {
		return violf("%s: the second takes up to %d bytes in %d files beside the output for an input and output of %d bytes altogether", what, b.space, b.files, size)
	}
	return nil
}

func genC32(t *rapid.T, tools []string) c32Case {
	x := c31Case{Tool: rapid.SampledFrom(tools).Draw(t, "tool"),
		Level: rapid.SampledFrom([]int{-1, 0, 1}).Draw(t, "level"), Workers: rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "workers"), Align: rapid.IntRange(0, 4).Draw(t, "align"),
		Tags: rapid.SampledFrom([]int{0, 1, 10}).Draw(t, "tags"), Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))}
	x.Kind = map[string]int{"nodeindex": kNode, "wayindex": kWay, "rewritenodes": kWay, "relindex": kRel}[x.Tool]
	if x.Kind == 0 {
		x.Kind = rapid.SampledFrom([]int{kNode, kWay, kRel}).Draw(t, "kind")
	}
	x.Len = rapid.IntRange(2, 40).Draw(t, "len")
	return c32Case{C31: x}
}

func init() {
	all := []string{"nodeindex", "wayindex", "rewritenodes", "relindex", "tagfilter", "decompress"}
	register(&Property{ID: "C32", Tools: all, Arms: []*Arm{
		arm("passes", 60, "rewritenodes and relindex, a few large blocks, 8 to 40 passes: disk space, open and mapped files seen at every writing operation; non-trivial: all",
			func(t *rapid.T) c32Case {
				c := genC32(t, []string{"rewritenodes", "relindex"})
				c.C31.N = rapid.IntRange(300, 2000).Draw(t, "n")
				c.C31.Few = rapid.IntRange(1, 4).Draw(t, "blocks")
				c.C31.Many = c.C31.Few
				c.Passes = rapid.IntRange(8, 16).Draw(t, "passes")
				if c.C31.Tool == "relindex" {
					c.Passes = rapid.IntRange(8, 40).Draw(t, "rpasses")
					c.Refs = rapid.IntRange(1, 30).Draw(t, "refs")
					c.C31.Len = min(c.C31.Len, 12)
				}
				return c
			}, runC32, func(c c32Case) Class { return Class{true, []string{c.C31.Tool}} }),
		arm("blocks", 120, "writing tools on files of a few and of hundreds of blocks; non-trivial: all",
			func(t *rapid.T) c32Case {
				c := genC32(t, all)
				c.C31.N = rapid.IntRange(2, 60).Draw(t, "n")
				c.C31.Few = rapid.IntRange(5, 10).Draw(t, "few")
				c.C31.Many = rapid.IntRange(100, 400).Draw(t, "many")
				c.Passes, c.Refs = 1, 10
				return c
			}, runC32, func(c c32Case) Class { return Class{true, []string{c.C31.Tool}} }),
	}})
}

package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C12: outputs do not depend on workers, threads or scheduling; no data races.

type sched struct{ Workers, Threads, Procs int }

type c12Case struct {
	Doc     Doc
	Align   int
	Passes  int
	Mem     int
	Configs []sched
	Repeat  bool // the first configuration is run twice more
	Ask     []uint64
}

var allTools = []string{"nodeindex", "rewritenodes", "wayindex", "relindex", "tagfilter", "decompress", "blockcount", "entitycount", "entityfind"}

func (c *c12Case) opt(s sched) allOpt {
	return allOpt{Workers: s.Workers, Threads: s.Threads, Procs: s.Procs, Align: c.Align, Passes: c.Passes, Mem: c.Mem, Ask: c.Ask}
}

func runC12(e *Env, c c12Case) error {
	dir, done := e.dir()
	defer done()
	in := join(dir, "in.pbf")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	ref, err := e.runAll(join(dir, "ref"), in, c.opt(sched{1, 0, 1}))
	if err != nil {
		return err
	}
	cfgs := c.Configs
	if c.Repeat {
		cfgs = append(append([]sched{}, cfgs...), c.Configs[0], c.Configs[0])
	}
	for i, s := range cfgs {
		got, err := e.runAll(join(dir, itoa(i)), in, c.opt(s))
		if err != nil {
			return err
		}
		for _, k := range sortedKeys(ref) {
			if d := diffBytes(ref[k], got[k]); d != "" {
				return violf("%s with %d workers, --max-threads %d, GOMAXPROCS %d differs from one worker: %s", k, s.Workers, s.Threads, s.Procs, d)
			}
		}
	}
	return nil
}

// wovenCase: the woven tools with seeds of their schedules.
type wovenCase struct {
	C     c12Case
	Seeds []uint64
}

func runC12Woven(e *Env, w wovenCase) error {
	c := w.C
	dir, done := e.dir()
	defer done()
	in := join(dir, "in.pbf")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	ref, err := e.runAll(join(dir, "ref"), in, c.opt(sched{1, 0, 1}))
	if err != nil {
		return err
	}
	for i, s := range c.Configs {
		o := c.opt(s)
		o.Weave = w.Seeds[i]
		got, err := e.runAll(join(dir, itoa(i)), in, o)
		if err != nil {
			return err
		}
		for _, k := range sortedKeys(ref) {
			if d := diffBytes(ref[k], got[k]); d != "" {
				return violf("%s with %d workers in schedule %d, --max-threads %d, GOMAXPROCS %d differs from one worker: %s", k, s.Workers, w.Seeds[i], s.Threads, s.Procs, d)
			}
		}
	}
	return nil
}

func runC12Race(e *Env, c c12Case) error {
	dir, done := e.dir()
	defer done()
	in := join(dir, "in.pbf")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	for i, s := range c.Configs {
		o := c.opt(s)
		o.Race = true
		if _, err := e.runAll(join(dir, itoa(i)), in, o); err != nil {
			return err
		}
	}
	return nil
}

var raceAccess = regexp.MustCompile(`(?m)^(?:Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic read|Previous atomic write) at .*\n  (\S+)`)

// ownRace finds a race report with an access made by the code under test itself, not within a library.
func ownRace(s string) string {
	for _, r := range strings.Split(s, "WARNING: DATA RACE")[1:] {
		for _, m := range raceAccess.FindAllStringSubmatch(r, -1) {
			if strings.Contains(m[1], "squizzling/osmindex") {
				return r
			}
		}
	}
	return ""
}

// runC12Display: with the display, which reads what the workers and the writer are doing.
func runC12Display(e *Env, c c26Case) error {
	dir, done := e.dir()
	defer done()
	u, err := c.prepare(e, dir)
	if err != nil {
		return err
	}
	r, err := e.toolOpt(toolOpt{fsize: -1, pty: c.pty(), gomaxprocs: c.Procs, race: true, raceAll: true}, c.C.Tool, u.withUI(c.Refresh)...)
	if err != nil {
		return err
	}
	if s := ownRace(r.Stderr); s != "" {
		return violf("data race: %s: %s", strings.Join(r.Args, " "), clipStr(s, 2500))
	}
	if !r.ok() && r.Exit != 66 {
		return violf("with the display shown: %s", r)
	}
	return nil
}

func genSched(t *rapid.T) sched {
	return sched{rapid.SampledFrom([]int{2, 3, 4, 8, 16, 33}).Draw(t, "w"), rapid.SampledFrom([]int{0, 0, 1, 2, 5, 64}).Draw(t, "threads"), rapid.SampledFrom([]int{8, 4, 2, 1}).Draw(t, "procs")}
}

// genSkew makes documents whose blocks take very different times: large ones among tiny ones.
func genSkew(t *rapid.T) Doc {
	g := &docGen{t: t, o: docOpt{kinds: kNode | kWay | kRel, nodeTags: true, negRefs: true, maxPer: 3, bulkN: 6000}}
	var d Doc
	if rapid.Bool().Draw(t, "hdr") {
		d.Blobs = append(d.Blobs, headerBlob(t))
	}
	n := rapid.IntRange(3, 14).Draw(t, "n")
	kinds := []int{kNode, kWay, kRel}
	phase := 0
	for i := 0; i < n; i++ {
		// nodes, then ways, then relations, as in real files, or mixed
		if phase < 2 && oneIn(t, 4, "phase") {
			phase++
		}
		k := kinds[phase]
		if oneIn(t, 6, "anykind") {
			k = rapid.SampledFrom(kinds).Draw(t, "k")
		}
		b := &Block{}
		if wpick(t, "big", 3, 1) == 1 {
			b.Groups = []Group{g.bulkGroup(b, Group{Kind: k}, k)}
		} else {
			b.Groups = []Group{g.group(b, k)}
		}
		d.Blobs = append(d.Blobs, Blob{Type: "OSMData", Level: rapid.SampledFrom([]int{-1, 6, 9}).Draw(t, "lvl"), Block: b})
	}
	return d
}

func genC12(t *rapid.T, doc func(t *rapid.T) Doc, nc int) c12Case {
	c := c12Case{Doc: doc(t), Align: genAlign(t), Passes: rapid.IntRange(1, 3).Draw(t, "passes"), Ask: []uint64{1, 2, 3}}
	if oneIn(t, 3, "memq") {
		c.Mem = 1
	}
	n := rapid.IntRange(1, nc).Draw(t, "nconf")
	for i := 0; i < n; i++ {
		c.Configs = append(c.Configs, genSched(t))
	}
	c.Repeat = oneIn(t, 3, "repeat")
	return c
}

func init() {
	cls := func(c c12Case) Class {
		l := docLabels(&c.Doc)
		for _, s := range c.Configs {
			l = append(l, fmt.Sprintf("workers=%d", s.Workers))
		}
		sort.Strings(l)
		_, _, _, b := c.Doc.kinds()
		return Class{Nontrivial: b >= 2, Labels: l}
	}
	mixed := func(t *rapid.T) Doc {
		return genDoc(t, docOpt{kinds: kNode | kWay | kRel, nodeTags: true, negRefs: true, coordFine: true, maxBlobs: 20, maxPer: 4, order: true})
	}
	register(&Property{ID: "C12", Tools: allTools, Race: allTools, Woven: allTools, Arms: []*Arm{
		arm("skewed", 200, "files whose blocks take very different times x configurations of workers, --max-threads and GOMAXPROCS, against one worker; non-trivial: two data blocks",
			func(t *rapid.T) c12Case { return genC12(t, genSkew, 3) }, runC12, cls),
		arm("mixed", 250, "generated files of up to 20 data blocks x the same configurations; non-trivial: two data blocks",
			func(t *rapid.T) c12Case { return genC12(t, mixed, 3) }, runC12, cls),
		arm("woven", 150, "every tool with a point between all statements where a generated schedule may delay a goroutine, on skewed and generated files, against one worker; non-trivial: two data blocks",
			func(t *rapid.T) wovenCase {
				d := mixed
				if rapid.Bool().Draw(t, "skew") {
					d = genSkew
				}
				w := wovenCase{C: genC12(t, d, 3)}
				w.C.Repeat = false
				for i := range w.C.Configs {
					w.C.Configs[i].Procs = 4
					w.Seeds = append(w.Seeds, rapid.Uint64Range(1, 1<<40).Draw(t, "schedule"))
				}
				return w
			}, runC12Woven, func(w wovenCase) Class { return cls(w.C) }),
		arm("race", 120, "every tool built with the race detector, on skewed and generated files; non-trivial: two data blocks",
			func(t *rapid.T) c12Case {
				d := mixed
				if rapid.Bool().Draw(t, "skew") {
					d = genSkew
				}
				c := genC12(t, d, 2)
				for i := range c.Configs {
					c.Configs[i].Procs = 4
				}
				return c
			}, runC12Race, cls),
		arm("display", 120, "every tool with a display, built with the race detector, drawing on a pseudo terminal as often as it can; non-trivial: two data blocks",
			func(t *rapid.T) c26Case {
				c := genC26(t, oneIn(t, 3, "large"))
				c.Procs = 4
				c.Refresh = rapid.SampledFrom([]string{"50us", "300us", "1ms"}).Draw(t, "fast")
				return c
			}, runC12Display, func(c c26Case) Class {
				_, _, _, b := c.C.Doc.kinds()
				return Class{b >= 2, []string{c.C.Tool}}
			}),
	}})
}

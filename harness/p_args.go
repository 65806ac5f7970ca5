package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C27: a command line that is not valid never succeeds and touches nothing; a valid one means the same
// however it is spelled.

type c27Case struct {
	Tool   string
	Kind   string
	C      c15Case // the inputs
	A, B   uint64  // what is wrong, and where
	Form   []int   // spelling of the options
	Order  uint64  // 0: as documented
	Extra  []string
	Omit   bool // options at their default are left out
	Old    bool // the output exists already
	UI     bool // with the display, for values that cannot work
	Finish bool // "--" at the end
	Name   string
}

type cliOpt struct {
	short, long string
	val         string
	typ         byte // s string, i int, u uint64, f float, d duration, b bool
	req         bool
	def         string // default, when an option with this value can be left out
}

// options in the order of the usage text
var cliOpts = map[string]string{
	"nodeindex":     "i input-file s!,o output-file s!,w workers i,r refresh d",
	"wayindex":      "i input-file s!,o output-file s!,w workers i,a alignment i,r refresh d",
	"rewritenodes":  "i input-file s!,x index-file s!,o output-file s!,w workers i,m memory u,t timing f,r refresh d",
	"relindex":      "i input-file s!,x way-index s!,o output-file s!,w workers i,p passes i,r refresh d",
	"tagfilter":     "i input-file s!,o output-file s!,w workers i,r refresh d",
	"decompress":    "i input-file s!,o output-file s!,w workers i,r refresh d",
	"entitycount":   "i input-file s!,w workers i",
	"blockcount":    "i input-file s!,w workers i",
	"entityfind":    "i input-file s!,w workers i,e entity-id u!",
	"dumpnodeindex": "i input-file s!,p print-locations b,s search-index b,- sub-index-index u,- sub-index-count u,- start-element i,- end-element i",
	"dumpwayindex":  "i input-file s!,p print-locations b,s search-index b,- sub-index-index i,- sub-index-count i",
}

func cliTable(tool string) []cliOpt {
	var l []cliOpt
	for _, s := range strings.Split(cliOpts[tool]+",- max-threads i", ",") {
		f := strings.Fields(s)
		o := cliOpt{long: f[1], typ: f[2][0], req: strings.HasSuffix(f[2], "!")}
		if f[0] != "-" {
			o.short = f[0]
		}
		l = append(l, o)
	}
	return l
}

func isWriter(tool string) bool { return actionName[tool] != "" }

// spell gives an option as arguments, in one of five forms.
func (o *cliOpt) spell(form int) []string {
	if o.typ == 'b' {
		if o.short == "" || form%2 == 1 {
			return []string{"--" + o.long}
		}
		return []string{"-" + o.short}
	}
	if o.short == "" && form < 3 {
		form = 3 + form%2
	}
	if strings.HasPrefix(o.val, "-") || o.val == "" {
		form = 4
	}
	switch form {
	case 1:
		return []string{"-" + o.short + o.val}
	case 2:
		return []string{"-" + o.short + "=" + o.val}
	case 3:
		return []string{"--" + o.long, o.val}
	case 4:
		return []string{"--" + o.long + "=" + o.val}
	}
	return []string{"-" + o.short, o.val}
}

func shuffled(n int, seed uint64) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if seed != 0 {
		r := &rng{seed}
		for i := n - 1; i > 0; i-- {
			j := int(r.u() % uint64(i+1))
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

// set is the options of a valid command line.
func (c *c27Case) set(dir, out string) ([]cliOpt, error) {
	prep := c.C
	prep.Tool = c.Tool
	switch c.Tool {
	case "dumpnodeindex":
		prep.Tool = "rewritenodes"
	case "dumpwayindex":
		prep.Tool = "relindex"
	}
	a, err := prep.prepare(dir)
	if err != nil {
		return nil, err
	}
	vals := map[string]string{}
	for i := 0; i+1 < len(a); i += 2 {
		vals[a[i][1:]] = a[i+1]
	}
	vals["o"] = out
	switch c.Tool {
	case "dumpnodeindex":
		vals = map[string]string{"i": join(dir, "n.idx"), "p": "yes", "s": "yes"}
	case "dumpwayindex":
		vals = map[string]string{"i": join(dir, "w.idx"), "p": "yes", "s": "yes"}
	case "entityfind":
		vals["e"] = "1"
		c.C.Doc.eachRel(func(r *Rel) { vals["e"] = i64toa(r.ID) })
	}
	var l []cliOpt
	for _, o := range cliTable(c.Tool) {
		if v, ok := vals[o.short]; ok && o.short != "" {
			o.val = v
			switch {
			case o.long == "workers", o.long == "alignment" && v == "3", o.long == "passes" && v == "1":
				o.def = v
			}
			l = append(l, o)
		}
	}
	return l, nil
}

// result is what a tool writes, or prints.
func (c *c27Case) result(r *toolResult, out string) ([]byte, error) {
	if isWriter(c.Tool) {
		return os.ReadFile(out)
	}
	var l []string
	for _, x := range strings.Split(r.Stdout, "\n") {
		if !strings.HasPrefix(x, "Total run time:") {
			l = append(l, x)
		}
	}
	sort.Strings(l) // entities are printed as they are found
	return []byte(strings.Join(l, "\n")), nil
}

func badValue(typ byte, a uint64) string {
	var l []string
	switch typ {
	case 'i':
		l = []string{"x", "1.5", "", "1e3", "9223372036854775808", "3x", "--"}
	case 'u':
		l = []string{"x", "1.5", "", "-1", "18446744073709551616", "7_"}
	case 'f':
		l = []string{"x", "1,5", "", "2x"}
	case 'd':
		l = []string{"x", "5", "", "1q", "ms"}
	}
	return l[a%uint64(len(l))]
}

type badRange struct{ opt, val string }

// ranges are values that parse and cannot work.
func ranges(tool string) []badRange {
	var l []badRange
	for _, o := range cliTable(tool) {
		switch o.long {
		case "workers":
			l = append(l, badRange{"workers", "0"}, badRange{"workers", "-1"}, badRange{"workers", "-100"})
		case "passes":
			l = append(l, badRange{"passes", "0"}, badRange{"passes", "-1"}, badRange{"passes", "-9"})
		case "memory":
			l = append(l, badRange{"memory", "0"})
		case "timing":
			l = append(l, badRange{"timing", "1"}, badRange{"timing", "0.5"}, badRange{"timing", "0"}, badRange{"timing", "-2"})
		case "alignment":
			l = append(l, badRange{"alignment", "-1"}, badRange{"alignment", "-5"})
		case "refresh":
			l = append(l, badRange{"refresh", "-5ms"})
		case "sub-index-index":
			if tool == "dumpwayindex" {
				l = append(l, badRange{"sub-index-index", "-1"})
			}
		}
	}
	return l
}

func insertAt(l [][]string, k int, x ...string) [][]string {
	k %= len(l) + 1
	l = append(l, nil)
	copy(l[k+1:], l[k:])
	l[k] = x
	return l
}

func runC27(e *Env, c c27Case) error {
	dir, done := e.dir()
	defer done()
	od := join(dir, "o")
	name := c.Name
	if name == "" {
		name = "out"
	}
	out := join(od, name)
	if err := os.Mkdir(od, 0o755); err != nil {
		return err
	}
	opts, err := c.set(dir, out)
	if err != nil {
		return err
	}
	line := func(opts []cliOpt, form []int, order uint64) [][]string {
		var l [][]string
		for n, i := range shuffled(len(opts), order) {
			f := 0
			if len(form) > 0 {
				f = form[n%len(form)]
			}
			l = append(l, opts[i].spell(f))
		}
		return l
	}
	flat := func(l [][]string) []string {
		var a []string
		for _, x := range l {
			a = append(a, x...)
		}
		return a
	}
	find := func(long string) int {
		for i := range opts {
			if opts[i].long == long {
				return i
			}
		}
		return -1
	}
	set := func(long, val string) {
		if i := find(long); i >= 0 {
			opts[i].val = val
			return
		}
		for _, o := range cliTable(c.Tool) {
			if o.long == long {
				o.val = val
				opts = append(opts, o)
			}
		}
	}
	to := toolOpt{fsize: -1, dir: od}
	pick := func(n int) int { return int(c.A % uint64(n)) }

	if c.Kind == "forms" {
		r, err := e.toolOpt(to, c.Tool, flat(line(opts, nil, 0))...)
		if err != nil {
			return err
		}
		if !r.ok() {
			return violf("a valid command line is refused: %s", r)
		}
		want, err := c.result(r, out)
		if err != nil {
			return violf("no output: %v", err)
		}
		if err := os.RemoveAll(od); err != nil {
			return err
		}
		if err := os.Mkdir(od, 0o755); err != nil {
			return err
		}
		if c.Omit {
			var l []cliOpt
			for _, o := range opts {
				if o.def == "" {
					l = append(l, o)
				}
			}
			opts = l
		}
		files := []string{}
		if isWriter(c.Tool) {
			files = append(files, name)
		}
		for _, x := range c.Extra {
			v := join(od, "prof."+x)
			switch x {
			case "max-threads":
				set(x, itoa(1+int(c.B%9)))
				continue
			case "mem-profile-rate":
				v = itoa(1 << (c.B % 20))
			default:
				files = append(files, "prof."+x)
			}
			opts = append(opts, cliOpt{long: x, val: v, typ: 's'})
		}
		l := line(opts, c.Form, c.Order)
		if c.Finish {
			l = append(l, []string{"--"})
		}
		a := flat(l)
		if r, err = e.toolOpt(to, c.Tool, a...); err != nil {
			return err
		}
		if !r.ok() {
			return violf("another spelling of a valid command line is refused: %s", r)
		}
		got, err := c.result(r, out)
		if err != nil {
			return violf("%s %q: no output: %v", c.Tool, a, err)
		}
		if s := diffBytes(want, got); s != "" {
			return violf("%s %q differs from the usual spelling: %s", c.Tool, a, s)
		}
		if err := onlyFiles(od, files...); err != nil {
			return wrap(err, fmt.Sprintf("%s %q", c.Tool, a))
		}
		for _, f := range files {
			if f == name {
				continue
			}
			b, err := os.ReadFile(join(od, f))
			if err != nil {
				return err
			}
			if !bytes.HasPrefix(b, []byte{0x1f, 0x8b}) {
				return violf("%s %q: %s holds no profile", c.Tool, a, f)
			}
		}
		return nil
	}

	var l [][]string
	untouched := true // the tool has to notice before it does anything
	what := ""
	switch c.Kind {
	case "missing":
		var req []int
		for i, o := range opts {
			if o.req {
				req = append(req, i)
			}
		}
		drop := map[int]bool{req[pick(len(req))]: true}
		for k, i := range req {
			if c.B>>k&1 == 1 && c.B&64 != 0 {
				drop[i] = true
			}
		}
		var keep []cliOpt
		for i, o := range opts {
			if !drop[i] {
				keep = append(keep, o)
			} else {
				what += " without --" + o.long
			}
		}
		l = line(keep, c.Form, c.Order)
	case "unknown":
		have := map[string]bool{}
		for _, o := range cliTable(c.Tool) {
			have["-"+o.short], have["--"+o.long] = true, true
		}
		var cand [][]string
		for _, x := range [][]string{{"--nope"}, {"-Z"}, {"--Input-file=x"}, {"--input_file", "x"}, {"-I", "x"}, {"-I"}, {"--workersx=3"}, {"--outputfile=x"}, {"--no-refresh"}, {"--"}, {"-o", "y"},
			{"--output-file=y"}, {"-m", "3"}, {"--memory=3"}, {"-t", "2"}, {"-a", "3"}, {"-p", "1"}, {"-x", "y"}, {"-e", "5"}, {"-s"}, {"--end-element=1"}, {"-r", "0"}, {"--passes=2"}, {"-W", "2"}} {
			n := strings.SplitN(x[0], "=", 2)[0]
			if !have[n] && n != "--" {
				cand = append(cand, x)
			}
		}
		x := cand[pick(len(cand))]
		what = fmt.Sprintf("with the unknown option %q", x)
		l = insertAt(line(opts, c.Form, c.Order), int(c.B%16), x...)
	case "value":
		var typed []cliOpt
		for _, o := range cliTable(c.Tool) {
			if o.typ != 's' && o.typ != 'b' {
				typed = append(typed, o)
			}
		}
		o := typed[pick(len(typed))]
		v := badValue(o.typ, c.B)
		what = fmt.Sprintf("with --%s=%q", o.long, v)
		set(o.long, v)
		l = line(opts, c.Form, c.Order)
	case "boolvalue":
		if !strings.Contains(cliOpts[c.Tool], " b") {
			return nil
		}
		what = "with a value for a switch"
		l = insertAt(line(opts, c.Form, c.Order), int(c.B%16), []string{"--print-locations=3", "--search-index=x", "-p=7"}[pick(3)])
	case "novalue":
		var vals []int
		for i, o := range opts {
			if o.typ != 'b' {
				vals = append(vals, i)
			}
		}
		o := opts[vals[pick(len(vals))]]
		var keep []cliOpt
		for _, x := range opts {
			if x.long != o.long {
				keep = append(keep, x)
			}
		}
		what = "with no value for --" + o.long
		x := "-" + o.short
		if c.B&1 == 1 {
			x = "--" + o.long
		}
		l = append(line(keep, c.Form, c.Order), []string{x})
	case "positional":
		x := []string{"extra", "in.pbf", "", "0", "x y"}[pick(5)]
		what = fmt.Sprintf("with the extra argument %q", x)
		l = line(opts, c.Form, c.Order)
		if c.B&1 == 1 {
			l = append(l, []string{"--", x})
		} else {
			l = insertAt(l, int(c.B>>1%16), x)
		}
	case "pair":
		l = line(opts, c.Form, c.Order)
		var x []string
		if strings.HasPrefix(c.Tool, "dump") && c.A%4 != 0 {
			x = [][]string{{"--sub-index-index=1"}, {"--sub-index-count", "2"}, {"--sub-index-index=2", "--sub-index-count=2"}, {"--sub-index-count=3", "--sub-index-index=7"}, {"--sub-index-count=0", "--sub-index-index=0"}}[c.B%5]
		} else {
			x = []string{"--mem-profile-rate=100"}
		}
		what = fmt.Sprintf("with %q", x)
		l = insertAt(l, int(c.B>>4%16), x...)
	case "help":
		x := []string{"-h", "--help"}[pick(2)]
		what = "with " + x
		if c.B&1 == 1 {
			l = [][]string{{x}}
		} else {
			l = insertAt(line(opts, c.Form, c.Order), int(c.B>>1%16), x)
		}
	case "range":
		untouched = false
		rs := ranges(c.Tool)
		if len(rs) == 0 {
			return nil
		}
		x := rs[pick(len(rs))]
		what = fmt.Sprintf("with --%s=%s", x.opt, x.val)
		set(x.opt, x.val)
		if x.opt == "sub-index-index" {
			set("sub-index-count", itoa(1+int(c.B%3)))
		}
		if x.opt == "timing" {
			to.cpu, to.hang = 15, true
		} else if c.UI && isWriter(c.Tool) {
			if x.opt != "refresh" {
				set("refresh", "500ms")
			}
			to.pty = &ptyRun{term: "xterm", rows: 24, cols: 80}
		}
		l = line(opts, c.Form, c.Order)
	case "badpath":
		untouched = false
		var paths []int
		for i, o := range opts {
			if o.typ == 's' {
				paths = append(paths, i)
			}
		}
		i := paths[pick(len(paths))]
		bad := []string{join(dir, "none"), join(dir, "none", "x"), dir, ""}[c.B%4]
		if opts[i].long == "output-file" && bad == join(dir, "none") {
			bad = od
		}
		what = fmt.Sprintf("with --%s=%s", opts[i].long, strings.Replace(bad, dir, "DIR", 1))
		opts[i].val = bad
		l = line(opts, c.Form, c.Order)
	default:
		return fmt.Errorf("unknown kind %q", c.Kind)
	}
	a := flat(l)
	if c.Old && isWriter(c.Tool) {
		if err := writeFile(out, garbage(int(c.B%4000), c.B)); err != nil {
			return err
		}
	}
	before, err := snapshot(dir)
	if err != nil {
		return err
	}
	r, err := e.toolOpt(to, c.Tool, a...)
	if err != nil {
		return err
	}
	shown := fmt.Sprintf("%s %s (%q)", c.Tool, what, a)
	switch {
	case r.Hung:
		return violf("%s hangs", shown)
	case c.Kind == "help":
		if !r.ok() {
			return violf("%s fails: %s", shown, r)
		}
		for _, o := range cliTable(c.Tool) {
			if !strings.Contains(r.Stdout, "--"+o.long) {
				return violf("%s does not mention --%s", shown, o.long)
			}
		}
	case r.ok():
		return violf("%s reports success", shown)
	case strings.TrimSpace(r.Stderr) == "":
		return violf("%s fails without a message", shown)
	}
	if untouched {
		after, err := snapshot(dir)
		if err != nil {
			return err
		}
		for _, n := range sortedKeys(after) {
			if b, ok := before[n]; !ok {
				return violf("%s creates %s", shown, n)
			} else if b != after[n] {
				return violf("%s changes %s", shown, n)
			}
		}
		for _, n := range sortedKeys(before) {
			if _, ok := after[n]; !ok {
				return violf("%s removes %s", shown, n)
			}
		}
	}
	return nil
}

func genC27(t *rapid.T, kinds []string) c27Case {
	var c c27Case
	c.Tool = rapid.SampledFrom(sortedKeys(cliOpts)).Draw(t, "tool")
	c.Kind = rapid.SampledFrom(kinds).Draw(t, "kind")
	for strings.HasPrefix(c.Tool, "dump") == false && c.Kind == "boolvalue" {
		c.Kind = "unknown"
	}
	c.C = c15Case{Doc: genDoc(t, docOpt{kinds: kNode | kWay | kRel, nodeTags: true, negRefs: true, maxPer: 4, maxBlobs: 4}), Workers: rapid.IntRange(1, 9).Draw(t, "w"),
		Align: genAlign(t), Passes: rapid.IntRange(1, 4).Draw(t, "passes"), Long: rapid.IntRange(0, 5).Draw(t, "long"), Nodes: rapid.IntRange(0, 50).Draw(t, "nodes")}
	if rapid.Bool().Draw(t, "mem") {
		c.C.Mem = rapid.IntRange(1, 3).Draw(t, "memory")
	}
	c.A, c.B = uint64(rapid.IntRange(0, 1<<16).Draw(t, "a")), uint64(rapid.IntRange(0, 1<<16).Draw(t, "b"))
	c.Form = rapid.SliceOfN(rapid.IntRange(0, 4), 0, 8).Draw(t, "form")
	c.Order = uint64(rapid.IntRange(0, 1000).Draw(t, "order"))
	c.Old, c.UI, c.Finish, c.Omit = rapid.Bool().Draw(t, "old"), rapid.Bool().Draw(t, "ui"), oneIn(t, 4, "finish"), rapid.Bool().Draw(t, "omit")
	if c.Kind == "forms" {
		for _, x := range []string{"max-threads", "cpu-profile", "mem-profile"} {
			if oneIn(t, 4, x) {
				c.Extra = append(c.Extra, x)
				if x == "mem-profile" && rapid.Bool().Draw(t, "rate") {
					c.Extra = append(c.Extra, "mem-profile-rate")
				}
			}
		}
		c.Name = rapid.SampledFrom([]string{"", "", "a b", "a=b", "größe", "100%d", "out.pbf"}).Draw(t, "name")
	}
	return c
}

func init() {
	cls := func(c c27Case) Class {
		return Class{Nontrivial: c.Kind != "forms" || len(c.Form) > 0 || c.Order != 0 || len(c.Extra) > 0, Labels: []string{c.Tool, c.Kind, c.Tool + " " + c.Kind}}
	}
	register(&Property{ID: "C27", Tools: sortedKeys(cliOpts), Arms: []*Arm{
		arm("invalid", 700, "tool x what is wrong with the command line (required option missing, unknown option, unusable value, value missing or superfluous, extra argument, contradicting options), or -h; non-trivial: always",
			func(t *rapid.T) c27Case {
				return genC27(t, []string{"missing", "unknown", "value", "value", "boolvalue", "novalue", "positional", "pair", "help"})
			}, runC27, cls),
		arm("range", 250, "tool x a value that parses but cannot work, or a file that does not exist, is a directory, or cannot be created; with and without display; non-trivial: always",
			func(t *rapid.T) c27Case { return genC27(t, []string{"range", "range", "badpath"}) }, runC27, cls),
		arm("forms", 350, "tool x generated inputs x spelling and order of the options x defaults left out x resource options, against the usual command line; non-trivial: another spelling, order or option",
			func(t *rapid.T) c27Case { return genC27(t, []string{"forms"}) }, runC27, cls),
	}})
}

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func itoa(n int) string     { return strconv.Itoa(n) }
func i64toa(n int64) string { return strconv.FormatInt(n, 10) }

// runOK runs a tool that has to succeed.
func (e *Env) runOK(name string, args ...string) (*toolResult, error) {
	r, err := e.tool(name, args...)
	if err != nil {
		return nil, err
	}
	if !r.ok() {
		return r, violf("tool failed on valid input: %s", r)
	}
	return r, nil
}

func args(s string) []string { return strings.Fields(s) }

func (e *Env) nodeindex(in, out string, w int) error {
	_, err := e.runOK("nodeindex", "-r", "0", "-i", in, "-o", out, "-w", itoa(w))
	return err
}

func (e *Env) wayindex(in, out string, w, align int) error {
	_, err := e.runOK("wayindex", "-r", "0", "-i", in, "-o", out, "-w", itoa(w), "-a", itoa(align))
	return err
}

func (e *Env) relindex(in, way, out string, w, passes int) error {
	_, err := e.runOK("relindex", "-r", "0", "-i", in, "-x", way, "-o", out, "-w", itoa(w), "-p", itoa(passes))
	return err
}

func (e *Env) rewritenodes(in, idx, out string, w int, mem int) error {
	a := []string{"-r", "0", "-i", in, "-x", idx, "-o", out, "-w", itoa(w)}
	if mem > 0 {
		a = append(a, "-m", itoa(mem))
	}
	_, err := e.runOK("rewritenodes", a...)
	return err
}

func (e *Env) simple(tool, in, out string, w int) error {
	_, err := e.runOK(tool, "-r", "0", "-i", in, "-o", out, "-w", itoa(w))
	return err
}

func sameFile(a, b string) (string, error) {
	x, err := os.ReadFile(a)
	if err != nil {
		return "", err
	}
	y, err := os.ReadFile(b)
	if err != nil {
		return "", err
	}
	return diffBytes(x, y), nil
}

func diffBytes(x, y []byte) string {
	if bytes.Equal(x, y) {
		return ""
	}
	n := 0
	for n < len(x) && n < len(y) && x[n] == y[n] {
		n++
	}
	return fmt.Sprintf("%d and %d bytes, first difference at byte %d", len(x), len(y), n)
}

// listing gives the names in a directory.
func listing(dir string) ([]string, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, x := range es {
		out = append(out, x.Name())
	}
	sort.Strings(out)
	return out, nil
}

func onlyFiles(dir string, want ...string) error {
	got, err := listing(dir)
	if err != nil {
		return err
	}
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return violf("directory holds %v, expected %v", got, want)
	}
	return nil
}

func writeFile(p string, b []byte) error { return os.WriteFile(p, b, 0o644) }

func join(a ...string) string { return filepath.Join(a...) }

// wrap turns an oracle's plain error into a violation.
func wrap(err error, what string) error {
	if err == nil {
		return nil
	}
	return violf("%s: %v", what, err)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

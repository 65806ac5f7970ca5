package main

import (
	"encoding/json"
	"math"
	"strings"

	"pgregory.net/rapid"
)

// Arms that run the cases of another arm on the woven code (weave.go): a generated schedule decides
// where goroutines are delayed.  The property has to hold in all of them.

type wovenAny struct {
	Case     any
	Schedule uint64
}

const wovenSuffix = "@woven"

func weaveArm(id, of, name string, quick int) {
	p := properties[id]
	var a *Arm
	for _, x := range p.Arms {
		if x.Name == of {
			a = x
		}
	}
	if p.Woven == nil {
		p.Woven = append(p.Woven, p.Tools...)
		for _, d := range p.Drivers {
			p.Woven = append(p.Woven, "driver:"+d)
		}
	}
	p.Arms = append(p.Arms, &Arm{
		Name:  name,
		Quick: int(math.Ceil(float64(quick) / p.Scale)),
		Rule:  "the cases of " + of + " on the code with a point between all statements where a generated schedule may delay a goroutine; non-trivial as there",
		gen: func(t *rapid.T) any {
			return wovenAny{a.gen(t), rapid.Uint64Range(1, 1<<40).Draw(t, "schedule")}
		},
		run: func(e *Env, c any) error {
			w := c.(wovenAny)
			e.weave = w.Schedule
			defer e.unweave()
			return a.run(e, w.Case)
		},
		class: func(c any) Class { return a.class(c.(wovenAny).Case) },
		decode: func(b []byte) (any, error) {
			var w struct {
				Case     json.RawMessage
				Schedule uint64
			}
			if err := json.Unmarshal(b, &w); err != nil {
				return nil, err
			}
			x, err := a.decode(w.Case)
			return wovenAny{x, w.Schedule}, err
		},
	})
}

func (e *Env) unweave() {
	e.weave = 0
	for n, d := range e.drivers {
		if strings.HasSuffix(n, wovenSuffix) {
			d.kill()
			delete(e.drivers, n)
		}
	}
}

func init() {
	weaveArm("C01", "content", "woven", 160)
	weaveArm("C03", "layout", "woven", 120)
	weaveArm("C04", "mixed", "woven", 160)
	weaveArm("C05", "few", "woven", 60)
	weaveArm("C06", "file", "woven", 120)
	weaveArm("C07", "mixed", "woven", 160)
	weaveArm("C08", "rels", "woven", 80)
	weaveArm("C09", "mixed", "woven", 160)
	weaveArm("C10", "doc", "woven", 120)
	weaveArm("C10", "many", "wovenmany", 40)
	weaveArm("C11", "blocks", "woven", 120)
	weaveArm("C14", "truncated", "woven", 80)
	weaveArm("C15", "small", "woven", 40)
	weaveArm("C17", "order", "woven", 300)
	weaveArm("C17", "cancel", "wovencancel", 200)
	weaveArm("C19", "mixed", "woven", 80)
	weaveArm("C22", "threads", "woven", 300)
	weaveArm("C22", "tools", "woventools", 24)
	weaveArm("C24", "small", "woven", 80)
	weaveArm("C25", "threads", "woven", 300)
	weaveArm("C26", "same", "woven", 60)
	weaveArm("C26", "cancel", "wovencancel", 80)
	weaveArm("C26", "shown", "wovenshown", 40)
	weaveArm("C29", "status", "woven", 200)
	weaveArm("C29", "busy", "wovenbusy", 16)
}

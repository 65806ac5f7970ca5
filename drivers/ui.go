// Driver: progress markup, rendered by the widget that displays it.
package main

import (
	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	"github.com/squizzling/osmindex/internal/ui"
)

type request struct {
	Msg   string
	Width int
	Pct   float64
	NaN   bool
}

type answer struct {
	Markup string
	Text   string
	High   string // one byte per character: S highlighted, N not, ? anything else
}

func main() {
	serve(func(line []byte) interface{} {
		var rs []request
		parse(line, &rs)
		out := make([]answer, len(rs))
		for i, r := range rs {
			pct := r.Pct
			if r.NaN {
				z := 0.0
				pct = z / z
			}
			m := ui.MarkupAsProgress(r.Msg, r.Width, pct)
			st := views.NewSimpleStyledText()
			st.SetMarkup(m)
			a := answer{Markup: m, Text: st.Text.Text()}
			for p := range []rune(a.Text) { // StyleAt counts characters
				c := byte('?')
				switch st.StyleAt(p) {
				case tcell.StyleDefault.Reverse(true):
					c = 'S'
				case tcell.StyleDefault:
					c = 'N'
				}
				a.High += string(rune(c))
			}
			out[i] = a
		}
		return out
	})
}

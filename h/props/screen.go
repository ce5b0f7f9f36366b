package props

import (
	"strings"

	"verifh/drv"
	"verifh/ref"
	"verifh/vt"
)

// screen judges what the terminal shows, given the line, the cursor and the
// prompt. It knows nothing about how the editor scrolls: any window that
// contains the cursor is accepted, provided it is shown exactly.
type screen struct {
	prompt []vt.Cell // what the prompt leaves on its last row
	top    int       // where the line starts
	row    int       // absolute row of the line
	above  []string  // the rows above
	width  int
	// slack is how many columns at the right end may stay unused although
	// more of the line would fit.
	slack int
	// shownAfter accepts more text after the end of the line (prediction).
	tail func(row []vt.Cell, col int) string
}

var promptScr, wideScr, lookScr *vt.Screen

// lastLine is the last line of a prompt on a terminal of any width.
func lastLine(prompt string) []vt.Cell {
	if wideScr == nil {
		wideScr = vt.New(1000, 2, ref.Current.ScreenWidth)
	}
	wideScr.Reset(1000, 2)
	wideScr.Tabs = true
	wideScr.Free = true
	wideScr.Write([]byte(prompt))
	return append([]vt.Cell{}, wideScr.Row()[:wideScr.X]...)
}

// newScreen works out where prompt leaves the line.
func newScreen(prompt string, cols, rows int) *screen {
	return screenAfter(nil, "", prompt, cols, rows)
}

// screenAfter works out where a prompt leaves the line that is printed after
// the output before on a terminal that shows from (nil: nothing).
func screenAfter(from *vt.Screen, before, prompt string, cols, rows int) *screen {
	if promptScr == nil {
		promptScr = vt.New(cols, rows, ref.Current.ScreenWidth)
	}
	if from == nil {
		promptScr.Reset(cols, rows)
	} else {
		promptScr.CopyFrom(from)
	}
	promptScr.Tabs = true
	promptScr.Free = true
	promptScr.Write([]byte(before + prompt))
	s := &screen{width: cols}
	s.top = len(lastLine(prompt))
	if s.top >= cols-3 {
		promptScr.Write([]byte("\n"))
		s.top = 0
	}
	s.row = promptScr.AbsRow()
	s.prompt = append([]vt.Cell{}, promptScr.Row()[:s.top]...)
	for y := promptScr.Scrolled; y < s.row; y++ {
		s.above = append(s.above, vt.RowString(promptScr.RowAbs(y)))
	}
	return s
}

// redrawn works out where the line is after it was drawn again below.
func (s *screen) redrawn(scr *vt.Screen, prompt string, rows int) *screen {
	n := newScreen(prompt, s.width, rows)
	n.row += s.row + 1
	n.slack, n.tail = s.slack, s.tail
	n.above = nil
	for y := scr.Scrolled; y < n.row; y++ {
		n.above = append(n.above, vt.RowString(scr.RowAbs(y)))
	}
	return n
}

func (s *screen) view() int { return s.width - s.top - 3 }

// look renders a unit: the cells it occupies. w is its width.
func look(u ref.Unit, w int) []vt.Cell {
	out := make([]vt.Cell, w)
	t := u.Look()
	if len(t) == w && isASCII(t) {
		for i := 0; i < w; i++ {
			out[i].R = rune(t[i])
		}
		return out
	}
	if lookScr == nil {
		lookScr = vt.New(64, 1, ref.Current.ScreenWidth)
	}
	lookScr.Reset(64, 1)
	lookScr.Write([]byte(t))
	copy(out, lookScr.Row())
	return out
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x7F || s[i] < ' ' {
			return false
		}
	}
	return true
}

func same(a, b vt.Cell) bool {
	if a.Blank() && b.Blank() {
		return true
	}
	return a.R == b.R && a.Comb == b.Comb
}

// unitsOf takes the units as the editor divided the line. A unit that is left
// behind by an edit may differ from how the text would divide afresh.
func unitsOf(cells []string) []ref.Unit {
	us := make([]ref.Unit, len(cells))
	for i, c := range cells {
		u, _ := ref.Current.UnitOf(c)
		us[i] = u
	}
	return us
}

// check judges the screen. It returns the first shown unit, too.
func (s *screen) check(r *drv.Run) (vs int, msg string) {
	return s.checkLine(r.Scr, unitsOf(r.Cells()), r.B.Cursor, r.B.ViewStart)
}

func (s *screen) checkLine(scr *vt.Screen, us []ref.Unit, cursor, hint int) (vs int, msg string) {
	if scr.Incomplete() {
		return 0, "an escape sequence was left unfinished"
	}
	if len(scr.Anomalies) > 0 {
		return 0, "the terminal got " + strings.Join(scr.Anomalies, ", ")
	}
	if !scr.Visible {
		return 0, "the cursor is hidden"
	}
	if scr.AbsRow() != s.row {
		return 0, sprintf("the cursor is in row %d, the line is in row %d; %s", scr.AbsRow(), s.row, showScreen(scr))
	}
	if scr.Pending {
		return 0, "the cursor is beyond the last column; " + showScreen(scr)
	}
	row := scr.Row()
	for i, c := range s.prompt {
		if i < len(row) && !same(row[i], c) {
			return 0, "the prompt is damaged; " + showScreen(scr)
		}
	}
	for i, a := range s.above {
		n := s.row - len(s.above) + i
		if b := scr.RowAbs(n); b != nil && vt.RowString(b) != a {
			return 0, "a row above is damaged; " + showScreen(scr)
		}
	}
	for n := s.row + 1; ; n++ {
		b := scr.RowAbs(n)
		if b == nil {
			break
		}
		if vt.RowString(b) != "" {
			return 0, "something is shown below the line; " + showScreen(scr)
		}
	}
	cols := ref.Cols(us)
	if hint >= 0 && hint <= cursor && cursor <= len(us) {
		if msg = s.window(scr, us, cols, cursor, hint); msg == "" {
			return hint, ""
		}
	}
	first := msg
	for vs := cursor; vs >= 0; vs-- {
		if vs == hint {
			continue
		}
		m := s.window(scr, us, cols, cursor, vs)
		if m == "" {
			return vs, ""
		}
		if first == "" {
			first = m
		}
	}
	return 0, first + "; " + showScreen(scr)
}

// window tells why the row does not show the line from unit vs on.
func (s *screen) window(scr *vt.Screen, us []ref.Unit, cols []int, cursor, vs int) string {
	row := scr.Row()
	if want := s.top + cols[cursor] - cols[vs]; scr.X != want {
		return sprintf("the terminal cursor is in column %d, should be in %d (line shown from character %d)", scr.X, want, vs)
	}
	x := s.top
	e := vs
	for ; e < len(us); e++ {
		w := cols[e+1] - cols[e]
		if x+w > len(row) {
			break
		}
		ok := true
		for i, c := range look(us[e], w) {
			if !same(row[x+i], c) {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		x += w
	}
	if e < cursor {
		return sprintf("character %d of the line (%+q) is not shown where it should be (line shown from character %d)", e, us[e].Text, vs)
	}
	// everything after must be empty
	after := x
	for after > s.top && row[after-1].Blank() {
		after--
	}
	if e == len(us) && s.tail != nil {
		return s.tail(row, x)
	}
	for i := x; i < len(row); i++ {
		if !row[i].Blank() {
			return sprintf("column %d shows %q, which is not part of the line", i, row[i].Glyph())
		}
	}
	if e < len(us) {
		// the rest must not fit
		maxw := 1
		for i := range us {
			if w := cols[i+1] - cols[i]; w > maxw {
				maxw = w
			}
		}
		if cols[len(us)]-cols[vs] < s.view()-2*maxw-s.slack {
			return sprintf("only characters %d to %d of %d are shown although more would fit", vs, e, len(us))
		}
	}
	return ""
}

func showScreen(scr *vt.Screen) string {
	var b strings.Builder
	b.WriteString("screen:")
	for y := 0; y < scr.Rows; y++ {
		row := scr.RowAbs(scr.Scrolled + y)
		t := vt.RowString(row)
		if t == "" && y != scr.Y {
			continue
		}
		b.WriteString(sprintf(" [%d]%+q", y+scr.Scrolled, t))
	}
	b.WriteString(sprintf(" cursor at row %d column %d of %d", scr.AbsRow(), scr.X, scr.Cols))
	return b.String()
}

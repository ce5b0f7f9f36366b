// Package vt is a small terminal emulator: it turns the bytes that the line
// editor writes into a screen, so that oracles judge what the user sees.
package vt

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Attr is the graphic rendition of a cell.
type Attr struct {
	Fg, Bg int // SGR number, 39/49 = default
	Bold   bool
	Italic bool
	Under  bool
	Rev    bool
}

// DefAttr is the rendition after reset.
var DefAttr = Attr{Fg: 39, Bg: 49}

// Cell is one column of one row.
type Cell struct {
	R    rune   // 0 = never written / erased; -1 = second half of a wide glyph
	Comb string // zero width runes stacked on R
	A    Attr
}

// Glyph returns what the cell shows.
func (c Cell) Glyph() string {
	if c.R <= 0 {
		return ""
	}
	if c.Comb == "" {
		return string(c.R)
	}
	return string(c.R) + c.Comb
}

// Blank tells whether the cell looks empty.
func (c Cell) Blank() bool { return c.R == 0 || (c.R == ' ' && c.Comb == "") }

// Screen is the emulator.
type Screen struct {
	Cols, Rows int
	G          []Cell // Rows*Cols
	X, Y       int
	Pending    bool // deferred wrap
	SX, SY     int
	Scrolled   int
	A          Attr
	Visible    bool
	Bells      int
	Wraps      int      // number of automatic line wraps
	Anomalies  []string // sequences that the emulator does not know
	Unseen     bool     // something was written since ClearUnseen
	Raw        []byte   // everything written, when KeepRaw
	KeepRaw    bool
	Tabs       bool // tabs are allowed
	Free       bool // controls and sequences that change nothing visible are allowed
	RuneWidth  func(rune) int

	buf []byte
}

// New returns a blank screen.
func New(cols, rows int, rw func(rune) int) *Screen {
	s := &Screen{RuneWidth: rw}
	s.Reset(cols, rows)
	return s
}

// Reset blanks the screen and gives it a new size.
func (s *Screen) Reset(cols, rows int) {
	if cols < 1 {
		cols = 1
	}
	s.Cols, s.Rows = cols, rows
	if cap(s.G) >= cols*rows {
		s.G = s.G[:cols*rows]
		for i := range s.G {
			s.G[i] = Cell{}
		}
	} else {
		s.G = make([]Cell, cols*rows)
	}
	s.X, s.Y, s.SX, s.SY = 0, 0, 0, 0
	s.Pending = false
	s.Scrolled, s.Bells, s.Wraps = 0, 0, 0
	s.A = DefAttr
	s.Visible = true
	s.Anomalies = nil
	s.Raw = s.Raw[:0]
	s.buf = s.buf[:0]
	s.Unseen = false
	s.Tabs = false
	s.Free = false
}

// Resize changes the number of columns without reflow: rows are cut or
// extended on the right, the cursor is clamped.
func (s *Screen) Resize(cols int) {
	if cols < 1 {
		cols = 1
	}
	g := make([]Cell, cols*s.Rows)
	for y := 0; y < s.Rows; y++ {
		for x := 0; x < cols && x < s.Cols; x++ {
			g[y*cols+x] = s.G[y*s.Cols+x]
		}
	}
	s.G = g
	s.Cols = cols
	if s.X >= cols {
		s.X = cols - 1
	}
	if s.SX >= cols {
		s.SX = cols - 1
	}
	s.Pending = false
}

// AbsRow is the row of the cursor counted from the first row ever shown.
func (s *Screen) AbsRow() int { return s.Y + s.Scrolled }

// Row returns the cells of the row where the cursor is.
func (s *Screen) Row() []Cell { return s.G[s.Y*s.Cols : (s.Y+1)*s.Cols] }

// RowAbs returns the row with the given absolute number, nil when scrolled out.
func (s *Screen) RowAbs(n int) []Cell {
	y := n - s.Scrolled
	if y < 0 || y >= s.Rows {
		return nil
	}
	return s.G[y*s.Cols : (y+1)*s.Cols]
}

// RowString is the visible text of a row without trailing blanks.
func RowString(row []Cell) string {
	var b strings.Builder
	for _, c := range row {
		if c.R == -1 {
			continue
		}
		if c.R == 0 {
			b.WriteByte(' ')
			continue
		}
		b.WriteString(c.Glyph())
	}
	return strings.TrimRight(b.String(), " ")
}

func (s *Screen) anomaly(format string, a ...any) {
	if len(s.Anomalies) < 16 {
		s.Anomalies = append(s.Anomalies, fmt.Sprintf(format, a...))
	}
}

func (s *Screen) lineFeed() {
	s.Pending = false
	s.X = 0 // output post-processing turns \n into \r\n
	if s.Y+1 < s.Rows {
		s.Y++
		return
	}
	copy(s.G, s.G[s.Cols:])
	for i := (s.Rows - 1) * s.Cols; i < s.Rows*s.Cols; i++ {
		s.G[i] = Cell{}
	}
	s.Scrolled++
}

func (s *Screen) clearAt(x int) {
	row := s.Row()
	// overwriting one half of a wide glyph erases the other half
	if row[x].R == -1 && x > 0 {
		row[x-1] = Cell{A: row[x-1].A}
	}
	if x+1 < s.Cols && row[x+1].R == -1 {
		row[x+1] = Cell{A: row[x+1].A}
	}
	row[x] = Cell{A: Attr{Bg: s.A.Bg}} // erased with the current background
}

func (s *Screen) put(r rune) {
	w := s.RuneWidth(r)
	if w <= 0 {
		x := s.X
		if !s.Pending {
			x--
		}
		for x > 0 && s.Row()[x].R == -1 {
			x--
		}
		if x >= 0 {
			c := &s.Row()[x]
			if c.R > 0 {
				c.Comb += string(r)
			} else {
				s.anomaly("zero width %U on an empty cell", r)
			}
		} else {
			s.anomaly("zero width %U at column 0", r)
		}
		return
	}
	if s.Pending {
		s.Wraps++
		s.lineFeed()
	}
	if w > s.Cols {
		w = s.Cols
	}
	if s.X+w > s.Cols {
		s.Wraps++
		s.lineFeed()
	}
	for i := 0; i < w; i++ {
		s.clearAt(s.X + i)
	}
	row := s.Row()
	row[s.X] = Cell{R: r, A: s.A}
	for i := 1; i < w; i++ {
		row[s.X+i] = Cell{R: -1, A: s.A}
	}
	if s.X+w >= s.Cols {
		s.X = s.Cols - 1
		s.Pending = true
	} else {
		s.X += w
	}
}

// Write implements io.Writer.
func (s *Screen) Write(p []byte) (int, error) {
	if len(p) > 0 {
		s.Unseen = true
	}
	if s.KeepRaw {
		s.Raw = append(s.Raw, p...)
	}
	s.buf = append(s.buf, p...)
	i := 0
	for i < len(s.buf) {
		n := s.step(s.buf[i:])
		if n == 0 {
			break // incomplete
		}
		i += n
	}
	rest := copy(s.buf, s.buf[i:])
	s.buf = s.buf[:rest]
	return len(p), nil
}

// Incomplete tells whether an unfinished sequence is pending.
func (s *Screen) Incomplete() bool { return len(s.buf) > 0 }

func (s *Screen) step(b []byte) int {
	c := b[0]
	switch {
	case c == 0x1B:
		return s.escape(b)
	case c == '\r':
		s.X, s.Pending = 0, false
		return 1
	case c == '\n':
		s.lineFeed()
		return 1
	case c == '\b':
		if s.Pending {
			s.Pending = false
		} else if s.X > 0 {
			s.X--
		}
		return 1
	case c == 7:
		s.Bells++
		return 1
	case c == '\t' && s.Tabs:
		s.X = s.X&^7 + 8
		if s.X >= s.Cols {
			s.X = s.Cols - 1
		}
		return 1
	case (c < ' ' || c == 0x7F) && s.Free:
		return 1
	case c < ' ' || c == 0x7F:
		s.anomaly("raw control %02X", c)
		return 1
	case c < 0x80:
		s.put(rune(c))
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	if r == utf8.RuneError && n == 1 {
		s.anomaly("invalid UTF-8 byte %02X", c)
		return 1
	}
	if r >= 0x80 && r < 0xA0 {
		s.anomaly("raw C1 control %02X", r)
		return n
	}
	s.put(r)
	return n
}

func (s *Screen) escape(b []byte) int {
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '7':
		s.SX, s.SY = s.X, s.Y+s.Scrolled
		return 2
	case '8':
		s.restore()
		return 2
	case ']':
		for i := 2; i < len(b); i++ {
			if b[i] == 7 {
				return i + 1
			}
			if b[i] == '\\' && b[i-1] == 0x1B {
				return i + 1
			}
		}
		return 0
	case '(', ')': // character sets
		if len(b) < 3 {
			return 0
		}
		if b[2] != 'B' && s.Free {
			return quiet(b)
		}
		if b[2] != 'B' {
			s.anomaly("ESC %q", b[1:3])
		}
		return 3
	case '=', '>': // keypad modes
		return 2
	case '[':
	default:
		if s.Free {
			return quiet(b)
		}
		s.anomaly("ESC %q", b[1])
		return 2
	}
	i := 2
	for i < len(b) && b[i] < 0x40 && b[i] >= 0x20 {
		i++
	}
	if i >= len(b) {
		return 0
	}
	fin := b[i]
	if fin < 0x40 || fin > 0x7E {
		s.anomaly("bad CSI %q", b[:i+1])
		return i + 1
	}
	arg := string(b[2:i])
	if s.Free && strings.IndexByte("hlmnpqtvwxyz", fin) >= 0 && arg != "?25" && (fin != 'm' || strings.ContainsAny(arg, ":><=? !$'")) {
		return i + 1
	}
	s.csi(arg, fin)
	return i + 1
}

// quiet is the length of a sequence that changes nothing visible: a string up
// to its terminator, or any intermediate bytes and a final one.
func quiet(b []byte) int {
	if strings.IndexByte("PX^_", b[1]) >= 0 {
		if i := strings.Index(string(b), "\x1B\\"); i >= 0 {
			return i + 2
		}
		return 0
	}
	for i := 1; i < len(b); i++ {
		if b[i] < ' ' || b[i] > '/' {
			return i + 1
		}
	}
	return 0
}

func (s *Screen) restore() {
	s.Pending = false
	s.X = s.SX
	y := s.SY - s.Scrolled
	if y < 0 {
		y = 0
	}
	s.Y = y
	if s.X >= s.Cols {
		s.X = s.Cols - 1
	}
}

func (s *Screen) csi(arg string, fin byte) {
	if strings.HasPrefix(arg, "?") {
		if arg == "?25" && (fin == 'h' || fin == 'l') {
			s.Visible = fin == 'h'
			return
		}
		s.anomaly("CSI %s%c", arg, fin)
		return
	}
	nums, ok := parse(arg)
	if !ok {
		s.anomaly("CSI %s%c", arg, fin)
		return
	}
	n := func(i, def int) int {
		if i < len(nums) && nums[i] >= 0 {
			return nums[i]
		}
		return def
	}
	switch fin {
	case 'G':
		x := n(0, 1)
		if x < 1 {
			x = 1
		}
		if x > s.Cols {
			x = s.Cols
		}
		s.X, s.Pending = x-1, false
	case 'K':
		lo, hi := s.X, s.Cols-1
		switch n(0, 0) {
		case 0:
		case 1:
			lo, hi = 0, s.X
		case 2:
			lo = 0
		default:
			s.anomaly("CSI %sK", arg)
			return
		}
		for x := lo; x <= hi; x++ {
			s.clearAt(x)
		}
	case 'A', 'B', 'C', 'D':
		d := n(0, 1)
		if d < 1 {
			d = 1
		}
		s.Pending = false
		switch fin {
		case 'A':
			s.Y -= d
		case 'B':
			s.Y += d
		case 'C':
			s.X += d
		case 'D':
			s.X -= d
		}
		s.X = clamp(s.X, 0, s.Cols-1)
		s.Y = clamp(s.Y, 0, s.Rows-1)
	case 'X', 'P', '@':
		d := clamp(n(0, 1), 1, s.Cols-s.X)
		row := s.Row()
		switch fin {
		case 'X':
			for i := 0; i < d; i++ {
				s.clearAt(s.X + i)
			}
		case 'P':
			s.clearAt(s.X)
			copy(row[s.X:], row[s.X+d:])
			for i := s.Cols - d; i < s.Cols; i++ {
				row[i] = Cell{}
			}
		case '@':
			copy(row[s.X+d:], row[s.X:])
			for i := 0; i < d; i++ {
				row[s.X+i] = Cell{}
			}
		}
	case 'H', 'f':
		y, x := n(0, 1), n(1, 1)
		if y < 1 {
			y = 1
		}
		if y > s.Rows {
			y = s.Rows
		}
		if x < 1 {
			x = 1
		}
		if x > s.Cols {
			x = s.Cols
		}
		s.Y, s.X, s.Pending = y-1, x-1, false
	case 'J':
		switch n(0, 0) {
		case 0:
			for x := s.X; x < s.Cols; x++ {
				s.clearAt(x)
			}
			for i := (s.Y + 1) * s.Cols; i < len(s.G); i++ {
				s.G[i] = Cell{}
			}
		case 2, 3:
			for i := range s.G {
				s.G[i] = Cell{}
			}
		default:
			s.anomaly("CSI %sJ", arg)
		}
	case 's':
		s.SX, s.SY = s.X, s.Y+s.Scrolled
	case 'u':
		s.restore()
	case 'm':
		s.sgr(nums)
	default:
		s.anomaly("CSI %s%c", arg, fin)
	}
}

func clamp(x, lo, hi int) int {
	if x > hi {
		x = hi
	}
	if x < lo {
		x = lo
	}
	return x
}

func parse(arg string) ([]int, bool) {
	if arg == "" {
		return nil, true
	}
	var nums []int
	cur, have := 0, false
	for i := 0; i < len(arg); i++ {
		c := arg[i]
		switch {
		case c >= '0' && c <= '9':
			cur = cur*10 + int(c-'0')
			have = true
		case c == ';':
			if !have {
				cur = -1
			}
			nums = append(nums, cur)
			cur, have = 0, false
		default:
			return nil, false
		}
	}
	if !have {
		cur = -1
	}
	return append(nums, cur), true
}

func (s *Screen) sgr(nums []int) {
	s.A = ApplySGR(s.A, nums, s.anomaly)
}

// ApplySGR applies graphic rendition parameters to a.
func ApplySGR(a Attr, nums []int, anomaly func(string, ...any)) Attr {
	if len(nums) == 0 {
		return DefAttr
	}
	for i := 0; i < len(nums); i++ {
		n := nums[i]
		switch {
		case (n == 38 || n == 48) && i+2 < len(nums) && nums[i+1] == 5:
			// one of 256 colours
			if n == 38 {
				a.Fg = 1000 + nums[i+2]
			} else {
				a.Bg = 1000 + nums[i+2]
			}
			i += 2
		case n <= 0:
			a = DefAttr
		case n == 1:
			a.Bold = true
		case n == 22:
			a.Bold = false
		case n == 3:
			a.Italic = true
		case n == 23:
			a.Italic = false
		case n == 4:
			a.Under = true
		case n == 24:
			a.Under = false
		case n == 7:
			a.Rev = true
		case n == 27:
			a.Rev = false
		case n >= 30 && n <= 39, n >= 90 && n <= 97:
			a.Fg = n
		case n >= 40 && n <= 49, n >= 100 && n <= 107:
			a.Bg = n
		default:
			if anomaly != nil {
				anomaly("SGR %d", n)
			}
		}
	}
	return a
}

// CopyFrom makes s show what o shows.
func (s *Screen) CopyFrom(o *Screen) {
	g, raw, buf := s.G, s.Raw, s.buf
	*s = *o
	s.G = append(g[:0], o.G...)
	s.Raw = append(raw[:0], o.Raw...)
	s.buf = append(buf[:0], o.buf...)
	s.Anomalies = append([]string(nil), o.Anomalies...)
}

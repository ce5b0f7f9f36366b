// Package ref holds the reference rules that the oracles compare with: how
// text divides into editing units, how a unit looks on the screen, how wide
// it is. They are written from the documented behaviour, rune by rune, with no
// code shared with the library.
package ref

import (
	"fmt"
	"os"
	"unicode"
	"unicode/utf8"
)

// Profile is what the library believes about the terminal.
type Profile struct {
	Name             string
	SP, ZWJ, VS, Mod bool // surrogate pairs, joiner, variation, skin tone
	Amb              bool // ambiguous characters are wide
	Env              []string
	base             func(rune) int
	Override         map[rune]int
	ZWJWidth         func(w1, w2 int) int
	cacheW           map[rune]int
}

// Profiles are the terminal kinds that the library tells apart.
var Profiles = []*Profile{
	{Name: "plain", Amb: true},
	{Name: "wt", SP: true, ZWJ: true, VS: true, Mod: true, Env: []string{"WT_SESSION=1", "WT_PROFILE_ID=1"}},
	{Name: "wezterm", SP: true, ZWJ: true, VS: true, Mod: true, Amb: true, Env: []string{"TERM_PROGRAM=WezTerm"}},
	{Name: "contour", SP: true, ZWJ: true, VS: true, Amb: true, Env: []string{"TERMINAL_NAME=contour"}},
	{Name: "vscode", Amb: true, Env: []string{"WT_SESSION=1", "WT_PROFILE_ID=1", "VSCODE_PID=1"}},
}

// ByName finds a profile.
func ByName(name string) *Profile {
	for _, p := range Profiles {
		if p.Name == name {
			return p
		}
	}
	panic("no profile " + name)
}

// Env lists the variables that select a terminal kind.
var Env = []string{"WT_SESSION", "WT_PROFILE_ID", "VSCODE_PID", "TERM_PROGRAM", "TERMINAL_NAME", "RUNEWIDTH_EASTASIAN"}

// Current is the profile of this process, named by VH_PROFILE.
var Current = func() *Profile {
	name := os.Getenv("VH_PROFILE")
	if name == "" {
		name = "plain"
	}
	return ByName(name)
}()

// RuneWidth is the number of columns that the terminal gives to r.
func (p *Profile) RuneWidth(r rune) int {
	if w, ok := p.Override[r]; ok {
		return w
	}
	if r >= ' ' && r < 0x7F {
		return 1
	}
	if w, ok := p.cacheW[r]; ok {
		return w
	}
	if p.cacheW == nil {
		p.base = baseWidth(p.Amb)
		p.cacheW = map[rune]int{}
	}
	w := p.base(r)
	p.cacheW[r] = w
	return w
}

// ScreenWidth is RuneWidth as the emulated terminal applies it: where joiner
// sequences are supported, the joiner takes the one column that the library's
// default formula gives it.
func (p *Profile) ScreenWidth(r rune) int {
	if p.ZWJ && r == 0x200D {
		return 1
	}
	if r >= 0x1F1E6 && r <= 0x1F1FF {
		return 2
	}
	if p.VSLike(r) {
		return 0 // acts on the character before
	}
	return p.RuneWidth(r)
}

// Kind classifies an editing unit.
type Kind int

// The kinds of unit.
const (
	Raw Kind = iota
	Tab
	Ctrl
	Esc
	RI
	Flag // two columns whatever the terminal thinks
	Seq
)

// Unit is one editing unit.
type Unit struct {
	Text string
	Kind Kind
	W    int // not meaningful for Tab
}

// VSLike tells whether r modifies the unit before it.
func (p *Profile) VSLike(r rune) bool {
	return p.VS && (unicode.Is(unicode.Variation_Selector, r) || unicode.Is(unicode.Me, r))
}

// IsZWJ tells whether r joins its neighbours.
func (p *Profile) IsZWJ(r rune) bool { return p.ZWJ && r == 0x200D }

// IsMod tells whether r is a skin tone.
func (p *Profile) IsMod(r rune) bool { return p.Mod && r >= 0x1F3FB && r <= 0x1F3FF }

func (p *Profile) single(r rune) Unit {
	u := Unit{Text: string(r)}
	switch {
	case r == '\t':
		u.Kind = Tab
	case r < ' ':
		u.Kind, u.W = Ctrl, 2
	case r >= 0x2500 && r <= 0x257F && p.Amb:
		u.Kind, u.W = Flag, 2
	case p.VSLike(r), r >= 0x10000 && !p.SP, p.RuneWidth(r) == 0:
		u.Kind, u.W = Esc, len(fmt.Sprintf("<%X>", r))
	case r >= 0x1F1E6 && r <= 0x1F1FF:
		u.Kind, u.W = RI, 2
	case r >= 0x1D400 && r <= 0x1D7FF, r == 0x1F3F3:
		u.Kind, u.W = Flag, 2
	default:
		u.Kind, u.W = Raw, p.RuneWidth(r)
	}
	return u
}

func (u Unit) joinable() bool {
	return u.Kind == Raw || u.Kind == RI || u.Kind == Flag || u.Kind == Seq
}

func (p *Profile) first(s string) Unit {
	r, _ := utf8.DecodeRuneInString(s)
	return p.single(r)
}

// Units divides valid UTF-8 text into editing units.
func (p *Profile) Units(s string) []Unit {
	var us []Unit
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		s = s[n:]
		if len(us) > 0 && us[len(us)-1].joinable() {
			last := &us[len(us)-1]
			switch {
			case p.IsZWJ(r) && len(s) > 0 && p.first(s).joinable():
				next, n := utf8.DecodeRuneInString(s)
				s = s[n:]
				w := p.RuneWidth(next)
				zw := last.W + 1 + w
				if p.ZWJWidth != nil {
					zw = p.ZWJWidth(last.W, w)
				}
				*last = Unit{Text: last.Text + string(r) + string(next), Kind: Seq, W: zw}
				continue
			case p.VSLike(r):
				w := last.W + 1
				if last.Kind == Flag {
					w = last.W
				}
				*last = Unit{Text: last.Text + string(r), Kind: Seq, W: w}
				continue
			case p.IsMod(r):
				*last = Unit{Text: last.Text + string(r), Kind: Seq, W: last.W + p.RuneWidth(r)}
				continue
			}
		}
		us = append(us, p.single(r))
	}
	return us
}

// UnitOf returns the unit whose text is s. When s would divide into several
// units (possible when a unit was left behind by an edit), ok is false.
func (p *Profile) UnitOf(s string) (Unit, bool) {
	us := p.Units(s)
	if len(us) != 1 {
		return Unit{Text: s}, false
	}
	return us[0], true
}

// Width returns the columns of u when it starts at column pos of the line.
func (u Unit) Width(pos int) int {
	if u.Kind == Tab {
		return 4 - pos%4
	}
	return u.W
}

// Look is what the user sees for the unit, without padding.
func (u Unit) Look() string {
	r, _ := utf8.DecodeRuneInString(u.Text)
	switch u.Kind {
	case Tab:
		return ""
	case Ctrl:
		return "^" + string(rune('@'+r))
	case Esc:
		return fmt.Sprintf("<%X>", r)
	}
	return u.Text
}

// Cols gives the column of each unit plus the total.
func Cols(us []Unit) []int {
	cols := make([]int, len(us)+1)
	pos := 0
	for i, u := range us {
		cols[i] = pos
		pos += u.Width(pos)
	}
	cols[len(us)] = pos
	return cols
}

// Join concatenates the texts.
func Join(us []Unit) string {
	n := 0
	for _, u := range us {
		n += len(u.Text)
	}
	b := make([]byte, 0, n)
	for _, u := range us {
		b = append(b, u.Text...)
	}
	return string(b)
}

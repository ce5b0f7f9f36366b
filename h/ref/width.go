//go:build !orgxwidth

package ref

import "github.com/mattn/go-runewidth"

// baseWidth is the width table that the library is built with by default.
func baseWidth(ambWide bool) func(rune) int {
	c := runewidth.NewCondition()
	c.EastAsianWidth = ambWide
	return c.RuneWidth
}

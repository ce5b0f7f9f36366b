//go:build orgxwidth

package ref

import (
	"unicode"

	"golang.org/x/text/width"
)

// baseWidth is the width table of the build variant orgxwidth.
func baseWidth(ambWide bool) func(rune) int {
	return func(r rune) int {
		if !unicode.IsPrint(r) {
			return 0
		}
		switch width.LookupRune(r).Kind() {
		case width.EastAsianWide, width.EastAsianFullwidth:
			return 2
		case width.EastAsianAmbiguous:
			if ambWide {
				return 2
			}
			return 1
		}
		return 1
	}
}

module verifh

go 1.25

require (
	github.com/atotto/clipboard v0.1.4
	github.com/mattn/go-runewidth v0.0.16
	github.com/mattn/go-tty v0.0.7
	github.com/nyaosorg/go-readline-ny v0.0.0
	golang.org/x/term v0.24.0
	golang.org/x/text v0.19.0
)

require (
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/mattn/go-isatty v0.0.20 // indirect
	github.com/nyaosorg/go-box/v2 v2.2.1 // indirect
	github.com/rivo/uniseg v0.4.7 // indirect
	golang.org/x/sys v0.26.0 // indirect
)

replace (
	github.com/atotto/clipboard => ./stubs/clipboard
	github.com/mattn/go-tty => ./stubs/go-tty
	github.com/nyaosorg/go-readline-ny => /repo
	golang.org/x/term => ./stubs/term
)

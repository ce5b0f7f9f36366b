module github.com/mattn/go-tty

go 1.18

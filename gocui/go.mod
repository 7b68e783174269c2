module github.com/jroimartin/gocui

go 1.21.4

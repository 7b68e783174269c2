// Package termbox: a stand-in for termbox-go without a terminal, so that the user
// interface of the program under check runs headless.
package termbox

// Cols and Rows are the size of the screen.
var Cols, Rows = 160, 60

// InitHook, when set, makes Init fail; Open tells whether the terminal is taken.
var (
	InitHook func() error
	Open     bool
)

func Init() error {
	if InitHook != nil {
		if err := InitHook(); err != nil {
			return err
		}
	}
	Open = true
	return nil
}
func Close()             { Open = false }
func Flush() error       { return nil }
func SetCursor(x, y int) {}
func HideCursor()        {}

// Screen, when set, is what the terminal shows, row by row.
var Screen [][]rune

func SetCell(x, y int, ch rune, fg, bg Attribute) {
	if y >= 0 && y < len(Screen) && x >= 0 && x < len(Screen[y]) {
		Screen[y][x] = ch
	}
}
func CellBuffer() []Cell { return make([]Cell, Cols*Rows) }
func Size() (int, int)   { return Cols, Rows }
func Clear(fg, bg Attribute) error {
	for _, r := range Screen {
		for i := range r {
			r[i] = ' '
		}
	}
	return nil
}
func SetInputMode(mode InputMode) InputMode    { return mode }
func SetOutputMode(mode OutputMode) OutputMode { return mode }
func PollEvent() Event                         { select {} }
func Interrupt()                               {}

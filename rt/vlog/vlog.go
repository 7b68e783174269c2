// Package vlog stands in for log: output is discarded, and a fatal log is reported to the
// check instead of ending the process.
package vlog

import (
	"fmt"
	"io"
	reallog "log"

	"verif/vs"
)

// Died is panicked with when the program under check ends itself.
type Died struct{ Msg string }

func (d Died) Error() string { return "process ended: " + d.Msg }

// Deaths counts how often the program ended itself.
var Deaths int

// LastDeath is the message of the latest.
var LastDeath string

// OnDie, when set, is called when the program ends itself, before anything is unwound.
var OnDie func(msg string)

// Die records the end of the process and unwinds.
func Die(msg string) {
	Deaths++
	LastDeath = msg
	if OnDie != nil {
		OnDie(msg)
	}
	if vs.Active() {
		vs.Die("process ended: " + msg)
	}
	panic(Died{msg})
}

func init() { reallog.SetOutput(io.Discard) }

func Fatal(v ...any)                 { Die("log.Fatal: " + fmt.Sprint(v...)) }
func Fatalf(format string, v ...any) { Die("log.Fatalf: " + fmt.Sprintf(format, v...)) }
func Fatalln(v ...any)               { Die("log.Fatalln: " + fmt.Sprintln(v...)) }

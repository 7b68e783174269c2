// Code generated by shimgen from package log; DO NOT EDIT.

package vlog

import reallog "log"

var Default = reallog.Default
var Flags = reallog.Flags

const LUTC = reallog.LUTC
const Ldate = reallog.Ldate
const Llongfile = reallog.Llongfile
const Lmicroseconds = reallog.Lmicroseconds
const Lmsgprefix = reallog.Lmsgprefix

type Logger = reallog.Logger

const Lshortfile = reallog.Lshortfile
const LstdFlags = reallog.LstdFlags
const Ltime = reallog.Ltime

var New = reallog.New
var Output = reallog.Output
var Panic = reallog.Panic
var Panicf = reallog.Panicf
var Panicln = reallog.Panicln
var Prefix = reallog.Prefix
var Print = reallog.Print
var Printf = reallog.Printf
var Println = reallog.Println
var SetFlags = reallog.SetFlags
var SetOutput = reallog.SetOutput
var SetPrefix = reallog.SetPrefix
var Writer = reallog.Writer

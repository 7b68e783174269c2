// Code generated by shimgen from package os; DO NOT EDIT.

package vos

import realos "os"

var Clearenv = realos.Clearenv
var CopyFS = realos.CopyFS
var CreateTemp = realos.CreateTemp

const DevNull = realos.DevNull

type DirEntry = realos.DirEntry

var DirFS = realos.DirFS
var Environ = realos.Environ
var ErrClosed = realos.ErrClosed
var ErrDeadlineExceeded = realos.ErrDeadlineExceeded
var ErrExist = realos.ErrExist
var ErrInvalid = realos.ErrInvalid
var ErrNoDeadline = realos.ErrNoDeadline
var ErrNoHandle = realos.ErrNoHandle
var ErrNotExist = realos.ErrNotExist
var ErrPermission = realos.ErrPermission
var ErrProcessDone = realos.ErrProcessDone
var Executable = realos.Executable
var Expand = realos.Expand
var ExpandEnv = realos.ExpandEnv

type File = realos.File
type FileInfo = realos.FileInfo
type FileMode = realos.FileMode

var FindProcess = realos.FindProcess
var Getegid = realos.Getegid
var Getenv = realos.Getenv
var Geteuid = realos.Geteuid
var Getgid = realos.Getgid
var Getgroups = realos.Getgroups
var Getpagesize = realos.Getpagesize
var Getppid = realos.Getppid
var Getuid = realos.Getuid
var Getwd = realos.Getwd
var Interrupt = realos.Interrupt
var IsExist = realos.IsExist
var IsNotExist = realos.IsNotExist
var IsPathSeparator = realos.IsPathSeparator
var IsPermission = realos.IsPermission
var IsTimeout = realos.IsTimeout
var Kill = realos.Kill

type LinkError = realos.LinkError

var LookupEnv = realos.LookupEnv
var MkdirTemp = realos.MkdirTemp

const ModeAppend = realos.ModeAppend
const ModeCharDevice = realos.ModeCharDevice
const ModeDevice = realos.ModeDevice
const ModeDir = realos.ModeDir
const ModeExclusive = realos.ModeExclusive
const ModeIrregular = realos.ModeIrregular
const ModeNamedPipe = realos.ModeNamedPipe
const ModePerm = realos.ModePerm
const ModeSetgid = realos.ModeSetgid
const ModeSetuid = realos.ModeSetuid
const ModeSocket = realos.ModeSocket
const ModeSticky = realos.ModeSticky
const ModeSymlink = realos.ModeSymlink
const ModeTemporary = realos.ModeTemporary
const ModeType = realos.ModeType

var NewFile = realos.NewFile
var NewSyscallError = realos.NewSyscallError

const O_APPEND = realos.O_APPEND
const O_CREATE = realos.O_CREATE
const O_EXCL = realos.O_EXCL
const O_RDONLY = realos.O_RDONLY
const O_RDWR = realos.O_RDWR
const O_SYNC = realos.O_SYNC
const O_TRUNC = realos.O_TRUNC
const O_WRONLY = realos.O_WRONLY

var OpenInRoot = realos.OpenInRoot
var OpenRoot = realos.OpenRoot

type PathError = realos.PathError

const PathListSeparator = realos.PathListSeparator
const PathSeparator = realos.PathSeparator

var Pipe = realos.Pipe

type ProcAttr = realos.ProcAttr
type Process = realos.Process
type ProcessState = realos.ProcessState

const SEEK_CUR = realos.SEEK_CUR
const SEEK_END = realos.SEEK_END
const SEEK_SET = realos.SEEK_SET

var SameFile = realos.SameFile
var Setenv = realos.Setenv

type Signal = realos.Signal

var StartProcess = realos.StartProcess
var Stderr = realos.Stderr
var Stdin = realos.Stdin
var Stdout = realos.Stdout

type SyscallError = realos.SyscallError

var TempDir = realos.TempDir
var Unsetenv = realos.Unsetenv
var UserCacheDir = realos.UserCacheDir
var UserConfigDir = realos.UserConfigDir
var UserHomeDir = realos.UserHomeDir

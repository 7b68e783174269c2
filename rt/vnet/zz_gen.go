// Code generated by shimgen from package net; DO NOT EDIT.

package vnet

import realnet "net"

type Addr = realnet.Addr
type AddrError = realnet.AddrError
type Buffers = realnet.Buffers

var CIDRMask = realnet.CIDRMask

type Conn = realnet.Conn
type DNSConfigError = realnet.DNSConfigError
type DNSError = realnet.DNSError

var DefaultResolver = realnet.DefaultResolver
var DialIP = realnet.DialIP
var DialTCP = realnet.DialTCP
var DialUnix = realnet.DialUnix

type Dialer = realnet.Dialer

var ErrClosed = realnet.ErrClosed
var ErrWriteToConnected = realnet.ErrWriteToConnected

type Error = realnet.Error

var FileConn = realnet.FileConn
var FileListener = realnet.FileListener
var FilePacketConn = realnet.FilePacketConn

const FlagBroadcast = realnet.FlagBroadcast
const FlagLoopback = realnet.FlagLoopback
const FlagMulticast = realnet.FlagMulticast
const FlagPointToPoint = realnet.FlagPointToPoint
const FlagRunning = realnet.FlagRunning
const FlagUp = realnet.FlagUp

type Flags = realnet.Flags
type HardwareAddr = realnet.HardwareAddr
type IP = realnet.IP
type IPAddr = realnet.IPAddr
type IPConn = realnet.IPConn
type IPMask = realnet.IPMask
type IPNet = realnet.IPNet

var IPv4 = realnet.IPv4
var IPv4Mask = realnet.IPv4Mask
var IPv4allrouter = realnet.IPv4allrouter
var IPv4allsys = realnet.IPv4allsys
var IPv4bcast = realnet.IPv4bcast

const IPv4len = realnet.IPv4len

var IPv4zero = realnet.IPv4zero
var IPv6interfacelocalallnodes = realnet.IPv6interfacelocalallnodes

const IPv6len = realnet.IPv6len

var IPv6linklocalallnodes = realnet.IPv6linklocalallnodes
var IPv6linklocalallrouters = realnet.IPv6linklocalallrouters
var IPv6loopback = realnet.IPv6loopback
var IPv6unspecified = realnet.IPv6unspecified
var IPv6zero = realnet.IPv6zero

type Interface = realnet.Interface
type InvalidAddrError = realnet.InvalidAddrError

var JoinHostPort = realnet.JoinHostPort

type KeepAliveConfig = realnet.KeepAliveConfig

var Listen = realnet.Listen

type ListenConfig = realnet.ListenConfig

var ListenIP = realnet.ListenIP
var ListenTCP = realnet.ListenTCP
var ListenUnix = realnet.ListenUnix
var ListenUnixgram = realnet.ListenUnixgram

type Listener = realnet.Listener

var LookupCNAME = realnet.LookupCNAME
var LookupMX = realnet.LookupMX
var LookupNS = realnet.LookupNS
var LookupSRV = realnet.LookupSRV
var LookupTXT = realnet.LookupTXT

type MX = realnet.MX
type NS = realnet.NS
type OpError = realnet.OpError
type PacketConn = realnet.PacketConn

var ParseCIDR = realnet.ParseCIDR

type ParseError = realnet.ParseError

var ParseIP = realnet.ParseIP
var ParseMAC = realnet.ParseMAC
var Pipe = realnet.Pipe
var ResolveTCPAddr = realnet.ResolveTCPAddr
var ResolveUnixAddr = realnet.ResolveUnixAddr

type Resolver = realnet.Resolver
type SRV = realnet.SRV

var SplitHostPort = realnet.SplitHostPort

type TCPAddr = realnet.TCPAddr

var TCPAddrFromAddrPort = realnet.TCPAddrFromAddrPort

type TCPConn = realnet.TCPConn
type TCPListener = realnet.TCPListener
type UDPAddr = realnet.UDPAddr

var UDPAddrFromAddrPort = realnet.UDPAddrFromAddrPort

type UnixAddr = realnet.UnixAddr
type UnixConn = realnet.UnixConn
type UnixListener = realnet.UnixListener
type UnknownNetworkError = realnet.UnknownNetworkError

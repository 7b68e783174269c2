// Package vnet stands in for net: UDP sockets are in memory, datagrams are delivered by
// the check, and everything sent is recorded.
package vnet

import (
	"context"
	"errors"
	"fmt"
	realnet "net"
	"net/netip"
	"os"
	"syscall"
	"time"

	"verif/vs"
)

// Datagram received or sent.
type Datagram struct {
	From *UDPAddr
	To   *UDPAddr
	Data []byte
	At   time.Time
	Task int
	Conn *UDPConn
}

var (
	// Sent collects every datagram sent.
	Sent []Datagram
	// Conns are all the sockets opened.
	Conns []*UDPConn
	// DialErr, SendErr inject failures.
	DialErr func(raddr *UDPAddr) error
	SendErr func(c *UDPConn, raddr *UDPAddr, data []byte) error
	// ListenErr, FileErr inject failures of opening a socket and of handing out its descriptor.
	ListenErr func(c *UDPConn) error
	FileErr   func(c *UDPConn) error
	// Fds tells whose descriptor a number is.
	Fds = map[int]*UDPConn{}
	// OnListen is called for every listening socket.
	OnListen func(c *UDPConn)
	// Ifaces known to the program.
	Ifaces = []Interface{{Index: 1, MTU: 1500, Name: "lo", Flags: FlagUp | FlagLoopback | FlagMulticast}}
	// HostIPs is what a look-up of the own host gives.
	HostIPs = []IP{realnet.IPv4(192, 0, 2, 1), realnet.ParseIP("2001:db8::1")}

	port = 40000
	// Unclosed counts the sockets that were dialled and not closed
)

// Reset forgets all sockets and datagrams.
func Reset() {
	Sent, Conns, IfacesErr = nil, nil, nil
	DialErr, SendErr, OnListen, ListenErr, FileErr = nil, nil, nil, nil, nil
	Fds = map[int]*UDPConn{}
	port = 40000
}

// UDPConn is an in-memory socket.
type UDPConn struct {
	Net    string
	Laddr  *UDPAddr
	Raddr  *UDPAddr
	Mcast  bool
	Ifi    *Interface // joined on
	queue  []Datagram
	Closed bool
	rerr   error
	file   *os.File
}

// Inject queues a datagram for reading.
func (c *UDPConn) Inject(from *UDPAddr, data []byte) {
	c.queue = append(c.queue, Datagram{From: from, Data: append([]byte(nil), data...)})
}

// Fail makes reads fail once the queue is empty.
func (c *UDPConn) Fail(err error) { c.rerr = err }

// Pending is the number of datagrams not yet read.
func (c *UDPConn) Pending() int { return len(c.queue) }

func operr(op string, c *UDPConn, err error) error {
	return &realnet.OpError{Op: op, Net: c.Net, Err: err}
}

func (c *UDPConn) read(b []byte) (int, *UDPAddr, error) {
	if c == nil {
		return 0, nil, syscall.EINVAL
	}
	if vs.Active() {
		vs.Block(vs.KNet, "read from network", func() bool { return len(c.queue) > 0 || c.Closed || c.rerr != nil })
		if vs.Aborting() {
			return 0, nil, ErrClosed
		}
	}
	if c.Closed {
		return 0, nil, operr("read", c, ErrClosed)
	}
	if len(c.queue) == 0 {
		if c.rerr != nil {
			return 0, nil, operr("read", c, c.rerr)
		}
		return 0, nil, operr("read", c, errors.New("no datagram"))
	}
	d := c.queue[0]
	c.queue = c.queue[1:]
	n := copy(b, d.Data)
	from := *d.From
	from.IP = append(IP(nil), d.From.IP...)
	return n, &from, nil
}

func (c *UDPConn) write(b []byte, to *UDPAddr) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if c.Closed {
		return 0, operr("write", c, ErrClosed)
	}
	if to == nil {
		return 0, operr("write", c, errors.New("missing address"))
	}
	vs.Point("send to network")
	if SendErr != nil {
		if err := SendErr(c, to, b); err != nil {
			return 0, operr("write", c, err)
		}
	}
	if len(b) > 65507 {
		return 0, operr("write", c, syscall.EMSGSIZE)
	}
	at, _ := vs.Now()
	a := *to
	a.IP = append(IP(nil), to.IP...)
	Sent = append(Sent, Datagram{From: c.Laddr, To: &a, Data: append([]byte(nil), b...), At: at, Task: vs.CurTask(), Conn: c})
	return len(b), nil
}

func (c *UDPConn) Read(b []byte) (int, error) { n, _, err := c.read(b); return n, err }
func (c *UDPConn) ReadFromUDP(b []byte) (int, *UDPAddr, error) {
	return c.read(b)
}
func (c *UDPConn) ReadFrom(b []byte) (int, Addr, error) {
	n, a, err := c.read(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}
func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.read(b)
	if a == nil {
		return n, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), err
}
func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *UDPAddr, err error) {
	n, addr, err = c.read(b)
	return
}
func (c *UDPConn) Write(b []byte) (int, error) {
	if c != nil && c.Raddr == nil {
		return 0, operr("write", c, syscall.EDESTADDRREQ)
	}
	if c == nil {
		return 0, syscall.EINVAL
	}
	return c.write(b, c.Raddr)
}
func (c *UDPConn) WriteToUDP(b []byte, a *UDPAddr) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if c.Raddr != nil {
		return 0, operr("write", c, realnet.ErrWriteToConnected)
	}
	return c.write(b, a)
}
func (c *UDPConn) WriteTo(b []byte, a Addr) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	ua, ok := a.(*UDPAddr)
	if !ok {
		return 0, operr("write", c, syscall.EINVAL)
	}
	return c.WriteToUDP(b, ua)
}
func (c *UDPConn) WriteToUDPAddrPort(b []byte, a netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, realnet.UDPAddrFromAddrPort(a))
}
func (c *UDPConn) WriteMsgUDP(b, oob []byte, a *UDPAddr) (n, oobn int, err error) {
	if a == nil {
		n, err = c.Write(b)
	} else {
		n, err = c.WriteToUDP(b, a)
	}
	return
}
func (c *UDPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	if c.Closed {
		return operr("close", c, ErrClosed)
	}
	c.Closed = true
	if c.file != nil {
		c.file.Close()
	}
	return nil
}
func (c *UDPConn) LocalAddr() Addr {
	if c == nil || c.Laddr == nil {
		return nil
	}
	return c.Laddr
}
func (c *UDPConn) RemoteAddr() Addr {
	if c == nil || c.Raddr == nil {
		return nil
	}
	return c.Raddr
}
func (c *UDPConn) SetDeadline(t time.Time) error      { return nil }
func (c *UDPConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(n int) error          { return nil }
func (c *UDPConn) SetWriteBuffer(n int) error         { return nil }
func (c *UDPConn) MultipathTCP() (bool, error)        { return false, nil }
func (c *UDPConn) SyscallConn() (syscall.RawConn, error) {
	return nil, errors.New("no raw connection")
}
func (c *UDPConn) File() (*os.File, error) {
	if FileErr != nil {
		if err := FileErr(c); err != nil {
			return nil, operr("file", c, err)
		}
	}
	f, err := os.Open(os.DevNull)
	if err != nil {
		return nil, err
	}
	Fds[int(f.Fd())] = c
	c.file = f
	return f, nil
}

func localFor(network string, r *UDPAddr) *UDPAddr {
	port++
	if r != nil && r.IP.To4() == nil && len(r.IP) == 16 {
		return &UDPAddr{IP: realnet.ParseIP("2001:db8::1"), Port: port}
	}
	return &UDPAddr{IP: realnet.IPv4(192, 0, 2, 1), Port: port}
}

func DialUDP(network string, laddr, raddr *UDPAddr) (*UDPConn, error) {
	switch network {
	case "udp", "udp4", "udp6":
	default:
		return nil, &realnet.OpError{Op: "dial", Net: network, Err: realnet.UnknownNetworkError(network)}
	}
	if raddr == nil {
		return nil, &realnet.OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	if DialErr != nil {
		if err := DialErr(raddr); err != nil {
			return nil, &realnet.OpError{Op: "dial", Net: network, Addr: raddr, Err: err}
		}
	}
	if laddr == nil {
		laddr = localFor(network, raddr)
	}
	r := *raddr
	r.IP = append(IP(nil), raddr.IP...)
	c := &UDPConn{Net: network, Laddr: laddr, Raddr: &r}
	Conns = append(Conns, c)
	return c, nil
}

func ListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {
	if laddr == nil {
		laddr = &UDPAddr{}
	}
	c := &UDPConn{Net: network, Laddr: laddr}
	if laddr.Port == 0 {
		port++
		l := *laddr
		l.Port = port
		c.Laddr = &l
	}
	Conns = append(Conns, c)
	if OnListen != nil {
		OnListen(c)
	}
	return c, nil
}

func ListenMulticastUDP(network string, ifi *Interface, gaddr *UDPAddr) (*UDPConn, error) {
	switch network {
	case "udp", "udp4", "udp6":
	default:
		return nil, &realnet.OpError{Op: "listen", Net: network, Err: realnet.UnknownNetworkError(network)}
	}
	if gaddr == nil || gaddr.IP == nil || !gaddr.IP.IsMulticast() {
		return nil, &realnet.OpError{Op: "listen", Net: network, Err: errors.New("not a multicast address")}
	}
	if gaddr.Port < 0 || gaddr.Port > 65535 {
		return nil, &realnet.OpError{Op: "listen", Net: network, Err: &realnet.AddrError{Err: "invalid port", Addr: fmt.Sprint(gaddr.Port)}}
	}
	if (network == "udp4") != (gaddr.IP.To4() != nil) && network != "udp" {
		return nil, &realnet.OpError{Op: "listen", Net: network, Err: &realnet.AddrError{Err: "non-matching address family", Addr: gaddr.IP.String()}}
	}
	c := &UDPConn{Net: network, Laddr: &UDPAddr{IP: gaddr.IP, Port: gaddr.Port}, Mcast: true, Ifi: ifi}
	if ListenErr != nil {
		if err := ListenErr(c); err != nil {
			return nil, operr("listen", c, err)
		}
	}
	Conns = append(Conns, c)
	if OnListen != nil {
		OnListen(c)
	}
	return c, nil
}

func ListenPacket(network, address string) (PacketConn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	return ListenUDP(network, a)
}

func Dial(network, address string) (Conn, error) {
	switch network {
	case "udp", "udp4", "udp6":
		a, err := ResolveUDPAddr(network, address)
		if err != nil {
			return nil, err
		}
		c, err := DialUDP(network, nil, a)
		if err != nil {
			return nil, err
		}
		return c, nil
	}
	return nil, errors.New("no network")
}

func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return Dial(network, address)
}

func InterfaceByName(name string) (*Interface, error) {
	for i := range Ifaces {
		if Ifaces[i].Name == name {
			c := Ifaces[i]
			return &c, nil
		}
	}
	return nil, &realnet.OpError{Op: "route", Net: "ip+net", Err: fmt.Errorf("no such network interface")}
}

func InterfaceByIndex(n int) (*Interface, error) {
	for i := range Ifaces {
		if Ifaces[i].Index == n {
			c := Ifaces[i]
			return &c, nil
		}
	}
	return nil, errors.New("no such network interface")
}

// IfacesErr is given by Interfaces when it is set.
var IfacesErr error

func Interfaces() ([]Interface, error) {
	if IfacesErr != nil {
		return nil, &realnet.OpError{Op: "route", Net: "ip+net", Err: IfacesErr}
	}
	return append([]Interface(nil), Ifaces...), nil
}
func InterfaceAddrs() ([]Addr, error)  { return nil, nil }
func LookupIP(host string) ([]IP, error) {
	if ip := realnet.ParseIP(host); ip != nil {
		return []IP{ip}, nil
	}
	return append([]IP(nil), HostIPs...), nil
}
func LookupHost(host string) ([]string, error) {
	var out []string
	for _, ip := range HostIPs {
		out = append(out, ip.String())
	}
	return out, nil
}
func LookupAddr(string) ([]string, error) { return nil, errors.New("no name service") }
func LookupPort(network, service string) (int, error) {
	return realnet.DefaultResolver.LookupPort(context.Background(), network, service)
}

// ResolveUDPAddr resolves literal addresses only: there is no name service.
func ResolveUDPAddr(network, address string) (*UDPAddr, error) {
	host, _, err := realnet.SplitHostPort(address)
	if err == nil && host != "" {
		if _, perr := netip.ParseAddr(host); perr != nil {
			return nil, &realnet.DNSError{Err: "no such host", Name: host, IsNotFound: true}
		}
	}
	return realnet.ResolveUDPAddr(network, address)
}

func ResolveIPAddr(network, address string) (*IPAddr, error) {
	if _, perr := netip.ParseAddr(address); perr != nil {
		return nil, &realnet.DNSError{Err: "no such host", Name: address, IsNotFound: true}
	}
	return realnet.ResolveIPAddr(network, address)
}

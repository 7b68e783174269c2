package h

import (
	"bytes"
	"errors"

	"verif/mc"
	"verif/vnet"
)

// Send checks that a frame that is sent puts exactly its encoding in one datagram to the
// peer, over a connection with or without a remote address, and that a failure to send is
// reported. wire is nil if the frame cannot be encoded.
func Send(c *mc.Ctx, what string, wire []byte, connectedOnly bool, send func(*vnet.UDPConn, *vnet.UDPAddr) error) {
	to := &vnet.UDPAddr{IP: vnet.IP{192, 0, 2, 77}, Port: 7542}
	for mode := 0; mode < 4; mode++ {
		vnet.Reset()
		var conn *vnet.UDPConn
		var err error
		if mode&1 == 0 {
			conn, err = vnet.DialUDP("udp", nil, to)
		} else if connectedOnly {
			continue
		} else {
			conn, err = vnet.ListenUDP("udp", &vnet.UDPAddr{Port: 7542})
		}
		if err != nil {
			panic(err)
		}
		if mode >= 2 {
			vnet.SendErr = func(*vnet.UDPConn, *vnet.UDPAddr, []byte) error { return errors.New("network is down") }
		}
		c.Must("Send", func() { err = send(conn, to) })
		c.Op(1)
		switch {
		case wire == nil || mode >= 2:
			if err == nil {
				c.Fail("send-error", "%s: a failure to send is not reported", what)
			}
			if len(vnet.Sent) != 0 {
				c.Fail("send", "%s: %d datagrams sent", what, len(vnet.Sent))
			}
		case err != nil:
			c.Fail("send-error", "%s: cannot be sent (connected %v): %v", what, mode&1 == 0, err)
		case len(vnet.Sent) != 1 || !bytes.Equal(vnet.Sent[0].Data, wire):
			c.Fail("send", "%s: %d datagrams sent, want one of the %d encoded bytes", what, len(vnet.Sent), len(wire))
		case vnet.Sent[0].To.String() != to.String():
			c.Fail("send", "%s: sent to %s", what, vnet.Sent[0].To)
		}
	}
	vnet.Reset()
}

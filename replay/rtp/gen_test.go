package rtp

import (
	"net"
	"testing"
	"time"
)

func vHeader(v *vT) Header {
	h := Header{Pad: v.chance(2), Mark: v.chance(2), PT: uint8(v.Intn(128)), Seq: uint16(v.Uint32()), TS: v.Uint32(), Ssrc: v.Uint32()}
	if v.chance(8) {
		h.TS, h.Ssrc, h.Seq = []uint32{0, 1, 0xff, 0xff00, 0xffffffff}[v.Intn(5)], []uint32{0, 1, 0x80000000, 0xffffffff}[v.Intn(4)], []uint16{0, 255, 256, 65535}[v.Intn(4)]
	}
	return h
}

func vWire(h Header) []byte {
	b := []byte{0x80, h.PT & 127, byte(h.Seq >> 8), byte(h.Seq), byte(h.TS >> 24), byte(h.TS >> 16), byte(h.TS >> 8), byte(h.TS),
		byte(h.Ssrc >> 24), byte(h.Ssrc >> 16), byte(h.Ssrc >> 8), byte(h.Ssrc)}
	if h.Pad {
		b[0] |= 0x20
	}
	if h.Mark {
		b[1] |= 0x80
	}
	return b
}

func vUlaw(s int16) byte {
	m, sign := int(s), byte(0x80)
	if m < 0 {
		m, sign = -m, 0
	}
	if m > 32635 {
		m = 32635
	}
	m += 132
	exp := 7
	for exp > 0 && m < 1<<uint(exp+7) {
		exp--
	}
	return ^(byte(exp<<4)|byte(m>>uint(exp+3))&15)&0x7f | sign
}

func vUnulaw(b byte) int16 {
	b = ^b
	m := (int(b&15)<<3+132)<<(b>>4&7) - 132
	if b&0x80 != 0 {
		m = -m
	}
	return int16(m)
}

func vListen(t *testing.T) *net.UDPConn {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip("no loopback network: ", err)
	}
	return c
}

func vRecv(c *net.UDPConn, wait time.Duration) []byte {
	b := make([]byte, 3000)
	c.SetReadDeadline(time.Now().Add(wait))
	n, _, err := c.ReadFromUDP(b)
	if err != nil {
		return nil
	}
	return b[:n]
}

IMP = '''
package %s

import (
%s)

'''


def demo(pkg, imports, body):
    return IMP % (pkg, ''.join('\t"%s"\n' % i for i in imports)) + body.lstrip()


SEEDS = [
    dict(id='C07-read-before-version', property='C07', pkg='rtp',
         edits=[('rtp/rtp.go', '''	if b[0]>>6 != Version {
		return ErrBadVersion
	} else if''', '''	h.Pad = ((b[0]>>5)&mask1 == 1)
	if b[0]>>6 != Version {
		return ErrBadVersion
	} else if''')],
         needs='a header that is reused after a rejected packet whose padding bit is set',
         breaks='a rejected packet changes the padding flag of the header',
         demo=demo('rtp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	h := Header{PT: 3, Seq: 4}
	w := h
	b := make([]byte, 12)
	b[0] = 1<<6 | 1<<5
	if h.Read(b) != ErrBadVersion {
		t.Fatal("accepted")
	}
	if h != w {
		t.Fatal("rejected packet touched the header", h)
	}
}
''')),
    dict(id='C07-ts-shift', property='C07', pkg='rtp',
         edits=[('rtp/rtp.go', '''		byte(h.TS>>16),''', '''		byte(uint16(h.TS>>16)>>0&0x7f|uint16(h.TS>>16)&0x80&^(uint16(h.TS>>31)<<7)),''')],
         needs='a timestamp whose top bit and bit 23 are both set',
         breaks='bit 23 of the timestamp is lost when the top bit is set',
         demo=demo('rtp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	for _, ts := range []uint32{0, 1 << 23, 1 << 31, 1<<31 | 1<<23, 0xffffffff} {
		h := Header{TS: ts}
		var g Header
		if g.Read(h.Write(nil)) != nil || g.TS != ts {
			t.Fatal(ts, g.TS)
		}
	}
}
''')),
    dict(id='C08-volume-leaks', property='C08', pkg='rtp',
         edits=[('rtp/rtp.go', '''	b[1] = h.Volume & 63
''', '''	b[1] = h.Volume & 127
''')],
         needs='a volume above 63 with the reserved bit clear',
         breaks='a volume above 63 sets the reserved bit',
         demo=demo('rtp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	h := EventHeader{Volume: 64 + 5}
	b := make([]byte, 4)
	h.Write(b)
	if b[1] != 5 {
		t.Fatal(b)
	}
}
''')),
    dict(id='C08-lower-case-d', property='C08', pkg='rtp',
         edits=[('rtp/dtmf.go', '''	case 'd', 'D':
		event = 15
''', '''	case 'e', 'D':
		event = 15
''')],
         needs='the lower case letter d (or the illegal letter e)',
         breaks='d is refused and e accepted',
         demo=demo('rtp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	if ev, err := CharToDtmf('d'); err != nil || ev != 15 {
		t.Fatal(ev, err)
	}
}
''')),
    dict(id='C09-mark-stays', property='C09', pkg='rtp',
         edits=[('rtp/session.go', '''		rs.Header.Seq++
		rs.Header.Mark = false
		dur += dtmfInterval
		if dur >= dtmfDuration {
			break
		}
''', '''		rs.Header.Seq++
		dur += dtmfInterval
		if dur >= dtmfDuration {
			rs.Header.Mark = false
			break
		}
''')],
         needs='a digit long enough to take more than one packet',
         breaks='the marker is set on all packets of the digit but the final three',
         demo=demo('rtp', ['net', 'testing', 'time'], '''
func TestSeedDemo(t *testing.T) {
	rx, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	defer rx.Close()
	tx, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	defer tx.Close()
	rs := &Session{Sock: tx, Peer: rx.LocalAddr().(*net.UDPAddr), obuf: make([]byte, 0, 1500)}
	if err := rs.SendDTMF('5'); err != nil {
		t.Fatal(err)
	}
	b := make([]byte, 1500)
	for n := 0; n < 4; n++ {
		rx.SetReadDeadline(time.Now().Add(5 * time.Second))
		a, _, err := rx.ReadFrom(b)
		if err != nil {
			t.Fatal(err)
		}
		var h Header
		if err := h.Read(b[:a]); err != nil {
			t.Fatal(err)
		}
		if h.Mark != (n == 0) {
			t.Fatal("packet", n, "marker", h.Mark)
		}
	}
}
''')),
    dict(id='C10-long-datagram', property='C10', pkg='rtp',
         edits=[('rtp/session.go', '''		if amt != HeaderSize+160 {
''', '''		if amt%256 != HeaderSize+160 {
''')],
         needs='a datagram of 428 bytes',
         breaks='a datagram of 172 plus a multiple of 256 bytes is delivered as a frame',
         demo=demo('rtp', ['net', 'testing', 'time'], '''
func TestSeedDemo(t *testing.T) {
	rs, err := NewSession("127.0.0.1")
	if err != nil {
		t.Fatal(err)
	}
	tx, err := net.Dial("udp", rs.Sock.LocalAddr().String())
	if err != nil {
		t.Fatal(err)
	}
	h := Header{}
	tx.Write(append(h.Write(nil), make([]byte, 160+256)...))
	select {
	case <-rs.C:
		t.Fatal("datagram of 428 bytes delivered")
	case <-time.After(300 * time.Millisecond):
	}
}
''')),
    dict(id='C10-stale-version', property='C10', pkg='rtp',
         edits=[('rtp/session.go', '''		err = phdr.Read(buf)
		if err != nil {
''', '''		err = phdr.Read(buf[:amt])
		if err == ErrTruncatedPacket || err == ErrBadVersion {
''')],
         needs='a 172 byte datagram with the extension flag',
         breaks='a datagram with a header extension and payload type 0 is played as audio',
         demo=demo('rtp', ['net', 'testing', 'time'], '''
func TestSeedDemo(t *testing.T) {
	rs, err := NewSession("127.0.0.1")
	if err != nil {
		t.Fatal(err)
	}
	tx, err := net.Dial("udp", rs.Sock.LocalAddr().String())
	if err != nil {
		t.Fatal(err)
	}
	h := Header{}
	b := append(h.Write(nil), make([]byte, 160)...)
	b[0] |= 1 << 4
	tx.Write(b)
	select {
	case <-rs.C:
		t.Fatal("extended packet delivered")
	case <-time.After(300 * time.Millisecond):
	}
}
''')),
]

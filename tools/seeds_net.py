UCP='scouterx/netio/udpclient'
USP='scouterx/netio/udpsender'
NIO='scouterx/netio'
CAP='''
func capture(t *testing.T, max int, f func(c *UDPClient)) [][]byte {
	srv, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP("127.0.0.1")})
	if err != nil {
		t.Fatal(err)
	}
	defer srv.Close()
	c := New("127.0.0.1", srv.LocalAddr().(*net.UDPAddr).Port)
	c.SetUDPMaxBytes(max)
	f(c)
	var r [][]byte
	for {
		buf := make([]byte, 65536)
		srv.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		n, _, err := srv.ReadFromUDP(buf)
		if err != nil {
			return r
		}
		r = append(r, buf[:n])
	}
}
'''
HEAD='''package udpclient

import (
	"bytes"
	"container/list"
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

var _ = list.New
var _ = bytes.Equal
var _ = netdata.NewDataInputX
'''+CAP
SEEDS=[
dict(id='udp-mtu-exact', prop='C05', needs='a record whose length is an exact multiple of the maximum datagram size', breaks='an empty extra fragment is announced and the collector never completes the record',
 edits=[('netio/udpclient/udpclient.go','''	if remainder > 0 {
		total++
	}''','''	if remainder > 0 || total*packetSize == len(data) {
		total++
	}''')], pkg=UCP, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	for _, n := range []int{101, 150, 200, 201, 300} {
		got := capture(t, 100, func(c *UDPClient) { c.WriteBuffer(bytes.Repeat([]byte{7}, n)) })
		var all []byte
		for i, d := range got {
			in := netdata.NewDataInputX(d[4:])
			in.ReadInt32()
			in.ReadInt64()
			total, _ := in.ReadInt16()
			num, _ := in.ReadInt16()
			b, err := in.ReadBlob()
			if err != nil || int(total) != len(got) || int(num) != i {
				t.Fatalf("length %d: fragment %d of %d says %d/%d (%v)", n, i, len(got), num, total, err)
			}
			all = append(all, b...)
		}
		if len(all) != n {
			t.Fatalf("length %d: %d bytes received", n, len(all))
		}
	}
}
'''),
dict(id='udp-list-count', prop='C05', needs='a list whose records do not fit into one datagram', breaks='the count of the second datagram misses its first record',
 edits=[('netio/udpclient/udpclient.go','			outCount = 1\n			out.Write(b)','			outCount = 0\n			out.Write(b)')], pkg=UCP, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	l := list.New()
	for i := 0; i < 25; i++ {
		l.PushBack(bytes.Repeat([]byte{byte(i)}, 10))
	}
	n := 0
	for _, d := range capture(t, 100, func(c *UDPClient) { c.WriteBufferList(l) }) {
		if string(d[:4]) != "CAFN" {
			t.Fatalf("mark %q", d[:4])
		}
		cnt := int(d[4])<<8 | int(d[5])
		if cnt*10 != len(d)-6 {
			t.Fatalf("datagram announces %d records and has %d bytes", cnt, len(d)-6)
		}
		n += cnt
	}
	if n != 25 {
		t.Fatalf("%d records received", n)
	}
}
'''),
dict(id='udp-list-oversize', prop='C05', needs='an oversized record in the middle of a list', breaks='records collected before the oversized one are thrown away with the stream',
 edits=[('netio/udpclient/udpclient.go','''			udpClient.writeMTU(b, udpClient.udpMaxBytes)
''','''			udpClient.writeMTU(b, udpClient.udpMaxBytes)
			out, outCount = netdata.NewDataOutputX(nil), 0
''')], pkg=UCP, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	l := list.New()
	l.PushBack([]byte("first"))
	l.PushBack(bytes.Repeat([]byte{1}, 250))
	l.PushBack([]byte("last"))
	var all []byte
	for _, d := range capture(t, 100, func(c *UDPClient) { c.WriteBufferList(l) }) {
		all = append(all, d...)
	}
	if !bytes.Contains(all, []byte("first")) || !bytes.Contains(all, []byte("last")) {
		t.Fatal("a record of the list was not sent")
	}
}
'''),
dict(id='sender-batch-split', prop='C06', needs='more queued records than fit one batch', breaks='the record that overflows a batch is dropped when the batch is sent',
 edits=[('netio/udpsender/udpsender.go','''			udpSender.sendList(bufferList)
			bytes = 0
			bufferList.Init()
		}
		bytes += len(buffer)
		bufferList.PushBack(buffer)''','''			udpSender.sendList(bufferList)
			bytes = len(buffer)
			bufferList.Init()
		} else {
			bytes += len(buffer)
			bufferList.PushBack(buffer)
		}''')], pkg=USP, test='''package udpsender

import (
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpclient"
)

func TestVerifDemo(t *testing.T) {
	srv, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP("127.0.0.1")})
	if err != nil {
		t.Fatal(err)
	}
	defer srv.Close()
	srv.SetReadBuffer(4 << 20)
	s := &UDPSender{udpChannel: make(chan []byte, 100), running: true}
	s.udpClient = udpclient.New("127.0.0.1", srv.LocalAddr().(*net.UDPAddr).Port)
	for i := 0; i < 20; i++ {
		s.udpChannel <- make([]byte, 9000)
	}
	go s.send(20)
	n := 0
	buf := make([]byte, 70000)
	for {
		srv.SetReadDeadline(time.Now().Add(700 * time.Millisecond))
		k, _, err := srv.ReadFromUDP(buf)
		if err != nil {
			break
		}
		if string(buf[:4]) == "CAFN" {
			n += int(buf[4])<<8 | int(buf[5])
		} else if k > 0 {
			n++
		}
	}
	if n != 20 {
		t.Fatalf("20 records queued, %d sent", n)
	}
}
'''),
dict(id='sender-async-batch', prop='C06', needs='a batch that overflows while its goroutine has not run yet', breaks='the batch is sent by a goroutine and emptied at once, so its records are lost or mixed',
 edits=[('netio/udpsender/udpsender.go','''			udpSender.sendList(bufferList)
			bytes = 0''','''			udpSender.SendDirect(bufferList)
			bytes = 0''')], pkg=USP, test='''package udpsender

import (
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpclient"
)

func TestVerifDemo(t *testing.T) {
	srv, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP("127.0.0.1")})
	if err != nil {
		t.Fatal(err)
	}
	defer srv.Close()
	srv.SetReadBuffer(4 << 20)
	s := &UDPSender{udpChannel: make(chan []byte, 1000), running: true}
	s.udpClient = udpclient.New("127.0.0.1", srv.LocalAddr().(*net.UDPAddr).Port)
	for round := 0; round < 10; round++ {
		for i := 0; i < 14; i++ {
			s.udpChannel <- make([]byte, 9000)
		}
		go s.send(14)
		n := 0
		buf := make([]byte, 70000)
		for {
			srv.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
			k, _, err := srv.ReadFromUDP(buf)
			if err != nil {
				break
			}
			if string(buf[:4]) == "CAFN" {
				n += int(buf[4])<<8 | int(buf[5])
			} else if k > 0 {
				n++
			}
		}
		if n != 14 {
			t.Fatalf("14 records queued, %d sent", n)
		}
	}
}
'''),
dict(id='profile-parts', prop='C07', needs='a profile with one step more than a multiple of the pack size', breaks='the last step is not sent',
 edits=[('netio/dataproxy.go','	if remainder > 0 {\n		sendProfile0','	if remainder > 1 {\n		sendProfile0')], pkg=NIO, test='''package netio

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestVerifDemo(t *testing.T) {
	for _, n := range []int{1, 3, 4, 5, 8, 9, 11} {
		old := ac.ProfileStepMaxCount
		ac.ProfileStepMaxCount = 4
		tctx := NewTraceContext()
		steps := make([]netdata.Step, n)
		for i := range steps {
			steps[i] = netdata.NewMessageStep("m", int32(i))
		}
		SendProfile(steps, tctx)
		ac.ProfileStepMaxCount = old
		if tctx.ProfileCount != n {
			t.Fatalf("%d of %d steps sent", tctx.ProfileCount, n)
		}
	}
}
'''),
dict(id='profile-buffer-full', prop='C07', needs='a trace with exactly as many steps as the buffer holds, closed right after', breaks='the steps of a full buffer stay behind and are sent a second time',
 edits=[('netio/profilecollector.go','		c.pos = 0;\n		SendProfile(o, c.tctx)','		SendProfile(o, c.tctx)\n		if len(o) > 1 {\n			c.pos = 0\n		} else {\n			c.steps = o\n			c.pos = 0\n		}\n		c.pos += len(o) - len(c.steps)\n		c.steps[0] = o[len(o)-1]\n		c.pos++')], pkg=NIO, test='''package netio

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestVerifDemo(t *testing.T) {
	tctx := NewTraceContext()
	n := len(tctx.Profile.steps)
	for i := 0; i < n; i++ {
		tctx.Profile.Add(netdata.NewMessageStep("m", 1))
	}
	tctx.Profile.Close(true)
	if tctx.ProfileCount != n {
		t.Fatalf("%d steps recorded, %d sent", n, tctx.ProfileCount)
	}
}
'''),
]

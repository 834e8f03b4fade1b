U='netio/udpsender/udpsender.go'
X='strace/xlogsampler.go'
D='netio/dataproxy.go'
SEEDS=[
dict(id='reload-old-limit', prop='C36', needs='udp_max_bytes changed while the agent runs', breaks='the new UDP client keeps the old size limit, datagrams exceed the configured maximum',
 edits=[(U,'			udpServerPort = ac.NetCollectorUDPPort\n			udpMaxBytes = ac.UDPMaxBytes\n\n			udpSender.running','			udpServerPort = ac.NetCollectorUDPPort\n\n			udpSender.running'),
  (U,'			udpClient.SetUDPMaxBytes(udpMaxBytes)\n			udpSender.udpClient = udpClient\n','			udpClient.SetUDPMaxBytes(udpMaxBytes)\n			udpMaxBytes = ac.UDPMaxBytes\n			udpSender.udpClient = udpClient\n')], pkg='scouterx/netio/udpsender', test='''package udpsender

import (
	"net"
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	ac.NetCollectorIP = "127.0.0.1"
	ac.NetCollectorUDPPort = l.LocalAddr().(*net.UDPAddr).Port
	ac.UDPMaxBytes = 60000
	u := GetInstance()
	ac.UDPMaxBytes = 200
	time.Sleep(2500 * time.Millisecond)
	u.AddBuffer(make([]byte, 500))
	b := make([]byte, 70000)
	l.SetReadDeadline(time.Now().Add(5 * time.Second))
	n, _, err := l.ReadFromUDP(b)
	if err != nil {
		t.Fatal(err)
	}
	if n > 250 {
		t.Fatal("a datagram of", n, "bytes")
	}
}
'''),
dict(id='reload-two-patterns', prop='C36', needs='two pattern lists changed by one reload', breaks='only the first list takes effect',
 edits=[(X,'	}\n	if sampler.currentDiscardServicePatterns != ac','	} else if sampler.currentDiscardServicePatterns != ac')], pkg='scouterx/strace', test='''package strace

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
)

func TestVerifDemo(t *testing.T) {
	s := GetXlogSampler()
	c := conf.GetInstance()
	c.XlogSamplingExcludePatterns = "/keep*"
	c.XlogDiscardServicePatterns = "/drop*"
	s.Run()
	if !s.isDiscardServicePattern("/drop/me") {
		t.Fatal("the discard patterns were not renewed")
	}
}
'''),
dict(id='text-long-not-remembered', prop='C35', needs='ResetTextSent after descriptions were sent', breaks='descriptions sent before the collector lost its cache are never sent again',
 edits=[(D,'	loginSent.Clear()\n	descSent.Clear()\n','	loginSent.Clear()\n	if descSent.Size() >= descSent.MaxEntries {\n		descSent.Clear()\n	}\n')], pkg='scouterx/netio', test='''package netio

import "testing"

func TestVerifDemo(t *testing.T) {
	h := SendDesc("some description")
	if !descSent.Contains(h) {
		t.Fatal("not remembered")
	}
	ResetTextSent()
	if descSent.Contains(h) {
		t.Fatal("not forgotten")
	}
}
'''),
dict(id='text-shared-cache', prop='C35', needs='the same text used as user agent and as referer', breaks='the text is registered for one of the two kinds only',
 edits=[(D,'	if refererSent.Contains(hash) {\n		return hash\n	}\n	refererSent.AddKey(hash)\n','	if userAgentSent.Contains(hash) {\n		return hash\n	}\n	userAgentSent.AddKey(hash)\n')], pkg='scouterx/netio', test='''package netio

import (
	"bytes"
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpsender"
)

func TestVerifDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	ac.NetCollectorIP = "127.0.0.1"
	ac.NetCollectorUDPPort = l.LocalAddr().(*net.UDPAddr).Port
	udpsender.GetInstance()
	time.Sleep(1500 * time.Millisecond)
	SendUserAgent("verif demo text")
	SendReferer("verif demo text")
	var all []byte
	b := make([]byte, 70000)
	l.SetReadDeadline(time.Now().Add(3 * time.Second))
	for {
		n, _, err := l.ReadFromUDP(b)
		if err != nil {
			break
		}
		all = append(all, b[:n]...)
		all = append(all, '|')
	}
	if !bytes.Contains(all, []byte("referer")) || !bytes.Contains(all, []byte("ua")) {
		t.Fatal("not registered for both kinds")
	}
}
'''),
]

TC='scouterx/netio/tcpclient'
P='netio/tcpclient/tcpclient.go'
H='netio/tcpclient/handlers.go'
D='dump/dump.go'
HEAD='''package tcpclient

import (
	"net"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

var _ = os.Getenv
var _ = filepath.Join
var _ = conf.GetInstance
var _ = netio.NewNoopTraceContext
var _ = tctxmanager.GetAllTctx

// session connects a client to a collector of our own and returns the collector's side after the handshake.
func session(t *testing.T) (net.Conn, *netdata.DataInputX, chan error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	ac.NetCollectorIP = "127.0.0.1"
	ac.NetCollectorTCPPort = l.Addr().(*net.TCPAddr).Port
	ac.NetCollectorTcpSoTimeoutMs = 20000
	cl := new(TCPClient)
	done := make(chan error, 1)
	go func() {
		if !cl.Prepare() {
			done <- net.ErrClosed
			return
		}
		done <- cl.Process()
	}()
	c, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	c.SetDeadline(time.Now().Add(10 * time.Second))
	in := netdata.NewDataInputX(c)
	in.ReadInt32()
	in.ReadInt32()
	return c, in, done
}

func command(c net.Conn, cmd string, p netdata.Pack) {
	o := netdata.NewDataOutputX(nil)
	o.WriteString(cmd)
	o.WritePack(p)
	netdata.NewDataOutputX(c).WriteIntBytes(o.Bytes())
}
'''
SEEDS=[
dict(id='session-stale-hash', prop='C08', needs='the object is renamed while a session is open', breaks='the agent keeps serving the session under the old object hash',
 edits=[(P,'for c.objHash == ac.ObjHash && serverAddr','for c.objHash != 0 && serverAddr')], pkg=TC, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	c, in, done := session(t)
	defer c.Close()
	ac.ObjHash++
	command(c, "KEEP_ALIVE", netdata.NewMapPack())
	if f, err := in.ReadInt8(); err != nil || f != 4 {
		t.Fatal(f, err)
	}
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the session goes on under the old hash")
	}
}
'''),
dict(id='session-shared-buffer', prop='C08', needs='a second command in one session after one with a reply', breaks='a reply repeats the bytes of the earlier replies',
 edits=[(P,'	out := netdata.NewDataOutputX(c.conn)\n','	out := netdata.NewDataOutputX(c.conn)\n	out0 := netdata.NewDataOutputX(nil)\n'),(P,'		out0 := netdata.NewDataOutputX(nil)\n		res','		res')], pkg=TC, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	c, in, _ := session(t)
	defer c.Close()
	for i := 0; i < 2; i++ {
		command(c, "OBJECT_RESET_CACHE", netdata.NewMapPack())
		if f, err := in.ReadInt8(); err != nil || f != 3 {
			t.Fatal(i, f, err)
		}
		in.ReadIntBytes()
		if f, err := in.ReadInt8(); err != nil || f != 4 {
			t.Fatal(i, f, err)
		}
	}
	c.SetDeadline(time.Now().Add(500 * time.Millisecond))
	if b, err := in.ReadInt8(); err == nil {
		t.Fatal("left over after the replies:", b)
	}
}
'''),
dict(id='session-decode-error', prop='C08', needs='a command whose parameter cannot be decoded', breaks='the command is carried out without its parameter and the session goes on',
 edits=[(P,'		parameter, err := in0.ReadPack()\n		if err != nil {\n			return err\n		}\n','		parameter, err := in0.ReadPack()\n		if err != nil {\n			logger.Error.Printf("[scouter][err]%v\\n", err)\n		}\n')], pkg=TC, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	c, in, done := session(t)
	defer c.Close()
	o := netdata.NewDataOutputX(nil)
	o.WriteString("KEEP_ALIVE")
	o.WriteUInt8(10)
	o.WriteDecimal(5)
	netdata.NewDataOutputX(c).WriteIntBytes(o.Bytes())
	if f, err := in.ReadInt8(); err == nil {
		t.Fatal("answered with", f)
	}
	<-done
}
'''),
dict(id='cmd-active-columns', prop='C14', needs='an active service without a client address next to one with an address', breaks='addresses are shown for the wrong services',
 edits=[(H,'		ip.AddString(tctx.RemoteIp)\n','		if tctx.RemoteIp != "" {\n			ip.AddString(tctx.RemoteIp)\n		}\n')], pkg=TC, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	for i, a := range []string{"", "1.2.3.4", ""} {
		tc := netio.NewNoopTraceContext()
		tc.Txid = int64(i + 1)
		tc.RemoteIp = a
		tctxmanager.Start(tc)
	}
	p := handle("OBJECT_ACTIVE_SERVICE_LIST", netdata.NewMapPack(), nil, nil).(*netdata.MapPack)
	ids, _ := p.Table["txid"].(*netdata.ListValue)
	ips, _ := p.Table["ip"].(*netdata.ListValue)
	if ids.Size() != 3 || ips.Size() != 3 {
		t.Fatal(ids.Size(), ips.Size())
	}
}
'''),
dict(id='cmd-save-failed', prop='C14', needs='a configuration file that cannot be written', breaks='the collector is told that the configuration was saved',
 edits=[(H,'''		success := conf.SaveConfigText(text)
		if success {
			conf.GetInstance().Refresh()
			result.Put("result", "true")
		}
''','''		conf.SaveConfigText(text)
		conf.GetInstance().Refresh()
		if conf.LoadConfigText() != text {
			return result
		}
		result.Put("result", "true")
''')], pkg=TC, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	os.Setenv("SCOUTER_CONFIG", filepath.Join(t.TempDir(), "none", "scouter.conf"))
	p := netdata.NewMapPack()
	p.Put("setConfig", "")
	r := handle("SET_CONFIGURE_WAS", p, nil, nil).(*netdata.MapPack)
	if v, ok := r.Table["result"].(*netdata.TextValue); ok && v.Value == "true" {
		t.Fatal("reported as saved")
	}
}
'''),
dict(id='cmd-dump-times', prop='C14', needs='a dump directory holding an empty file before others', breaks='modification times are listed against the wrong dump files',
 edits=[(D,'			modifiedLv.AddInt64(util.TimeToMillis(info.ModTime()))\n','			if info.Size() > 0 {\n				modifiedLv.AddInt64(util.TimeToMillis(info.ModTime()))\n			}\n')], pkg='scouterx/dump', test='''package dump

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestVerifDemo(t *testing.T) {
	os.Setenv("SCOUTER_AGENT_HOME", t.TempDir())
	d := getDumpPath()
	os.WriteFile(filepath.Join(d, "a.log"), nil, 0644)
	os.WriteFile(filepath.Join(d, "b.log"), []byte("x"), 0644)
	p := ListDumpFiles().(*netdata.MapPack)
	n, m := p.Table["name"].(*netdata.ListValue).Size(), p.Table["last_modified"].(*netdata.ListValue).Size()
	if n != 2 || m != 2 {
		t.Fatal(n, m)
	}
}
'''),
]

T='strace/tracemain.go'; P='common/panic.go'; U='netio/udpsender/udpsender.go'; TC='netio/tcpclient/tcpmanager.go'; OB='conf/opserver.go'; CF='conf/configure.go'; TM='strace/tctxmanager/tctxmanager.go'; DP='netio/dataproxy.go'
NOPANIC='''func noPanic(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s: a panic reached the application: %v", what, r)
		}
	}()
	f()
}
'''
WITHIN='''func within(t *testing.T, what string, f func()) {
	done := make(chan bool)
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal(what + " did not return")
	}
}
'''
SEEDS=[
dict(id='contain-endhttp-late', prop='C15', needs='EndHttpService with a failed response and no request at hand', breaks='the guard is installed after the response was looked at, so a panic there reaches the application',
 edits=[(T,'''func EndHttpService(ctx context.Context, req *http.Request, res *http.Response) {
	defer common.ReportScouterPanic()
''','''func EndHttpService(ctx context.Context, req *http.Request, res *http.Response) {
	if res != nil && res.StatusCode >= http.StatusInternalServerError && ac.TraceObjSend {
		fmt.Printf("[scouter] %s failed: %d\\n", req.URL.Path, res.StatusCode)
	}
	defer common.ReportScouterPanic()
''')], pkg='scouterx/strace', test='''package strace

import (
	"context"
	"net/http"
	"testing"
)

'''+NOPANIC+'''
func TestVerifDemo(t *testing.T) {
	old := ac.TraceObjSend
	ac.TraceObjSend = true
	defer func() { ac.TraceObjSend = old }()
	noPanic(t, "EndHttpService", func() {
		EndHttpService(context.Background(), nil, &http.Response{StatusCode: 502})
	})
}
'''),
dict(id='contain-recover-helper', prop='C15', needs='any panic inside the agent', breaks='recover is called by a helper of the deferred function, where it does nothing',
 edits=[(P,'''func ReportScouterPanic() {
	if r := recover(); r != nil {
''','''// caught returns what the running function panicked with.
func caught() interface{} {
	return recover()
}

func ReportScouterPanic() {
	if r := caught(); r != nil {
''')], pkg='scouterx/strace', test='''package strace

import (
	"context"
	"net/http"
	"testing"
)

'''+NOPANIC+'''
func TestVerifDemo(t *testing.T) {
	noPanic(t, "StartHttpService", func() {
		StartHttpService(context.Background(), &http.Request{Method: "GET"})
	})
}
'''),
dict(id='contain-guard-moved-in', prop='C15', needs='a context whose Value method panics', breaks='the guard of StartMethodWithParam moved to where the step is made, after the context was asked for its trace',
 edits=[(T,'''func StartMethodWithParam(ctx context.Context, params ...interface{}) *netdata.MethodStep {
	defer common.ReportScouterPanic()
	return''','''func StartMethodWithParam(ctx context.Context, params ...interface{}) *netdata.MethodStep {
	return'''),(T,'''func startMethodWithParam0(tctx *netio.TraceContext, funcName string, methodName string, params ...interface{}) *netdata.MethodStep {
''','''func startMethodWithParam0(tctx *netio.TraceContext, funcName string, methodName string, params ...interface{}) *netdata.MethodStep {
	defer common.ReportScouterPanic()
''')], pkg='scouterx/strace', test='''package strace

import (
	"context"
	"testing"
)

type brokenCtx struct{ context.Context }

func (brokenCtx) Value(interface{}) interface{} { panic("broken context") }

'''+NOPANIC+'''
func TestVerifDemo(t *testing.T) {
	noPanic(t, "StartMethodWithParam", func() {
		StartMethodWithParam(brokenCtx{context.Background()}, 1)
	})
}
'''),
dict(id='contain-observer-go', prop='C16', needs='a configuration observer that panics', breaks='observers run in goroutines of their own, where nothing stops a panic',
 edits=[(OB,'''	for _, r := range observers {
		r.Run()
''','''	for _, r := range observers {
		go r.Run()
''')], pkg='scouterx/conf', test='''package conf

import (
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
)

type badObserver struct{}

func (badObserver) Run() { panic("observer") }

func TestVerifDemo(t *testing.T) {
	AddToConfObserver("verif-bad", badObserver{})
	common.RunSafely(confChangeNotify)
	time.Sleep(time.Second)
	// what the observer did must not have ended the process
}
'''),
dict(id='contain-must-load', prop='C16', needs='a configuration file with a circular reference', breaks='a configuration file that cannot be parsed ends the host process',
 edits=[(CF,'''		fileProps, err := properties.LoadFile(filePath, properties.UTF8)
		if err != nil {
			switch e := err.(type) {
			case *os.PathError:
				if e.Err != syscall.ENOENT {
					return
				}
			default:
				return
			}
		}
		if fileProps''','''		var fileProps *properties.Properties
		if info != nil {
			fileProps = properties.MustLoadFile(filePath, properties.UTF8)
		}
		if fileProps''')], pkg='scouterx/conf', test='''package conf

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "scouter.conf")
	if err := ioutil.WriteFile(file, []byte("a=${b}\\nb=${a}\\n"), 0644); err != nil {
		t.Fatal(err)
	}
	os.Setenv("SCOUTER_CONFIG", file)
	defer os.Unsetenv("SCOUTER_CONFIG")
	c := &Configure{}
	c.lastModified = time.Time{}
	c.Refresh()
	// the process is still there
}
'''),
dict(id='contain-tcp-cleanup', prop='C16', needs='a first connection attempt that panics before a connection was made', breaks='the connection is closed by a deferred call below the guard, which follows a nil pointer',
 edits=[(TC,'''		func() {
			defer common.ReportScouterPanic()
			time.Sleep(time.Duration(1000) * time.Millisecond)
			client := GetTcpClient()
''','''		func() {
			client := GetTcpClient()
			defer noteEnd(client)
			defer common.ReportScouterPanic()
			time.Sleep(time.Duration(1000) * time.Millisecond)
'''),(TC,'''func min(a, b int) int {''','''// noteEnd logs which address of the collector a session was with.
func noteEnd(c *TCPClient) {
	if ac.TraceObjSend {
		logger.Info.Printf("[scouter]tcp session ended: %s", c.conn.RemoteAddr().(*net.TCPAddr).IP)
	}
}

func min(a, b int) int {'''),(TC,'import (\n','import (\n\t"net"\n')], pkg='scouterx/netio/tcpclient', test='''package tcpclient

import (
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	ac.TraceObjSend = true
	ac.NetCollectorIP = "127.0.0.1"
	ac.NetCollectorTCPPort = 1
	ac.NetCollectorTcpConnectionTimeoutMs = 500
	go startTcp()
	time.Sleep(6 * time.Second)
	// nobody listens on the port; the process must survive that
}
'''),
dict(id='contain-queue-wait', prop='C17', needs='a full UDP queue whose sender makes no progress', breaks='AddPack waits for space in the queue instead of dropping the pack',
 edits=[(U,'''	case udpSender.udpChannel <- bytes:
	default:
		logger.Warning.Println("udp channel is full.")
''','''	case udpSender.udpChannel <- bytes:
	case <-time.After(time.Minute):
		logger.Warning.Println("udp channel is full.")
''')], pkg='scouterx/netio/udpsender', test='''package udpsender

import (
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

'''+WITHIN+'''
func TestVerifDemo(t *testing.T) {
	s := &UDPSender{udpChannel: make(chan []byte, 1)}
	within(t, "AddPack on a full queue", func() {
		s.AddPack(netdata.NewTextPack())
		s.AddPack(netdata.NewTextPack())
	})
}
'''),
dict(id='contain-active-wait', prop='C17', needs='as many running services as the map of active services holds', breaks='a new service waits until a running one ends instead of displacing the oldest',
 edits=[(TM,'''func Start(tctx *netio.TraceContext) {
	txidMap''','''func Start(tctx *netio.TraceContext) {
	for txidMap.Size() >= 10000 {
		time.Sleep(time.Millisecond)
	}
	txidMap''')], pkg='scouterx/strace/tctxmanager', test='''package tctxmanager

import (
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
)

'''+WITHIN+'''
func TestVerifDemo(t *testing.T) {
	within(t, "Start", func() {
		for i := 0; i < 10005; i++ {
			tctx := netio.NewTraceContext()
			Start(tctx)
		}
	})
}
'''),
dict(id='contain-goid-wait', prop='C17', needs='a service started with GoWithTrace whose goroutine blocks at once', breaks='GoWithTrace returns only after the new goroutine handed over its id, which comes after the application code when the context is not traced',
 edits=[(T,'''	newCtx, childTctx := startChildGoroutineService(ctx, serviceName)
	go func() {
		if childTctx != nil {
			childTctx.StartTime = time.Now()
''','''	newCtx, childTctx := startChildGoroutineService(ctx, serviceName)
	started := make(chan int)
	defer func() {
		if id := <-started; childTctx != nil {
			childTctx.Goid = id
		}
	}()
	go func() {
		defer close(started)
		if childTctx != nil {
			started <- common.Goid()
			childTctx.StartTime = time.Now()
''')], pkg='scouterx/strace', test='''package strace

import (
	"context"
	"testing"
	"time"
)

'''+WITHIN+'''
func TestVerifDemo(t *testing.T) {
	block := make(chan bool)
	defer close(block)
	within(t, "GoWithTrace", func() {
		GoWithTrace(context.Background(), "work", func(context.Context) { <-block })
	})
}
'''),
]

TC='netio/tcpclient/tcpmanager.go'; U='netio/udpsender/udpsender.go'; AT='task/agenttask/agenttask.go'; XS='strace/xlogsampler.go'; CF='conf/configure.go'; T='strace/tracemain.go'; AG='agent.go'; CT='task/countertask/countertask.go'
import glob
def find(sub):
    for f in glob.glob('/repo/scouterx/**/*.go',recursive=True):
        if not f.endswith('_test.go') and sub in open(f).read():
            return f[len('/repo/scouterx/'):]
AT=find('func SendObjPack()'); CT=find('func start5MinCounter')
SEEDS=[
dict(id='task-tcp-disabled', prop='C27', needs='the collector port set to 0 for a moment', breaks='the loop that keeps the connection to the collector ends for good when the port is not positive',
 edits=[(TC,'	for (true) {\n','	for ac.NetCollectorTCPPort > 0 {\n')], pkg='scouterx/netio/tcpclient', test='''package tcpclient

import (
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	old, oldTimeout := ac.NetCollectorTCPPort, ac.NetCollectorTcpConnectionTimeoutMs
	ac.NetCollectorTCPPort = 0
	ac.NetCollectorTcpConnectionTimeoutMs = 200
	defer func() { ac.NetCollectorTCPPort, ac.NetCollectorTcpConnectionTimeoutMs = old, oldTimeout }()
	ended := make(chan bool)
	go func() {
		startTcp()
		close(ended)
	}()
	select {
	case <-ended:
		t.Fatal("the connection task ended")
	case <-time.After(3 * time.Second):
	}
}
'''),
dict(id='task-udp-spin', prop='C27', needs='an empty queue while the sender has a connection', breaks='the sender polls an empty queue without a pause',
 edits=[(U,'''		case 0:
			time.Sleep(100 * time.Millisecond)
''','''		case 0:
			if udpSender.udpClient.Conn == nil {
				time.Sleep(100 * time.Millisecond)
			}
''')], pkg='scouterx/netio/udpsender', test='''package udpsender

import (
	"syscall"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpclient"
)

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func TestVerifDemo(t *testing.T) {
	s := &UDPSender{udpChannel: make(chan []byte, 1), running: true, udpClient: udpclient.New("127.0.0.1", 6100)}
	go s.run()
	before := cpu()
	time.Sleep(3 * time.Second)
	used := cpu() - before
	s.running = false
	if used > 1500*time.Millisecond {
		t.Fatalf("an idle sender used %v of CPU in 3 s", used)
	}
}
'''),
dict(id='task-swallow', prop='C27', needs='a panic in one announcement of the object', breaks='the task recovers the panic itself and so ends in an orderly way, after which nothing starts it again',
 edits=[(AT,'''func start() {
	for {''','''func start() {
	defer common.ReportScouterPanic()
	for {''')], pkg='scouterx/'+AT.rsplit('/',1)[0], test='''package agenttask

import (
	"io/ioutil"
	"log"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
)

func TestVerifDemo(t *testing.T) {
	ac := conf.GetInstance()
	ac.TraceObjSend = true
	logger.Info = nil // makes the next announcement panic
	ended := make(chan bool)
	go func() {
		common.KeepRunning(start)
		close(ended)
	}()
	select {
	case <-ended:
		t.Fatal("the announcing task ended after a panic")
	case <-time.After(5 * time.Second):
	}
	logger.Info = log.New(ioutil.Discard, "", 0)
}
'''),
dict(id='init-sampler-fast-path', prop='C37', needs='two goroutines asking for the sampler for the first time at the same moment', breaks='the second caller gets the sampler before it was filled in',
 edits=[(XS,'''func GetXlogSampler() *XlogSampler {
	xlogSamplerOnce''','''func GetXlogSampler() *XlogSampler {
	if xlogSampler != nil {
		return xlogSampler
	}
	xlogSamplerOnce''')], pkg='scouterx/strace', test='''package strace

import (
	"strings"
	"sync"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	ac.XlogDiscardServicePatterns = strings.Repeat("/a*,", 2000) + "/health"
	bad := 0
	for i := 0; i < 1000 && bad == 0; i++ {
		xlogSampler = nil
		xlogSamplerOnce = sync.Once{}
		var wg sync.WaitGroup
		var mu sync.Mutex
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if !GetXlogSampler().isDiscardServicePattern("/health") {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	if bad > 0 {
		t.Fatal("a sampler without its patterns was handed out")
	}
}
'''),
dict(id='init-conf-re-entry', prop='C37', needs='a configuration path that cannot be looked at (below a file, say) when the configuration is first used', breaks='the initialiser asks for the instance it is making and waits for itself',
 edits=[(CF,'''		//TODO logging
		switch e := err.(type) {
		case *os.PathError:
			if e.Err != syscall.ENOENT {
				return''','''		//TODO logging
		switch e := err.(type) {
		case *os.PathError:
			if e.Err != syscall.ENOENT {
				if GetInstance().TraceObjSend {
					logger.Warning.Println("[scouter] configuration:", err)
				}
				return''')], pkg='scouterx/conf', test='''package conf

import (
	"os"
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	os.Setenv("SCOUTER_CONFIG", "/dev/null/scouter.conf")
	defer os.Unsetenv("SCOUTER_CONFIG")
	done := make(chan bool)
	go func() {
		GetInstance()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("GetInstance waits for itself")
	}
}
'''),
dict(id='start-stuck-conditional', prop='C38', needs='stuck_service_remove_enabled switched on after the agent started', breaks='the handler for stuck services is only registered when removal was enabled at the start',
 edits=[(T,'''	tctxmanager.RegisterEndStuckServiceForciblyFunc(endStuckServiceForcibly)
''','''	if ac.StuckServiceRemoveEnabled {
		tctxmanager.RegisterEndStuckServiceForciblyFunc(endStuckServiceForcibly)
	}
''')], pkg='scouterx/strace', test='''package strace

import (
	"context"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func TestVerifDemo(t *testing.T) {
	ac.StuckServiceRemoveEnabled = false
	StartTracingMode()
	ac.StuckServiceRemoveEnabled = true
	ctx := StartService(context.Background(), "stuck", "127.0.0.1")
	tctx := tctxmanager.GetTraceContext(ctx)
	tctx.StartTime = time.Now().Add(-24 * time.Hour)
	tctxmanager.GetActiveCount()
	if tctxmanager.GetTraceContextByTxid(tctx.Txid) != nil {
		t.Fatal("the stuck service was not removed")
	}
}
'''),
dict(id='start-again-on-rename', prop='C38', needs='a change of the object name while the agent runs', breaks='every change of the object name starts one more announcing task',
 edits=[(AG,'''	netio.SendObjName(ac.ObjName)
''','''	netio.SendObjName(ac.ObjName)
	agenttask.Start()
''')], pkg='scouterx', test='''package scouterx

import (
	"runtime"
	"strings"
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	observer.Run()
	observer.Run()
	time.Sleep(500 * time.Millisecond)
	buf := make([]byte, 1<<20)
	n := strings.Count(string(buf[:runtime.Stack(buf, true)]), "agenttask.start(")
	if n > 1 {
		t.Fatalf("%d tasks announce the object", n)
	}
}
'''),
]

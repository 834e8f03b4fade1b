ST='scouterx/strace'
HEAD='''package strace

import (
	"context"
	"errors"
	"net"
	"net/http"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

var _ = context.Background
var _ = errors.New
var _ = http.NewRequest
var _ = util.HashString
var _ = counter.GetServiceMeter
var _ = netio.SendError
var _ = tctxmanager.GetTraceContext
var _ = time.Now

// capture collects the packs that the agent sends to its default collector while f runs.
func capture(t *testing.T, f func()) (r []netdata.Pack) {
	srv, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP("127.0.0.1"), Port: 6100})
	for i := 0; err != nil && i < 60; i++ {
		time.Sleep(time.Second)
		srv, err = net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP("127.0.0.1"), Port: 6100})
	}
	if err != nil {
		t.Fatal(err)
	}
	defer srv.Close()
	f()
	for {
		buf := make([]byte, 65536)
		srv.SetReadDeadline(time.Now().Add(700 * time.Millisecond))
		n, _, err := srv.ReadFromUDP(buf)
		if err != nil {
			return
		}
		in := netdata.NewDataInputX(buf[4:n])
		cnt := 1
		if string(buf[:4]) == "CAFN" {
			c, _ := in.ReadInt16()
			cnt = int(c)
		}
		for i := 0; i < cnt; i++ {
			t, _ := in.ReadInt8()
			if t == 21 {
				b, err := in.ReadBlob()
				if err != nil {
					break
				}
				r = append(r, readXlog(b))
				continue
			}
			if t == 26 {
				x := netdata.NewXlogProfilePack()
				in.ReadDecimal()
				in.ReadDecimal()
				in.ReadDecimal()
				x.Txid, _ = in.ReadInt64()
				x.Profile, _ = in.ReadBlob()
				r = append(r, x)
				continue
			}
			p := netdata.CreatePack(byte(t))
			if p == nil {
				break
			}
			if _, err := p.Read(in); err != nil {
				break
			}
			r = append(r, p)
		}
	}
}

func readXlog(b []byte) *netdata.XlogPack {
	x := netdata.NewXlogPack()
	in := netdata.NewDataInputX(b)
	d := func() int32 { v, _ := in.ReadDecimal(); return int32(v) }
	d()
	d()
	x.Service = d()
	x.Txid, _ = in.ReadInt64()
	x.Caller, _ = in.ReadInt64()
	x.Gxid, _ = in.ReadInt64()
	x.Elapsed = d()
	x.Error = d()
	d()
	d()
	d()
	in.ReadBlob()
	d()
	x.Status = d()
	return x
}

func xlogs(ps []netdata.Pack) (r []*netdata.XlogPack) {
	for _, p := range ps {
		if x, ok := p.(*netdata.XlogPack); ok {
			r = append(r, x)
		}
	}
	return
}

func traceOf(ctx context.Context) *netio.TraceContext { return tctxmanager.GetTraceContext(ctx) }
'''
T='strace/tracemain.go'
S='strace/xlogsampler.go'
C='netio/tracecontext.go'
SEEDS=[
dict(id='life-meter-discarded', prop='C09', needs='a service whose xlog is dropped by sampling', breaks='dropped services are missing from TPS and elapsed-time counters',
 edits=[(T,'	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)\n	//TODO meteringInteraction\n',''),(T,'		netio.SendXlog(xlog)\n','		netio.SendXlog(xlog)\n		counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)\n')], pkg=ST, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	ac.XlogSamplingEnabled = true
	ac.XlogSamplingStep1Ms = 100000
	ac.XlogSamplingStep1RatePct = 0
	ctx := StartService(nil, "demo", "1.2.3.4")
	before := counter.GetServiceMeter().GetAllCounter(30).Tps
	EndService(ctx)
	time.Sleep(1100 * time.Millisecond)
	if n := counter.GetServiceMeter().GetAllCounter(30).Tps; n <= before {
		t.Fatalf("%v services per second, before %v", n, before)
	}
}
'''),
dict(id='life-stuck-unmetered', prop='C09', needs='a service that the stuck-service watcher ends', breaks='a service ended as stuck is neither metered nor reported to the collector',
 edits=[(T,'''			tctx.Error = netio.SendError("This stuck service currently may running, not finished!")
		}
		endAnyServiceOfTraceContext(tctx)
''','''			tctx.Error = netio.SendError("This stuck service currently may running, not finished!")
		}
		tctx.Profile.Close(true)
		tctxmanager.End(tctx)
''')], pkg=ST, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	StartTracingMode()
	var tr *netio.TraceContext
	ps := capture(t, func() {
		ctx := StartService(nil, "demo", "1.2.3.4")
		tr = traceOf(ctx)
		tr.StartTime = time.Now().Add(-time.Hour)
		tctxmanager.GetActiveCount()
	})
	n := 0
	for _, x := range xlogs(ps) {
		if x.Txid == tr.Txid {
			n++
		}
	}
	if n != 1 {
		t.Fatalf("%d xlogs for the stuck service", n)
	}
}
'''),
dict(id='life-child-meter', prop='C09', needs='a service ended while a traced goroutine of its own is still running', breaks='the end of a child goroutine removes the parent\'s entry instead of its own, which stays active for ever',
 edits=[('strace/tctxmanager/tctxmanager.go','	txidMap.Remove(tctx.Txid)','	if tctx.Caller != 0 {\n		txidMap.Remove(tctx.Caller)\n		return\n	}\n	txidMap.Remove(tctx.Txid)')], pkg=ST, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	ctx := StartService(nil, "demo", "1.2.3.4")
	done := make(chan *netio.TraceContext, 1)
	GoWithTrace(ctx, "child", func(c context.Context) { done <- traceOf(c) })
	child := <-done
	time.Sleep(300 * time.Millisecond)
	if tctxmanager.GetTraceContextByTxid(child.Txid) != nil {
		t.Fatal("the child is still active")
	}
	if tctxmanager.GetTraceContextByTxid(traceOf(ctx).Txid) == nil {
		t.Fatal("the parent is not active any more")
	}
	EndService(ctx)
}
'''),
dict(id='sample-step-boundary', prop='C10', needs='a service whose elapsed time equals a step limit', breaks='a service that takes exactly the step limit is sampled with the rate of the faster step',
 edits=[(S,'	} else if elapsed < ac.XlogPatterned2SamplingStep2Ms {','	} else if elapsed <= ac.XlogPatterned2SamplingStep2Ms {')], pkg=ST, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	ac.XlogPatterned2SamplingEnabled = true
	ac.XlogPatterned2SamplingServicePatterns = "/a*"
	ac.XlogPatterned2SamplingStep1Ms, ac.XlogPatterned2SamplingStep2Ms, ac.XlogPatterned2SamplingStep3Ms = 100, 1000, 3000
	ac.XlogPatterned2SamplingStep1RatePct, ac.XlogPatterned2SamplingStep2RatePct, ac.XlogPatterned2SamplingStep3RatePct = 0, 0, 100
	s := GetXlogSampler()
	s.Run()
	if d := s.eEvaluateXLogDiscard(1000, "/abc"); d != netdata.XLOG_DISCARD_NONE {
		t.Fatalf("1000 ms: %d", d)
	}
	if d := s.eEvaluateXLogDiscard(999, "/abc"); d != netdata.XLOG_DISCARD_ALL {
		t.Fatalf("999 ms: %d", d)
	}
}
'''),
dict(id='sample-pattern-order', prop='C10', needs='a service that matches the first and the second sampling pattern', breaks='the second pattern overrides the decision of the first',
 edits=[(S,'	if !discarded && ac.XlogPatterned2SamplingEnabled {','	if ac.XlogPatterned2SamplingEnabled {')], pkg=ST, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	ac.XlogPatternedSamplingEnabled, ac.XlogPatterned2SamplingEnabled = true, true
	ac.XlogPatternedSamplingServicePatterns = "/a*"
	ac.XlogPatterned2SamplingServicePatterns = "/ab*"
	ac.XlogPatternedSamplingStep1Ms, ac.XlogPatternedSamplingStep1RatePct = 1000, 0
	ac.XlogPatterned2SamplingStep1Ms, ac.XlogPatterned2SamplingStep1RatePct = 1000, 0
	ac.XlogPatterned2SamplingOnlyProfile = true
	s := GetXlogSampler()
	s.Run()
	if d := s.eEvaluateXLogDiscard(10, "/abc"); d != netdata.XLOG_DISCARD_ALL {
		t.Fatalf("decision %d", d)
	}
}
'''),
dict(id='xlog-error-status', prop='C11', needs='a service with an error that answered with a status below 400', breaks='the xlog does not show the error',
 edits=[(C,'	xlog.Error = tctx.Error\n','	if tctx.Status == 0 || tctx.Status >= 400 {\n		xlog.Error = tctx.Error\n	}\n')], pkg=ST, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	tr := netio.NewTraceContext()
	tr.Error = 77
	for _, st := range []int32{0, 200, 302, 404, 500} {
		tr.Status = st
		if x := tr.ToXlog(netdata.XLOG_DISCARD_NONE, 1); x.Error != 77 || x.Status != st {
			t.Fatalf("status %d: error %d status %d", st, x.Error, x.Status)
		}
	}
}
'''),
dict(id='xlog-http-closed', prop='C11', needs='an HTTP service without response body handling whose response carries status 204', breaks='the status of a response without content is not reported',
 edits=[(T,'		tctx.Status = int32(res.StatusCode)\n','		if res.StatusCode != http.StatusNoContent {\n			tctx.Status = int32(res.StatusCode)\n		}\n')], pkg=ST, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	for _, code := range []int{200, 204, 404} {
		req, _ := http.NewRequest("GET", "http://a/b", nil)
		var tr *netio.TraceContext
		ps := capture(t, func() {
			ctx := StartHttpService(context.Background(), req)
			tr = traceOf(ctx)
			EndHttpService(ctx, req, &http.Response{StatusCode: code})
		})
		ok := false
		for _, x := range xlogs(ps) {
			if x.Txid == tr.Txid && x.Status == int32(code) {
				ok = true
			}
		}
		if !ok {
			t.Fatalf("status %d is not reported", code)
		}
	}
}
'''),
dict(id='step-first-error', prop='C12', needs='two failing API calls in one service', breaks='a later API-call error replaces the first error of the service',
 edits=[(T,'		if tctx.Error == 0 {\n			tctx.Error = step.Error\n		}','		if tctx.Error != step.Error {\n			tctx.Error = step.Error\n		}')], pkg=ST, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	ctx := StartService(nil, "demo", "1.2.3.4")
	defer EndService(ctx)
	EndApiCall(ctx, StartApiCall(ctx, "a", ""), errors.New("first"))
	EndApiCall(ctx, StartApiCall(ctx, "b", "x"), errors.New("second"))
	if e := traceOf(ctx).Error; e != util.HashString("first") {
		t.Fatalf("error %d", e)
	}
}
'''),
dict(id='step-params-nil', prop='C12', needs='a nil parameter followed by others', breaks='the parameters behind a nil parameter are not recorded',
 edits=[(T,'		if param == nil {\n			continue\n		}','		if param == nil {\n			break\n		}')], pkg=ST, test=HEAD+'''
func steps(tr *netio.TraceContext, f func()) (r int) {
	old := ac.ProfileStepMaxKeepInMemoryCount
	defer func() { ac.ProfileStepMaxKeepInMemoryCount = old }()
	n := tr.ProfileCount
	f()
	tr.Profile.Close(true)
	return tr.ProfileCount - n
}
func TestVerifDemo(t *testing.T) {
	for _, c := range []struct {
		want int
		p    []interface{}
	}{{1, nil}, {2, []interface{}{1}}, {3, []interface{}{1, 2}}, {3, []interface{}{1, nil, 2}}} {
		ctx := StartService(nil, "demo", "1.2.3.4")
		tr := traceOf(ctx)
		if n := steps(tr, func() { EndMethod(ctx, StartMethodWithParam(ctx, c.p...)) }) - 1; n != c.want {
			t.Fatalf("%d steps for %v, want %d", n, c.p, c.want)
		}
		EndService(ctx)
	}
}
'''),
dict(id='link-child-gxid', prop='C13', needs='a traced goroutine started from a trace that belongs to another group', breaks='the child starts a group of its own and is not linked with the calling chain',
 edits=[(T,'	childTctx.Gxid = parentTctx.Gxid\n	if childTctx.Gxid == 0 {','	if parentTctx.Gxid != parentTctx.Txid {')], pkg=ST, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	for _, g := range []int64{0, 1, 4711} {
		ctx := StartService(nil, "demo", "1.2.3.4")
		tr := traceOf(ctx)
		want := tr.Txid
		if g == 0 {
			tr.Gxid = 0
		} else if g > 1 {
			tr.Gxid = g
			want = g
		}
		done := make(chan int64)
		GoWithTrace(ctx, "child", func(c context.Context) { done <- traceOf(c).Gxid })
		if got := <-done; got != want || tr.Gxid != want {
			t.Fatalf("group %d: child %d parent %d", g, got, tr.Gxid)
		}
		EndService(ctx)
	}
}
'''),
dict(id='link-child-panic', prop='C13', needs='a panic in the function of a traced goroutine (recovered by the application)', breaks='the child of a goroutine that ends by runtime.Goexit or a panic stays active for ever',
 edits=[(T,'		func4Goroutine(newCtx)\n	}()','		func4Goroutine(newCtx)\n		if childTctx != nil {\n			endChildGoroutineService(newCtx)\n		}\n	}()'),(T,'			childTctx.StartTime = time.Now()\n			defer endChildGoroutineService(newCtx)\n','			childTctx.StartTime = time.Now()\n')], pkg=ST, test=HEAD.replace('"net/http"','"net/http"\n	"runtime"')+'''
func TestVerifDemo(t *testing.T) {
	ctx := StartService(nil, "demo", "1.2.3.4")
	defer EndService(ctx)
	done := make(chan *netio.TraceContext, 1)
	GoWithTrace(ctx, "child", func(c context.Context) {
		done <- traceOf(c)
		runtime.Goexit()
	})
	child := <-done
	time.Sleep(300 * time.Millisecond)
	if tctxmanager.GetTraceContextByTxid(child.Txid) != nil {
		t.Fatal("the child is still active")
	}
}
'''),
dict(id='link-callee-header', prop='C13', needs='an API call propagated from a trace whose group is another trace', breaks='the caller header names the group instead of the calling trace',
 edits=[(T,'req.Header.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))','req.Header.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Gxid))')], pkg=ST, test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	ctx := StartService(nil, "demo", "1.2.3.4")
	defer EndService(ctx)
	tr := traceOf(ctx)
	tr.Gxid = 4711
	req, _ := http.NewRequest("GET", "http://a/b", nil)
	step := StartApiCallWithPropagation(ctx, req, "call", "addr")
	for k, v := range map[string]int64{"X-Scouter-Gxid": 4711, "X-Scouter-Caller": tr.Txid, "X-Scouter-Callee": step.Txid} {
		if got := req.Header.Get(k); got != util.IntToXlogString32(v) {
			t.Fatalf("%s: %s", k, got)
		}
	}
}
'''),
]

T='strace/tracemain.go'; M='strace/tctxmanager/tctxmanager.go'
H='''package strace

import (
	"context"
	"errors"
	"net/http"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

var _ = errors.New
var _ = http.NewRequest
var _ = time.Now
var _ = tctxmanager.GetTraceContext
var _ = context.Background

'''
SEEDS=[
dict(id='nil-endapi-step', prop='C26', needs='a call that was started without a trace and is ended with an error in a traced context', breaks='ending a call with a nil step counts the call and marks the service as failed',
 edits=[(T,'''	if ctx == nil || step == nil {
		return
	}
	tctx := tctxmanager.GetTraceContext(ctx)
	if tctx == nil {
		return
	}
	step.Elapsed = util.MillisToNow(tctx.StartTime) - step.StartTime
	tctx.ApicallCount++
''','''	if ctx == nil {
		return
	}
	tctx := tctxmanager.GetTraceContext(ctx)
	if tctx == nil {
		return
	}
	if err != nil && tctx.Error == 0 {
		tctx.Error = netio.SendError(err.Error())
	}
	if step == nil {
		return
	}
	step.Elapsed = util.MillisToNow(tctx.StartTime) - step.StartTime
	tctx.ApicallCount++
''')], pkg='scouterx/strace', test=H+'''func TestVerifDemo(t *testing.T) {
	ctx := StartService(context.Background(), "svc", "127.0.0.1")
	tctx := tctxmanager.GetTraceContext(ctx)
	step := StartApiCall(nil, "api", "addr")
	EndApiCall(ctx, step, errors.New("no trace"))
	if tctx.Error != 0 {
		t.Fatal("a call that was not traced marks the service as failed")
	}
	EndService(ctx)
}
'''),
dict(id='nil-go-untraced', prop='C26', needs='a goroutine started with a context that has no trace, ended by its caller', breaks='GoWithTrace gives the function a context of its own when there is no trace, so values and cancellation of the caller are lost',
 edits=[(T,'''	parentTctx := tctxmanager.GetTraceContext(ctx)
	if parentTctx == nil {
		return ctx, nil
	}

	ctx4Goroutine''','''	parentTctx := tctxmanager.GetTraceContext(ctx)
	if parentTctx == nil {
		ctx, _ = tctxmanager.Detached(ctx)
		return ctx, nil
	}

	ctx4Goroutine'''),(M,'''func Start(tctx *netio.TraceContext) {
''','''// Detached is a context without the limits of the one given, for work that goes on after it.
func Detached(ctx context.Context) (context.Context, bool) {
	if _, limited := ctx.Deadline(); limited || ctx.Done() != nil {
		return context.Background(), true
	}
	return ctx, false
}

func Start(tctx *netio.TraceContext) {
''')], pkg='scouterx/strace', test=H+'''func TestVerifDemo(t *testing.T) {
	type key struct{}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, "v"))
	defer cancel()
	got := make(chan interface{}, 1)
	GoWithTrace(ctx, "work", func(c context.Context) { got <- c.Value(key{}) })
	select {
	case v := <-got:
		if v != "v" {
			t.Fatal("the context given is lost")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the function did not run")
	}
}
'''),
dict(id='nil-response', prop='C26', needs='a handler ends a service without a response and without a request', breaks='EndHttpService looks at the request when there is no response, panics inside the guard and never ends the service',
 edits=[(T,'''		tctx.Status = int32(res.StatusCode)
	}
	endAnyService(ctx)
''','''		tctx.Status = int32(res.StatusCode)
	} else if req.Response != nil {
		res = req.Response
	}
	endAnyService(ctx)
''')], pkg='scouterx/strace', test=H+'''func TestVerifDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "http://localhost/a", nil)
	ctx := StartHttpService(context.Background(), req)
	tctx := tctxmanager.GetTraceContext(ctx)
	EndHttpService(ctx, nil, nil)
	if tctxmanager.GetTraceContextByTxid(tctx.Txid) != nil {
		t.Fatal("the service is still active after its end")
	}
}
'''),
]

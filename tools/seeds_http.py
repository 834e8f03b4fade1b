F='strace/tracemain.go'
def T(body, conf):
    return '''package strace

import (
	"context"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)


func verifMessages(tctx *netio.TraceContext) []string {
	var r []string
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 8 || !v.IsValid() {
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.Kind() == reflect.Ptr && v.Type().String() == "*netio.TraceContext" {
				return
			}
			walk(v.Elem(), depth+1)
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len() && i < 64; i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Struct:
			if f := v.FieldByName("Message"); f.IsValid() && f.Kind() == reflect.String {
				r = append(r, f.String())
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(tctx.Profile), 0)
	return r
}

func verifStart(prepare func(r *http.Request)) (*netio.TraceContext, string) {
	req := httptest.NewRequest("GET", "/a/b?x=secret", nil)
	prepare(req)
	ctx := StartHttpService(context.Background(), req)
	tctx := tctxmanager.GetTraceContext(ctx)
	all := strings.Join(verifMessages(tctx), "\\n")
	EndHttpService(ctx, req, nil)
	return tctx, all
}

func TestVerifDemo(t *testing.T) {
	old := *ac
	defer func() { *ac = old }()
	%s
%s}
''' % (conf, body)
SEEDS=[
dict(id='http-first-value', prop='C30', needs='a configured header that a request carries twice', breaks='only the first value of the header is recorded',
 edits=[(F,'''				values := r.Header.Values(strings.TrimSpace(k))
				if values != nil && len(values) > 0 {
					v := strings.Join(values, ",")
''','''				v := r.Header.Get(strings.TrimSpace(k))
				if v != "" {
''')], pkg='scouterx/strace', test=T('''	_, all := verifStart(func(r *http.Request) {
		r.Header.Add("X-A", "one")
		r.Header.Add("X-A", "two")
	})
	if !strings.Contains(all, "one,two") {
		t.Fatal(all)
	}
''','ac.ProfileHttpHeaderEnabled, ac.ProfileHttpHeaderKeys = true, "X-A"')),
dict(id='http-header-untrimmed', prop='C30', needs='configured header names with a blank after the comma', breaks='all names but the first are looked up with the blank and never found',
 edits=[(F,'r.Header.Values(strings.TrimSpace(k))','r.Header.Values(k)')], pkg='scouterx/strace', test=T('''	_, all := verifStart(func(r *http.Request) {
		r.Header.Set("X-A", "one")
		r.Header.Set("X-B", "two")
	})
	if !strings.Contains(all, "one") || !strings.Contains(all, "two") {
		t.Fatal(all)
	}
''','ac.ProfileHttpHeaderEnabled, ac.ProfileHttpHeaderKeys = true, "X-A, X-B"')),
dict(id='http-query-with-header', prop='C30', needs='query recording enabled and header recording disabled', breaks='the query is not recorded, as it is only looked at together with the headers',
 edits=[(F,'	startTime := util.MillisToNow(tctx.StartTime)\n	if ac.ProfileHttpHeaderEnabled {','	startTime := util.MillisToNow(tctx.StartTime)\n	if !ac.ProfileHttpHeaderEnabled {\n		return\n	} else {')], pkg='scouterx/strace', test=T('''	_, all := verifStart(func(r *http.Request) {})
	if !strings.Contains(all, "x=secret") {
		t.Fatal(all)
	}
''','ac.ProfileHttpHeaderEnabled, ac.ProfileHttpQuerystringEnabled = false, true')),
dict(id='http-client-header-missing', prop='C30', needs='a client header is configured and a request does not carry it', breaks='the client of such a request has no address',
 edits=[(F,'''		if headerIp != "" {
			ip = headerIp
		}
''','''		ip = headerIp
''')], pkg='scouterx/strace', test=T('''	tctx, _ := verifStart(func(r *http.Request) { r.RemoteAddr = "10.1.2.3:4567" })
	if tctx.RemoteIp != "10.1.2.3" {
		t.Fatal(tctx.RemoteIp)
	}
	tctx, _ = verifStart(func(r *http.Request) { r.RemoteAddr = "10.1.2.3:4567"; r.Header.Set("X-Forwarded-For", "10.9.9.9") })
	if tctx.RemoteIp != "10.9.9.9" {
		t.Fatal(tctx.RemoteIp)
	}
''','ac.TraceHttpClientIpHeaderKey = "X-Forwarded-For"')),
]

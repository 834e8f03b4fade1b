U='netio/udpclient/udpclient.go'; US='netio/udpsender/udpsender.go'; T='strace/tracemain.go'; DP='netio/dataproxy.go'; TC='netio/tcpclient/tcpclient.go'; PC='netio/profilecollector.go'; H='netio/tcpclient/handlers.go'; TM='strace/tctxmanager/tctxmanager.go'; CF='conf/configure.go'
EDITS=[
('C17','catch','m-lookup',[(T,'	ip := req.RemoteAddr\n','	ip := req.RemoteAddr\n	if names, err := net.LookupAddr(ip); err == nil && len(names) > 0 {\n		ip = names[0]\n	}\n'),(T,'	"net/http"\n','	"net"\n	"net/http"\n')]),
('C17','catch','m-spin-room',[(US,'func (udpSender *UDPSender) AddBuffer(buffer []byte) {\n','func (udpSender *UDPSender) AddBuffer(buffer []byte) {\n	for len(udpSender.udpChannel) == cap(udpSender.udpChannel) {\n	}\n'),(US,'	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)\n	bytes := writePack.Bytes()\n	select {\n	case udpSender.udpChannel <- bytes:\n	default:\n		logger.Warning.Println("udp channel is full.")\n	}\n','	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)\n	udpSender.AddBuffer(writePack.Bytes())\n')]),
('C17','catch','m-timeout-select',[(US,'	case udpSender.udpChannel <- bytes:\n	default:\n','	case udpSender.udpChannel <- bytes:\n	case <-time.After(time.Millisecond):\n')]),
('C17','catch','m-waitgroup',[(T,'	newCtx, childTctx := startChildGoroutineService(ctx, serviceName)\n	go func() {\n','	newCtx, childTctx := startChildGoroutineService(ctx, serviceName)\n	var wg sync.WaitGroup\n	wg.Add(1)\n	defer wg.Wait()\n	go func() {\n		wg.Done()\n'),(T,'	"strings"\n','	"strings"\n	"sync"\n')]),
('C17','catch','m-cas-spin',[(T,'	if tctx.Closed || !tctx.TryEnd() {\n		return\n	}\n','	for !tctx.TryEnd() {\n		if tctx.Closed {\n			return\n		}\n		runtime.Gosched()\n	}\n')]),
('C17','catch','m-direct-write',[(DP,'func SendPackDirect(pack netdata.Pack) {\n','func SendPackDirect(pack netdata.Pack) {\n	if p, ok := pack.(*netdata.XlogProfilePack); ok && len(p.Profile) > 1<<16 {\n		time.Sleep(time.Millisecond)\n	}\n'),(DP,'	udpsender.GetInstance().SendPackDirect(pack)\n}\n\nfunc SendPackDirect','	SendPackDirect(pack)\n}\n\nfunc SendPackDirect')]),
('C17','catch','m-ctx-done',[(T,'func EndService(ctx context.Context) {\n	defer common.ReportScouterPanic()\n','func EndService(ctx context.Context) {\n	defer common.ReportScouterPanic()\n	if ctx != nil && ctx.Done() != nil && ctx.Err() != nil {\n		<-ctx.Done()\n	}\n')]),
('C16','catch','m-afterfunc',[(T,'	asyncStep.Hash = netio.SendApicall(serviceName)\n','	asyncStep.Hash = netio.SendApicall(serviceName)\n	time.AfterFunc(time.Minute, func() {\n		if childTctx.Profile != nil {\n			_ = childTctx.ServiceName[0]\n		}\n	})\n')]),
('C16','catch','m-pprof-import',[(T,'	"net/http"\n','	"net/http"\n	_ "net/http/pprof"\n')]),
('C16','catch','m-gomaxprocs',[(T,'func StartTracingMode() {\n','func StartTracingMode() {\n	runtime.GOMAXPROCS(runtime.NumCPU())\n')]),
('C16','catch','m-log-output',[(T,'func StartTracingMode() {\n','func StartTracingMode() {\n	log.SetFlags(log.LstdFlags)\n'),(T,'	"net/http"\n','	"log"\n	"net/http"\n')]),
('C16','catch','m-fatal',[(U,'		logger.Error.Printf("[scouter] can\'t dialup udp client. %s\\n", err.Error())\n','		logger.Error.Fatalf("[scouter] can\'t dialup udp client. %s\\n", err.Error())\n')]),
('C16','catch','m-goexit',[(TC,'	if c.conn == nil {\n		return nil\n	}\n','	if c.conn == nil {\n		runtime.Goexit()\n	}\n'),(TC,'	"net"\n','	"net"\n	"runtime"\n')]),
('C16','catch','m-recover-nested',[('common/report.go','','')]),
('C16','catch','m-direct-plain-go',[(US,'	client := udpSender.udpClient\n	go common.RunSafely(func() {\n		client.WriteBuffer(bytes)\n	})\n','	client := udpSender.udpClient\n	go func() {\n		defer func() { common.ReportScouterPanic() }()\n		client.WriteBuffer(bytes)\n	}()\n')]),
('C16','catch','m-finalizer',[(TM,'	tctx := netio.NewTraceContext()\n','	tctx := netio.NewTraceContext()\n	runtime.SetFinalizer(tctx, func(t *netio.TraceContext) { txidMap.Remove(t.Txid); _ = t.ServiceName[0] })\n'),(TM,'	"time"\n','	"runtime"\n	"time"\n')]),
('C16','catch','m-setenv',[(T,'func StartTracingMode() {\n','func StartTracingMode() {\n	os.Setenv("SCOUTER_STARTED", "1")\n'),(T,'	"net/http"\n','	"net/http"\n	"os"\n')]),
('C16','catch','m-gc',[(T,'func StartTracingMode() {\n','func StartTracingMode() {\n	debug.SetGCPercent(200)\n'),(T,'	"runtime"\n','	"runtime"\n	"runtime/debug"\n')]),
('C16','catch','m-signal',[(T,'func StartTracingMode() {\n','func StartTracingMode() {\n	signal.Ignore(syscall.SIGHUP)\n'),(T,'	"net/http"\n','	"net/http"\n	"os/signal"\n	"syscall"\n')]),
('C15','catch','m-endmethod-defer-arg',[(T,'func EndMethod(ctx context.Context, step *netdata.MethodStep) {\n	defer common.ReportScouterPanic()\n','func EndMethod(ctx context.Context, step *netdata.MethodStep) {\n	if step.Elapsed > 0 {\n		return\n	}\n	defer common.ReportScouterPanic()\n')]),
('C15','catch','m-isstream',[(T,'func IsStream(ctx context.Context) bool {\n	defer common.ReportScouterPanic()\n','func IsStream(ctx context.Context) bool {\n	defer func() {\n		if ctx != nil {\n			common.ReportScouterPanic()\n		}\n	}()\n')]),
('C26','catch','m-noop',[(T,'func EndMethod(ctx context.Context, step *netdata.MethodStep) {\n	defer common.ReportScouterPanic()\n\n	if ctx == nil || step == nil {\n		return\n	}\n	tctx := tctxmanager.GetTraceContext(ctx)\n	if tctx == nil {\n		return\n	}\n','func EndMethod(ctx context.Context, step *netdata.MethodStep) {\n	defer common.ReportScouterPanic()\n\n	if ctx == nil || step == nil {\n		return\n	}\n	tctx := tctxmanager.GetTraceContextFallbackNoop(ctx)\n')]),
('C26','catch','m-nil-req-header',[(T,'	if req != nil {\n		req.Header.Add(interserviceGxid','	if req != nil || tctx.IsStream {\n		req.Header.Add(interserviceGxid')]),
('C11','catch','m-hash-before-name',[(T,'	tctx.ServiceHash = netio.SendServiceName(tctx.ServiceName)\n	tctxmanager.End(tctx)\n','	if tctx.ServiceHash == 0 {\n		tctx.ServiceHash = netio.SendServiceName(tctx.ServiceName)\n	}\n	tctxmanager.End(tctx)\n')]),
('C30','catch','m-ip6',[(T,'	return strings.Split(ip, ":")[0]\n','	if i := strings.LastIndex(ip, ":"); i >= 0 {\n		return ip[:i]\n	}\n	return ip\n')]),
('C30','catch','m-name-rawpath',[(T,'req.URL.Path, "<"','req.URL.EscapedPath(), "<"')]),
('C13','catch','m-header-set-once',[(T,'		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))\n','		if req.Header.Get(interserviceGxidHeaderKey) == "" {\n			req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))\n		}\n')]),
('C12','catch','m-api-err-typed',[(T,'	if address != "" {\n		step.Opt = 1\n	}\n	step.Address = address\n','	if address != "" {\n		step.Opt = 1\n		step.Address = address\n	} else {\n		step.Address = apiCallName\n	}\n')]),
('C32','catch','m-once-stuck',[(TM,'			if fEndStuckServiceForcibly != nil {\n				fEndStuckServiceForcibly(tctx)\n			}\n','			if fEndStuckServiceForcibly != nil && !tctx.Closed {\n				fEndStuckServiceForcibly(tctx)\n			}\n')]),
('C32','catch','m-nano',[(TM,'elapsed := int(now.Sub(tctx.StartTime) / time.Millisecond)','elapsed := int(now.Sub(tctx.StartTime).Seconds()) * 1000')]),
]
EDITS=[e for e in EDITS if e[2]!='m-recover-nested']

EDITS+=[
('C17','quiet','q-cas-retry',[(T,'	if tctx.Closed || !tctx.TryEnd() {\n		return\n	}\n','	for {\n		n := atomic.LoadInt64(&ended)\n		if atomic.CompareAndSwapInt64(&ended, n, n+1) {\n			break\n		}\n	}\n	if tctx.Closed || !tctx.TryEnd() {\n		return\n	}\n'),(T,'var ac = conf','var ended int64\n\nvar ac = conf'),(T,'	"strings"\n','	"strings"\n	"sync/atomic"\n')]),
('C17','quiet','q-loops',[(T,'	for _, param := range params {\n','	n := len(params)\n	for n > 0 && params[n-1] == nil {\n		n--\n	}\n	params = params[:n]\n	for _, param := range params {\n')]),
('C15,C26','quiet','q-endmethod-swap',[(T,'	if ctx == nil || step == nil {\n		return\n	}\n	tctx := tctxmanager.GetTraceContext(ctx)\n	if tctx == nil {\n		return\n	}\n	step.Elapsed','	if step == nil || ctx == nil {\n		return\n	}\n	tctx := tctxmanager.GetTraceContext(ctx)\n	if tctx == nil {\n		return\n	}\n	step.Elapsed')]),
('C15','quiet','q-nil-before-guard',[(T,'func EndMethod(ctx context.Context, step *netdata.MethodStep) {\n	defer common.ReportScouterPanic()\n','func EndMethod(ctx context.Context, step *netdata.MethodStep) {\n	if step == nil {\n		return\n	}\n	if step.Elapsed < 0 {\n		step.Elapsed = 0\n	}\n	defer common.ReportScouterPanic()\n')]),
('C16','quiet','q-afterfunc-guarded',[(T,'	asyncStep.Hash = netio.SendApicall(serviceName)\n','	asyncStep.Hash = netio.SendApicall(serviceName)\n	time.AfterFunc(time.Minute, func() {\n		defer common.ReportScouterPanic()\n		_ = childTctx.ServiceName[0]\n	})\n')]),
]

T='strace/tracemain.go'; P='common/panicreport.go'; DP='netio/dataproxy.go'; U='netio/udpsender/udpsender.go'; TC='netio/tcpclient/tcpmanager.go'; D='dump/pprofdump.go'; C2='common/structure/cachemap2/cachemap2.go'; AT='task/agenttask/agenttask.go'; CT='task/countertask/countertask.go'; AG='agent.go'; LG='common/logger/logger.go'
import glob,os,subprocess
def find(name,sub):
    for f in glob.glob('/repo/scouterx/**/*.go',recursive=True):
        if not f.endswith('_test.go') and sub in open(f).read():
            return f[len('/repo/scouterx/'):]
    raise SystemExit('no file for '+name)
P=find('P','func ReportScouterPanic()'); D=find('D','func profileCpu('); AT=find('AT','func SendObjPack()'); CT=find('CT','func start5MinCounter'); LG=find('LG','package logger')
R='	defer common.ReportScouterPanic()\n'
def g(name): return name+R
SH='func StartHttpService(ctx context.Context, req *http.Request) (newCtx context.Context) {\n'
EH='func EndHttpService(ctx context.Context, req *http.Request, res *http.Response) {\n'
SS='func StartService(ctx context.Context, serviceName, remoteIp string) (newCtx context.Context) {\n'
ES='func EndService(ctx context.Context) {\n'
GW='func GoWithTrace(ctx context.Context, serviceName string, func4Goroutine func(cascadeGoCtx context.Context)) {\n'
SCM='func startChildGoroutineService(ctx context.Context, serviceName string) (ctx4Goroutine context.Context, childTctx *netio.TraceContext) {\n'
EC='func endChildGoroutineService(ctx context.Context) {\n'
CM='func StartCustomMethodWithParam(ctx context.Context, methodName string, params ...interface{}) *netdata.MethodStep {\n'
RP='''func ReportScouterPanic() {
	if r := recover(); r != nil {
'''
EDITS=[
('C15','catch','end-unguarded',[(T,g(ES),ES)]),
('C15','catch','starthttp-unguarded',[(T,g(SH),SH)]),
('C15','catch','custom-unguarded',[(T,g(CM),CM)]),
('C15','catch','endhttp-guard-late',[(T,g(EH),EH+'''	if res != nil && len(res.Header) > 0 && req.Header.Get("X-Trace") != "" {
		res.Header["X-Scouter"] = []string{"on"}
	}
'''+R)]),
('C15','catch','guard-in-branch',[(T,g(ES),ES+'''	if ctx != nil {
		defer common.ReportScouterPanic()
	}
''')]),
('C15','catch','guard-wrapped',[(T,g(ES),ES+'''	defer func() {
		common.ReportScouterPanic()
	}()
''')]),
('C15','catch','guard-called',[(T,g(ES),ES+'	common.ReportScouterPanic()\n')]),
('C15','catch','guard-go',[(T,g(ES),ES+'	go common.ReportScouterPanic()\n')]),
('C15','catch','recover-helper',[(P,RP,'''func caught() interface{} {
	return recover()
}

func ReportScouterPanic() {
	if r := caught(); r != nil {
''')]),
('C15','catch','repanic',[(P,RP,RP+'''		if e, ok := r.(error); ok && strings.Contains(e.Error(), "out of memory") {
			panic(r)
		}
''')]),
('C15','catch','recover-conditional',[(P,RP,'''func ReportScouterPanic() {
	if fSendPanic == nil {
		return
	}
	if r := recover(); r != nil {
''')]),
('C15','catch','reporter-assert',[(P,'fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))','fSendPanic(r.(error).Error() + " - " + stackTrace)')]),
('C15','catch','sendpanic-unguarded',[(DP,'	defer reportScouterPanicFinal()\n	SendAlert(netdata.AlertFatal','	SendAlert(netdata.AlertFatal')]),
('C15','catch','starthttp-newctx-unset',[(T,'''	newCtx = ctx
	if tctxmanager.GetTraceContext(ctx) != nil {
		return ctx
	}

	serviceName''','''	if tctxmanager.GetTraceContext(ctx) != nil {
		return ctx
	}

	serviceName''')]),
('C15','catch','startservice-newctx-late',[(T,'''	newCtx = ctx
	if tctxmanager.GetTraceContext(ctx) != nil {
		return ctx
	}
	newCtx, tctx := startService(ctx, serviceName, remoteIp)
''','''	if tctxmanager.GetTraceContext(ctx) != nil {
		return ctx
	}
	newCtx, tctx := startService(ctx, serviceName, remoteIp)
''')]),
('C15','catch','startservice-unnamed',[(T,g(SS),SS.replace('(newCtx context.Context)','context.Context')+R),(T,'''		ctx = context.Background()
	}
	newCtx = ctx
	if tctxmanager.GetTraceContext(ctx) != nil {
		return ctx
	}
	newCtx, tctx := startService(ctx, serviceName, remoteIp)
''','''		ctx = context.Background()
	}
	if tctxmanager.GetTraceContext(ctx) != nil {
		return ctx
	}
	newCtx, tctx := startService(ctx, serviceName, remoteIp)
''')]),
('C15','catch','defer-outside',[(T,g(ES),ES+'	defer endAnyService(ctx)\n'+R),]),
('C15','catch','init-unguarded',[(AG,'		defer common.ReportScouterPanic()\n','')]),
('C15','catch','gowith-ended-outside',[(T,g(SCM),SCM),(T,g(GW),GW)]),
('C15','quiet','rename-guard',[(T,g(ES),ES+'	defer reportAny()\n'),(T,None,'\nfunc reportAny() {\n	if r := recover(); r != nil {\n		netio.SendPanic(fmt.Sprint(r))\n	}\n}\n')]),
('C15','quiet','inline-guard',[(T,g(ES),ES+'''	defer func() {
		if r := recover(); r != nil {
			fmt.Println("scouter", r)
		}
	}()
''')]),
('C15','quiet','wrapper',[(T,g(ES)+'	endAnyService(ctx)\n',ES+'	common.RunSafely(func() {\n		endAnyService(ctx)\n	})\n')]),
('C15','quiet','nil-first',[(T,g(ES),ES+'	if ctx == nil {\n		return\n	}\n'+R)]),
('C15','quiet','two-guards',[(T,g(ES),ES+R+R)]),
('C15','quiet','endany-guarded',[(T,g(ES),ES),(T,'func endAnyService(ctx context.Context) {\n','func endAnyService(ctx context.Context) {\n'+R)]),
('C15','quiet','report-rewrite',[(P,RP,'''func ReportScouterPanic() {
	r := recover()
	if r == nil {
		return
	}
	{
''')]),
('C15','quiet','report-split',[(P,'''		stackTrace := dump.StackTrace(100)
		fmt.Printf("[scouter][panic]%+v\\n%s", r, stackTrace)
		if fSendPanic == nil {
			return
		}
		fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
	}
}
''','''		reportCaught(r)
	}
}

func reportCaught(r interface{}) {
	stackTrace := dump.StackTrace(100)
	fmt.Printf("[scouter][panic]%+v\\n%s", r, stackTrace)
	if f := fSendPanic; f != nil {
		f(fmt.Sprintf("%+v - %s", r, stackTrace))
	}
}
''')]),
('C15','quiet','starthttp-nil-merge',[(T,'''	if ctx == nil {
		return context.Background()
	}
	newCtx = ctx
''','''	newCtx = ctx
	if newCtx == nil {
		newCtx = context.Background()
		return newCtx
	}
''')]),
('C15','quiet','returned-guard',[(T,g(ES),ES+'	defer guard("EndService")()\n'),(T,None,'\nfunc guard(name string) func() {\n	return func() {\n		if r := recover(); r != nil {\n			netio.SendPanic(name)\n		}\n	}\n}\n')]),
('C15','catch','returned-guard-uncalled',[(T,g(ES),ES+'	guard("EndService")()\n'),(T,None,'\nfunc guard(name string) func() {\n	return func() {\n		if r := recover(); r != nil {\n			netio.SendPanic(name)\n		}\n	}\n}\n')]),
('C15','quiet','starthttp-body',[(T,'''	newCtx = ctx
	if tctxmanager.GetTraceContext(ctx) != nil {
		return ctx
	}

	serviceName := strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, "")
''','''	newCtx = ctx
	if tctxmanager.GetTraceContext(ctx) != nil {
		return ctx
	}
	return startHttp(ctx, req)
}

func startHttp(ctx context.Context, req *http.Request) context.Context {
	serviceName := strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, "")
''')]),
('C15','catch','starthttp-body-unset',[(T,'''	newCtx = ctx
	if tctxmanager.GetTraceContext(ctx) != nil {
		return ctx
	}

	serviceName := strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, "")
''','''	if tctxmanager.GetTraceContext(ctx) != nil {
		return ctx
	}
	return startHttp(ctx, req)
}

func startHttp(ctx context.Context, req *http.Request) context.Context {
	serviceName := strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, "")
''')]),
# ---- C16
('C16','catch','run-unguarded',[(U,'go common.KeepRunning(udpSender.run)','go udpSender.run()')]),
('C16','catch','direct-unguarded',[(U,'''	go common.RunSafely(func() {
		udpSender.sendList(bufferList)
	})
''','''	go func() {
		udpSender.sendList(bufferList)
	}()
''')]),
('C16','catch','tcp-unguarded',[(TC,'			defer common.ReportScouterPanic()\n','			common.Goid()\n')]),
('C16','catch','keeprunning-noguard',[(P,'	defer ReportScouterPanic()\n	f()\n','	f()\n')]),
('C16','catch','keeprunning-late',[(P,'	defer ReportScouterPanic()\n	f()\n	return true\n','	f()\n	defer ReportScouterPanic()\n	return true\n')]),
('C16','catch','keeprunning-wrapped',[(P,'	defer ReportScouterPanic()\n	f()\n','	defer func() { ReportScouterPanic() }()\n	f()\n')]),
('C16','catch','counter-nested-go',[(CT,'		netio.SendPackDirect(pack)\n	}\n}\n\nfunc start5Min','		go netio.SendPackDirect(pack)\n	}\n}\n\nfunc start5Min')]),
('C16','catch','alert-go',[(DP,'	defer reportScouterPanicFinal()\n	SendAlert(netdata.AlertFatal, "Panic", message)\n','	defer reportScouterPanicFinal()\n	go SendAlert(netdata.AlertFatal, "Panic", message)\n')]),
('C16','catch','exit',[(AT,'	objPack.Version = "0.0.0"\n','	objPack.Version = "0.0.0"\n	if objHash == 0 {\n		logger.Error.Fatalln("no object name")\n	}\n')]),
('C16','catch','child-end-unguarded',[(T,g(EC),EC)]),
('C16','catch','child-start-inline',[(T,'			childTctx.StartTime = time.Now()\n','			childTctx.StartTime = time.Now()\n			childTctx.Profile.Add(netdata.NewMessageStep(serviceName, 0))\n')]),
('C16','catch','dump-close-order',[(D,'	defer reportPanic()\n','	defer fillMutexDump(fileName)\n	defer reportPanic()\n',),(D,None,'\nfunc fillMutexDump(fileName string) {\n	names := strings.Split(fileName, "/")\n	fmt.Println(names[1])\n}\n')] if False else [(D,'func profileMutex(fileName string, sec, rate, level int) {\n	defer reportPanic()\n','func profileMutex(fileName string, sec, rate, level int) {\n	defer noteDump(fileName)\n	defer reportPanic()\n'),(D,None,'\nfunc noteDump(fileName string) {\n	parts := strings.Split(fileName, "_")\n	fmt.Println(parts[1])\n}\n')]),
('C16','quiet','keeprunning-rewrite',[(P,'''	for !runToEnd(f) {
		time.Sleep(time.Second)
	}
''','''	for {
		if runToEnd(f) {
			break
		}
		time.Sleep(time.Second)
	}
''')]),
('C16','quiet','own-guard',[(U,'''	go common.RunSafely(func() {
		udpSender.sendList(bufferList)
	})
''','''	go func() {
		defer common.ReportScouterPanic()
		udpSender.sendList(bufferList)
	}()
''')]),
('C16','quiet','tcp-named',[(TC,'		func() {\n			defer common.ReportScouterPanic()\n','		tick := func() {\n			defer common.ReportScouterPanic()\n'),(TC,'		}()\n	}\n}\n','		}\n		tick()\n	}\n}\n')]),
('C16','quiet','method-value',[(U,'		go common.KeepRunning(udpSender.run)\n','		run := udpSender.run\n		go common.KeepRunning(run)\n')]),
('C16','quiet','closure',[(U,'		go common.KeepRunning(udpSender.run)\n','		go func() {\n			common.KeepRunning(udpSender.run)\n		}()\n')]),
('C16','quiet','helper',[(U,'		go common.KeepRunning(udpSender.run)\n		go common.KeepRunning(reloadUdpSender)\n','		keep(udpSender.run)\n		keep(reloadUdpSender)\n'),(U,None,'\nfunc keep(f func()) {\n	go common.KeepRunning(f)\n}\n')]),
('C16','quiet','table',[(CT,'	go common.KeepRunning(startRealTimeCounter)\n	go common.KeepRunning(start5MinCounter)\n','	for _, f := range []func(){startRealTimeCounter, start5MinCounter} {\n		go common.KeepRunning(f)\n	}\n')]),
('C16','quiet','safe-go-func',[(P,None,'\nfunc Go(f func()) {\n	go RunSafely(f)\n}\n'),(U,'	go common.RunSafely(func() {\n		udpSender.sendList(bufferList)','	common.Go(func() {\n		udpSender.sendList(bufferList)')]),
# ---- C17
('C17','catch','addpack-block',[(U,'''	select {
	case udpSender.udpChannel <- bytes:
	default:
		logger.Warning.Println("udp channel is full.")
	}
}

func (udpSender *UDPSender) AddBuffer''','''	udpSender.udpChannel <- bytes
}

func (udpSender *UDPSender) AddBuffer''')]),
('C17','catch','addpack-timeout',[(U,'''	case udpSender.udpChannel <- bytes:
	default:
''','''	case udpSender.udpChannel <- bytes:
	case <-time.After(500 * time.Millisecond):
''')]),
('C17','catch','gowith-waits',[(T,'	go func() {\n		if childTctx != nil {','	started := make(chan bool)\n	defer func() { <-started }()\n	go func() {\n		started <- true\n		if childTctx != nil {')]),
('C17','catch','retry-sleep',[(DP,'func SendServiceName(name string) int32 {\n','func SendServiceName(name string) int32 {\n	for i := 0; i < 3 && len(name) > 1000; i++ {\n		time.Sleep(time.Millisecond)\n	}\n')]),
('C17','catch','ip-lookup',[(T,'	return strings.Split(ip, ":")[0]','	host := strings.Split(ip, ":")[0]\n	if names, err := net.LookupAddr(host); err == nil && len(names) > 0 {\n		return names[0]\n	}\n	return host'),(T,'import (\n','import (\n	"net"\n')]),
('C17','catch','wait-group',[(T,g(ES)+'	endAnyService(ctx)\n',g(ES)+'	var wg sync.WaitGroup\n	wg.Add(1)\n	go common.RunSafely(func() {\n		defer wg.Done()\n		endAnyService(ctx)\n	})\n	wg.Wait()\n'),(T,'import (\n','import (\n	"sync"\n')] ),
('C17','catch','direct-sync',[(DP,'netio.none','')] if False else [(U,'''func (udpSender *UDPSender) AddPack(pack netdata.Pack) {
''','''func (udpSender *UDPSender) AddPack(pack netdata.Pack) {
	for len(udpSender.udpChannel) > cap(udpSender.udpChannel)*9/10 {
		time.Sleep(time.Millisecond)
	}
''')]),
('C17','quiet','addpack-shared',[(U,'''	bytes := writePack.Bytes()
	select {
	case udpSender.udpChannel <- bytes:
	default:
		logger.Warning.Println("udp channel is full.")
	}
}
''','''	udpSender.AddBuffer(writePack.Bytes())
}
''')]),
('C17','quiet','addpack-if',[(U,'''	select {
	case udpSender.udpChannel <- bytes:
	default:
		logger.Warning.Println("udp channel is full.")
	}
}

func (udpSender *UDPSender) AddBuffer''','''	if !udpSender.offer(bytes) {
		logger.Warning.Println("udp channel is full.")
	}
}

func (udpSender *UDPSender) offer(b []byte) bool {
	select {
	case udpSender.udpChannel <- b:
		return true
	default:
		return false
	}
}

func (udpSender *UDPSender) AddBuffer''')]),
('C17','quiet','gowith-async',[(T,'	go func() {\n		if childTctx != nil {','	started := make(chan bool, 1)\n	go func() {\n		started <- true\n		if childTctx != nil {')]),
]

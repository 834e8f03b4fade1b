T='strace/tracemain.go'; M='strace/tctxmanager/tctxmanager.go'
G='''	if ctx == nil {
		return
	}
	tctx := tctxmanager.GetTraceContext(ctx)
	if tctx == nil {
		return
	}
'''
def drop(fn, nilctx):
    s=open('/repo/scouterx/'+T).read()
    i=s.index('func '+fn+'('); j=s.index('\n}\n',i)+3
    old=s[i:j]
    return old
SRC=open('/repo/scouterx/'+T).read()
def body(fn):
    i=SRC.index('func '+fn+'('); j=SRC.index('\n}\n',i)+3
    return SRC[i:j]
def ed(fn,a,b):
    o=body(fn); assert a in o,(fn,a)
    return [(T,o,o.replace(a,b,1))]
EDITS=[
('C26','catch','nilctx-isstream',ed('IsStream','	if ctx == nil {\n		return false\n	}\n','')),
('C26','catch','notrace-markerror',ed('MarkAsError','	if tctx == nil {\n		return\n	}\n','')),
('C26','catch','step-before-check',ed('AddHashedMessageStep','	defer common.ReportScouterPanic()\n','	defer common.ReportScouterPanic()\n	hash := netio.SendHashedMessage(message)\n	_ = hash\n')),
('C26','catch','isstream-true',ed('IsStream','	if tctx == nil {\n		return false','	if tctx == nil {\n		return true')),
('C26','catch','setstream-true',ed('SetAsStream','	if ctx == nil {\n		return false','	if ctx == nil {\n		return true')),
('C26','catch','endmethod-nilstep',ed('EndMethod','ctx == nil || step == nil','ctx == nil')),
('C26','catch','endapi-nilstep',ed('EndApiCall','ctx == nil || step == nil','ctx == nil')),
('C26','catch','endapi-count-first',ed('EndApiCall','	if ctx == nil || step == nil {\n		return\n	}\n	tctx := tctxmanager.GetTraceContext(ctx)\n	if tctx == nil {\n		return\n	}\n','	if ctx == nil {\n		return\n	}\n	tctx := tctxmanager.GetTraceContext(ctx)\n	if tctx == nil {\n		return\n	}\n	tctx.ApicallCount++\n	if step == nil {\n		return\n	}\n	tctx.ApicallCount--\n')),
('C26','catch','endapi-nilerr',ed('EndApiCall','	if err != nil {\n','	if step.Opt == 1 || err != nil {\n')),
('C26','catch','prop-nilreq',ed('StartApiCallWithPropagation','	if req != nil {\n','	if address != "" || req != nil {\n')),
('C26','catch','prop-header-early',ed('StartApiCallWithPropagation','	if ctx == nil {\n		return nil\n	}\n','	if ctx == nil {\n		return nil\n	}\n	if req != nil {\n		req.Header.Del(interserviceGxidHeaderKey)\n	}\n')),
('C26','catch','endhttp-res',ed('EndHttpService','	if res != nil {\n','	if req != nil || res != nil {\n')),
('C26','catch','endhttp-nilctx',ed('EndHttpService','		if ctx == nil {\n			return\n		}\n','')),
('C26','catch','endhttp-tctx',ed('EndHttpService','if tctx == nil || tctx.Closed {','if tctx != nil && tctx.Closed {')),
('C26','catch','endhttp-req',ed('EndHttpService','	if res != nil {\n','	if req.Close {\n		return\n	}\n	if res != nil {\n')),
('C26','catch','starthttp-nil',ed('StartHttpService','return context.Background()','return ctx')),
('C26','catch','start-nil',ed('StartService','	if ctx == nil {\n		ctx = context.Background()\n	}\n','	if ctx == nil {\n		return nil\n	}\n')),
('C26','catch','start-nil-noguard',ed('StartService','	if ctx == nil {\n		ctx = context.Background()\n	}\n','')),
('C26','catch','inherit-nilparent',ed('StartNewInheritanceService','	if parentTctx == nil {\n		return newCtx, nil\n	}\n','')),
('C26','catch','inherit-bg',ed('StartNewInheritanceService','return newCtx, nil','return context.Background(), nil')),
('C26','catch','inherit-started',ed('StartNewInheritanceService','	if parentTctx == nil {\n		return newCtx, nil\n	}\n	newCtx, newTctx = startService(ctx, parentTctx.ServiceName, parentTctx.RemoteIp)\n','	if parentTctx == nil {\n		return startService(ctx, "", "")\n	}\n	newCtx, newTctx = startService(ctx, parentTctx.ServiceName, parentTctx.RemoteIp)\n')),
('C26','catch','go-skip',ed('GoWithTrace','	go func() {\n','	if childTctx == nil {\n		return\n	}\n	go func() {\n')),
('C26','catch','go-only-traced',ed('GoWithTrace','		func4Goroutine(newCtx)\n','		if childTctx != nil {\n			func4Goroutine(newCtx)\n		}\n')),
('C26','catch','go-twice',ed('GoWithTrace','		func4Goroutine(newCtx)\n','		if childTctx == nil {\n			func4Goroutine(ctx)\n		}\n		func4Goroutine(newCtx)\n')),
('C26','catch','go-bgctx',ed('startChildGoroutineService','	if parentTctx == nil {\n		return ctx, nil','	if parentTctx == nil {\n		return context.Background(), nil')),
('C26','catch','go-child',ed('GoWithTrace','		if childTctx != nil {\n','		if newCtx != nil {\n')),
('C26','catch','go-send',ed('startChildGoroutineService','	if ctx == nil {\n','	netio.SendServiceName(serviceName)\n	if ctx == nil {\n')),
('C26','catch','method-nontrace',ed('startMethodWithParam','	if tctx == nil {\n		return nil\n	}\n','	if tctx == nil {\n		return netdata.NewMethodStep()\n	}\n')),
('C26','catch','custom-nil',ed('StartCustomMethodWithParam','	if ctx == nil {\n		return nil\n	}\n','')),
('C26','catch','endany-nil',ed('endAnyService','	if ctx == nil {\n		return\n	}\n','')),
('C26','catch','endany-tctx',ed('endAnyService','tctx == nil || tctx.Closed','tctx != nil && tctx.Closed')),
('C26','catch','fallback',ed('AddMessageStep','	if tctx == nil {\n		return\n	}\n','	if tctx == nil {\n		tctx = tctxmanager.GetTraceContextFallbackNoop(ctx)\n	}\n')),
('C26','catch','get-noop',[(M,'	} else {\n		return nil\n	}\n}\n\nfunc GetTraceContextByTxid','	} else {\n		return noopTctx\n	}\n}\n\nfunc GetTraceContextByTxid')]),
('C26','quiet','helper',[(T,body('AddMessageStep'),body('AddMessageStep').replace('	if ctx == nil {\n		return\n	}\n	tctx := tctxmanager.GetTraceContext(ctx)\n','	tctx := traceOf(ctx)\n')),(T,None,'\nfunc traceOf(ctx context.Context) *netio.TraceContext {\n	if ctx == nil {\n		return nil\n	}\n	return tctxmanager.GetTraceContext(ctx)\n}\n')]),
('C26','quiet','get-nil',[(M,'func GetTraceContext(ctx context.Context) *netio.TraceContext {\n','func GetTraceContext(ctx context.Context) *netio.TraceContext {\n	if ctx == nil {\n		return nil\n	}\n')]+ed('AddMessageStep','	if ctx == nil {\n		return\n	}\n','')),
('C26','quiet','invert',ed('SetAsStream','	if tctx == nil {\n		return false\n	}\n	tctx.IsStream = true\n	return true\n','	if tctx != nil {\n		tctx.IsStream = true\n	}\n	return tctx != nil\n')),
('C26','quiet','endhttp-split',ed('EndHttpService','''	if res != nil {
		if ctx == nil {
			return
		}
		tctx := tctxmanager.GetTraceContext(ctx)
		if tctx == nil || tctx.Closed {
			return
		}
		tctx.Status = int32(res.StatusCode)
	}
''','''	if ctx == nil {
		return
	}
	if tctx := tctxmanager.GetTraceContext(ctx); tctx != nil && !tctx.Closed && res != nil {
		tctx.Status = int32(res.StatusCode)
	}
''')),
('C26','quiet','req-early-nil',ed('StartApiCallWithPropagation','	if req != nil {\n','	if req == nil {\n		return step\n	}\n	{\n')),
('C26','quiet','go-branches',ed('GoWithTrace','''		if childTctx != nil {
			childTctx.StartTime = time.Now()
			defer endChildGoroutineService(newCtx)
		}
		func4Goroutine(newCtx)
''','''		if childTctx == nil {
			func4Goroutine(ctx)
			return
		}
		childTctx.StartTime = time.Now()
		defer endChildGoroutineService(newCtx)
		func4Goroutine(newCtx)
''')),
('C26','quiet','go-nil-bg',ed('startChildGoroutineService','	if ctx == nil {\n		return ctx, nil\n	}\n','	if ctx == nil {\n		return context.Background(), nil\n	}\n')),
('C26','quiet','start-nil-todo',ed('StartService','ctx = context.Background()','ctx = context.TODO()')),
('C26','quiet','log',ed('MarkAsErrorForcibly','	if tctx == nil {\n		return\n	}\n','	if tctx == nil {\n		fmt.Sprint("no trace")\n		return\n	}\n')),
('C26','quiet','endmethod-split',ed('EndMethod','	if ctx == nil || step == nil {\n		return\n	}\n','	if step == nil {\n		return\n	}\n	if ctx == nil {\n		return\n	}\n')),
]

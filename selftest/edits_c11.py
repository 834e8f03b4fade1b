T='strace/tracemain.go'
C='netio/tracecontext.go'
M='strace/tctxmanager/tctxmanager.go'
D='netio/dataproxy.go'
EDITS=[
# C11
('C11','catch','txid-gxid',[(C,'xlog.Txid = tctx.Txid','xlog.Txid = tctx.Gxid')]),
('C11','catch','no-caller',[(C,'	xlog.Caller = tctx.Caller\n','')]),
('C11','catch','sql-swap',[(C,'xlog.SqlCount = tctx.SqlCount','xlog.SqlCount = tctx.SqlTime')]),
('C11','catch','err-cond',[(C,'	xlog.Error = tctx.Error\n','	if tctx.Status < 500 {\n		xlog.Error = tctx.Error\n	}\n')]),
('C11','catch','status-late',[(T,'		tctx.Status = int32(res.StatusCode)\n	}\n	endAnyService(ctx)','		defer func() { tctx.Status = int32(res.StatusCode) }()\n	}\n	endAnyService(ctx)')]),
('C11','catch','xlog-before-close',[(T,'	tctx.Profile.Close(writeProfile)\n\n	xlog := tctx.ToXlog(discardType, elapsed)\n','	xlog := tctx.ToXlog(discardType, elapsed)\n	tctx.Profile.Close(writeProfile)\n')]),
('C11','catch','hash-missing',[(T,'	tctx.ServiceHash = netio.SendServiceName(tctx.ServiceName)\n	tctxmanager.End','	tctxmanager.End')]),
('C11','catch','text-swap',[(C,'xlog.Text4 = tctx.Text4','xlog.Text4 = tctx.Text5')]),
('C11','catch','desc-login',[(C,'xlog.Desc = SendDesc(tctx.Desc)','xlog.Desc = SendDesc(tctx.Login)')]),
('C11','catch','profile-swap',[(C,'xlog.ProfileSize = int32(tctx.ProfileSize)','xlog.ProfileSize = int32(tctx.ProfileCount)')]),
('C11','catch','api-int16',[(C,'xlog.ApicallCount = tctx.ApicallCount','xlog.ApicallCount = tctx.ApicallTime')]),
('C11','catch','useragent',[(C,'xlog.UserAgent = tctx.UserAgent','xlog.UserAgent = tctx.Referer')]),
('C11','catch','elapsed-inherit',[(C,'	xlog.Elapsed = elapsed\n','	xlog.Elapsed = elapsed\n	if tctx.Inherit {\n		xlog.Elapsed = 0\n	}\n')]),
('C11','quiet','pointer-recv',[(C,'func (tctx (TraceContext)) ToXlog','func (tctx *TraceContext) ToXlog')]),
('C11','quiet','helper',[(C,'	xlog.Text1 = tctx.Text1\n','	setTexts(xlog, &tctx)\n'),(C,None,'\nfunc setTexts(x *netdata.XlogPack, t *TraceContext) {\n	x.Text1 = t.Text1\n}\n')]),
('C11','quiet','order',[(C,'	xlog.Txid = tctx.Txid\n	xlog.Gxid = tctx.Gxid\n','	xlog.Gxid, xlog.Txid = tctx.Gxid, tctx.Txid\n')]),
('C11','quiet','status-helper',[(T,'		tctx.Status = int32(res.StatusCode)\n','		setStatus(tctx, res)\n'),(T,None,'\nfunc setStatus(tctx *netio.TraceContext, res *http.Response) {\n	code := res.StatusCode\n	tctx.Status = int32(code)\n}\n')]),
# C12
('C12','catch','err-forced',[(T,'	if tctx.Error == 0 {\n		tctx.Error = netio.SendError(errorMessage)\n	}\n','	tctx.Error = netio.SendError(errorMessage)\n')]),
('C12','catch','err-text',[(T,'	if tctx.Error == 0 {\n		tctx.Error = netio.SendError(errorMessage)\n','	if tctx.Error == 0 {\n		tctx.Error = netio.SendHashedMessage(errorMessage)\n')]),
('C12','catch','mark-nostep',[(T,'	AddPMessageStep(ctx, netdata.PMSG_ERROR, errorMessage, 0)\n','	if errorMessage != "" {\n		AddPMessageStep(ctx, netdata.PMSG_ERROR, errorMessage, 0)\n	}\n')]),
('C12','catch','svc-hash',[(T,'	tctx.ServiceHash = netio.SendServiceName(serviceName)\n}\n\nfunc AddStep','	if tctx.ServiceHash == 0 {\n		tctx.ServiceHash = netio.SendServiceName(serviceName)\n	}\n}\n\nfunc AddStep')]),
('C12','catch','hmsg-swap',[(T,'	step.Value = value\n	step.Time = elapsed\n','	step.Value = elapsed\n	step.Time = value\n')]),
('C12','catch','pmsg-level',[(T,'	step.Elapsed = elapsed\n	step.Level = level\n','	step.Elapsed = elapsed\n')]),
('C12','catch','method-add',[(T,'	tctx.Profile.Push(step)\n	return step\n}\n\nfunc addMess','	tctx.Profile.Add(step)\n	return step\n}\n\nfunc addMess')]),
('C12','catch','method-param-once',[(T,'		tctx.Profile.Add(step)\n	}\n}','		tctx.Profile.Add(step)\n		break\n	}\n}')]),
('C12','catch','endmethod-abs',[(T,'	step.Elapsed = util.MillisToNow(tctx.StartTime) - step.StartTime\n	tctx.Profile.Pop(step)\n}\n\nfunc profileHttp','	step.Elapsed = util.MillisToNow(tctx.StartTime)\n	tctx.Profile.Pop(step)\n}\n\nfunc profileHttp')]),
('C12','catch','endmethod-closed',[(T,'	step.Elapsed = util.MillisToNow(tctx.StartTime) - step.StartTime\n	tctx.Profile.Pop(step)\n}\n\nfunc profileHttp','	step.Elapsed = util.MillisToNow(tctx.StartTime) - step.StartTime\n	if step.Elapsed > 0 {\n		tctx.Profile.Pop(step)\n	}\n}\n\nfunc profileHttp')]),
('C12','catch','api-count-err',[(T,'	tctx.ApicallCount++\n','	if err == nil {\n		tctx.ApicallCount++\n	}\n')]),
('C12','catch','api-time',[(T,'tctx.ApicallTime += step.Elapsed','tctx.ApicallTime = step.Elapsed')]),
('C12','catch','api-steperr',[(T,'		step.Error = netio.SendError(err.Error())\n		if tctx.Error == 0 {\n			tctx.Error = step.Error\n		}','		if tctx.Error == 0 {\n			step.Error = netio.SendError(err.Error())\n			tctx.Error = step.Error\n		}')]),
('C12','catch','api-noid',[(T,'	step.Txid = keygen.Next()\n','	if address != "" {\n		step.Txid = keygen.Next()\n	}\n')]),
('C12','catch','api-hash',[(T,'	step.Hash = netio.SendApicall(apiCallName)\n','	step.Hash = netio.SendMethod(apiCallName)\n')]),
('C12','catch','api-opt',[(T,'	if address != "" {\n		step.Opt = 1','	if len(address) > 1 {\n		step.Opt = 1')]),
('C12','catch','stream-false',[(T,'	tctx.IsStream = true\n	return true','	tctx.IsStream = true\n	return false')]),
('C12','quiet','fetch-helper',[(T,'''func MarkAsErrorForcibly(ctx context.Context, errorMessage string) {
	defer common.ReportScouterPanic()
	if ctx == nil {
		return
	}
	tctx := tctxmanager.GetTraceContext(ctx)
	if tctx == nil {''','''func traceOf(ctx context.Context) *netio.TraceContext {
	if ctx == nil {
		return nil
	}
	return tctxmanager.GetTraceContext(ctx)
}

func MarkAsErrorForcibly(ctx context.Context, errorMessage string) {
	defer common.ReportScouterPanic()
	tctx := traceOf(ctx)
	if tctx == nil {''')]),
('C12','quiet','loop-rewrite',[(T,'	for _, param := range params {\n		if param == nil {','	for i := 0; i < len(params); i++ {\n		param := params[i]\n		if param == nil {')]),
('C12','quiet','inline-mark',[(T,'	AddPMessageStep(ctx, netdata.PMSG_ERROR, errorMessage, 0)\n','	step := netdata.NewPMessageStep(util.MillisToNow(tctx.StartTime))\n	step.Level = netdata.PMSG_ERROR\n	step.SetMessage(netio.SendHashedMessage(errorMessage))\n	tctx.Profile.Add(step)\n')]),
('C12','quiet','err-first',[(T,'	if tctx.Error == 0 {\n		tctx.Error = netio.SendError(errorMessage)\n	}\n	AddPMessageStep(ctx, netdata.PMSG_ERROR, errorMessage, 0)\n','	AddPMessageStep(ctx, netdata.PMSG_ERROR, errorMessage, 0)\n	if tctx.Error != 0 {\n		return\n	}\n	tctx.Error = netio.SendError(errorMessage)\n')]),
('C12','quiet','elapsed-var',[(T,'	step.Elapsed = util.MillisToNow(tctx.StartTime) - step.StartTime\n	tctx.ApicallCount++\n	tctx.ApicallTime += step.Elapsed\n','	elapsed := util.MillisToNow(tctx.StartTime) - step.StartTime\n	step.Elapsed = elapsed\n	tctx.ApicallTime = tctx.ApicallTime + elapsed\n	tctx.ApicallCount = tctx.ApicallCount + 1\n')]),
('C12','quiet','opt-bool',[(T,'	if address != "" {\n		step.Opt = 1\n	}\n','	if len(address) == 0 {\n		step.Opt = 0\n	} else {\n		step.Opt = 1\n	}\n')]),
('C12','quiet','log',[(T,'	tctx.ApicallCount++\n','	_ = fmt.Sprint(step)\n	tctx.ApicallCount++\n')]),
# C13
('C13','catch','no-register',[(T,'	tctxmanager.Start(tctx)\n','	if remoteAddr != "" {\n		tctxmanager.Start(tctx)\n	}\n')]),
('C13','catch','register-gxid',[(M,'txidMap.Add(tctx.Txid, tctx)','txidMap.Add(tctx.Gxid, tctx)')]),
('C13','catch','key',[(M,'context.WithValue(ctx, tctxKey, tctx)','context.WithValue(ctx, "tctx", tctx)')]),
('C13','catch','background',[(M,'context.WithValue(ctx, tctxKey, tctx)','context.WithValue(context.Background(), tctxKey, tctx)')]),
('C13','catch','no-gxid',[(T,'	tctx.Gxid = tctx.Txid\n	tctx.Goid','	tctx.Goid')]),
('C13','catch','xtype-lost',[(T,'	tctx.XType = netdata.XTYPE_APP_SERVICE\n','	if remoteIp == "" {\n		tctx.XType = netdata.XTYPE_APP_SERVICE\n	}\n')]),
('C13','catch','nested',[(T,'	newCtx = ctx\n	if tctxmanager.GetTraceContext(ctx) != nil {\n		return ctx\n	}\n	newCtx, tctx := startService(ctx, serviceName, remoteIp)','	newCtx = ctx\n	if t := tctxmanager.GetTraceContext(ctx); t != nil && t.ServiceName == serviceName {\n		return ctx\n	}\n	newCtx, tctx := startService(ctx, serviceName, remoteIp)')]),
('C13','catch','nested-http',[(T,'	newCtx = ctx\n	if tctxmanager.GetTraceContext(ctx) != nil {\n		return ctx\n	}\n\n','	newCtx = ctx\n')]),
('C13','catch','inherit-caller',[(T,'newTctx.Caller = parentTctx.Txid','newTctx.Caller = parentTctx.Gxid')]),
('C13','catch','inherit-gxid',[(T,'	newTctx.Gxid = parentTctx.Gxid\n','')]),
('C13','catch','inherit-field',[(T,'newTctx.ApicallTime = parentTctx.ApicallTime','newTctx.ApicallTime = parentTctx.ApicallCount')]),
('C13','catch','child-gxid',[(T,'	if childTctx.Gxid == 0 {\n		childTctx.Gxid = parentTctx.Txid\n		parentTctx.Gxid','	if childTctx.Gxid == 0 {\n		parentTctx.Gxid')]),
('C13','catch','child-noasync',[(T,'	parentTctx.Profile.Add(asyncStep)\n','	childTctx.Profile.Add(asyncStep)\n')]),
('C13','catch','child-end-nodefer',[(T,'			defer endChildGoroutineService(newCtx)\n		}\n		func4Goroutine(newCtx)\n','		}\n		func4Goroutine(newCtx)\n		if childTctx != nil {\n			endChildGoroutineService(newCtx)\n		}\n')]),
('C13','catch','child-end-parent',[(T,'			defer endChildGoroutineService(newCtx)\n','			defer endChildGoroutineService(ctx)\n')]),
('C13','catch','child-ctx',[(T,'		func4Goroutine(newCtx)\n','		func4Goroutine(ctx)\n')]),
('C13','catch','swallow',[(T,'	go func() {\n		if childTctx','	go func() {\n		defer common.ReportScouterPanic()\n		if childTctx')]),
('C13','catch','not-run',[(T,'	newCtx, childTctx := startChildGoroutineService(ctx, serviceName)\n','	newCtx, childTctx := startChildGoroutineService(ctx, serviceName)\n	if newCtx == nil {\n		return\n	}\n')]),
('C13','catch','child-start',[(T,'			childTctx.StartTime = time.Now()\n			defer','			childTctx.StartTime = childTctx.InheritStartTime.Add(time.Second)\n			defer')]),
('C13','catch','hdr-callee',[(T,'util.IntToXlogString32(step.Txid)','util.IntToXlogString32(tctx.Txid)')]),
('C13','catch','hdr-gxid',[(T,'	if tctx.Gxid == 0 {\n		tctx.Gxid = tctx.Txid\n	}\n	if req','	if req')]),
('C13','catch','hdr-gxid-always',[(T,'	if tctx.Gxid == 0 {\n		tctx.Gxid = tctx.Txid\n	}\n	if req','	tctx.Gxid = tctx.Txid\n	if req')]),
('C13','catch','hdr-obj32',[(T,'strconv.FormatInt(int64(ac.ObjHash), 10)','strconv.FormatInt(int64(ac.ObjHash), 32)')]),
('C13','catch','hdr-order',[(T,'''		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
''',''),(T,'	step := startApiCall(apiCallName, tctx, address)\n	if tctx.Gxid','	step := startApiCall(apiCallName, tctx, address)\n	if req != nil {\n		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))\n	}\n	if tctx.Gxid')]),
('C13','catch','http-name',[(T,'strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, "")','strings.Join([]string{req.URL.Path, "<", req.Proto, ">"}, "")')]),
('C13','catch','http-ref',[(T,'netio.SendReferer(req.Referer())','netio.SendUserAgent(req.Referer())')]),
('C13','quiet','newtrace',[(M,'	tctx := netio.NewTraceContext()\n	newCtx := context.WithValue(ctx, tctxKey, tctx)\n	return newCtx, tctx','	t := netio.NewTraceContext()\n	return context.WithValue(ctx, tctxKey, t), t')]),
('C13','quiet','sprintf-name',[(T,'strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, "")','fmt.Sprintf("%s<%s>", req.URL.Path, req.Method)')]),
('C13','quiet','concat-name',[(T,'strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, "")','req.URL.Path + "<" + req.Method + ">"')]),
('C13','quiet','register-late',[(T,'	newCtx, tctx := tctxmanager.NewTraceContext(ctx)\n	tctxmanager.Start(tctx)\n','	newCtx, tctx := tctxmanager.NewTraceContext(ctx)\n	defer tctxmanager.Start(tctx)\n')]),
('C13','quiet','go-func',[(T,'''	go func() {
		if childTctx != nil {
			childTctx.StartTime = time.Now()
			defer endChildGoroutineService(newCtx)
		}
		func4Goroutine(newCtx)
	}()''','''	go runTraced(newCtx, childTctx, func4Goroutine)'''),(T,None,'''
func runTraced(ctx context.Context, child *netio.TraceContext, f func(context.Context)) {
	if child == nil {
		f(ctx)
		return
	}
	child.StartTime = time.Now()
	defer func() {
		endChildGoroutineService(ctx)
	}()
	f(ctx)
}
''')]),
('C13','quiet','child-gxid-if',[(T,'''	childTctx.Gxid = parentTctx.Gxid
	if childTctx.Gxid == 0 {
		childTctx.Gxid = parentTctx.Txid
		parentTctx.Gxid = parentTctx.Txid
	}
''','''	if parentTctx.Gxid == 0 {
		parentTctx.Gxid = parentTctx.Txid
	}
	childTctx.Gxid = parentTctx.Gxid
''')]),
('C13','quiet','hdr-set',[(T,'req.Header.Add(interserviceGxidHeaderKey','req.Header.Set(interserviceGxidHeaderKey')]),
('C13','quiet','hdr-helper',[(T,'''		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
		req.Header.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
''','''		addIds(req.Header, tctx)
'''),(T,None,'''
func addIds(h http.Header, tctx *netio.TraceContext) {
	h.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
	h.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
}
''')]),
('C13','quiet','hdr-loop',[(T,'''		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
		req.Header.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
		req.Header.Add(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
''','''		ids := []struct {
			k string
			v int64
		}{{interserviceGxidHeaderKey, tctx.Gxid}, {interserviceCallerHeaderKey, tctx.Txid}, {interserviceCalleeHeaderKey, step.Txid}}
		for _, h := range ids {
			req.Header.Add(h.k, util.IntToXlogString32(h.v))
		}
''')]),
('C13','quiet','itoa',[(T,'strconv.FormatInt(int64(ac.ObjHash), 10)','strconv.Itoa(int(ac.ObjHash))')]),
]

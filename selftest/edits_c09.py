T='strace/tracemain.go'
S='strace/xlogsampler.go'
C='netio/tracecontext.go'
M='strace/tctxmanager/tctxmanager.go'
D='netio/dataproxy.go'
G='	if tctx.Closed || !tctx.TryEnd() {\n		return\n	}\n'
EDITS=[
('C09','catch','no-cas',[(T,G,'	if tctx.Closed {\n		return\n	}\n	tctx.Closed = true\n')]),
('C09','catch','cas-late',[(T,G,''),(T,'	tctxmanager.End(tctx)\n\n','	tctxmanager.End(tctx)\n'+G)]),
('C09','catch','end-before',[(T,G,'	tctxmanager.End(tctx)\n'+G),(T,'	tctxmanager.End(tctx)\n\n','')]),
('C09','catch','no-remove',[(T,'	tctxmanager.End(tctx)\n\n','')]),
('C09','catch','remove-cond',[(T,'	tctxmanager.End(tctx)\n\n','	if !tctx.IsChildTx {\n		tctxmanager.End(tctx)\n	}\n')]),
('C09','catch','remove-gxid',[(M,'txidMap.Remove(tctx.Txid)','txidMap.Remove(tctx.Gxid)')]),
('C09','catch','meter-cond',[(T,'	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)','	if xlog.DiscardType == netdata.XLOG_DISCARD_NONE {\n		counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)\n	}')]),
('C09','catch','meter-err',[(T,'counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)','counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error > 0)')]),
('C09','catch','meter-status',[(T,'counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)','counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Status >= 400)')]),
('C09','catch','profile-wrong',[(T,'writeProfile := discardType == netdata.XLOG_DISCARD_NONE','writeProfile := discardType != netdata.XLOG_DISCARD_PROFILE')]),
('C09','catch','profile-force',[(T,'writeProfile := discardType == netdata.XLOG_DISCARD_NONE','writeProfile := discardType == netdata.XLOG_DISCARD_NONE || tctx.IsStream')]),
('C09','catch','driving',[(T,'(!xlog.IsDriving() &&','(xlog.IsDriving() &&')]),
('C09','catch','driving-force',[(T,'xlog.DiscardType == netdata.XLOG_DISCARD_ALL) {','xlog.DiscardType != netdata.XLOG_DISCARD_NONE) {')]),
('C09','catch','isdriving',[('common/netdata/xlogpack.go','(p.Gxid == p.Txid) || p.Gxid == 0','p.Gxid == p.Txid')]),
('C09','catch','http-noend',[(T,'		tctx.Status = int32(res.StatusCode)\n	}\n	endAnyService(ctx)','		tctx.Status = int32(res.StatusCode)\n		endAnyService(ctx)\n	}')]),
('C09','catch','http-stream',[(T,'		tctx.Status = int32(res.StatusCode)\n','		if tctx.IsStream {\n			return\n		}\n		tctx.Status = int32(res.StatusCode)\n')]),
('C09','catch','stuck-direct',[(T,'		endAnyServiceOfTraceContext(tctx)\n	}\n}','		tctxmanager.End(tctx)\n	}\n}')]),
('C09','catch','send-twice',[(T,'		netio.SendXlog(xlog)\n','		netio.SendXlog(xlog)\n		if xlog.Error != 0 {\n			netio.SendPackDirect(xlog)\n		}\n')]),
('C09','catch','end-inherit',[(T,'	if tctx == nil || tctx.Closed {\n		return\n	}\n	endAnyServiceOfTraceContext(tctx)','	if tctx == nil || tctx.Inherit {\n		return\n	}\n	endAnyServiceOfTraceContext(tctx)')]),
('C09','quiet','switch',[(T,'''	if (xlog.DiscardType != netdata.XLOG_DISCARD_ALL && xlog.DiscardType != netdata.XLOG_DISCARD_ALL_FORCE) ||
		(!xlog.IsDriving() && xlog.DiscardType == netdata.XLOG_DISCARD_ALL) {
		netio.SendXlog(xlog)
	} else {
		//TODO send Dropped XLog
	}''','''	switch discardType {
	case netdata.XLOG_DISCARD_ALL_FORCE:
		return
	case netdata.XLOG_DISCARD_ALL:
		if xlog.IsDriving() {
			return
		}
	}
	netio.SendXlog(xlog)''')]),
('C09','quiet','meter-first',[(T,'''	xlog := tctx.ToXlog(discardType, elapsed)

	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)''','''	counter.GetServiceMeter().Add(int(elapsed), tctx.Error != 0)
	xlog := tctx.ToXlog(discardType, elapsed)''')]),
('C09','quiet','inline-decision',[(T,'	discardType := findXLogDiscard(tctx, elapsed)\n','''	discardType := netdata.XLOG_DISCARD_NONE
	if tctx.Error == 0 {
		discardType = GetXlogSampler().eEvaluateXLogDiscard(elapsed, tctx.ServiceName)
	}
	if GetXlogSampler().isDiscardServicePattern(tctx.ServiceName) && (tctx.Error == 0 || !ac.XlogDiscardServiceShowError) {
		discardType = netdata.XLOG_DISCARD_ALL_FORCE
	} else if tctx.Error != 0 {
		discardType = netdata.XLOG_DISCARD_NONE
	}
''')]),
('C09','quiet','split',[(T,'''	xlog := tctx.ToXlog(discardType, elapsed)

	counter''','''	finishXlog(tctx.ToXlog(discardType, elapsed))
}

func finishXlog(xlog *netdata.XlogPack) {
	counter''')]),
('C09','quiet','once',[(C,'''	if !atomic.CompareAndSwapInt32(&tctx.ended, 0, 1) {
		return false
	}
	tctx.Closed = true
	return true''','''	won := atomic.CompareAndSwapInt32(&tctx.ended, 0, 1)
	if won {
		tctx.Closed = true
	}
	return won''')]),

('C10','catch','err-sampled',[(T,'	if tctx.Error != 0 {\n		discardMode = netdata.XLOG_DISCARD_NONE\n	} else {\n','	{\n')]),
('C10','catch','err-pos',[(T,'	if tctx.Error != 0 {\n		discardMode','	if tctx.Error > 0 {\n		discardMode')]),
('C10','catch','show-error',[(T,'if tctx.Error != 0 && ac.XlogDiscardServiceShowError','if tctx.Error != 0')]),
('C10','catch','discard-all',[(T,'discardMode = netdata.XLOG_DISCARD_ALL_FORCE','discardMode = netdata.XLOG_DISCARD_ALL')]),
('C10','catch','rate-le',[(S,'if rand.Intn(100) >= ac.XlogPatterned2SamplingStep3RatePct','if rand.Intn(100) > ac.XlogPatterned2SamplingStep3RatePct')]),
('C10','catch','step-le',[(S,'} else if elapsed < ac.XlogPatternedSamplingStep2Ms','} else if elapsed <= ac.XlogPatternedSamplingStep2Ms')]),
('C10','catch','wrong-only',[(S,'''		if rand.Intn(100) >= ac.XlogPatterned3SamplingOverRatePct {
			discardMode = sampler.referToProfileMode(ac.XlogPatterned3SamplingOnlyProfile)''','''		if rand.Intn(100) >= ac.XlogPatterned3SamplingOverRatePct {
			discardMode = sampler.referToProfileMode(ac.XlogPatterned2SamplingOnlyProfile)''')]),
('C10','catch','wrong-rate',[(S,'rand.Intn(100) >= ac.XlogSamplingStep2RatePct','rand.Intn(100) >= ac.XlogSamplingStep1RatePct')]),
('C10','catch','wrong-matcher',[(S,'sampler.sampling3PatternMatcher.IsMatch','sampler.sampling2PatternMatcher.IsMatch')]),
('C10','catch','wrong-enable',[(S,'if !discarded && ac.XlogPatterned3SamplingEnabled','if !discarded && ac.XlogPatterned2SamplingEnabled')]),
('C10','catch','fallthrough',[(S,'	if !discarded && ac.XlogSamplingEnabled {','	if discardMode == netdata.XLOG_DISCARD_NONE && ac.XlogSamplingEnabled {')]),
('C10','catch','exclude-always',[(S,'if ac.XlogSamplingEnabled && sampler.isExclude','if sampler.isExclude')]),
('C10','catch','mode-swap',[(S,'	if onlyProfile {\n		return netdata.XLOG_DISCARD_PROFILE','	if !onlyProfile {\n		return netdata.XLOG_DISCARD_PROFILE')]),
('C10','catch','rand-99',[(S,'if rand.Intn(100) >= ac.XlogSamplingOverRatePct','if rand.Intn(101) >= ac.XlogSamplingOverRatePct')]),
('C10','catch','init-matcher',[(S,'xlogSampler.sampling2PatternMatcher = util.NewCommaSeparatedChainedStrMatcher(xlogSampler.currentSampling2ServicePatterns)','xlogSampler.sampling2PatternMatcher = util.NewCommaSeparatedChainedStrMatcher(xlogSampler.currentSamplingServicePatterns)')]),
('C10','catch','discard-first',[(T,'	if GetXlogSampler().isDiscardServicePattern(tctx.ServiceName) {','	if discardMode != netdata.XLOG_DISCARD_PROFILE && GetXlogSampler().isDiscardServicePattern(tctx.ServiceName) {')]),
('C10','quiet','lt',[(S,'		if rand.Intn(100) >= ac.XlogSamplingOverRatePct {\n			discardMode = sampler.referToProfileMode(ac.XlogSamplingOnlyProfile)\n		}','		if rand.Intn(100) < ac.XlogSamplingOverRatePct {\n			return discardMode\n		}\n		discardMode = sampler.referToProfileMode(ac.XlogSamplingOnlyProfile)')]),
('C10','quiet','plus1',[(S,'rand.Intn(100) >= ac.XlogSamplingOverRatePct','rand.Intn(100)+1 > ac.XlogSamplingOverRatePct')]),
('C10','quiet','refer',[(S,'''	if onlyProfile {
		return netdata.XLOG_DISCARD_PROFILE
	} else {
		return netdata.XLOG_DISCARD_ALL
	}''','''	mode := netdata.XLOG_DISCARD_ALL
	if onlyProfile {
		mode = netdata.XLOG_DISCARD_PROFILE
	}
	return mode''')]),
('C10','quiet','inline-decision',[(T,'	discardType := findXLogDiscard(tctx, elapsed)\n','''	discardType := netdata.XLOG_DISCARD_NONE
	if tctx.Error == 0 {
		discardType = GetXlogSampler().eEvaluateXLogDiscard(elapsed, tctx.ServiceName)
	}
	if GetXlogSampler().isDiscardServicePattern(tctx.ServiceName) && (tctx.Error == 0 || !ac.XlogDiscardServiceShowError) {
		discardType = netdata.XLOG_DISCARD_ALL_FORCE
	} else if tctx.Error != 0 {
		discardType = netdata.XLOG_DISCARD_NONE
	}
''')]),
('C10','quiet','common-step',[(S,'''func (sampler *XlogSampler) sampling4Elapsed(elapsed int32, discardMode netdata.XlogDiscardType) netdata.XlogDiscardType {
	if elapsed < ac.XlogSamplingStep1Ms {
		if rand.Intn(100) >= ac.XlogSamplingStep1RatePct {
			discardMode = sampler.referToProfileMode(ac.XlogSamplingOnlyProfile)
		}
	} else if elapsed < ac.XlogSamplingStep2Ms {
		if rand.Intn(100) >= ac.XlogSamplingStep2RatePct {
			discardMode = sampler.referToProfileMode(ac.XlogSamplingOnlyProfile)
		}
	} else if elapsed < ac.XlogSamplingStep3Ms {
		if rand.Intn(100) >= ac.XlogSamplingStep3RatePct {
			discardMode = sampler.referToProfileMode(ac.XlogSamplingOnlyProfile)
		}
	} else {
		if rand.Intn(100) >= ac.XlogSamplingOverRatePct {
			discardMode = sampler.referToProfileMode(ac.XlogSamplingOnlyProfile)
		}
	}
	return discardMode
}''','''func (sampler *XlogSampler) sampling4Elapsed(elapsed int32, discardMode netdata.XlogDiscardType) netdata.XlogDiscardType {
	rate := ac.XlogSamplingOverRatePct
	switch {
	case elapsed < ac.XlogSamplingStep1Ms:
		rate = ac.XlogSamplingStep1RatePct
	case elapsed < ac.XlogSamplingStep2Ms:
		rate = ac.XlogSamplingStep2RatePct
	case elapsed < ac.XlogSamplingStep3Ms:
		rate = ac.XlogSamplingStep3RatePct
	}
	if !keepOf(rate) {
		return sampler.referToProfileMode(ac.XlogSamplingOnlyProfile)
	}
	return discardMode
}

func keepOf(pct int) bool {
	return pct > rand.Intn(100)
}''')]),
('C10','quiet','matchers',[(S,'''	if ac.XlogPatternedSamplingServicePatterns == "" {
		return false
	}
	sampler.matcherLock.RLock()
	defer sampler.matcherLock.RUnlock()
	if sampler.samplingPatternMatcher.IsMatch(serviceName) {
		return true
	} else {
		return false
	}''','''	sampler.matcherLock.RLock()
	defer sampler.matcherLock.RUnlock()
	return len(ac.XlogPatternedSamplingServicePatterns) > 0 && sampler.samplingPatternMatcher.IsMatch(serviceName)''')]),
]

U='netio/udpsender/udpsender.go'
X='strace/xlogsampler.go'
F='conf/configure.go'
A='agent.go'
COND='if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || udpMaxBytes != ac.UDPMaxBytes {'
BODY='''			serverAddr = ac.NetCollectorIP
			udpServerPort = ac.NetCollectorUDPPort
			udpMaxBytes = ac.UDPMaxBytes

			udpSender.running = true
			prevClient := udpSender.udpClient
			udpClient := udpclient.New(serverAddr, udpServerPort)
			udpClient.SetUDPMaxBytes(udpMaxBytes)
			udpSender.udpClient = udpClient

			if prevClient.Conn != nil {
				prevClient.Conn.Close()
			}
'''
FIRST='''		serverAddr = ac.NetCollectorIP
		udpServerPort = ac.NetCollectorUDPPort
		udpMaxBytes = ac.UDPMaxBytes

		udpSender = new(UDPSender)
'''
R2='''	if sampler.currentSampling2ServicePatterns != ac.XlogPatterned2SamplingServicePatterns {
		sampler.currentSampling2ServicePatterns = ac.XlogPatterned2SamplingServicePatterns
		sampler.sampling2PatternMatcher = util.NewCommaSeparatedChainedStrMatcher(ac.XlogPatterned2SamplingServicePatterns)
	}
'''
EDITS=[
('C36','catch','udp-cond',[(U,COND,'if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort {')]),
('C36','catch','udp-and',[(U,COND,COND.replace('||','&&'))]),
('C36','catch','udp-tcpport',[(U,COND,COND.replace('UDPPort','TCPPort'))]),
('C36','catch','udp-not-noted',[(U,'			udpMaxBytes = ac.UDPMaxBytes\n\n			udpSender.running','			udpSender.running'),(U,'udpClient.SetUDPMaxBytes(udpMaxBytes)\n			udpSender','udpClient.SetUDPMaxBytes(ac.UDPMaxBytes)\n			udpSender')]),
('C36','catch','udp-not-installed',[(U,'			udpSender.udpClient = udpClient\n','')]),
('C36','catch','udp-max-missing',[(U,'			udpClient.SetUDPMaxBytes(udpMaxBytes)\n','')]),
('C36','catch','udp-leak',[(U,'			if prevClient.Conn != nil {\n				prevClient.Conn.Close()\n			}\n','			_ = prevClient\n')]),
('C36','catch','udp-close-first',[(U,BODY,BODY.replace('			udpSender.udpClient = udpClient\n','').rstrip('\n')+'\n			udpSender.udpClient = udpClient\n')]),
('C36','catch','udp-close-new',[(U,'			prevClient := udpSender.udpClient\n			udpClient := udpclient.New(serverAddr, udpServerPort)\n			udpClient.SetUDPMaxBytes(udpMaxBytes)\n			udpSender.udpClient = udpClient\n','			udpClient := udpclient.New(serverAddr, udpServerPort)\n			udpClient.SetUDPMaxBytes(udpMaxBytes)\n			udpSender.udpClient = udpClient\n			prevClient := udpSender.udpClient\n')]),
('C36','catch','udp-stale-args',[(U,BODY,BODY.replace('udpclient.New(serverAddr, udpServerPort)','udpclient.New(addr, port)').replace('			serverAddr = ac.NetCollectorIP\n','			addr, port := serverAddr, udpServerPort\n			serverAddr = ac.NetCollectorIP\n',1))]),
('C36','catch','udp-not-started',[(U,'		go common.KeepRunning(reloadUdpSender)\n','')]),
('C36','catch','udp-first-max',[(U,'		udpSender.udpClient.SetUDPMaxBytes(udpMaxBytes)\n','')]),
('C36','catch','udp-first-unnoted',[(U,FIRST,FIRST.replace('		udpServerPort = ac.NetCollectorUDPPort\n',''))]),
('C36','quiet','udp-helper',[(U,BODY,'			replaceClient()\n'),(U,None,'\nfunc replaceClient() {\n'+BODY+'}\n')]),
('C36','quiet','udp-continue',[(U,'		'+COND+'\n'+BODY+'		}\n','		if serverAddr == ac.NetCollectorIP && udpServerPort == ac.NetCollectorUDPPort && udpMaxBytes == ac.UDPMaxBytes {\n			continue\n		}\n'+BODY)]),
('C36','quiet','udp-new-helper',[(U,'			udpClient := udpclient.New(serverAddr, udpServerPort)\n			udpClient.SetUDPMaxBytes(udpMaxBytes)\n','			udpClient := newClient()\n'),(U,'		udpSender.udpClient = udpclient.New(serverAddr, udpServerPort)\n		udpSender.udpClient.SetUDPMaxBytes(udpMaxBytes)\n','		udpSender.udpClient = newClient()\n'),(U,None,'\nfunc newClient() *udpclient.UDPClient {\n	c := udpclient.New(serverAddr, udpServerPort)\n	c.SetUDPMaxBytes(udpMaxBytes)\n	return c\n}\n')]),
('C36','quiet','udp-changed',[(U,COND,'if settingsChanged() {'),(U,None,'\nfunc settingsChanged() bool {\n	return udpMaxBytes != ac.UDPMaxBytes || serverAddr != ac.NetCollectorIP || ac.NetCollectorUDPPort != udpServerPort\n}\n')]),
('C36','quiet','udp-order',[(U,BODY,BODY.replace('			udpSender.running = true\n','').replace('			udpMaxBytes = ac.UDPMaxBytes\n\n','').replace('			udpClient.Set','			udpMaxBytes = ac.UDPMaxBytes\n			udpClient.Set'))]),
('C36','quiet','udp-defer-close',[(U,'			if prevClient.Conn != nil {\n				prevClient.Conn.Close()\n			}\n','			if old := prevClient.Conn; old != nil {\n				if err := old.Close(); err != nil {\n					logger.Warning.Println(err)\n				}\n			}\n')]),
('C36','quiet','udp-ticker',[(U,'	for {\n		time.Sleep(1000 * time.Millisecond)\n		if serverAddr','	tick := time.NewTicker(time.Second)\n	for {\n		<-tick.C\n		if serverAddr')]),
('C36','catch','sampler-not-noted',[(X,'		sampler.currentDiscardServicePatterns = ac.XlogDiscardServicePatterns\n		sampler','		sampler')]),
('C36','catch','sampler-wrong-matcher',[(X,'		sampler.sampling2PatternMatcher = util.NewCommaSeparatedChainedStrMatcher(ac.X','		sampler.samplingPatternMatcher = util.NewCommaSeparatedChainedStrMatcher(ac.X')]),
('C36','catch','sampler-old-pattern',[(X,R2,R2.replace('MatchER','').replace('StrMatcher(ac.XlogPatterned2SamplingServicePatterns)','StrMatcher(sampler.currentSampling2ServicePatterns)').replace('		sampler.currentSampling2ServicePatterns = ac.XlogPatterned2SamplingServicePatterns\n','').replace('\n	}\n','\n		sampler.currentSampling2ServicePatterns = ac.XlogPatterned2SamplingServicePatterns\n	}\n'))]),
('C36','catch','sampler-skip-empty',[(X,'if sampler.currentSampling3ServicePatterns != ac.XlogPatterned3SamplingServicePatterns {','if ac.XlogPatterned3SamplingEnabled && sampler.currentSampling3ServicePatterns != ac.XlogPatterned3SamplingServicePatterns {')]),
('C36','catch','sampler-else-if',[(X,'	}\n	if sampler.currentDiscardServicePatterns !=','	} else if sampler.currentDiscardServicePatterns !=')]),
('C36','catch','sampler-unregistered',[(X,'		conf.AddToConfObserver("XlogSampler", xlogSampler)\n','')]),
('C36','catch','sampler-length',[(X,'if sampler.currentExcludeSamplingPattern != ac.XlogSamplingExcludePatterns {','if len(sampler.currentExcludeSamplingPattern) != len(ac.XlogSamplingExcludePatterns) {')]),
('C36','quiet','sampler-always',[(X,R2,'	sampler.sampling2PatternMatcher = util.NewCommaSeparatedChainedStrMatcher(ac.XlogPatterned2SamplingServicePatterns)\n	sampler.currentSampling2ServicePatterns = ac.XlogPatterned2SamplingServicePatterns\n')]),
('C36','quiet','sampler-helper',[(X,R2,'	renew(&sampler.currentSampling2ServicePatterns, &sampler.sampling2PatternMatcher, ac.XlogPatterned2SamplingServicePatterns)\n'),(X,None,'\nfunc renew(cur *string, m *util.CommaSeparatedChainedStrMatcher, now string) {\n	if *cur == now {\n		return\n	}\n	*cur = now\n	*m = util.NewCommaSeparatedChainedStrMatcher(now)\n}\n')]),
('C36','quiet','sampler-local',[(X,R2,'	if p := ac.XlogPatterned2SamplingServicePatterns; p != sampler.currentSampling2ServicePatterns {\n		sampler.sampling2PatternMatcher = util.NewCommaSeparatedChainedStrMatcher(p)\n		sampler.currentSampling2ServicePatterns = p\n	}\n')]),
('C36','catch','name-type',[(A,'netio.SendObjName(ac.ObjName)','netio.SendServiceName(ac.ObjName)')]),
('C36','catch','name-simple',[(A,'netio.SendObjName(ac.ObjName)','netio.SendObjName(ac.ObjNameSimple)')]),
('C36','catch','name-unregistered',[(A,'		conf.AddObjChangedObserver(observer)\n','')]),
('C36','catch','copy-self',[(F,'	return copy\n','	return descMap\n')]),
('C36','catch','copy-skip-empty',[(F,'		copy.Put(it.Key(), it.Value())\n','		if it.Value().(ConfigureDesc).Value != "" {\n			copy.Put(it.Key(), it.Value())\n		}\n')]),
('C36','catch','copy-one-less',[(F,'	it := descMap.Iterator()\n','	it := descMap.Iterator()\n	it.Next()\n')]),
('C36','catch','cached-var',[('netio/dataproxy.go','var ac = conf.GetInstance()','var ac = conf.GetInstance()\nvar bulk = ac.ProfileStepMaxCount'),('netio/dataproxy.go','bulkSize := ac.ProfileStepMaxCount','bulkSize := bulk')]),
('C36','quiet','copy-keys',[(F,'	it := descMap.Iterator()\n	for it.Next() {\n		copy.Put(it.Key(), it.Value())\n	}\n','	for _, k := range descMap.Keys() {\n		v, _ := descMap.Get(k)\n		copy.Put(k, v)\n	}\n')]),
]

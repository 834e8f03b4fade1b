AG='agent.go'; T='strace/tracemain.go'; K='common/util/keygen/keygen.go'; U='netio/udpsender/udpsender.go'; CF='conf/configure.go'; CH='common/factory/channelfactory/channelfactory.go'; SM='counter/serviceMetering.go'; TC='netio/tcpclient/tcpclient.go'; XS='strace/xlogsampler.go'; P='common/panic.go'; CT='task/countertask/countertask.go'; AT='task/agenttask/agenttask.go'
import glob
def find(sub):
    for f in glob.glob('/repo/scouterx/**/*.go',recursive=True):
        if not f.endswith('_test.go') and sub in open(f).read():
            return f[len('/repo/scouterx/'):]
AT=find('func SendObjPack()'); CT=find('func start5MinCounter')
INIT='''		common.RegisterSendPanicF(netio.SendPanic)
		conf.GetInstance()
		strace.StartTracingMode()
		agenttask.SendObjPack()
		agenttask.Start()
		conf.AddObjChangedObserver(observer)
		countertask.Start()
'''
TCI='''	onceTcpClient.Do(func() {
		client = new(TCPClient)
	})
	return client
'''
EDITS=[
('C37','catch','tcp-lazy',[(TC,TCI,'	if client == nil {\n		onceTcpClient = sync.Once{}\n		client = new(TCPClient)\n	}\n	return client\n')]),
('C37','catch','tcp-fast-path',[(TC,TCI,'	if client != nil {\n		return client\n	}\n'+TCI)]),
('C37','catch','tcp-replaced',[(TC,'	return c.conn.','',)] if False else [(TC,None,'\nfunc Reset() {\n	client = new(TCPClient)\n}\n')]),
('C37','catch','channel-shared-once',[(CH,'	once.Do(func() {\n		udpChannel = make(chan []byte, conf.GetInstance().SendQueueSize)\n	})\n	return udpChannel\n}','	once.Do(func() {\n		udpChannel = make(chan []byte, conf.GetInstance().SendQueueSize)\n	})\n	return udpChannel\n}\n\nvar tcpChannel chan []byte\n\nfunc GetTCPChannel() chan []byte {\n	once.Do(func() {\n		tcpChannel = make(chan []byte, 100)\n	})\n	return tcpChannel\n}\n')]),
('C37','catch','conf-reentry',[(CF,'func (conf *Configure) init() {\n','func (conf *Configure) init() {\n	if GetInstance().NetCollectorIP == "" {\n		return\n	}\n')]),
('C37','catch','keygen-noinit',[(K,'func init() {\n	getInstance()\n','func init() {\n')]),
('C37','catch','sampler-noonce',[(XS,'	xlogSamplerOnce.Do(func() {\n		xlogSampler = new(XlogSampler)\n','	if xlogSampler != nil {\n		return xlogSampler\n	}\n	xlogSamplerOnce = sync.Once{}\n	func() {\n		xlogSampler = new(XlogSampler)\n'),(XS,'xlogSampler)\n	})\n	return','xlogSampler)\n	}()\n	return')]),
('C37','catch','udp-direct-use',[(U,None,'\nfunc Send(b []byte) {\n	udpSender.AddBuffer(b)\n}\n')]),
('C37','catch','meter-conditional',[(SM,'	onceServiceMetering.Do(func() {\n		serviceMetering = ','	if serviceMetering == nil {\n		onceServiceMetering.Do(func() {\n		serviceMetering = '),(SM,'		}\n	})\n	return','		}\n	})\n	}\n	return')]),
('C37','quiet','keygen-var',[(K,'	keygen.Lock()\n	key','	getInstance()\n	keygen.Lock()\n	key'),(K,'func init() {\n	getInstance()\n','func init() {\n')]),
('C37','quiet','tcp-named-init',[(TC,TCI,'	onceTcpClient.Do(makeClient)\n	return client\n'),(TC,None,'\nfunc makeClient() {\n	client = new(TCPClient)\n}\n')]),
('C37','quiet','tcp-eager',[(TC,'var client *TCPClient\nvar onceTcpClient sync.Once\n','var client = new(TCPClient)\n'),(TC,TCI,'	return client\n'),(TC,'	"sync"\n','')]),
('C37','quiet','tcp-lock',[(TC,TCI,'	clientLock.Lock()\n	defer clientLock.Unlock()\n	if client == nil {\n		client = new(TCPClient)\n	}\n	return client\n'),(TC,'var onceTcpClient sync.Once','var clientLock sync.Mutex')]),
('C37','quiet','udp-helper',[(U,'		udpSender = new(UDPSender)\n','		s := new(UDPSender)\n		udpSender = s\n')]),
('C37','quiet','sampler-local',[(XS,'		xlogSampler = new(XlogSampler)\n','		s := &XlogSampler{}\n		xlogSampler = s\n')]),
# ---- C38
('C38','catch','no-hook',[(AG,'		common.RegisterSendPanicF(netio.SendPanic)\n','		_ = netio.SendPanic\n')]),
('C38','catch','hook-nil',[(AG,'RegisterSendPanicF(netio.SendPanic)','RegisterSendPanicF(func(m string) { _ = netio.SendPanic })')]),
('C38','catch','no-counters',[(AG,'		countertask.Start()\n','		_ = countertask.Start\n')]),
('C38','catch','no-observer',[(AG,'		conf.AddObjChangedObserver(observer)\n','		_ = observer\n')]),
('C38','catch','observer-idle',[(AG,'	netio.SendObjName(ac.ObjName)\n','	_ = ac.ObjName\n')]),
('C38','catch','counters-conditional',[(AG,'		countertask.Start()\n','		if conf.GetInstance().NetCollectorUDPPort > 0 {\n			countertask.Start()\n		}\n')]),
('C38','catch','agent-twice',[(AG,'		countertask.Start()\n','		countertask.Start()\n		agenttask.Start()\n')]),
('C38','catch','counter-elsewhere',[(CT,'	go common.KeepRunning(startRealTimeCounter)\n','	go common.KeepRunning(startRealTimeCounter)\n',)] if False else [(T,'	tcpclient.StartTcp()\n','	tcpclient.StartTcp()\n	agenttask.Start()\n'),(T,'import (\n','import (\n	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/agenttask"\n')]),
('C38','catch','no-once',[(AG,'	agentOnce.Do(func() {\n','	func() {\n'),(AG,'		countertask.Start()\n	})\n','		countertask.Start()\n	}()\n')]),
('C38','catch','start-outside-once',[(AG,'		countertask.Start()\n	})\n','	})\n	countertask.Start()\n')]),
('C38','catch','no-load',[(AG,'func init() {\n	Init()\n}','func init() {\n}')]),
('C38','catch','early-return',[(AG,'		agenttask.SendObjPack()\n','		if conf.GetInstance().ObjName == "" {\n			return\n		}\n		agenttask.SendObjPack()\n')]),
('C38','catch','stuck-missing',[(T,'	tctxmanager.RegisterEndStuckServiceForciblyFunc(endStuckServiceForcibly)\n','')]),
('C38','catch','stuck-wrong',[(T,'RegisterEndStuckServiceForciblyFunc(endStuckServiceForcibly)','RegisterEndStuckServiceForciblyFunc(func(t *netio.TraceContext) { t.Closed = true })')]),
('C38','catch','tcp-missing',[(T,'	tcpclient.StartTcp()\n','	_ = tcpclient.StartTcp\n')]),
('C38','quiet','named',[(AG,'	agentOnce.Do(func() {\n		defer common.ReportScouterPanic()\n','	agentOnce.Do(start)\n}\n\nfunc start() {\n	defer common.ReportScouterPanic()\n	{\n'),(AG,'		countertask.Start()\n	})\n','		countertask.Start()\n	}\n')]),
('C38','quiet','reorder',[(AG,INIT,'''		conf.GetInstance()
		common.RegisterSendPanicF(netio.SendPanic)
		conf.AddObjChangedObserver(observer)
		strace.StartTracingMode()
		agenttask.SendObjPack()
		countertask.Start()
		agenttask.Start()
''')]),
('C38','quiet','closure-hook',[(AG,'RegisterSendPanicF(netio.SendPanic)','RegisterSendPanicF(func(m string) { netio.SendPanic(m) })')]),
('C38','quiet','helper-tasks',[(AG,'		agenttask.SendObjPack()\n		agenttask.Start()\n		conf.AddObjChangedObserver(observer)\n		countertask.Start()\n','		startTasks()\n'),(AG,None,'\nfunc startTasks() {\n	agenttask.SendObjPack()\n	agenttask.Start()\n	conf.AddObjChangedObserver(observer)\n	countertask.Start()\n}\n')]),
('C38','quiet','inline-tracing',[(AG,'		strace.StartTracingMode()\n','		strace.StartTracingMode()\n		_ = 0\n')]),
('C38','quiet','first-send-in-start',[(AG,'		agenttask.SendObjPack()\n',''),(AT,'	go common.KeepRunning(start)\n','	SendObjPack()\n	go common.KeepRunning(start)\n')]),
('C38','quiet','table',[(AG,'		agenttask.Start()\n		conf.AddObjChangedObserver(observer)\n		countertask.Start()\n','		conf.AddObjChangedObserver(observer)\n		for _, start := range []func(){agenttask.Start, countertask.Start} {\n			start()\n		}\n')]),
('C38','catch','table-twice',[(AG,'		agenttask.Start()\n		conf.AddObjChangedObserver(observer)\n		countertask.Start()\n','		conf.AddObjChangedObserver(observer)\n		for _, start := range []func(){agenttask.Start, countertask.Start, agenttask.Start} {\n			start()\n		}\n')]),
('C38','quiet','observer-pointer',[(AG,'AddObjChangedObserver(observer)','AddObjChangedObserver(&observer)')]),
]

P='common/panic.go'; U='netio/udpsender/udpsender.go'; TC='netio/tcpclient/tcpmanager.go'; AT='task/agenttask/agenttask.go'; CT='task/countertask/countertask.go'; CF='conf/configure.go'
import glob
def find(sub):
    for f in glob.glob('/repo/scouterx/**/*.go',recursive=True):
        if not f.endswith('_test.go') and sub in open(f).read():
            return f[len('/repo/scouterx/'):]
AT=find('func SendObjPack()'); CT=find('func start5MinCounter')
KR='''	for !runToEnd(f) {
		time.Sleep(time.Second)
	}
'''
RT='''		time.Sleep(2000 * time.Millisecond)
		pack := getAllCounterOnPack()
		if pack == nil {
			continue
		}
'''
RUN='''	for udpSender.running {
		size = udpSender.getQueueSize()
		//logger.Info.Printf("queue size : %d", size)
		switch size {
		case 0:
			time.Sleep(100 * time.Millisecond)
		case 1:
			p := <-udpSender.udpChannel
			udpSender.udpClient.WriteBuffer(p)
		default:
			udpSender.send(size)
		}
	}
'''
EDITS=[
('C27','catch','counter-nil-return',[(CT,RT,RT.replace('continue','return'))]),
('C27','catch','counter-nil-break',[(CT,RT,RT.replace('continue','break'))]),
('C27','catch','counter-sleep-after-nil',[(CT,RT+'		netio.SendPackDirect(pack)\n','''		pack := getAllCounterOnPack()
		if pack == nil {
			continue
		}
		netio.SendPackDirect(pack)
		time.Sleep(2000 * time.Millisecond)
''')]),
('C27','catch','keep-once',[(P,KR,'	runToEnd(f)\n	time.Sleep(1)\n')]),
('C27','catch','keep-inverted',[(P,KR,KR.replace('!runToEnd','runToEnd'))]),
('C27','catch','keep-three',[(P,KR,'	for i := 0; i < 100 && !runToEnd(f); i++ {\n		time.Sleep(time.Second)\n	}\n')]),
('C27','catch','keep-nosleep',[(P,KR,'	for !runToEnd(f) {\n	}\n	time.Sleep(1)\n')]),
('C27','catch','ended-early',[(P,'	f()\n	return true\n','	ended = true\n	f()\n	return ended\n')]),
('C27','catch','runsafely',[(AT,'go common.KeepRunning(start)','go common.RunSafely(start)')]),
('C27','catch','udp-runsafely',[(U,'go common.KeepRunning(udpSender.run)','go common.RunSafely(udpSender.run)')]),
('C27','catch','udp-running-false',[(U,'				prevClient.Conn.Close()\n','				if err := prevClient.Conn.Close(); err != nil {\n					udpSender.running = false\n				}\n')]),
('C27','catch','udp-running-unset',[(U,'		udpSender.running = true\n		udpSender.udpClient = udpclient.New','		udpSender.udpClient = udpclient.New'),(U,'			udpSender.running = true\n','')]),
('C27','catch','udp-nosleep',[(U,'		case 0:\n			time.Sleep(100 * time.Millisecond)\n','		case 0:\n			continue\n')]),
('C27','catch','udp-spin-small',[(U,'		case 0:\n			time.Sleep(100 * time.Millisecond)\n','		case 0:\n			if udpSender.udpClient.Conn != nil {\n				time.Sleep(100 * time.Millisecond)\n			}\n')]),
('C27','catch','udp-one-lost',[(U,'		case 1:\n			p := <-udpSender.udpChannel\n			udpSender.udpClient.WriteBuffer(p)\n','		case 1:\n			if udpSender.udpClient.Conn != nil {\n				p := <-udpSender.udpChannel\n				udpSender.udpClient.WriteBuffer(p)\n			}\n')]),
('C27','catch','udp-quit-error',[(U,'			p := <-udpSender.udpChannel\n			udpSender.udpClient.WriteBuffer(p)\n','			p := <-udpSender.udpChannel\n			if p == nil {\n				return\n			}\n			udpSender.udpClient.WriteBuffer(p)\n')]),
('C27','catch','reload-once',[(U,'				prevClient.Conn.Close()\n			}\n','				prevClient.Conn.Close()\n			}\n			return\n')]),
('C27','catch','reload-nosleep',[(U,'		time.Sleep(1000 * time.Millisecond)\n		if serverAddr','		if serverAddr')]),
('C27','catch','conf-long',[(CF,'5 * time.Second','5 * time.Hour')]),
('C27','catch','conf-zero',[(CF,'time.Sleep(5 * time.Second)','time.Sleep(time.Duration(conf.UDPMaxBytes-60000) * time.Second)')]),
('C27','catch','tcp-guard-out',[(TC,'		func() {\n			defer common.ReportScouterPanic()\n','		func() {\n'),(TC,'func startTcp() {\n','func startTcp() {\n	defer common.ReportScouterPanic()\n')]),
('C27','catch','tcp-nosleep',[(TC,'			time.Sleep(time.Duration(1000) * time.Millisecond)\n			client','			client')]),
('C27','catch','tcp-sleep-late',[(TC,'			time.Sleep(time.Duration(1000) * time.Millisecond)\n			client := GetTcpClient()\n			if client.Prepare() {','			client := GetTcpClient()\n			ok := client.Prepare()\n			time.Sleep(time.Duration(1000) * time.Millisecond)\n			if ok {')]),
('C27','catch','tcp-give-up',[(TC,'	for (true) {\n','	for tries := 0; tries < 1000; tries++ {\n')]),
('C27','catch','tcp-not-started',[(TC,'	go startTcp()\n','	if ac.NetCollectorTCPPort > 0 {\n		go startTcp()\n	}\n')]),
('C27','catch','counter-one-missing',[(CT,'	go common.KeepRunning(start5MinCounter)\n','')]),
('C27','catch','counter-nested',[(CT,'	go common.KeepRunning(startRealTimeCounter)\n	go common.KeepRunning(start5MinCounter)\n','	go common.KeepRunning(func() {\n		startRealTimeCounter()\n		start5MinCounter()\n	})\n')]),
('C27','catch','agent-ends',[(AT,'		SendObjPack()\n	}\n','		if conf.GetInstance().ObjName == "" {\n			return\n		}\n		SendObjPack()\n	}\n')]),
('C27','quiet','keep-for',[(P,KR,'	for {\n		if runToEnd(f) {\n			return\n		}\n		time.Sleep(time.Second)\n	}\n')]),
('C27','quiet','keep-panicked',[(P,'func runToEnd(f func()) (ended bool) {\n	defer ReportScouterPanic()\n	f()\n	return true\n}','func runToEnd(f func()) bool {\n	return !panics(f)\n}\n\nfunc panics(f func()) (p bool) {\n	p = true\n	defer ReportScouterPanic()\n	f()\n	p = false\n	return\n}')]),
('C27','quiet','keep-forever',[(P,KR,'	for {\n		runToEnd(f)\n		time.Sleep(time.Second)\n	}\n')]),
('C27','quiet','ticker',[(AT,'	for {\n		time.Sleep(2000 * time.Millisecond)\n		SendObjPack()\n	}\n','	for range time.Tick(2 * time.Second) {\n		SendObjPack()\n	}\n')]),
('C27','quiet','ticker-c',[(AT,'	for {\n		time.Sleep(2000 * time.Millisecond)\n		SendObjPack()\n	}\n','	t := time.NewTicker(2 * time.Second)\n	for {\n		<-t.C\n		SendObjPack()\n	}\n')]),
('C27','quiet','every',[(AT,'	for {\n		time.Sleep(2000 * time.Millisecond)\n		SendObjPack()\n	}\n','	every(2*time.Second, SendObjPack)\n'),(AT,None,'\nfunc every(d time.Duration, f func()) {\n	for {\n		time.Sleep(d)\n		f()\n	}\n}\n')]),
('C27','quiet','const-var',[(AT,'time.Sleep(2000 * time.Millisecond)','time.Sleep(period)'),(AT,None,'\nvar period = 2 * time.Second\n')]),
('C27','quiet','send-first',[(AT,'		time.Sleep(2000 * time.Millisecond)\n		SendObjPack()\n','		SendObjPack()\n		time.Sleep(2000 * time.Millisecond)\n')]),
('C27','quiet','table',[(CT,'	go common.KeepRunning(startRealTimeCounter)\n	go common.KeepRunning(start5MinCounter)\n','	for _, f := range []func(){startRealTimeCounter, start5MinCounter} {\n		go common.KeepRunning(f)\n	}\n')]),
('C27','quiet','udp-if',[(U,RUN,'''	for udpSender.running {
		size = len(udpSender.udpChannel)
		if size > 1 {
			udpSender.send(size)
		} else if size > 0 {
			udpSender.udpClient.WriteBuffer(<-udpSender.udpChannel)
		} else {
			time.Sleep(100 * time.Millisecond)
		}
	}
''')]),
('C27','quiet','udp-round',[(U,RUN,'''	for udpSender.running {
		size = udpSender.getQueueSize()
		if size == 0 {
			time.Sleep(100 * time.Millisecond)
			continue
		}
		udpSender.flush(size)
	}
'''),(U,None,'''
func (udpSender *UDPSender) flush(size int) {
	if size == 1 {
		p := <-udpSender.udpChannel
		udpSender.udpClient.WriteBuffer(p)
		return
	}
	udpSender.send(size)
}
''')]),
('C27','quiet','tcp-named',[(TC,'		func() {\n			defer common.ReportScouterPanic()\n			time.Sleep(time.Duration(1000) * time.Millisecond)\n','		time.Sleep(time.Second)\n		func() {\n			defer common.ReportScouterPanic()\n')]),
('C27','quiet','tcp-runsafely',[(TC,'		func() {\n			defer common.ReportScouterPanic()\n			time.','		common.RunSafely(func() {\n			time.'),(TC,'		}()\n	}\n}\n','		})\n	}\n}\n')]),
('C27','quiet','counter-guarded',[(CT,RT,'''		time.Sleep(2000 * time.Millisecond)
		var pack netdata.Pack
		common.RunSafely(func() {
			pack = getAllCounterOnPack()
		})
		if pack == nil {
			continue
		}
''')]),
('C27','quiet','start-helper',[(U,'		go common.KeepRunning(udpSender.run)\n		go common.KeepRunning(reloadUdpSender)\n','		keep(udpSender.run)\n		keep(reloadUdpSender)\n'),(U,None,'\nfunc keep(f func()) {\n	go common.KeepRunning(f)\n}\n')]),
]

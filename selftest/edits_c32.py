T='strace/tctxmanager/tctxmanager.go'; D='netio/dataproxy.go'
CLS='''		if elapsed <= ac.TraceActiveserviceYellowTime {
			active[0]++
		} else if elapsed <= ac.TraceActiveserviceRedTime {
			active[1]++
		} else {
			active[2]++
		}
'''
STUCK=open('/repo/scouterx/'+T).read(); STUCK=STUCK[STUCK.index('		if elapsed > ac.Stuck'):STUCK.index('	}\n	return active')]
ALERT=STUCK[STUCK.index('			if ac.StuckServiceAlert'):STUCK.rindex('		}')]
LIM='''		count++
		if  count > max {
			return active
		}
'''
EL='		elapsed := int(now.Sub(tctx.StartTime) / time.Millisecond)\n'
EDITS=[
('C32','catch','yellow-lt',[(T,'elapsed <= ac.TraceActiveserviceYellowTime','elapsed < ac.TraceActiveserviceYellowTime')]),
('C32','catch','red-lt',[(T,'elapsed <= ac.TraceActiveserviceRedTime','elapsed < ac.TraceActiveserviceRedTime')]),
('C32','catch','yellow-red-swap',[(T,CLS,CLS.replace('Yellow','X').replace('Red','Yellow').replace('X','Red'))]),
('C32','catch','both-counted',[(T,'		} else if elapsed <= ac.TraceActiveserviceRedTime {','		}\n		if elapsed <= ac.TraceActiveserviceRedTime {')]),
('C32','catch','stuck-ge',[(T,'if elapsed > ac.Stuck','if elapsed >= ac.Stuck')]),
('C32','catch','stuck-only-red',[(T,CLS,CLS.replace('active[2]++\n','active[2]++\n			if elapsed < 2*ac.TraceActiveserviceRedTime {\n				continue\n			}\n'))]),
('C32','catch','stuck-not-counted',[(T,CLS+STUCK,STUCK.replace('		}\n','',0)[:-3]+'			continue\n		}\n'+CLS)]),
('C32','catch','max-200',[(T,'max := 2000','max := 200')]),
('C32','catch','break-first-stuck',[(T,STUCK,STUCK[:-3]+'			break\n		}\n')]),
('C32','catch','alert-swapped',[(T,'if ac.StuckServiceAlertEnabled {','if !ac.StuckServiceAlertEnabled {')]),
('C32','catch','alert-always-error',[(T,'netdata.AlertWarn','netdata.AlertError')]),
('C32','catch','alert-only-enabled',[(T,' else {\n				netio.SendAlert(netdata.AlertWarn, "STUCK_SERVICE", message)\n			}','')]),
('C32','catch','alert-only-handled',[(T,STUCK,STUCK.replace('			}\n			message','			} else {\n				continue\n			}\n			message'))]),
('C32','catch','title',[(T,'netio.SendAlert(netdata.AlertWarn, "STUCK_SERVICE"','netio.SendAlert(netdata.AlertWarn, "SLOW_SERVICE"')]),
('C32','catch','no-name',[(T,'elapsed: %d, goId: %d, tctxGoId: %d", tctx.ServiceName, elapsed','elapsed: %d, goId: %d, tctxGoId: %d", tctx.RemoteIp, elapsed')]),
('C32','catch','seconds',[(T,'/ time.Millisecond','/ time.Second')]),
('C32','catch','handler-first',[(T,'fEndStuckServiceForcibly(tctx)','fEndStuckServiceForcibly(values[0].(*netio.TraceContext))')]),
('C32','catch','handler-none',[(T,'				fEndStuckServiceForcibly(tctx)\n','')]),
('C32','catch','handler-unless-alert',[(T,'if fEndStuckServiceForcibly != nil {','if fEndStuckServiceForcibly != nil && !ac.StuckServiceAlertEnabled {')]),
('C32','catch','register-nothing',[(T,'	fEndStuckServiceForcibly = f\n','	_ = f\n')]),
('C32','catch','skip-first',[(T,'range values {','range values[1:] {')]),
('C32','catch','skip-unnamed',[(T,EL,'		if tctx.ServiceName == "" {\n			continue\n		}\n'+EL)]),
('C32','catch','skip-new',[(T,EL,EL+'		if elapsed == 0 {\n			continue\n		}\n')]),
('C32','catch','count-two',[(T,'active[2]++','active[2] += 2')]),
('C32','catch','alert-title-lost',[(D,'	pack.Message = message\n','	pack.Message = title\n')]),
('C32','catch','alert-level-lost',[(D,'	pack.Level = level\n','')]),
('C32','catch','alert-needs-message',[(D,'	if title == "" {\n		return\n	}\n	pack := netdata.NewAlertPack()','	if title == "" || message == "" {\n		return\n	}\n	pack := netdata.NewAlertPack()')]),
('C32','catch','ended-early',[(T,'	values := txidMap.GetValues()\n	active','	values := txidMap.GetValues()\n	if len(values) > max {\n		return [3]int64{}\n	}\n	active')]),
('C32','quiet','locals',[(T,'	active := [3]int64{}\n','	var g, y, r int64\n'),(T,'			return active\n','			return [3]int64{g, y, r}\n'),(T,'	return active\n}','	return [3]int64{g, y, r}\n}'),(T,'active[0]++','g++'),(T,'active[1]++','y++'),(T,'active[2]++','r++')]),
('C32','quiet','helper-class',[(T,CLS,'		active[speedClass(elapsed)]++\n'),(T,None,'''
func speedClass(elapsed int) int {
	if elapsed > ac.TraceActiveserviceYellowTime {
		if elapsed > ac.TraceActiveserviceRedTime {
			return 2
		}
		return 1
	}
	return 0
}
''')]),
('C32','quiet','helper-stuck',[(T,STUCK,'		if elapsed > ac.StuckServiceBaseTimeMs {\n			reportStuck(tctx, elapsed)\n		}\n'),(T,None,'\nfunc reportStuck(tctx *netio.TraceContext, elapsed int) {\n'+STUCK[STUCK.index('\n')+1:-3]+'}\n')]),
('C32','quiet','stuck-first',[(T,CLS+STUCK,STUCK+CLS)]),
('C32','quiet','since',[(T,EL,'		elapsed := int(time.Since(tctx.StartTime).Milliseconds())\n'),(T,'	now := time.Now()\n','')]),
('C32','quiet','switch',[(T,CLS,'''		switch {
		case elapsed <= ac.TraceActiveserviceYellowTime:
			active[0]++
		case elapsed <= ac.TraceActiveserviceRedTime:
			active[1]++
		default:
			active[2]++
		}
''')]),
('C32','quiet','level-var',[(T,ALERT,'''			level := netdata.AlertWarn
			if ac.StuckServiceAlertEnabled {
				level = netdata.AlertError
			}
			netio.SendAlert(level, "STUCK_SERVICE", message)
''')]),
('C32','quiet','slice-limit',[(T,LIM,''),(T,'	count := 0\n','	_ = 0\n'),(T,'	active := [3]int64{}\n','	if len(values) > max {\n		values = values[:max]\n	}\n	active := [3]int64{}\n')]),
('C32','quiet','index-loop',[(T,LIM,''),(T,'	count := 0\n','	_ = 0\n'),(T,'	for _, v := range values {\n','	for i := 0; i < len(values) && i < max; i++ {\n		v := values[i]\n')]),
('C32','quiet','count-late',[(T,LIM,'		if count >= max {\n			break\n		}\n		count++\n')]),
('C32','quiet','index-limit',[(T,LIM,'		if i == max {\n			break\n		}\n'),(T,'	count := 0\n','	_ = 0\n'),(T,'for _, v := range','for i, v := range')]),
('C32','quiet','max-3000',[(T,'max := 2000','max := 3000')]),
('C32','quiet','no-limit',[(T,LIM,''),(T,'	count := 0\n','	_ = 0\n'),(T,'	max := 2000\n','')]),
('C32','quiet','empty-first',[(T,'	values := txidMap.GetValues()\n	active','	values := txidMap.GetValues()\n	if len(values) == 0 {\n		return [3]int64{}\n	}\n	active')]),
('C32','quiet','local-hook',[(T,'			if fEndStuckServiceForcibly != nil {\n				fEndStuckServiceForcibly(tctx)\n','			if end := fEndStuckServiceForcibly; end != nil {\n				end(tctx)\n')]),
('C32','quiet','concat',[(T,'fmt.Sprintf("service: %s, elapsed: %d, goId: %d, tctxGoId: %d", tctx.ServiceName, elapsed, common.Goid(), tctx.Goid)','"service: " + tctx.ServiceName + fmt.Sprintf(", elapsed: %d, goId: %d, tctxGoId: %d", elapsed, common.Goid(), tctx.Goid)')]),
('C32','quiet','alert-literal',[(D,'''	pack.Level = level
	pack.Title = title
	pack.Message = message

	SendPackDirect(pack)
''','''	pack.Title, pack.Message, pack.Level = title, message, level
	udpsender.GetInstance().SendPackDirect(pack)
''')]),
('C32','quiet','alert-cond',[(D,'''	if title == "" {
		return
	}
	pack := netdata.NewAlertPack()''','''	if len(title) < 1 {
		return
	}
	pack := netdata.NewAlertPack()''')]),
]

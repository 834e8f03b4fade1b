CT='task/countertask/countertask.go'; CO='counter/collector.go'; G='counter/gocounter/gocounter.go'; K='counter/const.go'
import os
G='counter/gocounter/'+os.listdir('/repo/scouterx/counter/gocounter')[0]
SVC='''	sc := counter.GetServiceMeter().GetAllCounter(30)
	pack.Put(counter.TPS, sc.Tps)
	pack.Put(counter.ELAPSED_TIME, sc.Elapsed)
	pack.Put(counter.ERROR_RATE, sc.ErrorRate)
'''
EDITS=[
('C23','catch','timetype',[(CT,'	pack.Timetype = netdata.TimeTypeFiveMin','	pack.Timetype = netdata.TimeTypeRealTime')]),
('C23','catch','no-timetype',[(CT,'	pack.Timetype = netdata.TimeTypeRealTime\n','')]),
('C23','catch','objname',[(CT,'	pack.ObjName = ac.ObjName\n	pack.Timetype = netdata.TimeTypeFiveMin','	pack.ObjName = ac.ObjType\n	pack.Timetype = netdata.TimeTypeFiveMin')]),
('C23','catch','period',[(CT,'GetServiceMeter().GetAllCounter(300)','GetServiceMeter().GetAllCounter(30)')]),
('C23','catch','active-period',[(CT,'activeCounter.GetAllCounter(300)','activeCounter.GetAllCounter(30)')]),
('C23','catch','key-name',[(K,'"GoGcPause"','"GoGcTime"')]),
('C23','catch','key-swap',[(K,'"GoGcCount"','"X1"'),(K,'"GoGcPause"','"GoGcCount"'),(K,'"X1"','"GoGcPause"')]),
('C23','catch','swap-values',[(CT,'pack.Put(counter.GO_GC_COUNT, c.GcPerSec)','pack.Put(counter.GO_GC_COUNT, c.GcPausePerSec)')]),
('C23','catch','missing',[(CT,'	pack.Put(counter.GO_HEAP_USED, c.HeapAlloc)\n','')]),
('C23','catch','prev-not-kept',[(CT,'	prevGoCounter = c\n',''),]),
('C23','catch','prev-first-only',[(CT,'	prevGoCounter = c\n','	if prevGoCounter.Timestamp == 0 {\n		prevGoCounter = c\n	}\n')]),
('C23','catch','active-order',[(CT,'	activeSpeed.AddInt64(activeCounts[0])\n	activeSpeed.AddInt64(activeCounts[1])\n','	activeSpeed.AddInt64(activeCounts[1])\n	activeSpeed.AddInt64(activeCounts[0])\n')]),
('C23','catch','active-two',[(CT,'	activeSpeed.AddInt64(activeCounts[2])\n','')]),
('C23','catch','active-sum',[(CT,'activeCounts[0] + activeCounts[1] + activeCounts[2]','activeCounts[0] + activeCounts[1]')]),
('C23','catch','active-after',[(CT,'	activeCounter.Add(float64(activeSum))\n	active := activeCounter.GetAllCounter(30).Avg\n','	active := activeCounter.GetAllCounter(30).Avg\n	activeCounter.Add(float64(activeSum))\n')] if False else [(CT,'	activeCounter.Add(float64(activeSum))\n',''),(CT,'	pack.Put(counter.ACTIVE_SPEED, activeSpeed)\n','	pack.Put(counter.ACTIVE_SPEED, activeSpeed)\n	activeCounter.Add(float64(activeSum))\n')]),
('C23','catch','active-sum-not-avg',[(CT,'activeCounter.GetAllCounter(300).Avg','activeCounter.GetAllCounter(300).Sum')]),
('C23','catch','send-nil',[(CT,'		if pack == nil {\n			continue\n		}\n','')]),
('C23','catch','idle-not-sent',[(CT,'	for {\n		time.Sleep(10000','	for {\n		if counter.GetServiceMeter().GetAllCounter(300).Tps == 0 {\n			time.Sleep(time.Second)\n			continue\n		}\n		time.Sleep(10000')]),
('C23','catch','only-once',[(CT,'		pack := getAll5MinCounterOnPack()\n		netio.SendPackDirect(pack)\n	}','		pack := getAll5MinCounterOnPack()\n		netio.SendPackDirect(pack)\n		if pack == nil {\n			return\n		}\n	}')] if False else [(CT,'		netio.SendPackDirect(pack)\n	}\n}\n\nfunc start5Min','		if counter.GetServiceMeter().GetAllCounter(30).Tps > 0 {\n			netio.SendPackDirect(pack)\n		}\n	}\n}\n\nfunc start5Min')]),
('C23','catch','collector-crossed',[(CO,'pack.Put(ELAPSED_TIME, counter.Elapsed)','pack.Put(ELAPSED_TIME, counter.Tps)')]),
('C23','catch','two-meters',[(CT,'var activeCounter = counter.NewValueMeter()','var activeCounter = counter.NewValueMeter()\nvar active5Counter = counter.NewValueMeter()'),(CT,'activeCounter.GetAllCounter(300)','active5Counter.GetAllCounter(300)')]),
('C23','catch','heap-total',[(G,'int64(mem.HeapAlloc)','int64(mem.TotalAlloc)')]),
('C23','catch','pause-ns',[(G,'float64(nowNano - prev.Timestamp) * 1000','float64(nowNano - prev.Timestamp) * 1000000')]),
('C23','catch','gc-per-ms',[(G,'* float64(time.Second)','* float64(time.Millisecond)')]),
('C23','catch','no-first',[(G,'	if prev.Timestamp != 0 {','	if nowNano != 0 {')]),
('C23','catch','count-total',[(G,'float64(int32(mem.NumGC) - prev.mNumGC)','float64(int32(mem.NumGC))')]),
('C23','catch','total-not-kept',[(G,'	counter.mNumGC = int32(mem.NumGC)\n','')]),
('C23','catch','no-timestamp',[(G,'counter := GoCounter{Timestamp: nowNano}','counter := GoCounter{}')]),
('C23','catch','forced-gc',[(G,'int32(mem.NumGC) - prev.mNumGC','int32(mem.NumForcedGC) - prev.mNumGC')]),
('C23','catch','cgo-crossed',[(G,'counter.GoroutineNum = runtime.NumGoroutine()','counter.GoroutineNum = int(runtime.NumCgoCall())')]),
('C23','quiet','helper',[(CT,SVC,'	putService(pack, 30)\n'),(CT,SVC.replace('30','300'),'	putService(pack, 300)\n'),(CT,None,'\nfunc putService(pack *netdata.PerfCounterPack, seconds int) {\n'+SVC.replace('30','seconds')+'}\n')]),
('C23','quiet','newpack',[(CT,'	ac := conf.GetInstance()\n	pack := netdata.NewPerfCounterPack()\n	pack.ObjName = ac.ObjName\n	pack.Timetype = netdata.TimeTypeRealTime\n','	pack := newPack(netdata.TimeTypeRealTime)\n'),(CT,'	ac := conf.GetInstance()\n	pack := netdata.NewPerfCounterPack()\n	pack.ObjName = ac.ObjName\n	pack.Timetype = netdata.TimeTypeFiveMin\n','	pack := newPack(netdata.TimeTypeFiveMin)\n'),(CT,None,'\nfunc newPack(t int8) *netdata.PerfCounterPack {\n	p := netdata.NewPerfCounterPack()\n	p.Timetype = t\n	p.ObjName = conf.GetInstance().ObjName\n	return p\n}\n')]),
('C23','quiet','order',[(CT,SVC,''),(CT,'	pack.Put(counter.ACTIVE_SPEED, activeSpeed)\n','	pack.Put(counter.ACTIVE_SPEED, activeSpeed)\n'+SVC)]),
('C23','quiet','data-put',[(CT,'	pack.Put(counter.ACTIVE_SPEED, activeSpeed)\n','	pack.Data.Put(counter.ACTIVE_SPEED, activeSpeed)\n')]),
('C23','quiet','loop-add',[(CT,'	activeSpeed.AddInt64(activeCounts[0])\n	activeSpeed.AddInt64(activeCounts[1])\n	activeSpeed.AddInt64(activeCounts[2])\n','	for _, n := range activeCounts {\n		activeSpeed.AddInt64(n)\n	}\n')]),
('C23','quiet','sum-loop',[(CT,'activeSum := activeCounts[0] + activeCounts[1] + activeCounts[2]','activeSum := sumOf(activeCounts)'),(CT,None,'\nfunc sumOf(a [3]int64) int64 {\n	return a[2] + a[0] + a[1]\n}\n')]),
('C23','quiet','chain',[(CT,'	activeSpeed.AddInt64(activeCounts[0])\n	activeSpeed.AddInt64(activeCounts[1])\n	activeSpeed.AddInt64(activeCounts[2])\n','	activeSpeed.Add(netdata.NewDecimalValue(activeCounts[0])).AddInt64(activeCounts[1]).AddInt64(activeCounts[2])\n')]),
('C23','quiet','if-not-nil',[(CT,'		if pack == nil {\n			continue\n		}\n		netio.SendPackDirect(pack)\n','		if pack != nil {\n			netio.SendPackDirect(pack)\n		}\n')]),
('C23','quiet','prev-direct',[(CT,'	c := gocounter.GetGoCounter(prevGoCounter)\n	prevGoCounter = c\n','	prevGoCounter = gocounter.GetGoCounter(prevGoCounter)\n	c := prevGoCounter\n')]),
('C23','quiet','rate-helper',[(G,'		counter.GcPausePerSec = float64(int64(mem.PauseTotalNs) - prev.mPauseTotalNs) / float64(nowNano - prev.Timestamp) * 1000\n		counter.GcPerSec = float64(int32(mem.NumGC) - prev.mNumGC) / float64(nowNano - prev.Timestamp) * float64(time.Second)\n','		spent := float64(nowNano - prev.Timestamp)\n		counter.GcPausePerSec = 1000 * float64(int64(mem.PauseTotalNs) - prev.mPauseTotalNs) / spent\n		counter.GcPerSec = float64(counter.mNumGC - prev.mNumGC) * 1e9 / spent\n')]),
('C23','quiet','literal',[(G,'	counter := GoCounter{Timestamp: nowNano}\n\n	counter.GoroutineNum = runtime.NumGoroutine()\n	counter.CgoCallNum = runtime.NumCgoCall()\n','	counter := GoCounter{Timestamp: nowNano, GoroutineNum: runtime.NumGoroutine(), CgoCallNum: runtime.NumCgoCall()}\n')]),
('C23','quiet','first-return',[(G,'	if prev.Timestamp != 0 {\n','	if prev.Timestamp == 0 {\n		return counter\n	}\n	{\n')]),
]

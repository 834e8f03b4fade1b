D='netio/dataproxy.go'
P='netio/profilecollector.go'
EDITS=[
('C07','catch','rem-missing',[(D,'''	if remainder > 0 {
		sendProfile0(steps[count*bulkSize:count*bulkSize+remainder], tctx)
	}''','	_ = remainder')]),
('C07','catch','rem-gt1',[(D,'	if remainder > 0 {\n		sendP','	if remainder > 1 {\n		sendP')]),
('C07','catch','overlap',[(D,'steps[i*bulkSize:i*bulkSize+bulkSize]','steps[i*bulkSize:i*bulkSize+bulkSize+1]')]),
('C07','catch','gap',[(D,'steps[i*bulkSize:i*bulkSize+bulkSize]','steps[i*bulkSize:i*bulkSize+bulkSize-1]')]),
('C07','catch','from1',[(D,'for i := 0; i < count; i++ {\n		sendP','for i := 1; i < count; i++ {\n		sendP')]),
('C07','catch','noreturn',[(D,'		sendProfile0(steps, tctx)\n		return\n','		sendProfile0(steps, tctx)\n')]),
('C07','catch','threshold',[(D,'if count == 0 {','if count <= 1 {')]),
('C07','catch','txid',[(D,'pack.Txid = tctx.Txid','pack.Txid = tctx.Gxid')]),
('C07','catch','service',[(D,'pack.Service = tctx.ServiceHash\n','')]),
('C07','catch','objhash',[(D,'	pack.ObjHash = ac.ObjHash\n	pack.Profile','	pack.Profile')]),
('C07','catch','count',[(D,'	tctx.ProfileCount += len(steps)\n','	tctx.ProfileCount = len(steps)\n')]),
('C07','catch','count2',[(D,'	tctx.ProfileCount += len(steps)\n','')]),
('C07','catch','size',[(D,'	tctx.ProfileSize += len(pack.Profile)\n','	tctx.ProfileSize += len(steps)\n')]),
('C07','catch','proc-full',[(P,'if c.pos >= len(c.steps) {','if c.pos > len(c.steps) {')]),
('C07','catch','proc-noreset',[(P,'		c.pos = 0;\n','')]),
('C07','catch','proc-drop',[(P,'		SendProfile(o, c.tctx)\n','		_ = o\n')]),
('C07','catch','proc-lastlost',[(P,'		SendProfile(o, c.tctx)\n','		SendProfile(o[0:len(o)-1], c.tctx)\n')]),
('C07','catch','proc-new',[(P,'		SendProfile(o, c.tctx)\n','		SendProfile(c.steps, c.tctx)\n		_ = o\n')]),
('C07','catch','close-le',[(P,'c.pos > 0 && ok','c.pos > 1 && ok')]),
('C07','catch','close-ok',[(P,'c.pos > 0 && ok','c.pos > 0')]),
('C07','catch','close-all',[(P,'c.steps[0 : c.pos]','c.steps')]),
('C07','catch','close-minus',[(P,'c.steps[0 : c.pos]','c.steps[0 : c.pos-1]')]),
('C07','catch','push-order',[(P,'	c.parentLevel = c.currentLevel\n	c.currentLevel++','	c.currentLevel++\n	c.parentLevel = c.currentLevel')]),
('C07','catch','pop-idx',[(P,'c.parentLevel = ss.GetParent()','c.parentLevel = ss.GetParent() + 1')]),
('C07','catch','pop-noproc',[(P,'c.parentLevel = ss.GetParent()\n	c.Process(ss)','c.parentLevel = ss.GetParent()')]),
('C07','catch','add-noinc',[(P,'	c.currentLevel++\n	c.Process(ss)','	c.Process(ss)')]),
('C07','catch','add-parent',[(P,'	ss.SetParent(c.parentLevel)\n	c.currentLevel++\n	c.Process','	ss.SetParent(c.currentLevel)\n	c.currentLevel++\n	c.Process')]),
('C07','catch','add-late',[(P,'	ss.SetIndex(c.currentLevel)\n	ss.SetParent(c.parentLevel)\n	c.currentLevel++\n	c.Process(ss)','	ss.SetIndex(c.currentLevel)\n	c.Process(ss)\n	ss.SetParent(c.parentLevel)\n	c.currentLevel++')]),
('C07','quiet','add-late-inc',[(P,'	c.currentLevel++\n	c.Process(ss)','	c.Process(ss)\n	c.currentLevel++')]),
('C07','quiet','push-stage',[(P,'	c.parentLevel = c.currentLevel\n	c.currentLevel++','	level := c.currentLevel\n	c.currentLevel = level + 1\n	c.parentLevel = level')]),
('C07','quiet','helper',[(P,'''	ss.SetIndex(c.currentLevel)
	ss.SetParent(c.parentLevel)
	c.parentLevel = c.currentLevel
''','''	c.place(ss)
	c.parentLevel = c.currentLevel
'''),(P,None,'''
func (c *ProfileCollector) place(ss netdata.Step) {
	ss.SetIndex(c.currentLevel)
	ss.SetParent(c.parentLevel)
}
''')]),
('C07','quiet','proc-sendfirst',[(P,'''		var o = c.steps
		c.steps = make([]netdata.Step, aconf.ProfileStepMaxKeepInMemoryCount)
		c.pos = 0;
		SendProfile(o, c.tctx)''','''		SendProfile(c.steps, c.tctx)
		c.steps = make([]netdata.Step, aconf.ProfileStepMaxKeepInMemoryCount)
		c.pos = 0''')]),
('C07','quiet','proc-eq',[(P,'''	c.pos++
	if c.pos >= len(c.steps) {''','''	c.pos = c.pos + 1
	full := c.pos >= len(c.steps)
	if full {''')]),
('C07','quiet','proc-early',[(P,'''	if c.pos >= len(c.steps) {
		var o = c.steps
		c.steps = make([]netdata.Step, aconf.ProfileStepMaxKeepInMemoryCount)
		c.pos = 0;
		SendProfile(o, c.tctx)
	}''','''	if c.pos < len(c.steps) {
		return
	}
	c.flush()'''),(P,None,'''
func (c *ProfileCollector) flush() {
	o := c.steps
	c.pos = 0
	c.steps = make([]netdata.Step, aconf.ProfileStepMaxKeepInMemoryCount)
	SendProfile(o, c.tctx)
}
''')]),
('C07','quiet','close-early',[(P,'''	if c.pos > 0 && ok {
		SendProfile(c.steps[0 : c.pos], c.tctx)
	}''','''	if !ok || c.pos == 0 {
		return
	}
	SendProfile(c.steps[:c.pos], c.tctx)''')]),
('C07','quiet','split-loop',[(D,'''	count := len(steps) / bulkSize
	if count == 0 {
		sendProfile0(steps, tctx)
		return
	}
	remainder := len(steps) % bulkSize
	for i := 0; i < count; i++ {
		sendProfile0(steps[i*bulkSize:i*bulkSize+bulkSize], tctx)
	}
	if remainder > 0 {
		sendProfile0(steps[count*bulkSize:count*bulkSize+remainder], tctx)
	}''','''	for from := 0; from < len(steps); from += bulkSize {
		to := from + bulkSize
		if to > len(steps) {
			to = len(steps)
		}
		sendProfile0(steps[from:to], tctx)
	}''')]),
('C07','quiet','split-nocount',[(D,'''	if count == 0 {
		sendProfile0(steps, tctx)
		return
	}
	remainder''','''	remainder''')]),
('C07','quiet','split-rest',[(D,'''	if remainder > 0 {
		sendProfile0(steps[count*bulkSize:count*bulkSize+remainder], tctx)
	}''','''	if remainder != 0 {
		sendProfile0(steps[count*bulkSize:], tctx)
	}''')]),
('C07','quiet','reorder',[(D,'''	tctx.ProfileCount += len(steps)
	tctx.ProfileSize += len(pack.Profile)

	udpsender.GetInstance().SendPackDirect(pack)''','''	udpsender.GetInstance().SendPackDirect(pack)
	tctx.ProfileSize += len(pack.Profile)
	tctx.ProfileCount += len(steps)''')]),
]

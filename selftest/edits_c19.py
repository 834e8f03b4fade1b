L='common/structure/lra/lra.go'; K='common/util/keygen/keygen.go'; CM='common/structure/cachemap/cachemap.go'; CS='common/structure/cacheset/cacheset.go'; C2='common/structure/cachemap2/cachemap2.go'
SM='counter/serviceMetering.go'; VM='counter/valueMetering.go'; M='counter/metering.go'; CF='conf/configure.go'; OB='conf/opserver.go'; XS='strace/xlogsampler.go'
RL='	lock.RLock()\n	defer lock.RUnlock()\n'; WL='	lock.Lock()\n	defer lock.Unlock()\n'
ADD='''func (c *Cache) Add(key Key, value interface{}) {
	lock.Lock()
	defer lock.Unlock()
'''
NEXT='''	keygen.Lock()
	key := keygen.random.Int63()
	keygen.Unlock()
	return key
'''
EDITS=[
('C19','catch','lra-size-nolock',[(L,'Size() int {\n'+RL,'Size() int {\n')]),
('C19','catch','lra-add-rlock',[(L,ADD,ADD.replace('lock.Lock()','lock.RLock()').replace('lock.Unlock()','lock.RUnlock()'))]),
('C19','catch','lra-get-late',[(L,'''func (c *Cache) Get(key Key) interface{} {
	lock.RLock()
	defer lock.RUnlock()
	if ele, contains := c.table[key]; contains {''','''func (c *Cache) Get(key Key) interface{} {
	ele, contains := c.table[key]
	lock.RLock()
	defer lock.RUnlock()
	if contains {''')]),
('C19','catch','lra-add-early-read',[(L,ADD,'''func (c *Cache) Add(key Key, value interface{}) {
	if _, ok := c.table[key]; ok {
		return
	}
	lock.Lock()
	defer lock.Unlock()
''')]),
('C19','catch','lra-split',[(L,ADD+'''	if ee, ok := c.table[key]; ok {
''','''func (c *Cache) Add(key Key, value interface{}) {
	lock.RLock()
	ee, ok := c.table[key]
	lock.RUnlock()
	lock.Lock()
	defer lock.Unlock()
	if ok {
''')]),
('C19','catch','lra-remove-split',[(L,'''	lock.Lock()
	defer lock.Unlock()
	if ele, hit := c.table[key]; hit {
		c.removeElement(ele)
	}''','''	lock.RLock()
	ele, hit := c.table[key]
	lock.RUnlock()
	if hit {
		lock.Lock()
		defer lock.Unlock()
		c.removeElement(ele)
	}''')]),
('C19','catch','lra-clear-rlock',[(L,'Clear() {\n'+WL,'Clear() {\n'+RL)]),
('C19','catch','lra-values-early-unlock',[(L,'''	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
''','''	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
	t := c.table
	lock.RUnlock()
	defer lock.RLock()
'''),(L,'range c.table {\n		if e != nil','range t {\n		if e != nil')]),
('C19','catch','keygen-nolock',[(K,NEXT,'	return keygen.random.Int63()\n')]),
('C19','catch','keygen-unlock-first',[(K,NEXT,'	keygen.Lock()\n	keygen.Unlock()\n	return keygen.random.Int63()\n')]),
('C19','catch','cachemap-contains',[(CM,'Contains(key interface{}) bool {\n'+RL,'Contains(key interface{}) bool {\n')]),
('C19','catch','cachemap-add-r',[(CM,'item interface{}) {\n'+WL,'item interface{}) {\n'+RL)]),
('C19','catch','cacheset-add',[(CS,WL+'	if !m.table.Contains(','	if !m.table.Contains(')]) if False else ('C19','catch','cachemap-remove',[(CM,'Remove(key interface{}) {\n'+WL,'Remove(key interface{}) {\n')]),
('C19','catch','cacheset-rlock',[(CS,'lock.Lock()','lock.RLock()')]),
('C19','catch','service-add-nolock',[(SM,'err bool) {\n	g.Lock()\n	defer g.Unlock()\n','err bool) {\n')]),
('C19','catch','service-add-early-unlock',[(SM,'''	g.Lock()
	defer g.Unlock()
	if elapsed < 0 {elapsed = 0}
	b := g.metering.GetCurrentBucket().(*ServiceBucket)
''','''	if elapsed < 0 {elapsed = 0}
	g.Lock()
	b := g.metering.GetCurrentBucket().(*ServiceBucket)
	g.Unlock()
''')]),
('C19','catch','service-get-nolock',[(SM,'*ServiceCounter {\n	g.Lock()\n	defer g.Unlock()\n','*ServiceCounter {\n')]),
('C19','catch','value-get-nolock',[(VM,'	g.Lock()\n	defer g.Unlock()\n	var','	var')]) if False else ('C19','catch','observers-nolock',[(OB,'r Runnable) {\n	observerLock.Lock()\n	defer observerLock.Unlock()\n\n	observers[','r Runnable) {\n	observers[')]),
('C19','catch','notify-copy',[(OB,'''	observerLock.RLock()
	defer observerLock.RUnlock()

	for _, r := range observers {''','''	observerLock.RLock()
	os := observers
	observerLock.RUnlock()

	for _, r := range os {''')]),
('C19','catch','desc-nolock',[(CF,'''	descSync.Lock()
	defer descSync.Unlock()

	value := props.GetString(key, defaultValue)
	descMap.Put(key, ConfigureDesc{
		Key:          key,
		Value:        value,
		DefaultValue: defaultValue,
		Desc:         desc,
		ValueType:    valueType,''','''	value := props.GetString(key, defaultValue)
	descMap.Put(key, ConfigureDesc{
		Key:          key,
		Value:        value,
		DefaultValue: defaultValue,
		Desc:         desc,
		ValueType:    valueType,''')]),
('C19','catch','sampler-run',[(XS,'	sampler.matcherLock.Lock()\n	defer sampler.matcherLock.Unlock()\n','')]),
('C19','catch','sampler-read',[(XS,'''		return false
	}
	sampler.matcherLock.RLock()
	defer sampler.matcherLock.RUnlock()
	if sampler.discard''','''		return false
	}
	if sampler.discard''')]),
('C19','quiet','lra-explicit-unlock',[(L,'''	lock.RLock()
	defer lock.RUnlock()
	return c.lst.Len()
}

func (c *Cache) Clear''','''	lock.RLock()
	n := c.lst.Len()
	lock.RUnlock()
	return n
}

func (c *Cache) Clear''')]),
('C19','quiet','lra-size-wlock',[(L,'Size() int {\n'+RL,'Size() int {\n'+WL)]),
('C19','quiet','lra-field-lock',[(L,'var lock sync.RWMutex\n',''),(L,'	lst   *list.List\n','	mu sync.RWMutex\n	lst   *list.List\n')]+[(L,f+' {\n	lock.%sLock()\n	defer lock.%sUnlock()\n'%(r,r),f+' {\n	c.mu.%sLock()\n	defer c.mu.%sUnlock()\n'%(r,r)) for f,r in [
  ('Add(key Key, value interface{})',''),('Get(key Key) interface{}','R'),('Contains(key interface{}) bool','R'),('Empty() bool','R'),('Remove(key Key)',''),('Size() int','R'),('Clear()',''),('GetValues() []interface{}','R')]]),
('C19','quiet','lra-helper',[(L,ADD,ADD+'	c.add(key, value)\n}\n\nfunc (c *Cache) add(key Key, value interface{}) {\n')]),
('C19','quiet','lra-double-check',[(L,ADD,'''func (c *Cache) Add(key Key, value interface{}) {
	lock.RLock()
	ee, ok := c.table[key]
	same := ok && ee.Value.(*entry).value == nil && value == nil
	lock.RUnlock()
	if same {
		return
	}
	lock.Lock()
	defer lock.Unlock()
''')]),
('C19','quiet','lra-lock-helper',[(L,ADD,'''func acquire() { lock.Lock() }

func release() { lock.Unlock() }

func (c *Cache) Add(key Key, value interface{}) {
	acquire()
	defer release()
''')]),
('C19','quiet','lra-with-lock',[(L,'''	lock.Lock()
	defer lock.Unlock()
	if ele, hit := c.table[key]; hit {
		c.removeElement(ele)
	}''','''	withLock(func() {
		if ele, hit := c.table[key]; hit {
			c.removeElement(ele)
		}
	})'''),(L,'func (c *Cache) removeOldest','''func withLock(f func()) {
	lock.Lock()
	defer lock.Unlock()
	f()
}

func (c *Cache) removeOldest''')]),
('C19','quiet','keygen-defer',[(K,NEXT,'	keygen.Lock()\n	defer keygen.Unlock()\n	return keygen.random.Int63()\n')]),
('C19','quiet','keygen-named-mutex',[(K,'	sync.Mutex\n','	mu sync.Mutex\n'),(K,NEXT,NEXT.replace('keygen.Lock','keygen.mu.Lock').replace('keygen.Unlock','keygen.mu.Unlock'))]),
('C19','quiet','keygen-method',[(K,NEXT,'	return keygen.next()\n}\n\nfunc (k *KeyGen) next() int64 {\n	k.Lock()\n	defer k.Unlock()\n	return k.random.Int63()\n')]),
('C19','quiet','service-bucket-helper',[(SM,'''	b := g.metering.GetCurrentBucket().(*ServiceBucket)
	b.count++
	b.elapsed += elapsed
	if (err) {
		b.error++
	}
''','''	b := g.current()
	b.count++
	b.elapsed += elapsed
	if (err) {
		b.error++
	}
}

func (g *ServiceMetering) current() *ServiceBucket {
	return g.metering.GetCurrentBucket().(*ServiceBucket)
''')]),
('C19','quiet','service-negative-first',[(SM,'''	g.Lock()
	defer g.Unlock()
	if elapsed < 0 {elapsed = 0}
''','''	if elapsed < 0 {elapsed = 0}
	g.Lock()
	defer g.Unlock()
''')]),
('C19','quiet','service-rates-unlocked',[(SM,'''	g.Lock()
	defer g.Unlock()
	var countSum int
	var elapsedSum int
	var errorSum int

	period''','''	var countSum int
	var elapsedSum int
	var errorSum int

	g.Lock()
	period'''),(SM,'''		errorSum += sb.error
	})
''','''		errorSum += sb.error
	})
	g.Unlock()
''')]),
('C19','quiet','metering-no-own-lock',[(M,'	m.Lock()\n	defer m.Unlock()\n','')]),
('C19','quiet','notify-snapshot',[(OB,'''	observerLock.RLock()
	defer observerLock.RUnlock()

	for _, r := range observers {
		r.Run()
	}''','''	var all []Runnable
	observerLock.RLock()
	for _, r := range observers {
		all = append(all, r)
	}
	observerLock.RUnlock()
	for _, r := range all {
		r.Run()
	}''')]),
('C19','quiet','desc-value-first',[(CF,'''	descSync.Lock()
	defer descSync.Unlock()

	value := props.GetString(key, defaultValue)
	descMap.Put(key, ConfigureDesc{
		Key:          key,
		Value:        value,
		DefaultValue: defaultValue,
		Desc:         desc,
		ValueType:    valueType,
	})
''','''	value := props.GetString(key, defaultValue)
	keepDesc(ConfigureDesc{
		Key:          key,
		Value:        value,
		DefaultValue: defaultValue,
		Desc:         desc,
		ValueType:    valueType,
	})
'''),(CF,'func stringOfType(','''func keepDesc(d ConfigureDesc) {
	descSync.Lock()
	descMap.Put(d.Key, d)
	descSync.Unlock()
}

func stringOfType(''')]),
('C19','quiet','new-shared-atomic',[(L,'var itemExists','var hits int64\n\nvar itemExists'),(L,'"container/list"\n','"container/list"\n	"sync/atomic"\n'),(L,ADD,ADD+'	atomic.AddInt64(&hits, 1)\n')]),
]
EDITS+=[
('C20','catch','lra-early-return',[(L,'''	lock.RLock()
	defer lock.RUnlock()
	if _, contains := c.table[key]; !contains {
		return false
	}
	return true''','''	lock.RLock()
	if _, contains := c.table[key]; !contains {
		return false
	}
	lock.RUnlock()
	return true''')]),
('C20','catch','lra-add-hit-return',[(L,ADD+'''	if ee, ok := c.table[key]; ok {
		ee.Value.(*entry).value = value
		return
	}
''','''func (c *Cache) Add(key Key, value interface{}) {
	lock.Lock()
	if ee, ok := c.table[key]; ok {
		ee.Value.(*entry).value = value
		return
	}
	defer lock.Unlock()
''')]),
('C20','catch','lra-recursive',[(L,'	if c.MaxEntries != 0 && c.lst.Len() > c.MaxEntries {','	if c.MaxEntries != 0 && c.Size() > c.MaxEntries {')]),
('C20','catch','lra-rlock-recursive',[(L,'	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))','	l := make([]interface{}, 0, int(float32(c.Size()) * 1.2))')]),
('C20','catch','lra-wrong-mode',[(L,'Size() int {\n	lock.RLock()\n	defer lock.RUnlock()','Size() int {\n	lock.RLock()\n	defer lock.Unlock()')]),
('C20','catch','lra-not-deferred-evict',[(L,'''	lock.Lock()
	defer lock.Unlock()
	if ele, hit := c.table[key]; hit {
		c.removeElement(ele)
	}''','''	lock.Lock()
	if ele, hit := c.table[key]; hit {
		c.removeElement(ele)
	}
	lock.Unlock()''')]),
('C20','catch','notify-not-deferred',[(OB,'''	observerLock.RLock()
	defer observerLock.RUnlock()

	for _, r := range observers {
		r.Run()
	}''','''	observerLock.RLock()
	for _, r := range observers {
		r.Run()
	}
	observerLock.RUnlock()''')]),
('C20','catch','refresh-early',[(CF,'''	conf.Lock()
	defer conf.Unlock()

	filePath''','''	conf.Lock()
	filePath'''),(CF,'			conf.lastModified = info.ModTime()\n		}\n','			conf.lastModified = info.ModTime()\n		}\n		conf.Unlock()\n')]),
('C20','catch','desc-then-conf',[(CF,'''func GetConfigureDescMap() *''','''func descOf(key string) string {
	descSync.Lock()
	defer descSync.Unlock()
	configure.Lock()
	defer configure.Unlock()
	return configure.ObjName + key
}

func DescOf(key string) string { return descOf(key) }

func GetConfigureDescMap() *''')]) if False else ('C20','catch','observer-refresh',[(OB,'	observers[name] = r\n','	observers[name] = r\n	GetInstance().Refresh()\n')]),
('C20','catch','observer-lock-order',[(OB,'	objChangeObserver = r\n','	objChangeObserver = r\n	configure.Lock()\n	configure.Unlock()\n')]),
('C20','catch','sleep-under-lock',[(CF,'''	conf.Lock()
	defer conf.Unlock()

	filePath''','''	conf.Lock()
	defer conf.Unlock()

	time.Sleep(time.Millisecond)
	filePath''')]),
('C20','catch','service-twice',[(SM,'	var countSum int\n','	g.Add(0, false)\n	var countSum int\n')]),
('C20','catch','service-no-unlock',[(SM,'	g.Lock()\n	defer g.Unlock()\n	if elapsed','	g.Lock()\n	if elapsed')]),
('C20','catch','keygen-no-unlock',[(K,'	keygen.Unlock()\n','	if key < 0 {\n		return -key\n	}\n	keygen.Unlock()\n')]),
('C20','catch','keygen-double-unlock',[(K,'	keygen.Lock()\n','	keygen.Lock()\n	defer keygen.Unlock()\n')]),
('C20','catch','sampler-run-return',[(XS,'''	sampler.matcherLock.Lock()
	defer sampler.matcherLock.Unlock()

''','''	sampler.matcherLock.Lock()
	if ac.XlogSamplingStep1RatePct < 0 {
		return
	}
	defer sampler.matcherLock.Unlock()

''')]),
('C20','quiet','sampler-explicit',[(XS,'''	sampler.matcherLock.RLock()
	defer sampler.matcherLock.RUnlock()
	if sampler.discardPatternMatcher.IsMatch(serviceName) {''','''	sampler.matcherLock.RLock()
	matcher := sampler.discardPatternMatcher
	sampler.matcherLock.RUnlock()
	if matcher.IsMatch(serviceName) {''')]),
]+[('C20','quiet',n,e) for (p,k,n,e) in EDITS if k=='quiet']

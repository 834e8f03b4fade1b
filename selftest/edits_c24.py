L='common/structure/lra/lra.go'
ADD='''	lock.Lock()
	defer lock.Unlock()
	if ee, ok := c.table[key]; ok {
		ee.Value.(*entry).value = value
		return
	}
	ele := c.lst.PushFront(&entry{key, value})
	c.table[key] = ele
	if c.MaxEntries != 0 && c.lst.Len() > c.MaxEntries {
		c.removeOldest()
	}
'''
LIM='''	if c.MaxEntries != 0 && c.lst.Len() > c.MaxEntries {
		c.removeOldest()
	}
'''
REM='''	c.lst.Remove(e)
	kv := e.Value.(*entry)
	delete(c.table, kv.key)
'''
GV='''	for _, e := range c.table {
		if e != nil {
			kv := e.Value.(*entry)
			if kv != nil && kv.value != nil {
				l = append(l, kv.value)
			}
		}
	}
	return l
'''
EDITS=[
('C24','catch','lra-off-by-one',[(L,'c.lst.Len() > c.MaxEntries','c.lst.Len() > c.MaxEntries+1')]),
('C24','catch','lra-ge',[(L,'c.lst.Len() > c.MaxEntries','c.lst.Len() >= c.MaxEntries')]),
('C24','catch','lra-front',[(L,'c.lst.Back()','c.lst.Front()')]),
('C24','catch','lra-no-delete',[(L,'	delete(c.table, kv.key)\n','')]),
('C24','catch','lra-no-listremove',[(L,'	c.lst.Remove(e)\n','')]),
('C24','catch','lra-hit-push',[(L,'		ee.Value.(*entry).value = value\n		return\n','		ee.Value.(*entry).value = value\n		c.lst.PushFront(ee.Value)\n		return\n')]),
('C24','catch','lra-hit-keep',[(L,'		ee.Value.(*entry).value = value\n','		_ = ee\n')]),
('C24','catch','lra-hit-move',[(L,'		ee.Value.(*entry).value = value\n','		ee.Value.(*entry).value = value\n		c.lst.MoveToFront(ee)\n')]),
('C24','catch','lra-swap-kv',[(L,'&entry{key, value}','&entry{value, key}')]),
('C24','catch','lra-no-table',[(L,'	c.table[key] = ele\n','	_ = ele\n')]),
('C24','catch','lra-get-removes',[(L,'		return ele.Value.(*entry).value\n','		c.lst.MoveToFront(ele)\n		return ele.Value.(*entry).value\n')]),
('C24','catch','lra-get-key',[(L,'		return ele.Value.(*entry).value\n','		return ele.Value.(*entry).key\n')]),
('C24','catch','lra-contains',[(L,'contains := c.table[key]; !contains','contains := c.table[key]; contains')]),
('C24','catch','lra-empty',[(L,'return c.lst.Len() == 0','return c.lst.Len() <= 1')]),
('C24','catch','lra-size',[(L,'	return c.lst.Len()\n','	return c.MaxEntries\n')]),
('C24','catch','lra-clear-list',[(L,'	c.lst = list.New()\n	c.table = make','	c.table = make')]),
('C24','catch','lra-clear-table',[(L,'	c.lst = list.New()\n	c.table = make(map[interface{}]*list.Element)\n','	c.lst = list.New()\n')]),
('C24','catch','lra-values-break',[(L,'				l = append(l, kv.value)\n','				l = append(l, kv.value)\n				if len(l) == c.MaxEntries-1 {\n					break\n				}\n')]),
('C24','catch','lra-values-key',[(L,'l = append(l, kv.value)','l = append(l, kv.key)')]),
('C24','catch','lra-values-skip',[(L,'kv != nil && kv.value != nil','kv != nil && kv.value != nil && kv.value != itemExists')]),
('C24','catch','lra-values-len',[(L,'make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))','make([]interface{}, c.lst.Len(), int(float32(c.lst.Len()) * 1.2)+1)')]),
('C24','catch','lra-remove-miss',[(L,'	if ele, hit := c.table[key]; hit {\n		c.removeElement(ele)\n	}','	if ele, hit := c.table[key]; hit {\n		c.removeElement(ele)\n	} else {\n		c.removeOldest()\n	}')]),
('C24','catch','lra-remove-only-table',[(L,'	if ele, hit := c.table[key]; hit {\n		c.removeElement(ele)\n	}','	delete(c.table, key)')]),
('C24','catch','lra-remove-cond',[(L,'	if ele, hit := c.table[key]; hit {\n','	if ele, hit := c.table[key]; hit && ele.Prev() != nil {\n')]),
('C24','catch','lra-evict-conditional',[(L,'	if ele != nil {\n		c.removeElement(ele)\n','	if ele != nil && ele.Next() != nil {\n		c.removeElement(ele)\n')]),
('C24','catch','lra-evict-two',[(L,LIM,'''	if c.MaxEntries != 0 && c.lst.Len() > c.MaxEntries {
		c.removeOldest()
		c.removeOldest()
	}
''')]),
('C24','catch','lra-newlimit',[(L,'		MaxEntries: maxEntries,','		MaxEntries: maxEntries + 1,')]),
('C24','catch','lra-mixed-ends',[(L,'c.lst.PushFront','c.lst.PushBack')]),
('C24','catch','lra-nolimit-zero',[(L,'c.MaxEntries != 0 && ','')]),
('C24','catch','lra-delete-otherkey',[(L,'delete(c.table, kv.key)','delete(c.table, kv.value)')]),
('C24','quiet','lra-order',[(L,REM,'''	kv := e.Value.(*entry)
	delete(c.table, kv.key)
	c.lst.Remove(e)
''')]),
('C24','quiet','lra-remove-result',[(L,REM,'''	kv, _ := c.lst.Remove(e).(*entry)
	delete(c.table, kv.key)
''')]),
('C24','quiet','lra-evict-first',[(L,ADD,'''	lock.Lock()
	defer lock.Unlock()
	if ee, ok := c.table[key]; ok {
		ee.Value.(*entry).value = value
		return
	}
	if c.MaxEntries != 0 && c.lst.Len() >= c.MaxEntries {
		c.removeOldest()
	}
	c.table[key] = c.lst.PushFront(&entry{key: key, value: value})
''')]),
('C24','quiet','lra-loop-evict',[(L,LIM,'''	if c.MaxEntries == 0 {
		return
	}
	for c.lst.Len() > c.MaxEntries {
		c.removeOldest()
	}
''')]),
('C24','quiet','lra-full-helper',[(L,LIM,'''	if c.full() {
		c.removeElement(c.lst.Back())
	}
'''),(L,None,'''
func (c *Cache) full() bool {
	if c.MaxEntries == 0 {
		return false
	}
	return !(c.lst.Len() <= c.MaxEntries)
}
''')]),
('C24','quiet','lra-find-helper',[(L,'	if ee, ok := c.table[key]; ok {\n		ee.Value.(*entry).value = value\n		return\n	}','	if e := c.find(key); e != nil {\n		e.value = value\n		return\n	}'),(L,None,'''
func (c *Cache) find(key Key) *entry {
	ee, ok := c.table[key]
	if !ok {
		return nil
	}
	return ee.Value.(*entry)
}
''')]),
('C24','quiet','lra-else',[(L,ADD,'''	lock.Lock()
	defer lock.Unlock()
	ee, ok := c.table[key]
	if !ok {
		c.insert(key, value)
	} else {
		ee.Value = &entry{key, value}
	}
'''),(L,None,'''
func (c *Cache) insert(key Key, value interface{}) {
	en := new(entry)
	en.key = key
	en.value = value
	c.table[key] = c.lst.PushFront(en)
	if n := c.lst.Len(); c.MaxEntries != 0 && c.MaxEntries < n {
		if last := c.lst.Back(); last != nil {
			c.removeElement(last)
		}
	}
}
''')]),
('C24','quiet','lra-contains-direct',[(L,'	if _, contains := c.table[key]; !contains {\n		return false\n	}\n	return true\n','	_, contains := c.table[key]\n	return contains\n')]),
('C24','quiet','lra-contains-nil',[(L,'	if _, contains := c.table[key]; !contains {\n		return false\n	}\n	return true\n','	return c.table[key] != nil\n')]),
('C24','quiet','lra-empty-lt',[(L,'return c.lst.Len() == 0','return c.lst.Len() < 1')]),
('C24','quiet','lra-empty-size',[(L,'return c.lst.Len() == 0','return len(c.table) == 0')]),
('C24','quiet','lra-empty-gt',[(L,'return c.lst.Len() == 0','return !(c.lst.Len() > 0)')]),
('C24','quiet','lra-clear-init',[(L,'	c.lst = list.New()\n	c.table = make(map[interface{}]*list.Element)\n','	c.lst.Init()\n	for k := range c.table {\n		delete(c.table, k)\n	}\n')]),
('C24','quiet','lra-values-guard',[(L,GV,'''	for _, e := range c.table {
		if e == nil {
			continue
		}
		kv, ok := e.Value.(*entry)
		if !ok || kv == nil {
			continue
		}
		if v := kv.value; v != nil {
			l = append(l, v)
		}
	}
	return l
''')]),
('C24','quiet','lra-values-walk',[(L,GV,'''	for e := c.lst.Front(); e != nil; e = e.Next() {
		if v := e.Value.(*entry).value; v != nil {
			l = append(l, v)
		}
	}
	return l
''')]),
('C24','quiet','lra-values-var',[(L,'	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))\n','	var l []interface{}\n')]),
('C24','quiet','lra-values-helper',[(L,GV,'''	for _, e := range c.table {
		if v := valueOf(e); v != nil {
			l = append(l, v)
		}
	}
	return l
'''),(L,None,'''
func valueOf(e *list.Element) interface{} {
	if e == nil {
		return nil
	}
	kv := e.Value.(*entry)
	if kv == nil {
		return nil
	}
	return kv.value
}
''')]),
('C24','quiet','lra-values-key-loop',[(L,GV,'''	for k := range c.table {
		kv := c.table[k].Value.(*entry)
		if kv.value != nil {
			l = append(l, kv.value)
		}
	}
	return l
''')]),
('C24','quiet','lra-get-early',[(L,'	if ele, contains := c.table[key]; contains {\n		return ele.Value.(*entry).value\n	}\n	return nil\n','	ele, contains := c.table[key]\n	if !contains {\n		return nil\n	}\n	e, _ := ele.Value.(*entry)\n	return e.value\n')]),
('C24','quiet','lra-size-map',[(L,'	return c.lst.Len()\n','	return len(c.table)\n')]),
('C24','quiet','lra-mirrored',[(L,'c.lst.PushFront','c.lst.PushBack'),(L,'c.lst.Back()','c.lst.Front()')]),
('C24','quiet','lra-remove-early',[(L,'	if ele, hit := c.table[key]; hit {\n		c.removeElement(ele)\n	}','	ele := c.table[key]\n	if ele == nil {\n		return\n	}\n	c.removeElement(ele)')]),
]

L='common/structure/lra/lra.go'; K='common/util/keygen/keygen.go'; CM='common/structure/cachemap/cachemap.go'; SM='counter/serviceMetering.go'; CF='conf/configure.go'; OB='conf/opserver.go'; CS='common/structure/cacheset/cacheset.go'
def within(body, what):
    return '''	done := make(chan bool)
	go func() {
		defer close(done)
'''+body+'''	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("'''+what+'''")
	}
'''
SEEDS=[
dict(id='lock-lra-remove-twice', prop='C19', needs='two goroutines removing the same key at the same moment', breaks='the entry is found under one section of the lock and removed under another, so it is evicted twice',
 edits=[(L,'''	lock.Lock()
	defer lock.Unlock()
	if ele, hit := c.table[key]; hit {
		c.removeElement(ele)
	}''','''	lock.RLock()
	ele, hit := c.table[key]
	lock.RUnlock()
	if !hit {
		return
	}
	lock.Lock()
	defer lock.Unlock()
	c.removeElement(ele)''')], pkg='scouterx/common/structure/lra', test='''package lra

import (
	"sync"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	n := 0
	c := New(0)
	c.OnEvicted = func(Key, interface{}) { n++ }
	const rounds = 20000
	for i := 0; i < rounds; i++ {
		c.Add(i, i)
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				c.Remove(i)
			}()
		}
		close(start)
		wg.Wait()
	}
	if n != rounds {
		t.Fatal(n, "evictions of", rounds, "entries")
	}
}
'''),
dict(id='lock-service-meter', prop='C19', needs='several requests ending at the same moment', breaks='the bucket is updated after the lock was given back: counts get lost',
 edits=[(SM,'''	g.Lock()
	defer g.Unlock()
	if elapsed < 0 {elapsed = 0}
	b := g.metering.GetCurrentBucket().(*ServiceBucket)
''','''	if elapsed < 0 {elapsed = 0}
	b := g.currentBucket()
'''),(SM,'func (g *ServiceMetering) GetAllCounter','''func (g *ServiceMetering) currentBucket() *ServiceBucket {
	g.Lock()
	defer g.Unlock()
	return g.metering.GetCurrentBucket().(*ServiceBucket)
}

func (g *ServiceMetering) GetAllCounter''')], pkg='scouterx/counter', test='''package counter

import (
	"sync"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	g := GetServiceMeter()
	var wg sync.WaitGroup
	const n, m = 8, 200000
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < m; j++ {
				g.Add(1, false)
			}
		}()
	}
	wg.Wait()
	if got := int(g.GetAllCounter(250).Tps*250 + 0.5); got != n*m {
		t.Fatal(got, "of", n*m)
	}
}
'''),
dict(id='lock-keygen', prop='C19', needs='transaction ids drawn by several goroutines at once', breaks='the random source is used without its lock: the same ids are drawn twice, or it panics',
 edits=[(K,'''	keygen.Lock()
	key := keygen.random.Int63()
	keygen.Unlock()
	return key''','''	keygen.Lock()
	random := keygen.random
	keygen.Unlock()
	return random.Int63()''')], pkg='scouterx/common/util/keygen', test='''package keygen

import (
	"sync"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	const n, m = 8, 200000
	ids := make([][]int64, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < m; j++ {
				ids[i] = append(ids[i], Next())
			}
		}(i)
	}
	wg.Wait()
	seen := map[int64]bool{}
	for _, l := range ids {
		for _, v := range l {
			if seen[v] {
				t.Fatal("drawn twice", v)
			}
			seen[v] = true
		}
	}
}
'''),
dict(id='lock-cachemap-look-first', prop='C19', needs='a reader that looks for a key while another goroutine adds one', breaks='the table is read before the lock is taken',
 edits=[(CM,'''func (m *CacheMap) Add(key interface{}, item interface{}) {
	lock.Lock()
	defer lock.Unlock()
	if _, contains := m.table.Get(key); !contains {
		m.removeExceeded()''','''func (m *CacheMap) Add(key interface{}, item interface{}) {
	if _, contains := m.table.Get(key); contains {
		return
	}
	lock.Lock()
	defer lock.Unlock()
	if _, contains := m.table.Get(key); !contains {
		m.removeExceeded()''')], pkg='scouterx/common/structure/cachemap', test='''package cachemap

import (
	"sync"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	m := New(1000)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 200000; j++ {
				m.Add(j*8+i, j)
			}
		}(i)
	}
	wg.Wait()
}
'''),
dict(id='lock-desc-map', prop='C19', needs='the collector asking for the settings while they are read again', breaks='the descriptions are copied after the lock was given back',
 edits=[(CF,'''	descSync.RLock()
	defer descSync.RUnlock()

	copy := linkedhashmap.New()
	it := descMap.Iterator()
''','''	descSync.RLock()
	it := descMap.Iterator()
	descSync.RUnlock()

	copy := linkedhashmap.New()
''')], pkg='scouterx/conf', test='''package conf

import (
	"os"
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	os.Setenv("SCOUTER_CONFIG", "/nonexistent/scouter.conf")
	c := GetInstance()
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
				c.Refresh()
			}
		}
	}()
	for end := time.Now().Add(8 * time.Second); time.Now().Before(end); {
		GetConfigureDescMap()
	}
	close(stop)
}
'''),
dict(id='lock-lra-hit-return', prop='C20', needs='a key that is added a second time', breaks='the early return keeps the lock of all caches: everything that uses one hangs',
 edits=[(L,'''func (c *Cache) Add(key Key, value interface{}) {
	lock.Lock()
	defer lock.Unlock()
	if ee, ok := c.table[key]; ok {
		ee.Value.(*entry).value = value
		return
	}
''','''func (c *Cache) Add(key Key, value interface{}) {
	lock.Lock()
	if ee, ok := c.table[key]; ok {
		ee.Value.(*entry).value = value
		if value != nil {
			lock.Unlock()
		}
		return
	}
	defer lock.Unlock()
''')], pkg='scouterx/common/structure/lra', test='''package lra

import (
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	c := New(10)
'''+within('''		c.Add(1, nil)
		c.Add(1, nil)
		c.Size()
''','the lock was kept')+'''}
'''),
dict(id='lock-lra-read-twice', prop='C20', needs='an addition that starts while the values are listed', breaks='the read lock is taken by its holder: with a writer waiting between, both hang',
 edits=[(L,'	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))\n	for','	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))\n	if c.Empty() {\n		return l\n	}\n	for')], pkg='scouterx/common/structure/lra', test='''package lra

import (
	"sync"
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	c := New(10)
'''+within('''		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(2)
			go func() {
				defer wg.Done()
				for i := 0; i < 200000; i++ {
					c.Add(i, i)
				}
			}()
			go func() {
				defer wg.Done()
				for i := 0; i < 200000; i++ {
					c.GetValues()
				}
			}()
		}
		wg.Wait()
''','the caches hang')+'''}
'''),
dict(id='lock-observer-panic', prop='C20', needs='an observer of the settings that panics', breaks='the lock of the observers is kept when one panics; the guard restarts the loop, which then hangs',
 edits=[(OB,'''	observerLock.RLock()
	defer observerLock.RUnlock()

	for _, r := range observers {
		r.Run()
	}''','''	observerLock.RLock()
	for _, r := range observers {
		r.Run()
	}
	observerLock.RUnlock()''')], pkg='scouterx/conf', test='''package conf

import (
	"testing"
	"time"
)

type bad struct{}

func (bad) Run() { panic("observer") }

func TestVerifDemo(t *testing.T) {
	AddToConfObserver("bad", bad{})
	func() {
		defer func() { recover() }()
		confChangeNotify()
	}()
'''+within('''		AddToConfObserver("other", bad{})
''','the lock was kept')+'''}
'''),
dict(id='lock-observer-order', prop='C20', needs='an observer registered while the settings are read again', breaks='registering takes the lock of the settings under the lock of the observers, reading takes them the other way round',
 edits=[(OB,'	objChangeObserver = r\n','''	objChangeObserver = r
	if configure != nil {
		configure.Lock()
		configure.lastModified = configure.lastModified.Add(-1)
		configure.Unlock()
	}
''')], pkg='scouterx/conf', test='''package conf

import (
	"os"
	"testing"
	"time"
)

type idle struct{}

func (idle) Run() {}

func TestVerifDemo(t *testing.T) {
	os.Setenv("SCOUTER_CONFIG", "/nonexistent/scouter.conf")
	c := GetInstance()
	go func() {
		for {
			c.Refresh()
		}
	}()
'''+within('''		for i := 0; i < 3000; i++ {
			AddObjChangedObserver(idle{})
		}
''','registering hangs')+'''}
'''),
]

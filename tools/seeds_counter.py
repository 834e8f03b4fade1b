M='counter/metering.go'; SM='counter/serviceMetering.go'; T='task/countertask/countertask.go'; G='counter/gocounter/gocounter.go'
METER='''package counter

import (
	"testing"
	"time"
)

func newMeter(gap int) *ServiceMetering {
	g := &ServiceMetering{metering: NewMetering(
		func() interface{} { return &ServiceBucket{} },
		GetServiceMeter().metering.clear,
	)}
	m := g.metering
	for _, b := range m.table {
		sb := b.(*ServiceBucket)
		sb.count, sb.elapsed, sb.error = 7, 700, 7
	}
	for time.Now().Nanosecond() > 700000000 {
		time.Sleep(10 * time.Millisecond)
	}
	// the last addition was gap seconds ago
	m.time = int(time.Now().Unix()) - gap
	m.pos = m.time % m.bucketSize
	return g
}

'''
SEEDS=[
dict(id='meter-idle-minute', prop='C31', needs='no additions and no reads for more than two minutes, then a read of a longer period', breaks='counts of an earlier turn of the window are counted again',
 edits=[(M,'i < curTime-m.time && i < m.bucketSize;','i < curTime-m.time && i < 120;')], pkg='scouterx/counter', test=METER+'''func TestVerifDemo(t *testing.T) {
	g := newMeter(290)
	if c := g.GetAllCounter(280); c.Tps != 0 {
		t.Fatal("old requests are counted", c.Tps)
	}
}
'''),
dict(id='meter-wrap-zero', prop='C31', needs='the window turning over its first position', breaks='the bucket at position 0 is never emptied',
 edits=[(M,'''			} else {
				m.pos = m.pos + 1
			}
			m.clear(m.table[m.pos])
''','''			} else {
				m.pos = m.pos + 1
				m.clear(m.table[m.pos])
			}
''')], pkg='scouterx/counter', test=METER+'''func TestVerifDemo(t *testing.T) {
	g := newMeter(1000)
	if c := g.GetAllCounter(300); c.Tps != 0 {
		t.Fatal("old requests are counted", c.Tps)
	}
	g.metering.GetCurrentBucket()
	n := 0
	for _, b := range g.metering.table {
		n += b.(*ServiceBucket).count
	}
	if n != 0 {
		t.Fatal("a bucket was not emptied")
	}
}
'''),
dict(id='meter-read-stale', prop='C31', needs='reads during a time without additions', breaks='the rate shown for an idle service never falls',
 edits=[(M,'''	period = m.check(period)
	pos := m.getPosition()

	for i := 0; i < period; i++ {
		handler(''','''	period = m.check(period)
	m.Lock()
	pos := m.pos
	m.Unlock()

	for i := 0; i < period; i++ {
		handler(''')], pkg='scouterx/counter', test=METER+'''func TestVerifDemo(t *testing.T) {
	g := newMeter(100)
	if c := g.GetAllCounter(30); c.Tps != 0 {
		t.Fatal("old requests are counted", c.Tps)
	}
}
'''),
dict(id='meter-failed-window', prop='C31', needs='requests failing and a later turn of the window', breaks='failures of an earlier turn are added to the error rate when the second had many requests',
 edits=[(SM,'''					sb.count = 0
					sb.elapsed = 0
					sb.error = 0
''','''					if sb.count > sb.error {
						sb.error = 0
					}
					sb.count = 0
					sb.elapsed = 0
''')], pkg='scouterx/counter', test=METER+'''func TestVerifDemo(t *testing.T) {
	g := newMeter(1000)
	g.Add(10, false)
	if c := g.GetAllCounter(1); c.ErrorRate != 0 && c.Elapsed == 10 {
		t.Fatal("error rate without errors", c.ErrorRate)
	}
}
'''),
dict(id='counter-idle-average', prop='C23', needs='active services now and then', breaks='the average of active services ignores the rounds with none',
 edits=[(T,'	activeCounter.Add(float64(activeSum))\n','	if activeSum > 0 {\n		activeCounter.Add(float64(activeSum))\n	}\n')], pkg='scouterx/task/countertask', test='''package countertask

import (
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func TestVerifDemo(t *testing.T) {
	tctx := netio.NewTraceContext()
	tctx.Txid = 4711
	tctx.StartTime = time.Now()
	tctxmanager.Start(tctx)
	getAllCounterOnPack()
	tctxmanager.End(tctx)
	for i := 0; i < 3; i++ {
		getAllCounterOnPack()
	}
	p := getAllCounterOnPack().(*netdata.PerfCounterPack)
	v := p.Data.Table[counter.ACTIVE_SERVICE]
	switch d := v.(type) {
	case *netdata.Float32Value:
		if d.Value > 0.9 {
			t.Fatal("average", d.Value)
		}
	default:
		t.Fatalf("%T", v)
	}
}
'''),
dict(id='counter-gc-since-start', prop='C23', needs='a third reading', breaks='the GC rates are averages since the first reading, not since the one before',
 edits=[(T,'	prevGoCounter = c\n','	if prevGoCounter.Timestamp == 0 {\n		prevGoCounter = c\n	}\n')], pkg='scouterx/task/countertask', test='''package countertask

import "testing"

func TestVerifDemo(t *testing.T) {
	getAllCounterOnPack()
	a := prevGoCounter.Timestamp
	getAllCounterOnPack()
	if prevGoCounter.Timestamp == a {
		t.Fatal("the reading before is not kept")
	}
}
'''),
dict(id='counter-first-gc', prop='C23', needs='a first reading in a process that has collected garbage before', breaks='the first GC rate is computed against an empty reading when garbage was collected before',
 edits=[(G,'	if prev.Timestamp != 0 {','	if prev.Timestamp != 0 || counter.mNumGC > prev.mNumGC {')], pkg='scouterx/counter/gocounter', test='''package gocounter

import (
	"runtime"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	runtime.GC()
	if c := GetGoCounter(GoCounter{}); c.GcPerSec != 0 {
		t.Fatal("a rate from one reading", c.GcPerSec)
	}
}
'''),
]
A='strace/tctxmanager/tctxmanager.go'
ACT='''package tctxmanager

import (
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
)

func begin(txid int64, ago time.Duration) {
	tctx := netio.NewTraceContext()
	tctx.Txid = txid
	tctx.StartTime = time.Now().Add(-ago)
	Start(tctx)
}

'''
SEEDS+=[
dict(id='active-stuck-below-red', prop='C32', needs='a stuck base time configured below the red time', breaks='stuck services below the red time are neither ended nor reported',
 edits=[(A,'''			active[1]++
		} else {
			active[2]++
		}
''','''			active[1]++
			continue
		} else {
			active[2]++
		}
''')], pkg='scouterx/strace/tctxmanager', test=ACT+'''func TestVerifDemo(t *testing.T) {
	ac.TraceActiveserviceYellowTime, ac.TraceActiveserviceRedTime, ac.StuckServiceBaseTimeMs = 100, 100000, 5000
	n := 0
	RegisterEndStuckServiceForciblyFunc(func(*netio.TraceContext) { n++ })
	begin(1, 20*time.Second)
	GetActiveCount()
	if n != 1 {
		t.Fatal("not ended")
	}
}
'''),
dict(id='active-some', prop='C32', needs='more than 500 services active at once', breaks='services beyond the first 500 are not counted',
 edits=[(A,'	max := 2000\n','	max := 500\n')], pkg='scouterx/strace/tctxmanager', test=ACT+'''func TestVerifDemo(t *testing.T) {
	ac.TraceActiveserviceYellowTime = 100000
	for i := int64(1); i <= 1500; i++ {
		begin(i, time.Millisecond)
	}
	if c := GetActiveCount(); c[0] != 1500 {
		t.Fatal(c)
	}
}
'''),
dict(id='active-red-boundary', prop='C32', needs='red and yellow time configured equal, or a service right at a limit', breaks='a service that took the whole red time counts as over it',
 edits=[(A,'		} else if elapsed <= ac.TraceActiveserviceRedTime {','		} else if elapsed <= ac.TraceActiveserviceRedTime-ac.TraceActiveserviceYellowTime {')], pkg='scouterx/strace/tctxmanager', test=ACT+'''func TestVerifDemo(t *testing.T) {
	ac.TraceActiveserviceYellowTime, ac.TraceActiveserviceRedTime = 3000, 8000
	begin(1, 6500*time.Millisecond)
	if c := GetActiveCount(); c != [3]int64{0, 1, 0} {
		t.Fatal(c)
	}
}
'''),
]

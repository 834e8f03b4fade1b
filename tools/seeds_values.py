MP='common/netdata/mappack.go'; LV='common/netdata/listvalue.go'; PC='common/netdata/perfcounterpack.go'; MV='common/netdata/mapvalue.go'
SEEDS=[
dict(id='values-put-narrow', prop='C25', needs='an unsigned 32 bit counter above 2^31', breaks='the counter pack turns large unsigned counters into negative ones',
 edits=[(PC,'''	case uint32:
		pack.Data.Put(key, NewDecimalValue(int64(v)))
''','''	case uint32:
		pack.Put(key, int32(v))
''')], pkg='scouterx/common/structure/lra', test='''package lra

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestVerifDemo(t *testing.T) {
	p := netdata.NewPerfCounterPack()
	p.Put("n", uint32(3000000000))
	if v := p.Data.GetInt64("n"); v != 3000000000 {
		t.Fatalf("3000000000 became %d", v)
	}
}
'''),
dict(id='values-put-same', prop='C25', needs='a key that is put a second time with a value of another kind', breaks='a second put of a key is ignored when a value of another kind is there',
 edits=[(MP,'''	case bool:
		mapPack.Table[key] = NewBooleanValue(t)
''','''	case bool:
		if old, ok := mapPack.Table[key]; ok {
			if b, isBool := old.(*BooleanValue); isBool {
				b.Value = t
			}
			return
		}
		mapPack.Table[key] = NewBooleanValue(t)
''')], pkg='scouterx/common/structure/lra', test='''package lra

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestVerifDemo(t *testing.T) {
	p := netdata.NewMapPack()
	p.Put("ok", "no")
	p.Put("ok", true)
	if !p.GetBoolean("ok") {
		t.Fatal("the second put is lost")
	}
}
'''),
dict(id='values-list-alias', prop='C25', needs='the float of a list read as a whole number', breaks='the getter of floats also answers for whole numbers, and loses the floats',
 edits=[(LV,'''	v, ok := value.(*Float32Value)
	if ok {
		return v.Value
	}
	return 0
''','''	switch v := value.(type) {
	case *Float32Value:
		return float32(int32(v.Value))
	}
	return 0
''')], pkg='scouterx/common/structure/lra', test='''package lra

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestVerifDemo(t *testing.T) {
	l := netdata.NewListValue()
	l.AddFloat(1.5)
	if v := l.GetFloat(0); v != 1.5 {
		t.Fatalf("1.5 became %v", v)
	}
}
'''),
]

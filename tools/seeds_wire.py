ND='scouterx/common/netdata'
SEEDS=[
dict(id='wire-blob-254', prop='C03', needs='a text or blob of exactly 254 or 255 bytes', breaks='the one-byte length form is used for lengths that are markers, so the reader misreads the rest of the record',
 edits=[('common/netdata/dataoutputx.go','valueLen <= 253','valueLen <= 255')], pkg=ND, test='''package netdata

import (
	"strings"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for _, n := range []int{0, 1, 252, 253, 254, 255, 256, 65535, 65536} {
		out := NewDataOutputX(nil)
		s := strings.Repeat("x", n)
		out.WriteString(s)
		out.WriteInt32(77)
		in := NewDataInputX(out.Bytes())
		r, err := in.ReadString()
		if err != nil || r != s {
			t.Fatalf("length %d: read %d bytes, %v", n, len(r), err)
		}
		if v, err := in.ReadInt32(); v != 77 || err != nil {
			t.Fatalf("length %d: stream out of step: %d %v", n, v, err)
		}
	}
}
'''),
dict(id='wire-decimal-int16', prop='C03', needs='an integer between 32768 and 65535', breaks='values above the signed 16-bit range are written in the 16-bit form and come back negative',
 edits=[('common/netdata/dataoutputx.go','value >= math.MinInt16 && value <= math.MaxInt16','value >= math.MinInt16 && value <= math.MaxUint16')], pkg=ND, test='''package netdata

import "testing"

func TestVerifDemo(t *testing.T) {
	for _, v := range []int64{0, -1, 127, 128, -129, 32767, 32768, 65535, 65536, 1 << 31, -(1 << 31) - 1, 1 << 62} {
		out := NewDataOutputX(nil)
		out.WriteDecimal(v)
		r, err := NewDataInputX(out.Bytes()).ReadDecimal()
		if err != nil || r != v {
			t.Fatalf("%d read back as %d, %v", v, r, err)
		}
	}
}
'''),
dict(id='wire-apicall-opt', prop='C01', needs='an api call step without the option flag but with an address set', breaks='an item the collector does not expect follows the step, so the rest of the profile is misread',
 edits=[('common/netdata/apicallstep.go','s.Opt == 1','s.Opt == 1 || s.Address != ""')], pkg=ND, test='''package netdata

import "testing"

func TestVerifDemo(t *testing.T) {
	a, b := NewApiCallStep(), NewApiCallStep()
	a.Hash, b.Hash = 5, 5
	b.Address = "10.0.0.1:80"
	if la, lb := len(StepsToBytes([]Step{a})), len(StepsToBytes([]Step{b})); la != lb {
		t.Fatalf("the option is off, yet the address is encoded: %d against %d bytes", lb, la)
	}
}
'''),
dict(id='wire-counter-pack-order', prop='C02', needs='a performance counter pack that is decoded again', breaks='the decoder reads two adjacent items in the other order',
 edits=[('common/netdata/perfcounter_k8s_pack.go','''	pack.Timetype, err = in.ReadInt8()
	pack.MetricLevel, err = in.ReadInt8()''','''	pack.MetricLevel, err = in.ReadInt8()
	pack.Timetype, err = in.ReadInt8()''')], pkg=ND, test='''package netdata

import "testing"

func TestVerifDemo(t *testing.T) {
	p := NewPerfCounterK8SPack()
	p.Timetype, p.MetricLevel = 1, 3
	p.PodName = "pod"
	out := NewDataOutputX(nil)
	out.WritePack(p)
	in := NewDataInputX(out.Bytes())
	in.ReadInt8()
	q := NewPerfCounterK8SPack()
	if _, err := q.Read(in); err != nil {
		t.Fatal(err)
	}
	if q.Timetype != 1 || q.MetricLevel != 3 || q.PodName != "pod" {
		t.Fatalf("read back %+v", q)
	}
}
'''),
]

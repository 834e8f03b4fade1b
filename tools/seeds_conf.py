F='conf/configure.go'
HEAD='''package conf

import (
	"os"
	"path/filepath"
	"testing"
	"time"
)

func verifConf(t *testing.T) (string, func(text string, at time.Time)) {
	d := t.TempDir()
	os.Setenv("SCOUTER_AGENT_HOME", d)
	p := filepath.Join(d, "verif.conf")
	os.Setenv("SCOUTER_CONFIG", p)
	return p, func(text string, at time.Time) {
		if err := os.WriteFile(p, []byte(text), 0644); err != nil {
			t.Fatal(err)
		}
		os.Chtimes(p, at, at)
	}
}

var t0 = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
'''
SEEDS=[
dict(id='conf-desc-stale', prop='C21', needs='a setting changed while the agent runs, then the configuration shown to the collector', breaks='the description keeps showing the value of the first load',
 edits=[(F,'	value := props.GetInt(key, defaultValue)\n	descMap.Put(key, ConfigureDesc{\n','	value := props.GetInt(key, defaultValue)\n	if _, known := descMap.Get(key); known {\n		return value\n	}\n	descMap.Put(key, ConfigureDesc{\n')], pkg='scouterx/conf', test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	_, write := verifConf(t)
	c := new(Configure)
	write("net_collector_udp_port=1111\\n", t0)
	c.Refresh()
	write("net_collector_udp_port=2222\\n", t0.Add(time.Hour))
	c.Refresh()
	d, _ := GetConfigureDescMap().Get("net_collector_udp_port")
	if v := d.(ConfigureDesc).Value; v != "2222" {
		t.Fatal("shown as", v)
	}
}
'''),
dict(id='conf-crossed-step', prop='C21', needs='pattern group 3 configured with its own second boundary', breaks='the second boundary of group 3 is taken from group 2',
 edits=[(F,'intOf(props, "xlog_patterned3_sampling_step2_ms"','intOf(props, "xlog_patterned2_sampling_step2_ms"')], pkg='scouterx/conf', test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	_, write := verifConf(t)
	c := new(Configure)
	write("xlog_patterned3_sampling_step2_ms=777\\n", t0)
	c.Refresh()
	if c.XlogPatterned3SamplingStep2Ms != 777 {
		t.Fatal(c.XlogPatterned3SamplingStep2Ms)
	}
}
'''),
dict(id='conf-quick-rewrite', prop='C22', needs='the file written twice within a second, loaded in between', breaks='the second version is not loaded',
 edits=[(F,'info.ModTime().After(conf.lastModified)','info.ModTime().Sub(conf.lastModified) > time.Second')], pkg='scouterx/conf', test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	_, write := verifConf(t)
	c := new(Configure)
	write("net_collector_udp_port=1111\\n", t0)
	c.Refresh()
	write("net_collector_udp_port=2222\\n", t0.Add(300*time.Millisecond))
	c.Refresh()
	if c.NetCollectorUDPPort != 2222 {
		t.Fatal(c.NetCollectorUDPPort)
	}
}
'''),
dict(id='conf-malformed-defaults', prop='C22', needs='a malformed configuration file saved over a good one', breaks='all settings fall back to defaults',
 edits=[(F,'		if fileProps != nil {\n			props.Merge(fileProps)\n','		if err == nil {\n			props.Merge(fileProps)\n'),
  (F,'''					return
				}
			default:
				return
			}
		}
		if err''','''					return
				}
			default:
				logger.Error.Printf("configuration file %s: %s\\n", filePath, err)
			}
		}
		if err''')], pkg='scouterx/conf', test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	_, write := verifConf(t)
	c := new(Configure)
	write("net_collector_udp_port=1111\\n", t0)
	c.Refresh()
	write("obj_name=${obj_name}\\n", t0.Add(time.Hour))
	GetInstance()
	c.Refresh()
	if c.NetCollectorUDPPort != 1111 {
		t.Fatal(c.NetCollectorUDPPort)
	}
}
'''),
dict(id='conf-name-hash-order', prop='C22', needs='the object name changed by a reload with a name observer registered', breaks='the observer reports the new name while the hash is still that of the old one',
 edits=[(F,'''	conf.ObjHash = util.HashString(conf.ObjName)

	conf.ObjType = stringOf(props,"obj_type", "golang", "object type(monitoring group)")
	if oldObjName != conf.ObjName {
		objChangeNotify()
	}
''','''	if oldObjName != conf.ObjName {
		objChangeNotify()
	}
	conf.ObjHash = util.HashString(conf.ObjName)

	conf.ObjType = stringOf(props,"obj_type", "golang", "object type(monitoring group)")
''')], pkg='scouterx/conf', test=HEAD.replace('import (','import (\n	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"')+'''
type verifObs func()

func (o verifObs) Run() { o() }

func TestVerifDemo(t *testing.T) {
	_, write := verifConf(t)
	c := new(Configure)
	write("obj_name=a\\n", t0)
	c.Refresh()
	n := 0
	AddObjChangedObserver(verifObs(func() {
		n++
		if c.ObjHash != util.HashString(c.ObjName) {
			t.Error("told before the hash is set")
		}
	}))
	write("obj_name=b\\n", t0.Add(time.Hour))
	c.Refresh()
	if n != 1 {
		t.Fatal(n)
	}
}
'''),
]

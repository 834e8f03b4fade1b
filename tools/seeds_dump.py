D='dump/dump.go'
HEAD='''package dump

import (
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"bytes"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

var _ = filepath.Join
var _ = os.Getenv
var _ = runtime.NumGoroutine
var _ = pprof.Lookup
var _ bytes.Buffer
var _ = time.Now
var _ = netdata.NewMapPack
'''
SEEDS=[
dict(id='dump-delete-escaped', prop='C18', needs='a file name with percent-encoded separators', breaks='a delete command removes a file outside the dump directory',
 edits=[(D,'	err := os.Remove(fullName)\n','	if plain, e := url.PathUnescape(fileName); e == nil && plain != fileName {\n		fullName = filepath.Join(dumpPath, plain)\n	}\n	err := os.Remove(fullName)\n'),(D,'	"io"\n	"os"\n','	"io"\n	"net/url"\n	"os"\n')], pkg='scouterx/dump', test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	d := t.TempDir()
	os.Setenv("SCOUTER_AGENT_HOME", d)
	victim := filepath.Join(d, "x.pprof")
	os.WriteFile(victim, []byte("x"), 0644)
	DeleteBinaryDumpFiles("..%2Fx.pprof")
	if _, err := os.Stat(victim); err != nil {
		t.Fatal("a file outside the dump directory was removed")
	}
}
'''),
dict(id='dump-delete-missing', prop='C18', needs='deleting a dump that does not exist', breaks='a deletion that removed nothing is reported as success',
 edits=[(D,'	err := os.Remove(fullName)\n	if err != nil {\n','	err := os.Remove(fullName)\n	if err != nil && !os.IsNotExist(err) {\n')], pkg='scouterx/dump', test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	os.Setenv("SCOUTER_AGENT_HOME", t.TempDir())
	p := DeleteBinaryDumpFiles("none.pprof").(*netdata.MapPack)
	if b, ok := p.Table["success"].(*netdata.BooleanValue); !ok || b.Value {
		t.Fatal("reported as removed")
	}
}
'''),
dict(id='dump-mutex-rate', prop='C28', needs='a dump directory in which no file can be created', breaks='mutex sampling stays switched on after a failed dump',
 edits=[(D,'	defer runtime.SetMutexProfileFraction(old)\n	time.Sleep(time.Duration(sec) * time.Second)\n','	time.Sleep(time.Duration(sec) * time.Second)\n'),
  (D,'		logger.Error.Printf("could not run mutex profile: %s\\n", err)\n	}\n	w.Flush()\n','		logger.Error.Printf("could not run mutex profile: %s\\n", err)\n	}\n	w.Flush()\n	runtime.SetMutexProfileFraction(old)\n')], pkg='scouterx/dump', test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	runtime.SetMutexProfileFraction(7)
	profileMutex(filepath.Join(t.TempDir(), "none", "x.log"), 0, 1, 0)
	if r := runtime.SetMutexProfileFraction(-1); r != 7 {
		t.Fatal("rate left at", r)
	}
}
'''),
dict(id='dump-cpu-stop', prop='C28', needs='a CPU profile taken by the application itself while the collector asks for one', breaks='the application\'s own CPU profile is cut off',
 edits=[(D,'	if err := pprof.StartCPUProfile(f); err != nil {\n','	defer pprof.StopCPUProfile()\n	if err := pprof.StartCPUProfile(f); err != nil {\n'),(D,'	defer pprof.StopCPUProfile()\n	time.Sleep(','	time.Sleep(')], pkg='scouterx/dump', test=HEAD+'''
func TestVerifDemo(t *testing.T) {
	var own bytes.Buffer
	if err := pprof.StartCPUProfile(&own); err != nil {
		t.Skip(err)
	}
	defer pprof.StopCPUProfile()
	profileCpu(filepath.Join(t.TempDir(), "x.pprof"), 0)
	var other bytes.Buffer
	if pprof.StartCPUProfile(&other) == nil {
		t.Fatal("the running profile was stopped")
	}
}
'''),
]

From 5f74274645e6177792cd14077d64221f8d23a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 01/32] fix: encode dump steps with the dump step type

DumpStep reported the METHOD type tag, so a collector would decode a dump
step with the (shorter) method step layout and lose its place in the profile.
---
 scouterx/common/netdata/dumpstep.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/dumpstep.go b/scouterx/common/netdata/dumpstep.go
index fcfd1e5..512b716 100644
--- a/scouterx/common/netdata/dumpstep.go
+++ b/scouterx/common/netdata/dumpstep.go
@@ -17,7 +17,7 @@ func NewDumpStep() *DumpStep {
 }
 
 func (s *DumpStep) GetStepType() byte {
-	return METHOD
+	return DUMP
 }
 
 func (s *DumpStep) Write(out *DataOutputX) error {
-- 
2.43.0


From 571ea6684c4f9491ad1f79768670afbf90dd74c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 02/32] fix: read the 16-bit blob length as unsigned

WriteBlob emits the 255 form for lengths up to 65535, but ReadBlob sign-extended
the length: blobs and strings of 32768..65535 bytes came back as a negative
length and make() panicked.
---
 scouterx/common/netdata/datainputx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 3c6e859..7dff101 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -98,7 +98,7 @@ func (in *DataInputX) ReadBlob() ([]byte, error) {
 	case 255:
 		var v int16
 		v, err = in.ReadInt16()
-		length = int32(v)
+		length = int32(uint16(v))
 	case 254:
 		length, err = in.ReadInt32()
 	case 0:
-- 
2.43.0


From 4beabc93228805eb004e2d6824159bd13475f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 03/32] fix: read raw bytes completely and refuse negative
 lengths

io.Reader.Read may return fewer bytes than asked for (it does on a TCP
connection), which left the tail of the buffer zeroed and the stream misaligned
without an error; a negative length from the wire panicked in make().
---
 scouterx/common/netdata/datainputx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 7dff101..6a3ae81 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -106,13 +106,10 @@ func (in *DataInputX) ReadBlob() ([]byte, error) {
 	default:
 		length = int32(baseLen)
 	}
-	in.offset += length
-	val := make([]byte, length)
-	_, err = in.reader.Read(val)
 	if err != nil {
-		val = []byte{}
+		return []byte{}, err
 	}
-	return val, err
+	return in.Read(length)
 }
 
 // ReadDecimal returns number value
@@ -177,9 +174,12 @@ func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 }
 
 func (in *DataInputX) Read(len int32) ([]byte, error) {
+	if len < 0 {
+		return []byte{}, errors.New("[scouter] Negative length:" + strconv.Itoa(int(len)))
+	}
 	in.offset += len
 	val := make([]byte, len)
-	_, err := in.reader.Read(val)
+	_, err := io.ReadFull(in.reader, val)
 	if err != nil {
 		val = []byte{}
 	}
-- 
2.43.0


From 50d0eac72347a559947e9665bac84b70f3544bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 04/32] fix: report decode errors instead of dropping them

ReadValue overwrote the error of reading the type tag (a truncated stream decoded
as nil values), ReadIntBytes the error of reading the length, ReadPack ignored the
pack's own error and dereferenced nil on an unknown pack type, and ReadDecimal
decoded an undefined length tag as a successful 0.
---
 scouterx/common/netdata/datainputx.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 6a3ae81..f4f7123 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -135,6 +135,9 @@ func (in *DataInputX) ReadDecimal() (int64, error) {
 		v, err = in.ReadInt64()
 		return v, err
 	default:
+		if err == nil {
+			err = errors.New("[scouter] Not defined decimal length:" + strconv.Itoa(int(len)))
+		}
 		return 0, err
 	}
 }
@@ -152,6 +155,9 @@ func (in *DataInputX) ReadBoolean() (bool, error) {
 // ReadValue reads value from datainputx
 func (in *DataInputX) ReadValue() (Value, error) {
 	valueType, err := in.ReadInt8()
+	if err != nil {
+		return NewNilValue(), err
+	}
 	value := CreateValue(byte(valueType))
 	if value == nil {
 		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))
@@ -163,6 +169,9 @@ func (in *DataInputX) ReadValue() (Value, error) {
 
 func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	length, err := in.ReadInt32()
+	if err != nil {
+		return []byte{}, err
+	}
 	b, err := in.Read(length)
 	return b, err
 	//val := make([]byte, length)
@@ -192,8 +201,9 @@ func (in *DataInputX) ReadPack() (Pack, error) {
 		return nil, err
 	}
 	pack := CreatePack(byte(packType))
-	pack.Read(in)
-	return pack, err
-
+	if pack == nil {
+		return nil, errors.New("[scouter] Not defined pack type:" + strconv.Itoa(int(packType)))
+	}
+	return pack.Read(in)
 }
 
-- 
2.43.0


From 842d00d18a621062e57f2d906f234e93d12f16e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 05/32] fix: stop decoding map and list entries at the first
 error

A truncated or corrupt message announcing a huge entry count kept the decoder
looping (and growing the container) long after the input was exhausted.
---
 scouterx/common/netdata/listvalue.go | 3 +++
 scouterx/common/netdata/mappack.go   | 6 ++++++
 scouterx/common/netdata/mapvalue.go  | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/scouterx/common/netdata/listvalue.go b/scouterx/common/netdata/listvalue.go
index 62b8f50..f2b963c 100644
--- a/scouterx/common/netdata/listvalue.go
+++ b/scouterx/common/netdata/listvalue.go
@@ -141,6 +141,9 @@ func (listValue *ListValue) Read(in *DataInputX) (Value, error) {
 	for i := int64(0); i < size; i++ {
 		var value Value
 		value , err = in.ReadValue()
+		if err != nil {
+			return listValue, err
+		}
 		listValue.Value = append(listValue.Value, value)
 	}
 	return listValue, err
diff --git a/scouterx/common/netdata/mappack.go b/scouterx/common/netdata/mappack.go
index ba96f7c..f798aa2 100644
--- a/scouterx/common/netdata/mappack.go
+++ b/scouterx/common/netdata/mappack.go
@@ -42,7 +42,13 @@ func (mapPack *MapPack) Read(in *DataInputX) (Pack, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			return mapPack, err
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			return mapPack, err
+		}
 		mapPack.Table[key] = value
 	}
 	return mapPack, err
diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 7282ec2..92b6ad2 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -40,7 +40,13 @@ func (mapValue *MapValue) Read(in *DataInputX) (Value, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			return mapValue, err
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			return mapValue, err
+		}
 		mapValue.Table[key] = value
 	}
 	return mapValue, err
-- 
2.43.0


From 538c592335478e8f68414f981a2e6234c3a8d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 06/32] fix: report a pack whose tags are not a map instead of
 panicking

ObjectPack, ObjectPack2, PerfCounterPack and PerfCounterK8SPack asserted the
decoded value's type without checking it, so a malformed or truncated pack
panicked the decoder.
---
 scouterx/common/netdata/datainputx.go          |  2 ++
 scouterx/common/netdata/objectpack.go          | 18 ++++++++++++++++--
 .../common/netdata/perfcounter_k8s_pack.go     |  9 ++++++++-
 scouterx/common/netdata/perfcounterpack.go     |  9 ++++++++-
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index f4f7123..c5898d4 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -14,6 +14,8 @@ type DataInputX struct {
 	reader io.Reader
 }
 
+var errNotMapValue = errors.New("[scouter] Not a map value")
+
 // NewDataInputX returns DataInputX instace
 func NewDataInputX(any interface{}) *DataInputX {
 	in := new(DataInputX)
diff --git a/scouterx/common/netdata/objectpack.go b/scouterx/common/netdata/objectpack.go
index 246880c..0a6f7ee 100644
--- a/scouterx/common/netdata/objectpack.go
+++ b/scouterx/common/netdata/objectpack.go
@@ -91,7 +91,14 @@ func (objectPack *ObjectPack2) Read(in *DataInputX) (Pack, error){
 	objectPack.Wakeup, err = in.ReadDecimal()
 	objectPack.Family, err = in.ReadInt8()
 	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	if err != nil {
+		return objectPack, err
+	}
+	tags, ok := value.(*MapValue)
+	if !ok {
+		return objectPack, errNotMapValue
+	}
+	objectPack.Tags = tags
 
 	return objectPack, err
 }
@@ -106,7 +113,14 @@ func (objectPack *ObjectPack) Read(in *DataInputX) (Pack, error) {
 	objectPack.Alive, err = in.ReadBoolean()
 	objectPack.Wakeup, err = in.ReadDecimal()
 	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	if err != nil {
+		return objectPack, err
+	}
+	tags, ok := value.(*MapValue)
+	if !ok {
+		return objectPack, errNotMapValue
+	}
+	objectPack.Tags = tags
 
 	return objectPack, err
 }
diff --git a/scouterx/common/netdata/perfcounter_k8s_pack.go b/scouterx/common/netdata/perfcounter_k8s_pack.go
index c1718da..0bacbc5 100644
--- a/scouterx/common/netdata/perfcounter_k8s_pack.go
+++ b/scouterx/common/netdata/perfcounter_k8s_pack.go
@@ -62,7 +62,14 @@ func (pack *PerfCounterK8SPack) Read(in *DataInputX) (Pack, error) {
 	pack.Timetype, err = in.ReadInt8()
 	pack.MetricLevel, err = in.ReadInt8()
 	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	if err != nil {
+		return pack, err
+	}
+	data, ok := value.(*MapValue)
+	if !ok {
+		return pack, errNotMapValue
+	}
+	pack.Data = data
 	return pack, err
 }
 
diff --git a/scouterx/common/netdata/perfcounterpack.go b/scouterx/common/netdata/perfcounterpack.go
index 49145e7..9e12db4 100644
--- a/scouterx/common/netdata/perfcounterpack.go
+++ b/scouterx/common/netdata/perfcounterpack.go
@@ -38,7 +38,14 @@ func (pack *PerfCounterPack) Read(in *DataInputX) (Pack, error) {
 	pack.ObjName, err = in.ReadString()
 	pack.Timetype, err = in.ReadInt8()
 	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	if err != nil {
+		return pack, err
+	}
+	data, ok := value.(*MapValue)
+	if !ok {
+		return pack, errNotMapValue
+	}
+	pack.Data = data
 	return pack, err
 }
 
-- 
2.43.0


From ef1455c10b9e14fb6ac72034b6b4f3cd4723c9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 07/32] fix: decode IPv4 address values as such

The value factory created a blob for the IP4ADDR tag; the raw four address bytes
were then parsed as a length-prefixed blob and the rest of the stream misread.
---
 scouterx/common/netdata/valuecreator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/valuecreator.go b/scouterx/common/netdata/valuecreator.go
index 7328182..55a6adb 100644
--- a/scouterx/common/netdata/valuecreator.go
+++ b/scouterx/common/netdata/valuecreator.go
@@ -24,7 +24,7 @@ func CreateValue(valueType byte) Value {
 	case valueconstants.BLOB:
 		return NewBlobEmptyValue()
 	case valueconstants.IP4ADDR:
-		return NewBlobEmptyValue()
+		return NewIp4EmptyValue()
 	case valueconstants.LIST:
 		return NewListValue()
 	case valueconstants.MAP:
-- 
2.43.0


From 82b0de9daa1ce920a69b95e16ae17b888bbc195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 08/32] fix: decode every pack type the pack factory offers

ReadPack accepted TEXT and ALERT packs but consumed none of their bytes and
reported success, and the k8s counter pack could be written but not read.
---
 scouterx/common/netdata/alertpack.go   | 18 +++++++++++++++++-
 scouterx/common/netdata/packcreator.go |  2 ++
 scouterx/common/netdata/textpack.go    | 12 ++++++++++--
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/scouterx/common/netdata/alertpack.go b/scouterx/common/netdata/alertpack.go
index c86a3de..deacdc8 100644
--- a/scouterx/common/netdata/alertpack.go
+++ b/scouterx/common/netdata/alertpack.go
@@ -39,7 +39,23 @@ func (p *AlertPack) Write(out *DataOutputX) error {
 }
 
 func (p *AlertPack) Read(in *DataInputX) (Pack, error) {
-	//TODO not yet implemented
+	var err error
+	p.Time, err = in.ReadInt64()
+	level, err := in.ReadUInt8()
+	p.Level = AlertLevel(level)
+	p.ObjType, err = in.ReadString()
+	p.ObjHash, err = in.ReadInt32()
+	p.Title, err = in.ReadString()
+	p.Message, err = in.ReadString()
+	value, err := in.ReadValue()
+	if err != nil {
+		return p, err
+	}
+	tags, ok := value.(*MapValue)
+	if !ok {
+		return p, errNotMapValue
+	}
+	p.Tags = tags
 	return p, nil
 }
 
diff --git a/scouterx/common/netdata/packcreator.go b/scouterx/common/netdata/packcreator.go
index f034776..4617634 100644
--- a/scouterx/common/netdata/packcreator.go
+++ b/scouterx/common/netdata/packcreator.go
@@ -13,6 +13,8 @@ func CreatePack(packType byte) Pack {
 		return NewTextPack()
 	case packconstants.PERFCOUNTER:
 		return NewPerfCounterPack()
+	case packconstants.PERFCOUNTER_K8S:
+		return NewPerfCounterK8SPack()
 	case packconstants.OBJECT:
 		return NewObjectPack2()
 	case packconstants.ALERT:
diff --git a/scouterx/common/netdata/textpack.go b/scouterx/common/netdata/textpack.go
index 961c907..8b1c5a0 100644
--- a/scouterx/common/netdata/textpack.go
+++ b/scouterx/common/netdata/textpack.go
@@ -27,8 +27,16 @@ func (p *TextPack) Write(out *DataOutputX) error {
 }
 
 func (p *TextPack) Read(in *DataInputX) (Pack, error) {
-	//TODO not yet implemented
-	return p, nil
+	xtype, err := in.ReadString()
+	if err != nil {
+		return p, err
+	}
+	p.Xtype = texttype.TextType(xtype)
+	if p.Hash, err = in.ReadInt32(); err != nil {
+		return p, err
+	}
+	p.Text, err = in.ReadString()
+	return p, err
 }
 
 func (pack *TextPack) ToString() string {
-- 
2.43.0


From 0c1c71db0cc89a9e3ae9013abb1e91b0a515eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 09/32] fix: keep the panic reporter itself from panicking

---
 scouterx/common/panic.go    | 3 +++
 scouterx/netio/dataproxy.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/scouterx/common/panic.go b/scouterx/common/panic.go
index f928e1b..4c5ea28 100644
--- a/scouterx/common/panic.go
+++ b/scouterx/common/panic.go
@@ -18,6 +18,9 @@ func ReportScouterPanic() {
 	if r := recover(); r != nil {
 		stackTrace := dump.StackTrace(100)
 		fmt.Printf("[scouter][panic]%+v\n%s", r, stackTrace)
+		if fSendPanic == nil {
+			return
+		}
 		fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
 	}
 }
diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index 7782a09..6159c04 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -45,7 +45,7 @@ func reportScouterPanicFinal() {
 }
 
 func SendPanic(message string) {
-	reportScouterPanicFinal()
+	defer reportScouterPanicFinal()
 	SendAlert(netdata.AlertFatal, "Panic", message)
 }
 
-- 
2.43.0


From 8f4fefe37b17d48cf17919358cc2150827b3d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 10/32] fix: do not end the application when the log file
 cannot be opened

---
 scouterx/common/logger/logger.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/scouterx/common/logger/logger.go b/scouterx/common/logger/logger.go
index 1be4dac..ebbe231 100644
--- a/scouterx/common/logger/logger.go
+++ b/scouterx/common/logger/logger.go
@@ -14,15 +14,20 @@ func Init() {
 	logPath := filepath.Join(p, "logs")
 	util.MakeDir(logPath)
 	fileName := filepath.Join(logPath, "scouter.log")
+	var out io.Writer = os.Stdout
+	var errOut io.Writer = os.Stderr
 	logfile, e := os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
 	if e != nil {
-		log.Fatalln("cannot open log file")
+		log.Printf("[scouter] cannot open log file: %v\n", e)
+	} else {
+		out = io.MultiWriter(logfile, os.Stdout)
+		errOut = io.MultiWriter(logfile, os.Stderr)
 	}
 
-	Trace = log.New(io.MultiWriter(logfile, os.Stdout), "trace:", log.Ldate|log.Ltime|log.Lshortfile)
-	Info = log.New(io.MultiWriter(logfile, os.Stdout), "info:", log.Ldate|log.Ltime|log.Lshortfile)
-	Warning = log.New(io.MultiWriter(logfile, os.Stdout), "warning:", log.Ldate|log.Ltime|log.Lshortfile)
-	Error = log.New(io.MultiWriter(logfile, os.Stderr), "error:", log.Ldate|log.Ltime|log.Lshortfile)
+	Trace = log.New(out, "trace:", log.Ldate|log.Ltime|log.Lshortfile)
+	Info = log.New(out, "info:", log.Ldate|log.Ltime|log.Lshortfile)
+	Warning = log.New(out, "warning:", log.Ldate|log.Ltime|log.Lshortfile)
+	Error = log.New(errOut, "error:", log.Ldate|log.Ltime|log.Lshortfile)
 }
 
 // Error level
-- 
2.43.0


From 26bf46ab828baaaaaa4abe124f8021f2385b8444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 11/32] fix: contain panics of the agent's background
 goroutines

---
 scouterx/common/panic.go                 | 19 +++++++++++++++++++
 scouterx/conf/configure.go               |  3 ++-
 scouterx/counter/collector.go            |  3 ++-
 scouterx/dump/dump.go                    |  9 +++++++++
 scouterx/netio/udpsender/udpsender.go    | 14 ++++++++++----
 scouterx/task/agenttask/agenttask.go     |  3 ++-
 scouterx/task/countertask/countertask.go |  7 +++++--
 7 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/scouterx/common/panic.go b/scouterx/common/panic.go
index 4c5ea28..5e4c46e 100644
--- a/scouterx/common/panic.go
+++ b/scouterx/common/panic.go
@@ -6,6 +6,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"time"
 )
 
 var fSendPanic func(string)
@@ -25,6 +26,24 @@ func ReportScouterPanic() {
 	}
 }
 
+// KeepRunning runs f until it returns, and starts it again after a panic.
+func KeepRunning(f func()) {
+	for !runToEnd(f) {
+		time.Sleep(time.Second)
+	}
+}
+
+// RunSafely runs f and reports a panic instead of letting it end the application.
+func RunSafely(f func()) {
+	runToEnd(f)
+}
+
+func runToEnd(f func()) (ended bool) {
+	defer ReportScouterPanic()
+	f()
+	return true
+}
+
 func Goid() int {
 	defer ReportScouterPanic()
 	var buf [64]byte
diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index df1d3e1..322bf14 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -3,6 +3,7 @@ package conf
 import (
 	"github.com/emirpasic/gods/maps/linkedhashmap"
 	"github.com/magiconair/properties"
+	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"os"
@@ -148,7 +149,7 @@ func GetInstance() *Configure {
 		configure.XlogDiscardServiceShowError = true
 
 		configure.init()
-		go configure.run()
+		go common.KeepRunning(configure.run)
 	})
 	return configure
 }
diff --git a/scouterx/counter/collector.go b/scouterx/counter/collector.go
index 288f310..822153f 100644
--- a/scouterx/counter/collector.go
+++ b/scouterx/counter/collector.go
@@ -1,6 +1,7 @@
 package counter
 
 import (
+	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter/gocounter"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
@@ -12,7 +13,7 @@ var prevGoCounter = gocounter.GoCounter{}
 var activeCounter = NewValueMeter()
 
 func Start() {
-	go start()
+	go common.RunSafely(start)
 }
 
 func start() {
diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index c539fe4..bc035a9 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -20,6 +20,12 @@ import (
 
 const suffix = "pprof"
 
+func reportPanic() {
+	if r := recover(); r != nil {
+		fmt.Printf("[scouter][panic]%+v\n%s", r, StackTrace(100))
+	}
+}
+
 func StackTrace(count int) string {
 	// fine, line
 	pcLen := count
@@ -91,6 +97,7 @@ func ProfileBinaryCpu(sec int) netdata.Pack {
 }
 
 func profileCpu(fileName string, sec int) {
+	defer reportPanic()
 	f, err := os.Create(fileName)
 	if err == nil {
 		defer f.Close()
@@ -124,6 +131,7 @@ func ProfileBlockBinaryDump(sec, rate int) netdata.Pack {
 }
 
 func profileBlock(fileName string, sec, rate, level int) {
+	defer reportPanic()
 	runtime.SetBlockProfileRate(rate)
 	defer runtime.SetBlockProfileRate(-1)
 	time.Sleep(time.Duration(sec) * time.Second)
@@ -165,6 +173,7 @@ func ProfileMutexBinaryDump(sec, rate int) {
 
 
 func profileMutex(fileName string, sec, rate, level int) {
+	defer reportPanic()
 	old := runtime.SetMutexProfileFraction(rate)
 	defer runtime.SetMutexProfileFraction(old)
 	time.Sleep(time.Duration(sec) * time.Second)
diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 2c7b948..e7d9b2f 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -2,6 +2,7 @@ package udpsender
 
 import (
 	"container/list"
+	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpclient"
 	"sync"
@@ -39,8 +40,8 @@ func GetInstance() *UDPSender {
 		udpSender.running = true
 		udpSender.udpClient = udpclient.New(serverAddr, udpServerPort)
 		udpSender.udpClient.SetUDPMaxBytes(udpMaxBytes)
-		go udpSender.run()
-		go reloadUdpSender()
+		go common.KeepRunning(udpSender.run)
+		go common.KeepRunning(reloadUdpSender)
 	})
 	return udpSender
 }
@@ -92,14 +93,19 @@ func (udpSender *UDPSender) SendPackDirect(pack netdata.Pack) {
 	}
 	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)
 	bytes := writePack.Bytes()
-	go udpSender.udpClient.WriteBuffer(bytes)
+	client := udpSender.udpClient
+	go common.RunSafely(func() {
+		client.WriteBuffer(bytes)
+	})
 }
 
 func (udpSender *UDPSender) SendDirect(bufferList *list.List) {
 	if bufferList == nil {
 		return
 	}
-	go udpSender.sendList(bufferList)
+	go common.RunSafely(func() {
+		udpSender.sendList(bufferList)
+	})
 }
 
 func (udpSender *UDPSender) run() {
diff --git a/scouterx/task/agenttask/agenttask.go b/scouterx/task/agenttask/agenttask.go
index a307fbc..92dfbbd 100644
--- a/scouterx/task/agenttask/agenttask.go
+++ b/scouterx/task/agenttask/agenttask.go
@@ -1,6 +1,7 @@
 package agenttask
 
 import (
+	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
@@ -9,7 +10,7 @@ import (
 )
 
 func Start() {
-	go start()
+	go common.KeepRunning(start)
 }
 
 func start() {
diff --git a/scouterx/task/countertask/countertask.go b/scouterx/task/countertask/countertask.go
index 02a4ff8..8355476 100644
--- a/scouterx/task/countertask/countertask.go
+++ b/scouterx/task/countertask/countertask.go
@@ -15,14 +15,17 @@ var prevGoCounter = gocounter.GoCounter{}
 var activeCounter = counter.NewValueMeter()
 
 func Start() {
-	go startRealTimeCounter()
-	go start5MinCounter()
+	go common.KeepRunning(startRealTimeCounter)
+	go common.KeepRunning(start5MinCounter)
 }
 
 func startRealTimeCounter() {
 	for {
 		time.Sleep(2000 * time.Millisecond)
 		pack := getAllCounterOnPack()
+		if pack == nil {
+			continue
+		}
 		netio.SendPackDirect(pack)
 	}
 }
-- 
2.43.0


From 847255273c171052f68075182ec55a2c9fe42ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 12/32] fix: trace object packs only with an open udp socket

---
 scouterx/netio/udpsender/udpsender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index e7d9b2f..54f26cf 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -87,7 +87,7 @@ func (udpSender *UDPSender) AddBuffer(buffer []byte) {
 
 func (udpSender *UDPSender) SendPackDirect(pack netdata.Pack) {
 	if ac.TraceObjSend {
-		if p, ok := pack.(*netdata.ObjectPack); ok {
+		if p, ok := pack.(*netdata.ObjectPack); ok && udpSender.udpClient.Conn != nil {
 			logger.Info.Printf("[scouter] SendPackDirect[ObjPack], to:%s, pack:%s", udpSender.udpClient.Conn.RemoteAddr(), p.ToString())
 		}
 	}
-- 
2.43.0


From d39b4c371bddee9131800aa475421201a252d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 13/32] fix: write thread dumps completely and survive
 unreadable dump entries

---
 scouterx/dump/dump.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index bc035a9..e222599 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -70,7 +70,7 @@ func HeavyAllStackTrace() netdata.Pack {
 func heavyAllStackTrace() (string, error) {
 	fileName := filepath.Join(getDumpPath(), "go_dump_" + time.Now().Format("20060102_150405") + ".log")
 
-	var w io.Writer = os.Stdout
+	var w = bufio.NewWriter(os.Stdout)
 	if fileName != "" {
 		f, err := os.Create(fileName)
 		if err == nil {
@@ -85,7 +85,10 @@ func heavyAllStackTrace() (string, error) {
 		logger.Error.Printf("could not find goroutine profile\n")
 		return "", errors.New("could not find goroutine profile")
 	}
-	return fileName, profile.WriteTo(w, 2)
+	if err := profile.WriteTo(w, 2); err != nil {
+		return "", err
+	}
+	return fileName, w.Flush()
 }
 
 func ProfileBinaryCpu(sec int) netdata.Pack {
@@ -149,6 +152,7 @@ func profileBlock(fileName string, sec, rate, level int) {
 	profile := pprof.Lookup("block")
 	if profile == nil {
 		logger.Error.Printf("could not find block profile\n")
+		return
 	}
 	if err := profile.WriteTo(w, level); err != nil {
 		logger.Error.Printf("could not run block profile: %s\n", err)
@@ -191,6 +195,7 @@ func profileMutex(fileName string, sec, rate, level int) {
 	profile := pprof.Lookup("mutex")
 	if profile == nil {
 		logger.Error.Printf("could not find mutex profile\n")
+		return
 	}
 	if err := profile.WriteTo(w, level); err != nil {
 		logger.Error.Printf("could not run mutex profile: %s\n", err)
@@ -224,7 +229,7 @@ func ListDumpFiles() netdata.Pack {
 	dumpPath := getDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
-		if !info.IsDir() {
+		if err == nil && !info.IsDir() {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
 			modifiedLv.AddInt64(util.TimeToMillis(info.ModTime()))
@@ -245,7 +250,7 @@ func ListBinaryDumpFiles() netdata.Pack {
 	dumpPath := getBinaryDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
-		if !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {
+		if err == nil && !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
 		}
-- 
2.43.0


From 95b01f428c5e67cdf6d281bb5fec8c4fb6e261b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 14/32] fix: keep dump file commands inside the dump
 directories

---
 scouterx/dump/dump.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index e222599..e537ccb 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -217,6 +217,11 @@ func getBinaryDumpPath() string {
 	return dumpPath
 }
 
+// isFileName tells whether name denotes a file directly inside a dump directory.
+func isFileName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/\\")
+}
+
 func ListDumpFiles() netdata.Pack {
 	pack := netdata.NewMapPack()
 	nameLv := netdata.NewListValue()
@@ -261,7 +266,7 @@ func ListBinaryDumpFiles() netdata.Pack {
 }
 
 func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if !isFileName(fileName) || !strings.HasSuffix(fileName, suffix){
 		return
 	}
 	dumpPath := getBinaryDumpPath()
@@ -298,7 +303,7 @@ func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
 
 func DeleteBinaryDumpFiles(fileName string) netdata.Pack {
 	pack := netdata.NewMapPack()
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if !isFileName(fileName) || !strings.HasSuffix(fileName, suffix){
 		pack.Put("success", netdata.NewBooleanValue(false))
 		pack.Put("msg", "no fileName")
 		return pack
@@ -323,6 +328,9 @@ func StreamDumpFileContents(param netdata.Pack, out *netdata.DataOutputX) {
 		return
 	}
 	name := p.GetString("name")
+	if !isFileName(name) {
+		return
+	}
 	dumpFile := filepath.Join(getDumpPath(), name)
 
 	data, err := os.Open(dumpFile)
-- 
2.43.0


From 8aaaf411068dfc29388f7614acdb440a22e4bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 15/32] fix: store every plain value type put into a map

---
 scouterx/common/netdata/mappack.go              |  2 ++
 scouterx/common/netdata/mapvalue.go             | 12 ++++++++++++
 scouterx/common/netdata/perfcounter_k8s_pack.go |  3 ++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/mappack.go b/scouterx/common/netdata/mappack.go
index f798aa2..79f7f21 100644
--- a/scouterx/common/netdata/mappack.go
+++ b/scouterx/common/netdata/mappack.go
@@ -84,6 +84,8 @@ func (mapPack *MapPack) Put(key string, any interface{}) {
 		mapPack.Table[key] = t
 	case float32:
 		mapPack.Table[key] = NewFloatValue(t)
+	case float64:
+		mapPack.Table[key] = NewDoubleValue(t)
 	case uint32:
 		mapPack.Table[key] = NewDecimalValue(int64(t))
 	case int:
diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 92b6ad2..b8c5a06 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -74,6 +74,18 @@ func (mapValue *MapValue) Put(key string, any interface{}) {
 		mapValue.Table[key] = NewTextValue(any.(string))
 	case int64:
 		mapValue.Table[key] = NewDecimalValue(any.(int64))
+	case int:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int)))
+	case int32:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int32)))
+	case uint:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(uint)))
+	case uint32:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(uint32)))
+	case uint64:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(uint64)))
+	case float64:
+		mapValue.Table[key] = NewDoubleValue(any.(float64))
 	case bool:
 		mapValue.Table[key] = NewBooleanValue(any.(bool))
 	case float32:
diff --git a/scouterx/common/netdata/perfcounter_k8s_pack.go b/scouterx/common/netdata/perfcounter_k8s_pack.go
index 0bacbc5..73b3a06 100644
--- a/scouterx/common/netdata/perfcounter_k8s_pack.go
+++ b/scouterx/common/netdata/perfcounter_k8s_pack.go
@@ -90,7 +90,8 @@ func (pack *PerfCounterK8SPack) Put(key string, any interface{}) {
 		pack.Data.Put(key, NewTextValue(v))
 	case bool:
 		pack.Data.Put(key, NewBooleanValue(v))
-
+	default:
+		pack.Data.Put(key, any)
 	}
 
 }
-- 
2.43.0


From 21b97f2693a1eb0328a8007f58d208a251e4786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 16/32] fix: end a service once even when two goroutines end it
 together

---
 scouterx/netio/tracecontext.go | 11 +++++++++++
 scouterx/strace/tracemain.go   |  3 +--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/tracecontext.go b/scouterx/netio/tracecontext.go
index 28726fa..d50dda6 100644
--- a/scouterx/netio/tracecontext.go
+++ b/scouterx/netio/tracecontext.go
@@ -5,11 +5,13 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util/keygen"
 	"strconv"
+	"sync/atomic"
 	"time"
 )
 
 type TraceContext struct {
 	Closed     bool
+	ended      int32
 	Noop       bool
 	LastMethod string
 	IsStream   bool
@@ -85,6 +87,15 @@ func NewTraceContext() *TraceContext {
 	return context
 }
 
+// TryEnd marks the trace as closed and tells whether the caller is the one who closed it.
+func (tctx *TraceContext) TryEnd() bool {
+	if !atomic.CompareAndSwapInt32(&tctx.ended, 0, 1) {
+		return false
+	}
+	tctx.Closed = true
+	return true
+}
+
 func NewNoopTraceContext() *TraceContext {
 	context := new(TraceContext)
 	context.Txid = -1
diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index aee471c..3d4a5ae 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -371,10 +371,9 @@ func endStuckServiceForcibly(tctx *netio.TraceContext) {
 }
 
 func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
-	if tctx.Closed {
+	if tctx.Closed || !tctx.TryEnd() {
 		return
 	}
-	tctx.Closed = true
 
 	tctx.ServiceHash = netio.SendServiceName(tctx.ServiceName)
 	tctxmanager.End(tctx)
-- 
2.43.0


From 62813cf58ef19fd1efb7677d890c6ebb660a5977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 17/32] fix: count the last profile steps in the xlog

---
 scouterx/strace/tracemain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 3d4a5ae..b7eb424 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -380,11 +380,12 @@ func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
 
 	elapsed := util.MillisToNow(tctx.StartTime)
 	discardType := findXLogDiscard(tctx, elapsed)
-	xlog := tctx.ToXlog(discardType, elapsed)
 
 	writeProfile := discardType == netdata.XLOG_DISCARD_NONE //TODO consequence sampling
 	tctx.Profile.Close(writeProfile)
 
+	xlog := tctx.ToXlog(discardType, elapsed)
+
 	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)
 	//TODO meteringInteraction
 
-- 
2.43.0


From b20c6453828b238d20f986c8cd55b541f9a9cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 18/32] fix: honour xlog_discard_service_show_error

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index b7eb424..8f33d7c 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -407,7 +407,7 @@ func findXLogDiscard(tctx *netio.TraceContext, elapsed int32) netdata.XlogDiscar
 	//check xlog discard pattern
 	if GetXlogSampler().isDiscardServicePattern(tctx.ServiceName) {
 		discardMode = netdata.XLOG_DISCARD_ALL_FORCE
-		if tctx.Error != 0 {
+		if tctx.Error != 0 && ac.XlogDiscardServiceShowError {
 			discardMode = netdata.XLOG_DISCARD_NONE
 		}
 	}
-- 
2.43.0


From 95f7893866b6555b6408d7fe8eb2b7faa8fd554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 19/32] fix: evaluate comma separated service patterns as
 patterns

---
 scouterx/common/util/strmatch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index 5b6ebfd..0504240 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -103,7 +103,7 @@ func (m *StrMatch) include(target string) bool {
 		if x < 0 {
 			return false
 		}
-		return strings.Contains(target, m.mid2) && strings.HasSuffix(target, m.end)
+		return strings.Contains(target[x+len(m.mid):], m.mid2)
 	case c_MID_END:
 		return strings.Contains(target, m.mid) && strings.HasSuffix(target, m.end)
 	case c_END:
@@ -122,7 +122,7 @@ func NewCommaSeparatedChainedStrMatcher(patterns string) CommaSeparatedChainedSt
 	matcher := CommaSeparatedChainedStrMatcher{}
 	arrPatterns := strings.Split(patterns, ",")
 	for _, pattern := range arrPatterns {
-		matcher.strMatches = append(matcher.strMatches, StrMatch{Pattern: pattern})
+		matcher.strMatches = append(matcher.strMatches, NewStrMatch(pattern))
 	}
 	return matcher
 }
-- 
2.43.0


From ce4512f1682eabff30216e6a8137eb9772f15ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 20/32] fix: read environment values up to their end

---
 scouterx/conf/configure.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 322bf14..a58c3ca 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -228,8 +228,10 @@ func (conf *Configure) Refresh() {
 	if info == nil || info.ModTime().After(conf.lastModified) {
 		props := properties.NewProperties()
 		for _, e := range os.Environ() {
-			pair := strings.Split(e, "=")
-			props.Set(pair[0], pair[1])
+			pair := strings.SplitN(e, "=", 2)
+			if len(pair) == 2 {
+				props.Set(pair[0], pair[1])
+			}
 		}
 
 		fileProps, err := properties.LoadFile(filePath, properties.UTF8)
-- 
2.43.0


From 65d1e5303053a11341f43b131e1c16b311df02e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 21/32] fix: ignore sizes that are not positive in the
 configuration

---
 scouterx/conf/configure.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index a58c3ca..4eea599 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -304,6 +304,15 @@ func intOf(props *properties.Properties, key string, defaultValue int, desc stri
 	return value
 }
 
+// positiveIntOf falls back to the default when the configured value is not positive.
+func positiveIntOf(props *properties.Properties, key string, defaultValue int, desc string) int {
+	value := intOf(props, key, defaultValue, desc)
+	if value <= 0 {
+		return defaultValue
+	}
+	return value
+}
+
 func stringOf(props *properties.Properties, key string, defaultValue string, desc string) string {
 	descSync.Lock()
 	defer descSync.Unlock()
@@ -341,14 +350,14 @@ func (conf *Configure) addToConf(props *properties.Properties) {
 	conf._trace = props.GetBool("_trace", false)
 
 	conf.TraceObjSend = boolOf(props, "trace_obj_send", false, "")
-	conf.SendQueueSize = intOf(props, "send_queue_size", 3000, "")
+	conf.SendQueueSize = positiveIntOf(props, "send_queue_size", 3000, "")
 
 	conf.NetCollectorIP = stringOf(props, "net_collector_ip", "127.0.0.1", "")
 	conf.NetCollectorUDPPort = intOf(props, "net_collector_udp_port", 6100, "")
 	conf.NetCollectorTCPPort = intOf(props, "net_collector_tcp_port", 6100, "")
 	conf.NetCollectorTcpSoTimeoutMs = intOf(props, "net_collector_tcp_so_timeout_ms", 60000, "")
 	conf.NetCollectorTcpConnectionTimeoutMs = intOf(props, "net_collector_tcp_connection_timeout_ms", 3000, "")
-	conf.UDPMaxBytes = intOf(props, "udp_max_bytes", 60000, "")
+	conf.UDPMaxBytes = positiveIntOf(props, "udp_max_bytes", 60000, "")
 
 	conf.StuckServiceBaseTimeMs = intOf(props, "stuck_service_base_time_ms", 300000, "")
 	conf.StuckServiceRemoveEnabled = boolOf(props, "stuck_service_remove_enabled", true, "")
@@ -357,8 +366,8 @@ func (conf *Configure) addToConf(props *properties.Properties) {
 	conf.TraceActiveserviceYellowTime = intOf(props, "trace_activeservice_yellow_time", 3000, "")
 	conf.TraceActiveserviceRedTime = intOf(props, "trace_activeservice_red_time", 8000, "")
 
-	conf.ProfileStepMaxKeepInMemoryCount = intOf(props, "profile_step_max_keep_in_memory_count", 2048, "")
-	conf.ProfileStepMaxCount = intOf(props, "profile_step_max_count", 1024, "")
+	conf.ProfileStepMaxKeepInMemoryCount = positiveIntOf(props, "profile_step_max_keep_in_memory_count", 2048, "")
+	conf.ProfileStepMaxCount = positiveIntOf(props, "profile_step_max_count", 1024, "")
 
 	conf.ProfileHttpQuerystringEnabled = boolOf(props, "profile_http_querystring_enabled", false, "")
 	conf.ProfileHttpHeaderEnabled = boolOf(props, "profile_http_header_enabled", false, "")
-- 
2.43.0


From ad4b7caa8098cd7f43bebf27ffb9dc47fe14904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 22/32] fix: read the caches only while holding their lock

---
 scouterx/common/structure/cachemap/cachemap.go   | 10 +++++-----
 scouterx/common/structure/cachemap2/cachemap2.go | 12 ++++++------
 scouterx/common/structure/cacheset/cacheset.go   |  2 ++
 scouterx/common/structure/lra/lra.go             |  6 ++----
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/scouterx/common/structure/cachemap/cachemap.go b/scouterx/common/structure/cachemap/cachemap.go
index fad02b2..955d701 100644
--- a/scouterx/common/structure/cachemap/cachemap.go
+++ b/scouterx/common/structure/cachemap/cachemap.go
@@ -14,15 +14,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	for _, v := range m.table.Values() {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
@@ -90,10 +88,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.table.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.table.Size()
 }
 
@@ -104,5 +104,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.table.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index fce8574..781d7c6 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -18,15 +18,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	for _, v := range m.table {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
@@ -41,7 +39,7 @@ func New(maxSize int) *CacheMap {
 	once.Do(func() {
 		go func() {
 			for {
-				if m.ordering.Size() > m.maxSize/2 {
+				if m.Size() > m.maxSize/2 {
 					time.Sleep(500 * time.Millisecond)
 					//TODO
 				} else {
@@ -105,10 +103,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.ordering.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.ordering.Size()
 }
 
@@ -121,5 +121,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.ordering.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cacheset/cacheset.go b/scouterx/common/structure/cacheset/cacheset.go
index 607aebb..af0669a 100644
--- a/scouterx/common/structure/cacheset/cacheset.go
+++ b/scouterx/common/structure/cacheset/cacheset.go
@@ -62,6 +62,8 @@ func (set *CacheSet) Empty() bool {
 }
 
 func (set *CacheSet) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return set.table.Size()
 }
 
diff --git a/scouterx/common/structure/lra/lra.go b/scouterx/common/structure/lra/lra.go
index 317681d..da16e74 100644
--- a/scouterx/common/structure/lra/lra.go
+++ b/scouterx/common/structure/lra/lra.go
@@ -71,7 +71,7 @@ func (c *Cache) Contains(key interface{}) bool {
 func (c *Cache) Empty() bool {
 	lock.RLock()
 	defer lock.RUnlock()
-	return c.Size() == 0
+	return c.lst.Len() == 0
 }
 
 
@@ -119,18 +119,16 @@ func (c *Cache) Clear() {
 }
 
 func (c *Cache) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	for _, e := range c.table {
-		lock.RUnlock()
 		if e != nil {
 			kv := e.Value.(*entry)
 			if kv != nil && kv.value != nil {
 				l = append(l, kv.value)
 			}
 		}
-		lock.RLock()
 	}
 	return l
 }
-- 
2.43.0


From 4638403b2ffc65af6c02ae6febd9091df0edb0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 23/32] fix: hold the lock while summing meters and setting the
 observer

---
 scouterx/conf/opserver.go           | 3 +++
 scouterx/counter/serviceMetering.go | 2 ++
 scouterx/counter/valueMetering.go   | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/scouterx/conf/opserver.go b/scouterx/conf/opserver.go
index 827a32f..8308e59 100644
--- a/scouterx/conf/opserver.go
+++ b/scouterx/conf/opserver.go
@@ -18,6 +18,9 @@ func AddToConfObserver(name string, r Runnable) {
 }
 
 func AddObjChangedObserver(r Runnable) {
+	observerLock.Lock()
+	defer observerLock.Unlock()
+
 	objChangeObserver = r
 }
 
diff --git a/scouterx/counter/serviceMetering.go b/scouterx/counter/serviceMetering.go
index c17bed1..c3bc3f0 100644
--- a/scouterx/counter/serviceMetering.go
+++ b/scouterx/counter/serviceMetering.go
@@ -59,6 +59,8 @@ func (g *ServiceMetering) Add(elapsed int, err bool) {
 }
 
 func (g *ServiceMetering) GetAllCounter(period int) *ServiceCounter {
+	g.Lock()
+	defer g.Unlock()
 	var countSum int
 	var elapsedSum int
 	var errorSum int
diff --git a/scouterx/counter/valueMetering.go b/scouterx/counter/valueMetering.go
index 4af8c9c..d647939 100644
--- a/scouterx/counter/valueMetering.go
+++ b/scouterx/counter/valueMetering.go
@@ -43,6 +43,8 @@ func (g *ValueMetering) Add(value float64) {
 }
 
 func (g *ValueMetering) GetAllCounter(period int) *ValueMetric {
+	g.Lock()
+	defer g.Unlock()
 	var sum float64
 	var count int32
 	var avg float64
-- 
2.43.0


From f9e77b411c342e37791a238606232d8db0c42565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 24/32] fix: send tps and error rate under their own names

---
 scouterx/counter/collector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/counter/collector.go b/scouterx/counter/collector.go
index 822153f..63641ad 100644
--- a/scouterx/counter/collector.go
+++ b/scouterx/counter/collector.go
@@ -50,9 +50,9 @@ func SendServiceCounter() {
 
 	//TODO activeCounter
 	//TODO WAS_ACTIVE_SERVICE, WAS_ACTIVE_SPEED
-	pack.Put(TPS, counter.ErrorRate)
+	pack.Put(TPS, counter.Tps)
 	pack.Put(ELAPSED_TIME, counter.Elapsed)
-	pack.Put(ERROR_RATE, counter.Tps)
+	pack.Put(ERROR_RATE, counter.ErrorRate)
 
 	netio.SendPackDirect(pack)
 }
-- 
2.43.0


From 41fa228cc166a40df5cd438f176e5f99bff08f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 25/32] fix: survive a stuck service before tracing has started

---
 scouterx/strace/tctxmanager/tctxmanager.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scouterx/strace/tctxmanager/tctxmanager.go b/scouterx/strace/tctxmanager/tctxmanager.go
index dc046b8..818bb73 100644
--- a/scouterx/strace/tctxmanager/tctxmanager.go
+++ b/scouterx/strace/tctxmanager/tctxmanager.go
@@ -3,6 +3,7 @@ package tctxmanager
 import (
 	"context"
 	"fmt"
+	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/lra"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
@@ -93,8 +94,10 @@ func GetActiveCount() [3]int64 {
 			active[2]++
 		}
 		if elapsed > ac.StuckServiceBaseTimeMs {
-			fEndStuckServiceForcibly(tctx)
-			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d, tctxGoId: %d", tctx.ServiceName, elapsed, tctx.Goid)
+			if fEndStuckServiceForcibly != nil {
+				fEndStuckServiceForcibly(tctx)
+			}
+			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d, tctxGoId: %d", tctx.ServiceName, elapsed, common.Goid(), tctx.Goid)
 			if ac.StuckServiceAlertEnabled {
 				netio.SendAlert(netdata.AlertError, "STUCK_SERVICE", message)
 			} else {
-- 
2.43.0


From 2f89550d77577d3e3b36c2eccea7687cb4c70c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 26/32] fix: always return a usable context from the start
 functions

---
 scouterx/strace/tracemain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 8f33d7c..47f6b17 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -155,6 +155,7 @@ func StartHttpService(ctx context.Context, req *http.Request) (newCtx context.Co
 	if ctx == nil {
 		return context.Background()
 	}
+	newCtx = ctx
 	if tctxmanager.GetTraceContext(ctx) != nil {
 		return ctx
 	}
@@ -213,6 +214,7 @@ func StartService(ctx context.Context, serviceName, remoteIp string) (newCtx con
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	newCtx = ctx
 	if tctxmanager.GetTraceContext(ctx) != nil {
 		return ctx
 	}
@@ -233,6 +235,10 @@ func StartNewInheritanceService(ctx context.Context, parentTctx *netio.TraceCont
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	newCtx = ctx
+	if parentTctx == nil {
+		return newCtx, nil
+	}
 	newCtx, newTctx = startService(ctx, parentTctx.ServiceName, parentTctx.RemoteIp)
 	newTctx = inheritTctx(newTctx, parentTctx)
 
-- 
2.43.0


From b064fa1f17ec5de871a88585d7b94d46bdd1ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 27/32] fix: run the traced goroutine even when tracing it
 fails

---
 scouterx/strace/tracemain.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 47f6b17..19d2896 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -298,13 +298,15 @@ func GoWithTrace(ctx context.Context, serviceName string, func4Goroutine func(ca
 	go func() {
 		if childTctx != nil {
 			childTctx.StartTime = time.Now()
+			defer endChildGoroutineService(newCtx)
 		}
-		defer endChildGoroutineService(newCtx)
 		func4Goroutine(newCtx)
 	}()
 }
 
 func startChildGoroutineService(ctx context.Context, serviceName string) (ctx4Goroutine context.Context, childTctx *netio.TraceContext) {
+	defer common.ReportScouterPanic()
+	ctx4Goroutine = ctx
 	if ctx == nil {
 		return ctx, nil
 	}
-- 
2.43.0


From 6d999336f67f07658652b3342245312ac3cccb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 28/32] fix: contain panics of the agent's start-up

---
 scouterx/agent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scouterx/agent.go b/scouterx/agent.go
index ef4ed1e..fc6ee5c 100644
--- a/scouterx/agent.go
+++ b/scouterx/agent.go
@@ -26,6 +26,7 @@ func init() {
 
 func Init() {
 	agentOnce.Do(func() {
+		defer common.ReportScouterPanic()
 		common.RegisterSendPanicF(netio.SendPanic)
 		conf.GetInstance()
 		strace.StartTracingMode()
-- 
2.43.0


From c91a78d616719e2c27853d5ba00c379eaeda49ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 29/32] fix: leave a collector session when the address it was
 dialled to is no longer configured

---
 scouterx/netio/tcpclient/tcpclient.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index 356ffc6..6c85473 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -71,8 +71,8 @@ func (c *TCPClient) Process() error {
 	out := netdata.NewDataOutputX(c.conn)
 	defer c.conn.Close()
 
-	serverAddr := ac.NetCollectorIP
-	serverPort := ac.NetCollectorTCPPort
+	serverAddr := c.host
+	serverPort := c.port
 
 	_, err := out.WriteInt32(int32(netcafeconstant.TCP_AGENT_V2))
 	_, err = out.WriteInt32(c.objHash)
-- 
2.43.0


From c24db29a8b9b957fac436e7bd9281d90518bde41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 30/32] fix: guard the sampler's matchers against a
 configuration reload during a request

---
 scouterx/strace/xlogsampler.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/scouterx/strace/xlogsampler.go b/scouterx/strace/xlogsampler.go
index 4658988..95703f6 100644
--- a/scouterx/strace/xlogsampler.go
+++ b/scouterx/strace/xlogsampler.go
@@ -12,6 +12,8 @@ var xlogSamplerOnce sync.Once
 var xlogSampler *XlogSampler
 
 type XlogSampler struct {
+	matcherLock sync.RWMutex
+
 	currentExcludeSamplingPattern   string
 	currentDiscardServicePatterns   string
 	currentSamplingServicePatterns  string
@@ -48,6 +50,9 @@ func GetXlogSampler() *XlogSampler {
 func (sampler *XlogSampler) Run() {
 	ac := conf.GetInstance()
 
+	sampler.matcherLock.Lock()
+	defer sampler.matcherLock.Unlock()
+
 	if sampler.currentExcludeSamplingPattern != ac.XlogSamplingExcludePatterns {
 		sampler.currentExcludeSamplingPattern = ac.XlogSamplingExcludePatterns
 		sampler.excludeSamplingPatternMatcher = util.NewCommaSeparatedChainedStrMatcher(ac.XlogSamplingExcludePatterns)
@@ -199,6 +204,8 @@ func (sampler *XlogSampler) isExcludeSamplingServicePattern(serviceName string)
 	if ac.XlogSamplingExcludePatterns == "" {
 		return false
 	}
+	sampler.matcherLock.RLock()
+	defer sampler.matcherLock.RUnlock()
 	if sampler.excludeSamplingPatternMatcher.IsMatch(serviceName) {
 		return true
 	} else {
@@ -210,6 +217,8 @@ func (sampler *XlogSampler) isDiscardServicePattern(serviceName string) bool {
 	if ac.XlogDiscardServicePatterns == "" {
 		return false
 	}
+	sampler.matcherLock.RLock()
+	defer sampler.matcherLock.RUnlock()
 	if sampler.discardPatternMatcher.IsMatch(serviceName) {
 		return true
 	} else {
@@ -221,6 +230,8 @@ func (sampler *XlogSampler) isSamplingServicePattern(serviceName string) bool {
 	if ac.XlogPatternedSamplingServicePatterns == "" {
 		return false
 	}
+	sampler.matcherLock.RLock()
+	defer sampler.matcherLock.RUnlock()
 	if sampler.samplingPatternMatcher.IsMatch(serviceName) {
 		return true
 	} else {
@@ -232,6 +243,8 @@ func (sampler *XlogSampler) isSampling2ServicePattern(serviceName string) bool {
 	if ac.XlogPatterned2SamplingServicePatterns == "" {
 		return false
 	}
+	sampler.matcherLock.RLock()
+	defer sampler.matcherLock.RUnlock()
 	if sampler.sampling2PatternMatcher.IsMatch(serviceName) {
 		return true
 	} else {
@@ -243,6 +256,8 @@ func (sampler *XlogSampler) isSampling3ServicePattern(serviceName string) bool {
 	if ac.XlogPatterned3SamplingServicePatterns == "" {
 		return false
 	}
+	sampler.matcherLock.RLock()
+	defer sampler.matcherLock.RUnlock()
 	if sampler.sampling3PatternMatcher.IsMatch(serviceName) {
 		return true
 	} else {
-- 
2.43.0


From 9422607d7296e91c41f2b9b131ce3f8a57b2beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:19 +0000
Subject: [PATCH 31/32] fix: keep int8, int16, uint8 and uint16 values put in a
 map

---
 scouterx/common/netdata/mappack.go  | 8 ++++++++
 scouterx/common/netdata/mapvalue.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/scouterx/common/netdata/mappack.go b/scouterx/common/netdata/mappack.go
index 79f7f21..e46c3bd 100644
--- a/scouterx/common/netdata/mappack.go
+++ b/scouterx/common/netdata/mappack.go
@@ -76,6 +76,14 @@ func (mapPack *MapPack) Put(key string, any interface{}) {
 		mapPack.Table[key] = NewTextValue(t)
 	case int32:
 		mapPack.Table[key] = NewDecimalValue(int64(t))
+	case int16:
+		mapPack.Table[key] = NewDecimalValue(int64(t))
+	case int8:
+		mapPack.Table[key] = NewDecimalValue(int64(t))
+	case uint8:
+		mapPack.Table[key] = NewDecimalValue(int64(t))
+	case uint16:
+		mapPack.Table[key] = NewDecimalValue(int64(t))
 	case int64:
 		mapPack.Table[key] = NewDecimalValue(t)
 	case bool:
diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index b8c5a06..5ef2ec3 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -78,6 +78,14 @@ func (mapValue *MapValue) Put(key string, any interface{}) {
 		mapValue.Table[key] = NewDecimalValue(int64(any.(int)))
 	case int32:
 		mapValue.Table[key] = NewDecimalValue(int64(any.(int32)))
+	case int16:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int16)))
+	case int8:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int8)))
+	case uint8:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(uint8)))
+	case uint16:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(uint16)))
 	case uint:
 		mapValue.Table[key] = NewDecimalValue(int64(any.(uint)))
 	case uint32:
-- 
2.43.0


From 90485b16a4f1efb5d1b3972ed9f083bc684a8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:20 +0000
Subject: [PATCH 32/32] fix: do not let the literals of a service pattern
 overlap in the name

---
 scouterx/common/util/strmatch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index 0504240..0ce4ec6 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -93,9 +93,9 @@ func (m *StrMatch) include(target string) bool {
 	case c_STR:
 		return strings.HasPrefix(target, m.start)
 	case c_STR_MID:
-		return strings.HasPrefix(target, m.start) && strings.Contains(target, m.mid)
+		return strings.HasPrefix(target, m.start) && strings.Contains(target[len(m.start):], m.mid)
 	case c_STR_END:
-		return strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
+		return len(target) >= len(m.start)+len(m.end) && strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
 	case c_MID:
 		return strings.Contains(target, m.mid)
 	case c_MID_MID:
@@ -105,7 +105,7 @@ func (m *StrMatch) include(target string) bool {
 		}
 		return strings.Contains(target[x+len(m.mid):], m.mid2)
 	case c_MID_END:
-		return strings.Contains(target, m.mid) && strings.HasSuffix(target, m.end)
+		return strings.HasSuffix(target, m.end) && strings.Contains(target[:len(target)-len(m.end)], m.mid)
 	case c_END:
 		return strings.HasSuffix(target, m.end)
 	default:
-- 
2.43.0


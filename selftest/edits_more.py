N='common/netdata/'; I=N+'datainputx.go'; O=N+'dataoutputx.go'; L=N+'listvalue.go'; M=N+'mapvalue.go'; MP=N+'mappack.go'; X=N+'xlogpack.go'; S=N+'step.go'; V=N+'valuecreator.go'
EDITS=[
('C01','catch','n-alert-tags-empty',[(N+'alertpack.go','	_, err = out.WriteValue(p.Tags)\n','	if !p.Tags.IsEmpty() {\n		_, err = out.WriteValue(p.Tags)\n	} else {\n		_, err = out.WriteValue(nil)\n	}\n')]),
('C01','catch','n-ip-len',[(X,'	o.WriteBlob(p.Ipaddr)\n','	if len(p.Ipaddr) == 4 {\n		o.WriteBlob(p.Ipaddr)\n	} else {\n		o.WriteBlob(nil)\n	}\n')]),
('C01','catch','n-shared-buffer',[(X,'	o := NewDataOutputX(nil)\n','	o := NewDataOutputX(&xlogBuf)\n'),(X,'func NewXlogPack()','var xlogBuf bytes.Buffer\n\nfunc NewXlogPack()'),(X,'	"strconv"\n','	"bytes"\n	"strconv"\n')]),
('C01','catch','n-elapsed-neg',[(X,'	o.WriteDecimal32(p.Elapsed)\n','	if p.Elapsed < 0 {\n		p.Elapsed = 0\n	}\n	o.WriteDecimal32(p.Elapsed)\n')]),
('C01','catch','n-empty-param',[(N+'pmessagestep.go','		b.WriteString(s)\n','		if s == "" {\n			continue\n		}\n		b.WriteString(s)\n')]),
('C01','catch','n-steps-stop',[(S,'			dout.WriteStep(step)\n','			if _, err := dout.WriteStep(step); err != nil {\n				break\n			}\n')]),
('C01','catch','n-map-break',[(MP,'		_, err = out.WriteValue(value)\n	}\n	return err','		if value == nil {\n			continue\n		}\n		_, err = out.WriteValue(value)\n	}\n	return err')]),
('C01','catch','n-value-empty-map',[(O,'	if value == nil {\n		value = NewNilValue()\n	}\n','	if value == nil {\n		value = NewNilValue()\n	}\n	if m, ok := value.(*MapValue); ok && len(m.Table) == 0 {\n		value = NewNilValue()\n	}\n')]),
('C01','catch','n-steps-dedupe',[(S,'	for _, step := range steps {\n		if step != nil {\n','	var last Step\n	for _, step := range steps {\n		if step != nil && step != last {\n			last = step\n')]),
('C01','catch','n-apicall-time-clamp',[(X,'	o.WriteDecimal32(p.ApicallTime)\n','	t := p.ApicallTime\n	if t > p.Elapsed {\n		t = p.Elapsed\n	}\n	o.WriteDecimal32(t)\n')]),
('C01','catch','n-step-write-err',[(O,'	err = step.Write(out)\n','	if err == nil && step.GetOrder() >= 0 {\n		err = step.Write(out)\n	}\n')]),
('C01','catch','n-profile-pack',[(N+'xlogprofilepack.go','WriteDecimal32(p.Elapsed)','WriteDecimal(int64(int16(p.Elapsed)))')]),
('C02','catch','n-read-nil-skip',[(M,'		mapValue.Table[key] = value\n	}\n	return','		if _, ok := value.(*NilValue); ok {\n			continue\n		}\n		mapValue.Table[key] = value\n	}\n	return')]),
('C02','catch','n-shared-instance',[(V,'		return NewTextHashEmptyValue()','		return textHashProto'),(V,'func CreateValue','var textHashProto = NewTextHashEmptyValue()\n\nfunc CreateValue')]),
('C02','catch','n-key-trim',[(MP,'		mapPack.Table[key] = value\n	}\n	return','		mapPack.Table[strings.TrimSpace(key)] = value\n	}\n	return'),(MP,'import (\n','import (\n	"strings"\n')]),
('C02','catch','n-first-wins',[(MP,'		mapPack.Table[key] = value\n	}\n	return','		if mapPack.ContainsKey(key) {\n			continue\n		}\n		mapPack.Table[key] = value\n	}\n	return')]),
('C02','catch','n-list-fresh',[(L,'	size, err := in.ReadDecimal()\n','	size, err := in.ReadDecimal()\n	if size > 1000 {\n		size = 1000\n	}\n')]),
('C02','catch','n-obj-alive',[(N+'objectpack.go','	objectPack.Family, err = in.ReadInt8()\n','	objectPack.Family, err = in.ReadInt8()\n	if objectPack.Wakeup == 0 {\n		objectPack.Alive = true\n	}\n')]),
('C02','catch','n-alert-level',[(N+'alertpack.go','	p.Level = AlertLevel(level)\n','	p.Level = AlertLevel(level & 3)\n')]),
('C02','catch','n-text-xtype-lower',[(N+'textpack.go','texttype.TextType(xtype)','texttype.TextType(strings.ToLower(xtype))'),(N+'textpack.go','import (\n','import (\n	"strings"\n')]),
('C03','catch','n-string-limit-ge',[(O,'length > 100000','length >= 100000')]),
('C03','catch','n-nan',[(O,'	out.written += 4\n	err := binary.Write(out.writer, binary.BigEndian, value)\n	return out, err\n}\n\n// WriteFloat64','	out.written += 4\n	if value != value {\n		value = 0\n	}\n	err := binary.Write(out.writer, binary.BigEndian, value)\n	return out, err\n}\n\n// WriteFloat64')]),
('C03','catch','n-chunk',[(O,'	_, err := out.writer.Write(value)\n	return err\n','	var err error\n	for len(value) > 65536 {\n		_, err = out.writer.Write(value[:65535])\n		value = value[65536:]\n	}\n	_, err = out.writer.Write(value)\n	return err\n')]),
('C03','catch','n-utf8',[(I,'	return string(bytes), err\n','	return strings.ToValidUTF8(string(bytes), ""), err\n'),(I,'	"strconv"\n','	"strconv"\n	"strings"\n')]),
('C03','catch','n-shared-scratch',[(I,'	val := make([]byte, len)\n','	val := in.scratch(len)\n'),(I,'func (in *DataInputX) ReadPack','func (in *DataInputX) scratch(n int32) []byte {\n	if n > int32(cap(in.buf)) {\n		in.buf = make([]byte, n)\n	}\n	return in.buf[:n]\n}\n\nfunc (in *DataInputX) ReadPack'),(I,'	reader io.Reader\n','	reader io.Reader\n	buf []byte\n')]),
('C03','catch','n-minint16',[(O,'	} else if value >= math.MinInt16 && value <= math.MaxInt16 {\n		_, err = out.WriteInt8(2)\n		_, err = out.WriteInt16(int16(value))\n	} else if value >= math.MinInt32 && value <= math.MaxInt32 {\n		_, err = out.WriteInt8(4)\n		_, err = out.WriteInt32(int32(value))\n	} else if','	} else if value > math.MinInt16-2 && value <= math.MaxInt16 {\n		_, err = out.WriteInt8(2)\n		_, err = out.WriteInt16(int16(value))\n	} else if value >= math.MinInt32 && value <= math.MaxInt32 {\n		_, err = out.WriteInt8(4)\n		_, err = out.WriteInt32(int32(value))\n	} else if')]),
('C03','catch','n-read-one-short',[(I,'	if err != nil {\n		val = []byte{}\n	}\n	return val, err\n}\n\nfunc (in *DataInputX) ReadPack','	if err == io.ErrUnexpectedEOF {\n		err = nil\n	}\n	if err != nil {\n		val = []byte{}\n	}\n	return val, err\n}\n\nfunc (in *DataInputX) ReadPack')]),
('C04','catch','n-prealloc',[(L,'	size, err := in.ReadDecimal()\n','	size, err := in.ReadDecimal()\n	listValue.Value = make([]Value, 0, size)\n')]),
('C04','catch','n-eof-ok',[(I,'	return pack.Read(in)\n','	p, err := pack.Read(in)\n	if err == io.EOF {\n		return p, nil\n	}\n	return p, err\n')]),
('C04','catch','n-read-map-eof',[(MP,'		value, err = in.ReadValue()\n		if err != nil {\n			return mapPack, err\n		}\n','		value, err = in.ReadValue()\n		if err != nil {\n			err = nil\n			break\n		}\n')]),
('C04','catch','n-index-table',[(V,'	switch valueType {\n','	if valueKinds[valueType%16] < 0 {\n		return nil\n	}\n	switch valueType {\n'),(V,'func CreateValue','var valueKinds [8]int\n\nfunc CreateValue')]),
('C04','catch','n-count-err',[(MP,'	count, err := in.ReadDecimal()\n','	count, _ := in.ReadDecimal()\n	var err error\n')]),
('C04','catch','n-text-err',[(N+'textpack.go','	p.Text, err = in.ReadString()\n	return p, err\n','	p.Text, _ = in.ReadString()\n	return p, err\n')]),
('C04','catch','n-list-elem-type',[(N+'perfcounterpack.go','	if !ok {\n		return pack, errNotMapValue\n	}\n','	if !ok {\n		return pack, nil\n	}\n')]),
]
EDITS=[(a,b,c,[(f,o.replace('WriteDecimal32(p.Elapsed)','WriteDecimal32(p.Elapsed)') if o else o,n) for f,o,n in d]) for a,b,c,d in EDITS if c!='n-profile-pack']+[
('C03','catch','n-out-global',[(O,'	case nil:\n		out.writer = new(bytes.Buffer)\n','	case nil:\n		out.writer = &spare\n'),(O,'func NewDataOutputX','var spare bytes.Buffer\n\nfunc NewDataOutputX')]),
('C03','catch','n-out-ignored',[(O,'	case io.Writer:\n		out.writer = v\n','	case io.Writer:\n		if _, ok := v.(*bytes.Buffer); !ok {\n			out.writer = v\n		} else {\n			out.writer = new(bytes.Buffer)\n		}\n')]),
('C03','catch','n-in-prefix',[(I,'bytes.NewBuffer(v)','bytes.NewBuffer(v[:len(v)&0xffff])')]),
('C03','catch','n-bytes-cut',[(O,'		return v.Bytes()\n','		b := v.Bytes()\n		if len(b) > 60000 {\n			b = b[:60000]\n		}\n		return b\n')]),
('C03','catch','n-blob-refused',[(I,'		length = int32(uint16(v))\n','		length = int32(uint16(v))\n		if err == nil && length > 32767 {\n			err = errors.New("too long")\n		}\n')]),
('C03','catch','n-decimal-refused',[(I,'		v, err = in.ReadInt64()\n		return v, err\n	default','		v, err = in.ReadInt64()\n		if err == nil && v > 0 && v < 1<<31 {\n			err = errors.New("not canonical")\n		}\n		return v, err\n	default')]),
('C03','quiet','n-out-plain',[(O,'	out := new(DataOutputX)\n	out.written = 0\n	switch v := any.(type) {\n	case nil:\n		out.writer = new(bytes.Buffer)\n	case io.Writer:\n		out.writer = v\n	default:\n		out.writer = new(bytes.Buffer)\n	}\n\n	return out\n','	if w, ok := any.(io.Writer); ok {\n		return &DataOutputX{writer: w}\n	}\n	return &DataOutputX{writer: bytes.NewBuffer(nil)}\n')]),
('C03','quiet','n-in-plain',[(I,'	in := new(DataInputX)\n	switch v:= any.(type) {\n	case []byte :\n		in.reader = bytes.NewBuffer(v)\n	case io.Reader:\n		in.reader = v\n	default:\n		in.reader = nil\n	}\n	return in\n','	if b, ok := any.([]byte); ok {\n		return &DataInputX{reader: bytes.NewReader(b)}\n	}\n	r, _ := any.(io.Reader)\n	return &DataInputX{reader: r}\n')]),
('C03','quiet','n-bytes-if',[(O,'	switch v := out.writer.(type) {\n	case *bytes.Buffer:\n		return v.Bytes()\n	default:\n		return nil\n	}\n','	if v, ok := out.writer.(*bytes.Buffer); ok {\n		return v.Bytes()\n	}\n	return nil\n')]),
('C03','quiet','n-blob-max',[(I,'		length, err = in.ReadInt32()\n	case 0','		length, err = in.ReadInt32()\n		if err == nil && length > 1<<26 {\n			err = errors.New("[scouter] blob too long")\n		}\n	case 0')]),
('C04','quiet','n-prealloc-capped',[(L,'	size, err := in.ReadDecimal()\n','	size, err := in.ReadDecimal()\n	if size > 0 && size <= 64 {\n		listValue.Value = make([]Value, 0, size)\n	}\n')]),
('C04','quiet','n-prealloc-min',[(L,'	size, err := in.ReadDecimal()\n','	size, err := in.ReadDecimal()\n	n := size\n	if n < 0 {\n		n = 0\n	}\n	if n > 1000 {\n		n = 1000\n	}\n	listValue.Value = make([]Value, 0, n)\n')]),
('C04','quiet','n-map-ready',[(N+'mapvalue.go','	mapValue.Table = make(map[string]Value)\n','	mapValue.Table = make(map[string]Value, 8)\n')]),
]
U='netio/udpclient/udpclient.go'; US='netio/udpsender/udpsender.go'; T='strace/tracemain.go'; DP='netio/dataproxy.go'; TC='netio/tcpclient/tcpclient.go'; PC='netio/profilecollector.go'; H='netio/tcpclient/handlers.go'; NC='common/constants/netcafeconstant/netcafeconstants.go'
EDITS+=[
('C05','catch','b-pkid-each',[(U,'	out.WriteInt64(pkid)\n','	out.WriteInt64(keygen.Next())\n')]),
('C05','catch','b-list-not-reset',[(U,'			out = netdata.NewDataOutputX(nil)\n			outCount = 1\n			out.Write(b)\n','			out = netdata.NewDataOutputX(nil)\n			out.Write(b)\n			if outCount > 1 {\n				outCount = 1\n			}\n')]),
('C05','catch','b-frag-stop',[(U,'	if remainder > 0 {\n		udpClient.writeMTUSub(pkid, total, num,  util','	if remainder > 0 && num < 32767 && total > 1 {\n		udpClient.writeMTUSub(pkid, total, num,  util')]),
('C05','catch','b-empty-record',[(U,'		buffLen := len(b)\n','		buffLen := len(b)\n		if buffLen == 0 {\n			continue\n		}\n')]),
('C05','catch','b-mtu-max',[(U,'	udpClient.udpMaxBytes = max\n','	if max > 65507 {\n		max = 65507\n	}\n	udpClient.udpMaxBytes = max\n')]),
('C06','catch','b-drop-oldest',[(US,'	select {\n	case udpSender.udpChannel <- bytes:\n	default:\n','	select {\n	case udpSender.udpChannel <- bytes:\n	default:\n		<-udpSender.udpChannel\n		udpSender.udpChannel <- bytes\n')]),
('C06','catch','b-skip-dup',[(US,'		bytes += len(buffer)\n		bufferList.PushBack(buffer)\n','		bytes += len(buffer)\n		if len(buffer) > 0 {\n			bufferList.PushBack(buffer)\n		}\n')]),
('C06','catch','b-last-one-list',[(US,'	udpSender.udpClient.WriteBufferList(bufferList)\n\n}','	if bufferList.Len() > 1 {\n		udpSender.udpClient.WriteBufferList(bufferList)\n	}\n}')]),
('C06','catch','b-retry',[(US,'			udpSender.udpClient.WriteBuffer(p)\n','			if !udpSender.udpClient.WriteBuffer(p) {\n				udpSender.udpClient.WriteBuffer(p)\n			}\n')]),
('C06','catch','b-direct-inline',[(US,'	client := udpSender.udpClient\n	go common.RunSafely(func() {\n		client.WriteBuffer(bytes)\n	})\n','	client := udpSender.udpClient\n	if len(bytes) < 512 {\n		client.WriteBuffer(bytes)\n		return\n	}\n	go common.RunSafely(func() {\n		client.WriteBuffer(bytes)\n	})\n')]),
('C06','catch','b-direct-type',[(US,'	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)\n	bytes := writePack.Bytes()\n	client','	if _, ok := pack.(*netdata.ObjectPack); ok && len(udpSender.udpChannel) > 0 {\n		udpSender.AddPack(pack)\n		return\n	}\n	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)\n	bytes := writePack.Bytes()\n	client')]),
('C07','catch','b-close-full',[(PC,'	if c.pos > 0 && ok {','	if c.pos > 0 && c.pos < len(c.steps)-1 && ok {')]),
('C07','catch','b-pop-level',[(PC,'	c.parentLevel = ss.GetParent()\n','	if ss.GetParent() >= 0 && ss.GetParent() < c.currentLevel-1 {\n		c.parentLevel = ss.GetParent()\n	}\n')]),
('C07','catch','b-count-after',[(DP,'	tctx.ProfileSize += len(pack.Profile)\n\n	udpsender.GetInstance().SendPackDirect(pack)\n','	udpsender.GetInstance().SendPackDirect(pack)\n	if tctx.ProfileSize < 1<<20 {\n		tctx.ProfileSize += len(pack.Profile)\n	}\n')]),
('C08','catch','b-handle-once',[(TC,'		res := handle(cmd, parameter, in, out0)\n','		res := handle(cmd, parameter, in, out0)\n		if res == nil && len(out0.Bytes()) == 0 {\n			continue\n		}\n')]),
('C08','catch','b-hash-zero',[(TC,'	for c.objHash == ac.ObjHash &&','	for (c.objHash == 0 || c.objHash == ac.ObjHash) &&')]),
('C08','catch','b-mark',[(NC,'0xCAFE1002','0xCAFE1001')]),
('C09','catch','b-meter-zero',[(T,'	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)\n','	if xlog.Elapsed >= 0 {\n		counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)\n	}\n')]),
('C09','catch','b-end-order',[(T,'	tctx.Profile.Close(writeProfile)\n','	if tctx.ProfileCount == 0 || writeProfile {\n		tctx.Profile.Close(writeProfile)\n	}\n')]),
('C09','catch','b-closed-first',[(T,'	if tctx.Closed || !tctx.TryEnd() {\n		return\n	}\n','	if tctx.Closed {\n		return\n	}\n	if !tctx.TryEnd() && tctx.IsStream {\n		return\n	}\n')]),
('C12','catch','b-msg-empty',[(T,'	step := netdata.NewMessageStep(message, util','	if message == "" {\n		return\n	}\n	step := netdata.NewMessageStep(message, util')]),
('C12','catch','b-setname-empty',[(T,'	tctx.ServiceName = serviceName\n	tctx.ServiceHash = netio.SendServiceName(serviceName)\n}','	if serviceName != tctx.ServiceName {\n		tctx.ServiceName = serviceName\n		tctx.ServiceHash = netio.SendServiceName(serviceName)\n	}\n}')]),
('C13','catch','b-xtype-inherit',[(T,'	newTctx.XType = parentTctx.XType\n','	if parentTctx.XType != netdata.XTYPE_BACK_THREAD2 {\n		newTctx.XType = parentTctx.XType\n	}\n')]),
('C13','catch','b-child-gxid-late',[(T,'	if childTctx.Gxid == 0 {\n		childTctx.Gxid = parentTctx.Txid\n		parentTctx.Gxid = parentTctx.Txid\n	}\n','	if childTctx.Gxid == 0 {\n		childTctx.Gxid = parentTctx.Txid\n	}\n')]),
('C13','catch','b-stream-inherit',[(T,'	newTctx.IsStream = parentTctx.IsStream\n','	newTctx.IsStream = newTctx.IsStream || parentTctx.Inherit && parentTctx.IsStream\n')]),
('C13','catch','b-goid',[(T,'	tctx.Gxid = tctx.Txid\n','	if tctx.Gxid == 0 && tctx.Caller != 0 {\n		tctx.Gxid = tctx.Txid\n	}\n')]),
('C35','catch','b-hash-neg',[(DP,'	if errorSent.Contains(hash) {\n','	if hash < 0 || errorSent.Contains(hash) {\n')]),
('C35','catch','b-addkey-late',[(DP,'	serviceNameSent.AddKey(hash)\n	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.SERVICE, hash, name})\n','	if len(name) < 4096 {\n		serviceNameSent.AddKey(hash)\n	}\n	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.SERVICE, hash, name})\n')]),
('C14','catch','b-active-nil-name',[(H,'		service.AddString(tctx.ServiceName)\n','		if tctx.ServiceName != "" {\n			service.AddString(tctx.ServiceName)\n		}\n')]),
('C14','catch','b-desc-empty',[(H,'			mp.Put(desc.Key, desc.Desc)\n','			if desc.Desc != "" {\n				mp.Put(desc.Key, desc.Desc)\n			}\n')]),
('C14','catch','b-refresh-missing',[(H,'		if success {\n			conf','		if success && text != "" {\n			conf')]),
('C14','catch','b-list-shift',[(H,'			keyList.AddString(desc.Key)\n			valueList.AddString(desc.Value)\n','			if desc.Value == "" {\n				continue\n			}\n			keyList.AddString(desc.Key)\n			valueList.AddString(desc.Value)\n')]),
]

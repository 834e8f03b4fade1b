H='netio/tcpclient/handlers.go'
C='netio/tcpclient/tcpclient.go'
M='netio/tcpclient/tcpmanager.go'
D='dump/dump.go'
EDITS=[
# C08
('C08','catch','magic',[(C,'netcafeconstant.TCP_AGENT_V2','netcafeconstant.TCP_AGENT')]),
('C08','catch','hash-first',[(C,'	_, err := out.WriteInt32(int32(netcafeconstant.TCP_AGENT_V2))\n	_, err = out.WriteInt32(c.objHash)\n','	_, err := out.WriteInt32(c.objHash)\n	_, err = out.WriteInt32(int32(netcafeconstant.TCP_AGENT_V2))\n')]),
('C08','catch','no-port-check',[(C,' && serverPort == ac.NetCollectorTCPPort {',' {'),(C,'	serverPort := c.port\n','')]),
('C08','catch','no-hash-check',[(C,'for c.objHash == ac.ObjHash && serverAddr','for serverAddr')]),
('C08','catch','stale-addr',[(C,'serverAddr := c.host','serverAddr := ac.NetCollectorIP')]),
('C08','catch','no-deadline-loop',[(C,'	for c.objHash == ac.ObjHash && serverAddr == ac.NetCollectorIP && serverPort == ac.NetCollectorTCPPort {\n		err := c.conn.SetReadDeadline(time.Now().Add(time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond))\n		if err != nil {\n			return err\n		}\n','	err = c.conn.SetReadDeadline(time.Now().Add(time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond))\n	if err != nil {\n		return err\n	}\n	for c.objHash == ac.ObjHash && serverAddr == ac.NetCollectorIP && serverPort == ac.NetCollectorTCPPort {\n')]),
('C08','catch','deadline-sec',[(C,'ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond','ac.NetCollectorTcpSoTimeoutMs) * time.Microsecond')]),
('C08','catch','read-err-continue',[(C,'		buff, err := in.ReadIntBytes()\n		if err != nil {\n			return err\n		}\n','		buff, err := in.ReadIntBytes()\n		if err != nil {\n			continue\n		}\n')]),
('C08','catch','decode-err-ignored',[(C,'		parameter, err := in0.ReadPack()\n		if err != nil {\n			return err\n		}\n','		parameter, err := in0.ReadPack()\n		if err != nil {\n			logger.Error.Println(err)\n		}\n')]),
('C08','catch','write-err-ignored',[(C,'		err = out.Write(out0.Bytes())\n		if err != nil {\n			return err\n		}\n','		out.Write(out0.Bytes())\n')]),
('C08','catch','no-nonext-on-nil',[(C,'			out0.WriteIntBytes(packBytes)\n		}\n		out0.WriteUInt8(tcpflag.NoNEXT)\n','			out0.WriteIntBytes(packBytes)\n			out0.WriteUInt8(tcpflag.NoNEXT)\n		}\n')]),
('C08','catch','blob-reply',[(C,'out0.WriteIntBytes(packBytes)','out0.WriteBlob(packBytes)')]),
('C08','catch','raw-pack',[(C,'out0.WriteIntBytes(packBytes)','out0.Write(packBytes)')]),
('C08','catch','flags-swapped',[(C,'out0.WriteUInt8(tcpflag.HasNEXT)','out0.WriteUInt8(tcpflag.NoNEXT)')]),
('C08','catch','nil-answered',[(C,'		if res != nil {\n','		if res != nil || parameter != nil {\n')]),
('C08','catch','shared-buffer',[(C,'	_, err := out.WriteInt32(int32(netcafe','	out0 := netdata.NewDataOutputX(nil)\n	_, err := out.WriteInt32(int32(netcafe'),(C,'		out0 := netdata.NewDataOutputX(nil)\n','')]),
('C08','catch','no-close',[(C,'	defer c.conn.Close()\n','')]),
('C08','catch','close-nopanic',[(C,'	defer c.conn.Close()\n',''),(C,'	return err\n}\n','	c.conn.Close()\n	return err\n}\n')]),
('C08','catch','leak-nontcp',[(C,'		c.conn = nil\n		conn0.Close()\n','		c.conn = nil\n')]),
('C08','catch','dial-notimeout',[(C,'net.DialTimeout("tcp", c.host+":"+strconv.Itoa(c.port), time.Duration(c.connectionTimeout)*time.Millisecond)','net.Dial("tcp", c.host+":"+strconv.Itoa(c.port))')]),
('C08','catch','dial-udpport',[(C,'c.port = ac.NetCollectorTCPPort','c.port = ac.NetCollectorUDPPort')]),
('C08','catch','half-frame',[(D,'		out.WriteUInt8(tcpflag.HasNEXT);\n		out.WriteBlob(b[0:len]);\n		offset','		out.WriteUInt8(tcpflag.HasNEXT);\n		if len > 0 {\n			out.WriteBlob(b[0:len]);\n		}\n		offset')]),
('C08','catch','whole-part',[(D,'out.WriteBlob(part[:count])','out.WriteBlob(part[:(count+3)/4*4])')]),
('C08','catch','offset-const',[(D,'offset = offset + int64(len)','offset = offset + 300 + int64(len)*0')]),
('C08','catch','no-tail',[(D,'			} else {\n				out.WriteUInt8(tcpflag.HasNEXT);\n				out.WriteBlob(b[0:len]);\n			}\n','			}\n')]),
('C08','catch','int-frame',[(D,'err = out.WriteBlob(part[:count])','err = out.WriteIntBytes(part[:count])')]),
('C08','catch','once-blocked',[(C,'		cmd, err := in0.ReadString()\n		parameter, err := in0.ReadPack()\n','		parameter, err := in0.ReadPack()\n		cmd, _ := in0.ReadString()\n')]),
('C08','quiet','helper-serve',[(C,'		res := handle(cmd, parameter, in, out0)\n		if res != nil {\n			out0.WriteUInt8(tcpflag.HasNEXT)\n			var pack *netdata.DataOutputX\n			pack, err = netdata.NewDataOutputX(nil).WritePack(res)\n			if err != nil {\n				return err\n			}\n			packBytes := pack.Bytes()\n			out0.WriteIntBytes(packBytes)\n		}\n','		res := handle(cmd, parameter, in, out0)\n		if err = writeAnswer(out0, res); err != nil {\n			return err\n		}\n'),(C,None,'\nfunc writeAnswer(out *netdata.DataOutputX, res netdata.Pack) error {\n	if res == nil {\n		return nil\n	}\n	out.WriteUInt8(tcpflag.HasNEXT)\n	pack, err := netdata.NewDataOutputX(nil).WritePack(res)\n	if err != nil {\n		return err\n	}\n	return out.WriteIntBytes(pack.Bytes())\n}\n')]),
('C08','quiet','close-outside',[(C,'	defer c.conn.Close()\n',''),(M,'			if client.Prepare() {\n','			if client.Prepare() {\n				defer client.Close()\n')]),
('C08','quiet','loop-break',[(C,'	for c.objHash == ac.ObjHash && serverAddr == ac.NetCollectorIP && serverPort == ac.NetCollectorTCPPort {\n','	for {\n		if c.objHash != ac.ObjHash || serverAddr != ac.NetCollectorIP || serverPort != ac.NetCollectorTCPPort {\n			break\n		}\n')]),
('C08','quiet','same-helper',[(C,'	for c.objHash == ac.ObjHash && serverAddr == ac.NetCollectorIP && serverPort == ac.NetCollectorTCPPort {\n','	for c.current(serverAddr, serverPort) {\n'),(C,None,'\nfunc (c *TCPClient) current(addr string, port int) bool {\n	return c.objHash == ac.ObjHash && addr == ac.NetCollectorIP && port == ac.NetCollectorTCPPort\n}\n')]),
('C08','quiet','handshake-helper',[(C,'	_, err := out.WriteInt32(int32(netcafeconstant.TCP_AGENT_V2))\n	_, err = out.WriteInt32(c.objHash)\n	if err != nil {\n		return err\n	}\n','	err := c.announce(out)\n	if err != nil {\n		return err\n	}\n'),(C,None,'\nfunc (c *TCPClient) announce(out *netdata.DataOutputX) error {\n	if _, err := out.WriteInt32(int32(netcafeconstant.TCP_AGENT_V2)); err != nil {\n		return err\n	}\n	_, err := out.WriteInt32(c.objHash)\n	return err\n}\n')]),
('C08','quiet','frame-helper',[(D,'		out.WriteUInt8(tcpflag.HasNEXT);\n		out.WriteBlob(b[0:len]);\n		offset','		sendPart(out, b[0:len])\n		offset'),(D,'				out.WriteUInt8(tcpflag.HasNEXT);\n				out.WriteBlob(b[0:len]);\n','				sendPart(out, b[:len])\n'),(D,None,'\nfunc sendPart(out *netdata.DataOutputX, part []byte) error {\n	out.WriteUInt8(tcpflag.HasNEXT)\n	return out.WriteBlob(part)\n}\n')]),
('C08','quiet','tail-if-any',[(D,'			} else {\n				out.WriteUInt8(tcpflag.HasNEXT);\n				out.WriteBlob(b[0:len]);\n			}\n','			} else if len > 0 {\n				out.WriteUInt8(tcpflag.HasNEXT);\n				out.WriteBlob(b[0:len]);\n			}\n')]),
('C08','quiet','deadline-var',[(C,'		err := c.conn.SetReadDeadline(time.Now().Add(time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond))\n','		timeout := time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond\n		err := c.conn.SetReadDeadline(time.Now().Add(timeout))\n')]),
('C08','quiet','direct-write',[(C,'		out0.WriteUInt8(tcpflag.NoNEXT)\n		err = out.Write(out0.Bytes())\n','		_, err = out0.WriteUInt8(tcpflag.NoNEXT)\n		reply := out0.Bytes()\n		err = out.Write(reply)\n')]),
# C14
('C14','catch','swap-handlers',[(H,'		return listBinaryDump(pack, out)\n','		return dump.ListDumpFiles()\n')]),
('C14','catch','no-reset',[(H,'	netio.ResetTextSent()\n	return pack','	return pack')]),
('C14','catch','reset-nil',[(H,'	netio.ResetTextSent()\n	return pack','	netio.ResetTextSent()\n	return nil')]),
('C14','catch','param-key',[(H,'paramPack.GetString("delfileName")','paramPack.GetString("fileName")')]),
('C14','catch','block-rate',[(H,'dump.ProfileBlockBinaryDump(30, 1000 * 1000)','dump.ProfileBlockBinaryDump(30, 1000)')]),
('C14','catch','mutex-text',[(H,'	dump.ProfileMutexBinaryDump(30, 5)','	dump.ProfileMutex(30, 5, 0)')]),
('C14','catch','typed-nil',[(H,'	case OBJECT_THREAD_DETAIL:\n		if ac.IsTrace() {\n			logger.Trace.Println("OBJECT_THREAD_DETAIL")\n		}\n		return GetGoroutineDetail(pack)','	case OBJECT_THREAD_DETAIL:\n		var p *netdata.MapPack\n		if tctxmanager.Size() >= 0 {\n			p = GetGoroutineDetail(pack)\n		}\n		return p'),(H,'	paramPack, ok := param.(*netdata.MapPack);\n	if !ok {\n		p.Put("Stack Trace", "[info] scouter request param error.");\n		return p\n	}','	paramPack, ok := param.(*netdata.MapPack);\n	if !ok {\n		return nil\n	}')]),
('C14','catch','save-norefresh',[(H,'			conf.GetInstance().Refresh()\n','')]),
('C14','catch','save-always-true',[(H,'		if success {\n			conf.GetInstance().Refresh()\n			result.Put("result", "true")\n		}','		if success {\n			conf.GetInstance().Refresh()\n		}\n		result.Put("result", "true")')]),
('C14','catch','col-swap',[(H,'			valueList.AddString(desc.Value)\n			defaultsList.AddString(desc.DefaultValue)','			valueList.AddString(desc.DefaultValue)\n			defaultsList.AddString(desc.Value)')]),
('C14','catch','col-skip',[(H,'			valueList.AddString(desc.Value)\n','			if desc.Value != "" {\n				valueList.AddString(desc.Value)\n			}\n')]),
('C14','catch','row-skip',[(H,'		case conf.ConfigureDesc:\n			keyList.AddString(desc.Key)\n			valueList','		case conf.ConfigureDesc:\n			if desc.Value == "" {\n				continue\n			}\n			keyList.AddString(desc.Key)\n			valueList')]),
('C14','catch','active-ip-skip',[(H,'		ip.AddString(tctx.RemoteIp)\n','		if tctx.RemoteIp != "" {\n			ip.AddString(tctx.RemoteIp)\n		}\n')]),
('C14','catch','active-break',[(H,'		subcall.AddString("n/a")\n\n	}','		subcall.AddString("n/a")\n		if tctx.Goid > 10000 {\n			break\n		}\n	}')]),
('C14','catch','active-txid',[(H,'txid.AddString(util.IntToXlogString32(tctx.Txid))','txid.AddString(util.IntToXlogString32(tctx.Gxid))')]),
('C14','catch','detail-name',[(H,'p.Put("Service Name", tctx.ServiceName);','p.Put("Service Name", tctx.LastMethod);')]),
('C14','catch','detail-key',[(H,'paramPack.GetInt64("txid")','paramPack.GetInt64("id")')]),
('C14','catch','list-size',[(D,'			nameLv.AddString(info.Name())\n			sizeLv.AddInt64(info.Size())\n		}','			nameLv.AddString(info.Name())\n			if info.Size() > 0 {\n				sizeLv.AddInt64(info.Size())\n			}\n		}')]),
('C14','catch','list-time',[(D,'			modifiedLv.AddInt64(util.TimeToMillis(info.ModTime()))\n','			if info.Size() > 0 {\n				modifiedLv.AddInt64(util.TimeToMillis(info.ModTime()))\n			}\n')]),
('C14','catch','list-stop',[(D,'		if err == nil && !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {\n			nameLv','		if err != nil {\n			return err\n		}\n		if !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {\n			nameLv')]),
('C14','catch','list-col',[(D,'	pack.Put("size", sizeLv)\n\n	dumpPath := getBin','	pack.Put("sizes", sizeLv)\n\n	dumpPath := getBin')]),
('C14','catch','valuetype-int',[(H,'mp.Put(desc.Key, int32(desc.ValueType))','mp.Put(desc.Key, int64(desc.ValueType))')]),
('C14','catch','unknown-answer',[(H,'			logger.Trace.Println("UNKNOWN-HANDLER: " + cmd)\n		}\n','			logger.Trace.Println("UNKNOWN-HANDLER: " + cmd)\n		}\n		return pack\n')]),
('C14','catch','cmd-name',[(H,'const OBJECT_LIST_HEAP_DUMP string = "OBJECT_LIST_HEAP_DUMP"','const OBJECT_LIST_HEAP_DUMP string = "OBJECT_LIST_HEAPDUMP"')]),
('C14','catch','nocomplete-config',[(H,'	mp.Put("agentConfig", configText)\n','	mp.Put("agentconfig", configText)\n')]),
('C14','quiet','if-chain',[(H,'	case OBJECT_RESET_CACHE:\n		if ac.IsTrace() {\n			logger.Trace.Println("OBJECT_RESET_CACHE")\n		}\n		return ResetCache(pack)\n',''),(H,'	switch cmd {\n','	if cmd == OBJECT_RESET_CACHE {\n		return ResetCache(pack)\n	}\n	switch cmd {\n')]),
('C14','quiet','desc-helper',[(H,'	descMap := conf.GetConfigureDescMap()\n	for it := descMap.Iterator(); it.Next(); {\n		switch desc := it.Value().(type) {\n		case conf.ConfigureDesc:\n			mp.Put(desc.Key, desc.Desc)\n		}\n	}\n','	eachDesc(func(desc conf.ConfigureDesc) {\n		mp.Put(desc.Key, desc.Desc)\n	})\n'),(H,None,'\nfunc eachDesc(f func(d conf.ConfigureDesc)) {\n	descMap := conf.GetConfigureDescMap()\n	for it := descMap.Iterator(); it.Next(); {\n		if desc, ok := it.Value().(conf.ConfigureDesc); ok {\n			f(desc)\n		}\n	}\n}\n')]),
('C14','quiet','row-helper',[(H,'			keyList.AddString(desc.Key)\n			valueList.AddString(desc.Value)\n			defaultsList.AddString(desc.DefaultValue)\n','			addConfigRow(keyList, valueList, defaultsList, desc)\n'),(H,None,'\nfunc addConfigRow(k, v, d *netdata.ListValue, desc conf.ConfigureDesc) {\n	d.AddString(desc.DefaultValue)\n	v.AddString(desc.Value)\n	k.AddString(desc.Key)\n}\n')]),
('C14','quiet','readdir',[(D,'	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {\n		if err == nil && !info.IsDir() {\n			nameLv.AddString(info.Name())\n			sizeLv.AddInt64(info.Size())\n			modifiedLv.AddInt64(util.TimeToMillis(info.ModTime()))\n		}\n		return nil\n	})\n','	add := func(info os.FileInfo) {\n		nameLv.AddString(info.Name())\n		sizeLv.AddInt64(info.Size())\n		modifiedLv.AddInt64(util.TimeToMillis(info.ModTime()))\n	}\n	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {\n		if err == nil && !info.IsDir() {\n			add(info)\n		}\n		return nil\n	})\n')]),
('C14','quiet','success-helper',[(H,'	dump.ProfileMutexBinaryDump(30, 5)\n	p := netdata.NewMapPack()\n	p.Put("success", netdata.NewBooleanValue(true));\n	p.Put("msg", "Success. it take about 30 seconds.");\n	return p\n','	dump.ProfileMutexBinaryDump(30, 5)\n	return startedPack()\n'),(H,None,'\nfunc startedPack() *netdata.MapPack {\n	p := netdata.NewMapPack()\n	p.Put("success", true)\n	p.Put("msg", "Success. it take about 30 seconds.")\n	return p\n}\n')]),
('C14','quiet','active-else',[(H,'		if tctx0 == nil {\n			return mpack\n		}\n		tctx := tctx0.(*netio.TraceContext)\n','		tctx, ok := tctx0.(*netio.TraceContext)\n		if !ok {\n			continue\n		}\n')]),
('C14','quiet','collect-first',[(H,'	descMap := conf.GetConfigureDescMap()\n\n	for it := descMap.Iterator(); it.Next(); {\n		switch desc := it.Value().(type) {\n		case conf.ConfigureDesc:\n			keyList.AddString(desc.Key)\n			valueList.AddString(desc.Value)\n			defaultsList.AddString(desc.DefaultValue)\n		}\n	}\n','	for _, desc := range allDescs() {\n		keyList.AddString(desc.Key)\n		valueList.AddString(desc.Value)\n		defaultsList.AddString(desc.DefaultValue)\n	}\n'),(H,None,'\nfunc allDescs() []conf.ConfigureDesc {\n	var l []conf.ConfigureDesc\n	descMap := conf.GetConfigureDescMap()\n	for it := descMap.Iterator(); it.Next(); {\n		if desc, ok := it.Value().(conf.ConfigureDesc); ok {\n			l = append(l, desc)\n		}\n	}\n	return l\n}\n')]),
]

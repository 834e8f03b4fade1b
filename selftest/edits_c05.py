U='netio/udpclient/udpclient.go'
K='common/constants/netcafeconstant/netcafeconstants.go'
EDITS=[
('C05','catch','mark',[(K,'[]byte("CAFN")','[]byte("CAFE")')]),
('C05','catch','total-ceil',[(U,'	if remainder > 0 {\n		total++\n	}','	total++')]),
('C05','catch','total-missing',[(U,'	if remainder > 0 {\n		total++\n	}','')]),
('C05','catch','rem-missing',[(U,'''	if remainder > 0 {
		udpClient.writeMTUSub(pkid, total, num,  util.CopyArray(data, len(data)-remainder, remainder))
	}''','')]),
('C05','catch','rem-num',[(U,'writeMTUSub(pkid, total, num,  util.CopyArray(data, len(data)-remainder','writeMTUSub(pkid, total, num+1,  util.CopyArray(data, len(data)-remainder')]),
('C05','catch','rem-always',[(U,'''	if remainder > 0 {
		udpClient.writeMTUSub''','''	if remainder >= 0 {
		udpClient.writeMTUSub''')]),
('C05','catch','rem-off',[(U,'len(data)-remainder, remainder)','num*packetSize-1, remainder)')]),
('C05','catch','offset',[(U,'num*packetSize, packetSize)','num*packetSize, packetSize-1)')]),
('C05','catch','from1',[(U,'for num = 0;','for num = 1;')]),
('C05','catch','le',[(U,'num < len(data) / packetSize','num <= len(data) / packetSize - 2')]),
('C05','catch','swap',[(U,'writeMTUSub(pkid, total, num,  util.CopyArray(data, num','writeMTUSub(pkid, num, total,  util.CopyArray(data, num')]),
('C05','catch','pkid',[(U,'out.WriteInt64(pkid)','out.WriteInt64(keygen.Next())')]),
('C05','catch','pkid-rem',[(U,'		udpClient.writeMTUSub(pkid, total, num,  util.CopyArray(data, len(data)-remainder, remainder))','		pkid = keygen.Next()\n		udpClient.writeMTUSub(pkid, total, num,  util.CopyArray(data, len(data)-remainder, remainder))')]),
('C05','catch','blob',[(U,'out.WriteBlob(data)','out.Write(data)')]),
('C05','catch','order',[(U,'''	out.WriteInt16(int16(total))
	out.WriteInt16(int16(num))''','''	out.WriteInt16(int16(num))
	out.WriteInt16(int16(total))''')]),
('C05','catch','threshold',[(U,'if len(buff) > udpClient.udpMaxBytes {','if len(buff) > udpClient.udpMaxBytes*2 {')]),
('C05','catch','nofrag',[(U,'		return udpClient.writeMTU(buff, udpClient.udpMaxBytes)','		return false')]),
('C05','catch','fragsize',[(U,'		return udpClient.writeMTU(buff, udpClient.udpMaxBytes)','		return udpClient.writeMTU(buff, udpClient.udpMaxBytes*2)')]),
('C05','catch','list-fragsize',[(U,'			udpClient.writeMTU(b, udpClient.udpMaxBytes)','			udpClient.writeMTU(b, 65000)')]),
('C05','catch','list-count0',[(U,'outCount = 1','outCount = 0')]),
('C05','catch','list-drop',[(U,'''			out = netdata.NewDataOutputX(nil)
			outCount = 1
			out.Write(b)''','''			out = netdata.NewDataOutputX(nil)
			outCount = 0''')]),
('C05','catch','list-noreset',[(U,'''			out = netdata.NewDataOutputX(nil)
			outCount = 1
			out.Write(b)''','''			outCount = 1
			out.Write(b)''')]),
('C05','catch','list-noflush',[(U,'			udpClient.sendBufferList(outCount, out.Bytes())\n			out =','			out =')]),
('C05','catch','list-last',[(U,'''	if out.GetWriteSize() > 0 {
		udpClient.sendBufferList(outCount, out.Bytes())
	}''','')]),
('C05','catch','list-last2',[(U,'	if out.GetWriteSize() > 0 {','	if outCount > 1 {')]),
('C05','catch','list-size',[(U,'buffLen+ int(out.GetWriteSize()) >','int(out.GetWriteSize()) >')]),
('C05','catch','list-break',[(U,'			udpClient.writeMTU(b, udpClient.udpMaxBytes)','			udpClient.writeMTU(b, udpClient.udpMaxBytes)\n			break')]),
('C05','catch','list-count-mtu',[(U,'			udpClient.writeMTU(b, udpClient.udpMaxBytes)','			udpClient.writeMTU(b, udpClient.udpMaxBytes)\n			outCount++')]),
('C05','catch','list-cnt-len',[(U,'udpClient.sendBufferList(outCount, out.Bytes())\n	}\n\n	return true','udpClient.sendBufferList(int16(bufferList.Len()), out.Bytes())\n	}\n\n	return true')]),
('C05','catch','list-next',[(U,'''			outCount++
			out.Write(b)''','''			outCount++
			out.Write(b)
			if n := buffer.Next(); n != nil {
				buffer = n
			}''')]),
('C05','catch','cafn-8',[(U,'out.WriteInt16(bufferCount)','out.WriteInt32(int32(bufferCount))')]),
('C05','quiet','list-order',[(U,'''			outCount++
			out.Write(b)
		}''','''			out.Write(b)
			outCount = outCount + 1
		}''')]),
('C05','quiet','list-count-exit',[(U,'	if out.GetWriteSize() > 0 {','	if outCount > 0 {')]),
('C05','quiet','list-inv',[(U,'''		} else if buffLen+ int(out.GetWriteSize()) > udpClient.udpMaxBytes {
			udpClient.sendBufferList(outCount, out.Bytes())
			out = netdata.NewDataOutputX(nil)
			outCount = 1
			out.Write(b)
		} else {
			outCount++
			out.Write(b)
		}''','''			continue
		}
		if buffLen+ int(out.GetWriteSize()) > udpClient.udpMaxBytes {
			udpClient.sendBufferList(outCount, out.Bytes())
			out = netdata.NewDataOutputX(nil)
			outCount = 0
		}
		outCount++
		out.Write(b)''')]),
('C05','quiet','list-sizevar',[(U,'''	var outCount int16
''','''	var outCount int16
	size := 0
'''),(U,'''buffLen+ int(out.GetWriteSize()) >''','''buffLen+size >'''),(U,'outCount = 1\n','outCount = 1\n			size = buffLen\n'),(U,'outCount++\n','outCount++\n			size += buffLen\n')]),
('C05','quiet','list-while',[(U,'for buffer:= bufferList.Front(); buffer != nil; buffer = buffer.Next() {','buffer := bufferList.Front()\n	for {\n		if buffer == nil {\n			break\n		}\n		entry := buffer\n		buffer = buffer.Next()'),(U,'buffer.Value.([]byte)','entry.Value.([]byte)')]),
('C05','quiet','list-ptr',[(U,'	var outCount int16\n','	var outCount int16\n	flush := func() {\n		udpClient.sendBufferList(outCount, out.Bytes())\n		out = netdata.NewDataOutputX(nil)\n		outCount = 0\n	}\n'),(U,'''			udpClient.sendBufferList(outCount, out.Bytes())
			out = netdata.NewDataOutputX(nil)
			outCount = 1
''','''			flush()
			outCount++
'''),(U,'''		udpClient.sendBufferList(outCount, out.Bytes())
	}

	return''','''		flush()
	}

	return''')]),
('C05','quiet','mtu-ceil',[(U,None,'\nvar _ = util.CopyArray\n'),(U,'''	total := len(data) / packetSize
	remainder := len(data) % packetSize
	if remainder > 0 {
		total++
	}
	var num int

	for num = 0; num < len(data) / packetSize; num++ {
		udpClient.writeMTUSub(pkid, total, num,  util.CopyArray(data, num*packetSize, packetSize))
	}
	if remainder > 0 {
		udpClient.writeMTUSub(pkid, total, num,  util.CopyArray(data, len(data)-remainder, remainder))
	}''','''	full := len(data) / packetSize
	total := full
	if len(data)%packetSize != 0 {
		total = full + 1
	}
	for i := 0; i < full; i++ {
		udpClient.writeMTUSub(pkid, total, i, data[i*packetSize:(i+1)*packetSize])
	}
	if total > full {
		udpClient.writeMTUSub(pkid, total, full, data[full*packetSize:])
	}''')]),
('C05','quiet','mtu-pos',[(U,None,'\nvar _ = util.CopyArray\n'),(U,'''	for num = 0; num < len(data) / packetSize; num++ {
		udpClient.writeMTUSub(pkid, total, num,  util.CopyArray(data, num*packetSize, packetSize))
	}
	if remainder > 0 {
		udpClient.writeMTUSub(pkid, total, num,  util.CopyArray(data, len(data)-remainder, remainder))
	}''','''	for pos := 0; pos < len(data); pos += packetSize {
		end := pos + packetSize
		if end > len(data) {
			end = len(data)
		}
		udpClient.writeMTUSub(pkid, total, num, data[pos:end])
		num++
	}''')]),
('C05','quiet','single-inv',[(U,'''	if len(buff) > udpClient.udpMaxBytes {
		return udpClient.writeMTU(buff, udpClient.udpMaxBytes)
	}
	out := netdata.NewDataOutputX(nil)
	out.Write(netcafeconstant.CAFE)
	out.Write(buff)

	udpClient.Conn.Write(out.Bytes())
	return true''','''	if len(buff) <= udpClient.udpMaxBytes {
		out := netdata.NewDataOutputX(nil)
		out.Write(netcafeconstant.CAFE)
		out.Write(buff)
		_, err := udpClient.Conn.Write(out.Bytes())
		return err == nil
	}
	max := udpClient.udpMaxBytes
	return udpClient.writeMTU(buff, max)''')]),
('C05','quiet','guard',[(U,'	if udpClient.Conn == nil {\n		return false\n	}\n	if len(buff)','	conn := udpClient.Conn\n	if conn == nil {\n		return false\n	}\n	if len(buff)')]),
]

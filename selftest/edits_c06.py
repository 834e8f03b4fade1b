U='netio/udpsender/udpsender.go'
EDITS=[
('C06','catch','blocking',[(U,'''	select {
	case udpSender.udpChannel <- bytes:
	default:
		logger.Warning.Println("udp channel is full.")
	}''','	udpSender.udpChannel <- bytes')]),
('C06','catch','addbuffer-nil',[(U,'case udpSender.udpChannel <- buffer:','case udpSender.udpChannel <- buffer[:len(buffer)-1]:')]),
('C06','catch','addpack-empty',[(U,'	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)\n	bytes := writePack.Bytes()\n	select','	out := netdata.NewDataOutputX(nil)\n	bytes := out.Bytes()\n	out.WritePack(pack)\n	select')]),
('C06','catch','case1-drop',[(U,'			p := <-udpSender.udpChannel\n			udpSender.udpClient.WriteBuffer(p)','			<-udpSender.udpChannel')]),
('C06','catch','case1-twice',[(U,'			udpSender.udpClient.WriteBuffer(p)','			udpSender.udpClient.WriteBuffer(p)\n			udpSender.AddBuffer(p)\n			udpSender.udpClient.WriteBuffer(p)')]),
('C06','catch','nosend-default',[(U,'			udpSender.send(size)\n','			time.Sleep(time.Millisecond)\n')]),
('C06','catch','send-cond',[(U,'	udpSender.udpClient.WriteBufferList(bufferList)\n\n}','	if bufferList.Len() > 1 {\n		udpSender.udpClient.WriteBufferList(bufferList)\n	}\n}')]),
('C06','catch','send-noinit',[(U,'			bufferList.Init()\n','')]),
('C06','catch','send-nosend',[(U,'			udpSender.sendList(bufferList)\n			bytes = 0','			bytes = 0')]),
('C06','catch','send-async',[(U,'			udpSender.sendList(bufferList)\n			bytes = 0','			udpSender.SendDirect(bufferList)\n			bytes = 0')]),
('C06','catch','send-continue',[(U,'''			bufferList.Init()
		}''','''			bufferList.Init()
			continue
		}''')]),
('C06','catch','send-last',[(U,'	udpSender.udpClient.WriteBufferList(bufferList)\n\n}','}')]),
('C06','catch','sendlist-1',[(U,'bufferList.Len() == 1 {','bufferList.Len() <= 2 {')]),
('C06','catch','sendlist-0',[(U,'if bufferList.Len() == 0 {','if bufferList.Len() <= 1 {')]),
('C06','catch','sendlist-both',[(U,'''	} else {
		udpSender.udpClient.WriteBufferList(bufferList)
	}''','''	}
	udpSender.udpClient.WriteBufferList(bufferList)''')]),
('C06','catch','direct-sync',[(U,'''	go common.RunSafely(func() {
		client.WriteBuffer(bytes)
	})''','''	client.WriteBuffer(bytes)''')]),
('C06','catch','direct-cond',[(U,'''	client := udpSender.udpClient
''','''	client := udpSender.udpClient
	if client.Conn == nil {
		return
	}
''')]),
('C06','catch','direct-empty',[(U,'	if bufferList == nil {\n		return','	if bufferList == nil || bufferList.Len() < 2 {\n		return')]),
('C06','quiet','run-if',[(U,'''		switch size {
		case 0:
			time.Sleep(100 * time.Millisecond)
		case 1:
			p := <-udpSender.udpChannel
			udpSender.udpClient.WriteBuffer(p)
		default:
			udpSender.send(size)
		}''','''		if size == 0 {
			time.Sleep(100 * time.Millisecond)
			continue
		}
		if size == 1 {
			udpSender.sendOne()
			continue
		}
		udpSender.send(size)'''),(U,None,'''
func (udpSender *UDPSender) sendOne() {
	p := <-udpSender.udpChannel
	udpSender.udpClient.WriteBuffer(p)
}
''')]),
('C06','quiet','send-count',[(U,'for i := 0; i < size; i++ {','for n := size; n > 0; n-- {')]),
('C06','quiet','send-reuse',[(U,'	udpSender.udpClient.WriteBufferList(bufferList)\n\n}','	udpSender.sendList(bufferList)\n}')]),
('C06','quiet','send-newlist',[(U,'			bufferList.Init()\n','			bufferList = list.New()\n')]),
('C06','quiet','sendlist-switch',[(U,'''	if bufferList.Len() == 0 {
		return
	} else if bufferList.Len() == 1 {
		udpSender.udpClient.WriteBuffer(bufferList.Front().Value.([]byte))
	} else {
		udpSender.udpClient.WriteBufferList(bufferList)
	}''','''	switch n := bufferList.Len(); {
	case n == 0:
	case n == 1:
		udpSender.udpClient.WriteBuffer(bufferList.Back().Value.([]byte))
	default:
		udpSender.udpClient.WriteBufferList(bufferList)
	}''')]),
('C06','quiet','encode-helper',[(U,'''	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)
	bytes := writePack.Bytes()
	select {
	case udpSender.udpChannel <- bytes:
	default:
		logger.Warning.Println("udp channel is full.")
	}''','''	udpSender.AddBuffer(encode(pack))'''),(U,None,'''
func encode(pack netdata.Pack) []byte {
	out := netdata.NewDataOutputX(nil)
	out.WritePack(pack)
	return out.Bytes()
}
''')]),
]

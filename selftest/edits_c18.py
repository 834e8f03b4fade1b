D='dump/dump.go'
DL='	if !isFileName(fileName) || !strings.HasSuffix(fileName, suffix){\n		return\n	}\n'
DD='	if !isFileName(fileName) || !strings.HasSuffix(fileName, suffix){\n		pack.Put'
BODY='	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/\\\\")\n'
JD='	dumpPath := getBinaryDumpPath()\n	fullName := filepath.Join(dumpPath, fileName)\n\n	f, err'
EDITS=[
('C18','catch','no-guard-download',[(D,DL,'	if !strings.HasSuffix(fileName, suffix){\n		return\n	}\n')]),
('C18','catch','no-suffix-download',[(D,DL,'	if !isFileName(fileName) {\n		return\n	}\n')]),
('C18','catch','no-guard-delete',[(D,DD,'	if !strings.HasSuffix(fileName, suffix){\n		pack.Put')]),
('C18','catch','or-and',[(D,DD,'	if !isFileName(fileName) && !strings.HasSuffix(fileName, suffix){\n		pack.Put')]),
('C18','catch','no-backslash',[(D,'"/\\\\")','"/")')]),
('C18','catch','prefix-dotdot',[(D,BODY,'	return name != "" && !strings.HasPrefix(name, "..") && !strings.HasPrefix(name, "/")\n')]),
('C18','catch','dot-ok',[(D,'name != "." && ','')]),
('C18','catch','contains-dotdot',[(D,BODY,'	return name != "" && !strings.Contains(name, "..")\n')]),
('C18','catch','clean-first',[(D,JD,'	dumpPath := getBinaryDumpPath()\n	fullName := filepath.Join(dumpPath, strings.TrimSpace(fileName))\n\n	f, err')]),
('C18','catch','wrong-dir',[(D,JD,JD.replace('getBinaryDumpPath','getDumpPath'))]),
('C18','catch','relative',[(D,JD,'	fullName := fileName\n\n	f, err')]),
('C18','catch','guard-late',[(D,'	if !isFileName(name) {\n		return\n	}\n	dumpFile := filepath.Join(getDumpPath(), name)\n\n	data, err := os.Open(dumpFile)\n','	dumpFile := filepath.Join(getDumpPath(), name)\n\n	data, err := os.Open(dumpFile)\n	if !isFileName(name) {\n		return\n	}\n')]),
('C18','catch','success-true',[(D,'		pack.Put("success", netdata.NewBooleanValue(false))\n		pack.Put("msg", err.Error())','		pack.Put("success", netdata.NewBooleanValue(true))\n		pack.Put("msg", err.Error())')]),
('C18','catch','remove-all',[(D,'os.Remove(fullName)','os.RemoveAll(fullName)')]),
('C18','catch','no-close',[(D,'	defer data.Close()\n','')]),
('C18','catch','early-leak',[(D,'		if err != nil {\n			return\n		}\n	}\n	return\n\n}','		if err != nil {\n			return\n		}\n	}\n	data.Close()\n	return\n\n}'),(D,'	defer data.Close()\n','')]),
('C18','catch','refuse-digit',[(D,BODY,BODY.replace('name != ""','name != "" && !strings.Contains(name, "_")'))]),
('C18','catch','new-entry',[(D,None,'\nfunc RenameDump(a, b string) error {\n	return os.Rename(filepath.Join(getDumpPath(), a), filepath.Join(getDumpPath(), b))\n}\n')]),
('C18','quiet','base',[(D,BODY,'	return name != "" && name != "." && name != ".." && name != "/" && filepath.Base(name) == name && !strings.Contains(name, "\\\\")\n')]),
('C18','quiet','switch',[(D,BODY,'	switch name {\n	case "", ".", "..":\n		return false\n	}\n	return strings.IndexAny(name, "/\\\\") < 0\n')]),
('C18','quiet','two-contains',[(D,BODY,'	if len(name) == 0 || strings.Contains(name, "/") || strings.ContainsRune(name, \'\\\\\') {\n		return false\n	}\n	return name != "." && name != ".."\n')]),
('C18','quiet','helper-bin',[(D,DL,'	if !isBinaryDump(fileName) {\n		return\n	}\n'),(D,DD,'	if !isBinaryDump(fileName) {\n		pack.Put'),(D,None,'\nfunc isBinaryDump(n string) bool {\n	return strings.HasSuffix(n, suffix) && isFileName(n)\n}\n')]),
('C18','quiet','plus-path',[(D,JD,'	dumpPath := getBinaryDumpPath()\n	fullName := dumpPath + "/" + fileName\n\n	f, err')]),
('C18','quiet','remove-bool',[(D,'	if err != nil {\n		pack.Put("success", netdata.NewBooleanValue(false))\n		pack.Put("msg", err.Error())\n	} else {\n		pack.Put("success", netdata.NewBooleanValue(true))\n		pack.Put("msg", "success")\n	}\n','	msg := "success"\n	if err != nil {\n		msg = err.Error()\n	}\n	pack.Put("success", netdata.NewBooleanValue(err == nil))\n	pack.Put("msg", msg)\n')]),
('C18','quiet','path-helper',[(D,'	dumpPath := getBinaryDumpPath()\n	fullName := filepath.Join(dumpPath, fileName)\n\n	err :=','	fullName := inDir(getBinaryDumpPath(), fileName)\n\n	err :='),(D,None,'\nfunc inDir(d, n string) string { return filepath.Join(d, n) }\n')]),
('C18','quiet','openfile',[(D,'data, err := os.Open(dumpFile)','data, err := os.OpenFile(dumpFile, os.O_RDONLY, 0)')]),
# C28
('C28','catch','no-flush',[(D,'		logger.Error.Printf("could not run mutex profile: %s\\n", err)\n	}\n	w.Flush()\n','		logger.Error.Printf("could not run mutex profile: %s\\n", err)\n	}\n')]),
('C28','catch','heavy-no-flush',[(D,'	return fileName, w.Flush()\n','	return fileName, nil\n')]),
('C28','quiet','heavy-write-err',[(D,'	if err := profile.WriteTo(w, 2); err != nil {\n		return "", err\n	}\n','	profile.WriteTo(w, 2)\n')]),
('C28','catch','heavy-name-err',[(D,'	if err != nil {\n		return pack\n	}\n	pack.Put("name", fileName)','	if err != nil && fileName == "" {\n		return pack\n	}\n	pack.Put("name", fileName)')]),
('C28','catch','close-early',[(D,'			w = bufio.NewWriter(f)\n			defer f.Close()\n		} else {\n			return\n		}\n	}\n	profile := pprof.Lookup("mutex")','			w = bufio.NewWriter(f)\n			f.Close()\n		} else {\n			return\n		}\n	}\n	profile := pprof.Lookup("mutex")')]),
('C28','catch','no-restore-block',[(D,'	defer runtime.SetBlockProfileRate(-1)\n','')]),
('C28','catch','restore-late',[(D,'	defer runtime.SetBlockProfileRate(-1)\n',''),(D,'		logger.Error.Printf("could not run block profile: %s\\n", err)\n	}\n	w.Flush()\n','		logger.Error.Printf("could not run block profile: %s\\n", err)\n	}\n	w.Flush()\n	runtime.SetBlockProfileRate(-1)\n')]),
('C28','catch','restore-rate',[(D,'defer runtime.SetMutexProfileFraction(old)','_ = old\n	defer runtime.SetMutexProfileFraction(rate)')]),
('C28','catch','restore-zero',[(D,'defer runtime.SetMutexProfileFraction(old)','_ = old\n	defer runtime.SetMutexProfileFraction(0)')]),
('C28','catch','rate-after',[(D,'	runtime.SetBlockProfileRate(rate)\n	defer runtime.SetBlockProfileRate(-1)\n	time.Sleep(time.Duration(sec) * time.Second)\n','	time.Sleep(time.Duration(sec) * time.Second)\n	runtime.SetBlockProfileRate(rate)\n	defer runtime.SetBlockProfileRate(-1)\n')]),
('C28','catch','millis',[(D,'	defer pprof.StopCPUProfile()\n	time.Sleep(time.Duration(sec) * time.Second)','	defer pprof.StopCPUProfile()\n	time.Sleep(time.Duration(sec) * time.Millisecond)')]),
('C28','catch','stop-always',[(D,'	if err := pprof.StartCPUProfile(f); err != nil {','	defer pprof.StopCPUProfile()\n	if err := pprof.StartCPUProfile(f); err != nil {'),(D,'	defer pprof.StopCPUProfile()\n	time.Sleep','	time.Sleep')]),
('C28','catch','binary-level',[(D,'	go profileMutex(fileName, sec, rate, 0)\n','	go profileMutex(fileName, sec, rate, 1)\n')]),
('C28','catch','level-rate',[(D,'	go profileBlock(fileName, sec, rate, level)\n','	go profileBlock(fileName, rate, sec, level)\n')]),
('C28','catch','suffix-log',[(D,'"go_mutex_" + time.Now().Format("20060102_150405") + "." + suffix)','"go_mutex_" + time.Now().Format("20060102_150405") + ".log")')]),
('C28','catch','dir-swap',[(D,'filepath.Join(getBinaryDumpPath(), "go_cpu_"','filepath.Join(getDumpPath(), "go_cpu_"')]),
('C28','catch','wrong-profile',[(D,'pprof.Lookup("mutex")','pprof.Lookup("block")')]),
('C28','catch','cpu-not-closed',[(D,'	if err == nil {\n		defer f.Close()\n	} else {\n		logger.Error.Printf("could not make file','	if err == nil {\n	} else {\n		logger.Error.Printf("could not make file')]),
('C28','catch','cpu-close-before-stop',[(D,'	defer pprof.StopCPUProfile()\n	time.Sleep(time.Duration(sec) * time.Second)\n','	time.Sleep(time.Duration(sec) * time.Second)\n	f.Close()\n	pprof.StopCPUProfile()\n'),(D,'	if err == nil {\n		defer f.Close()\n	} else {\n		logger.Error.Printf("could not make file','	if err == nil {\n	} else {\n		logger.Error.Printf("could not make file')]),
('C28','catch','const-name',[(D,'"go_cpu_" + time.Now().Format("20060102_150405") + "." + suffix','"go_cpu." + suffix')]),
('C28','quiet','write-helper',[(D,'	profile := pprof.Lookup("block")\n	if profile == nil {\n		logger.Error.Printf("could not find block profile\\n")\n		return\n	}\n	if err := profile.WriteTo(w, level); err != nil {\n		logger.Error.Printf("could not run block profile: %s\\n", err)\n	}\n	w.Flush()\n','	writeProfile(w, "block", level)\n'),(D,'	profile := pprof.Lookup("mutex")\n	if profile == nil {\n		logger.Error.Printf("could not find mutex profile\\n")\n		return\n	}\n	if err := profile.WriteTo(w, level); err != nil {\n		logger.Error.Printf("could not run mutex profile: %s\\n", err)\n	}\n	w.Flush()\n','	writeProfile(w, "mutex", level)\n'),(D,None,'\nfunc writeProfile(w *bufio.Writer, name string, level int) {\n	p := pprof.Lookup(name)\n	if p == nil {\n		logger.Error.Printf("could not find %s profile\\n", name)\n		return\n	}\n	if err := p.WriteTo(w, level); err != nil {\n		logger.Error.Printf("could not run %s profile: %s\\n", name, err)\n	}\n	w.Flush()\n}\n')]),
('C28','quiet','name-helper',[(D,'filepath.Join(getBinaryDumpPath(), "go_cpu_" + time.Now().Format("20060102_150405") + "." + suffix)','binaryName("cpu")'),(D,None,'\nfunc binaryName(kind string) string {\n	return filepath.Join(getBinaryDumpPath(), "go_" + kind + "_" + time.Now().Format("20060102_150405") + "." + suffix)\n}\n')]),
('C28','quiet','unbuffered',[(D,'	var w = bufio.NewWriter(os.Stdout)\n	if fileName != "" {\n		f, err := os.Create(fileName)\n		if err == nil {\n			w = bufio.NewWriter(f)\n			defer f.Close()\n		} else {\n			return "", err\n		}\n	}\n','	f, err := os.Create(fileName)\n	if err != nil {\n		return "", err\n	}\n	defer f.Close()\n	w := f\n'),(D,'	return fileName, w.Flush()\n','	return fileName, nil\n'),(D,None,'\nvar _ = bufio.NewWriter\n')]),
('C28','quiet','early-err',[(D,'	if err == nil {\n		defer f.Close()\n	} else {\n		logger.Error.Printf("could not make file to start CPU profile: %s\\n", err)\n		return\n	}\n','	if err != nil {\n		logger.Error.Printf("could not make file to start CPU profile: %s\\n", err)\n		return\n	}\n	defer f.Close()\n')]),
('C28','quiet','defer-func',[(D,'	defer runtime.SetBlockProfileRate(-1)\n','	defer func() { runtime.SetBlockProfileRate(-1) }()\n')]),
('C28','quiet','create-first',[(D,'	runtime.SetBlockProfileRate(rate)\n	defer runtime.SetBlockProfileRate(-1)\n	time.Sleep(time.Duration(sec) * time.Second)\n\n	var w *bufio.Writer\n	if fileName != "" {\n		f, err := os.Create(fileName)\n		if err == nil {\n			w = bufio.NewWriter(f)\n			defer f.Close()\n		} else {\n			return\n		}\n	}\n','	f, err := os.Create(fileName)\n	if err != nil {\n		return\n	}\n	defer f.Close()\n	w := bufio.NewWriter(f)\n	runtime.SetBlockProfileRate(rate)\n	defer runtime.SetBlockProfileRate(-1)\n	time.Sleep(time.Duration(sec) * time.Second)\n\n')]),
]

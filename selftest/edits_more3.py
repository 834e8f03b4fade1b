D='dump/dump.go'; CF='conf/configure.go'; OB='conf/opserver.go'; SM='common/util/strmatch.go'; ME='counter/metering.go'; SV='counter/serviceMetering.go'; VM='counter/valueMetering.go'; L='common/structure/lra/lra.go'; US='netio/udpsender/udpsender.go'; XS='strace/xlogsampler.go'; AG='agent.go'; AT='task/agenttask/agenttask.go'; CT='task/countertask/countertask.go'; GC='counter/gocounter/gocounter.go'; TMn='netio/tcpclient/tcpmanager.go'; CM='common/structure/cachemap/cachemap.go'
EDITS=[
# C18
('C18','catch','n-suffix-trim',[(D,'	fullName := filepath.Join(dumpPath, fileName)\n\n	f, err','	fullName := filepath.Join(dumpPath, strings.TrimSpace(fileName))\n\n	f, err')]),
('C18','catch','n-expandenv',[(D,'	dumpFile := filepath.Join(getDumpPath(), name)\n','	dumpFile := filepath.Join(getDumpPath(), os.ExpandEnv(name))\n')]),
('C18','catch','n-unescape',[(D,'	dumpFile := filepath.Join(getDumpPath(), name)\n','	if u, err := url.PathUnescape(name); err == nil {\n		name = u\n	}\n	dumpFile := filepath.Join(getDumpPath(), name)\n'),(D,'	"io"\n','	"io"\n	"net/url"\n')]),
('C18','catch','n-lower',[(D,'	fullName := filepath.Join(dumpPath, fileName)\n\n	err := os.Remove','	fullName := filepath.Join(dumpPath, strings.ToLower(fileName))\n\n	err := os.Remove')]),
('C18','catch','n-removeall',[(D,'	err := os.Remove(fullName)\n','	err := os.RemoveAll(fullName)\n')]),
('C18','catch','n-glob',[(D,'	err := os.Remove(fullName)\n','	files, err := filepath.Glob(fullName)\n	for _, f := range files {\n		if e := os.Remove(f); e != nil {\n			err = e\n		}\n	}\n')]),
('C18','catch','n-notexist-ok',[(D,'	err := os.Remove(fullName)\n	if err != nil {\n','	err := os.Remove(fullName)\n	if err != nil && !os.IsNotExist(err) {\n')]),
('C18','catch','n-fallback-dump',[(D,'	f, err := os.Open(fullName)\n	if err != nil {\n','	f, err := os.Open(fullName)\n	if err != nil {\n		f, err = os.Open(filepath.Join(getDumpPath(), fileName))\n	}\n	if err != nil {\n')]),
('C18','catch','n-contains-rune',[(D,'!strings.ContainsAny(name, "/\\\\")','!strings.ContainsRune(name, filepath.Separator)')]),
('C18','catch','n-base',[(D,'	name := p.GetString("name")\n	if !isFileName(name) {\n		return\n	}\n','	name := filepath.Base(p.GetString("name"))\n	if !isFileName(name) {\n		return\n	}\n')]),
('C18','quiet','n-stat-first',[(D,'	err := os.Remove(fullName)\n','	if info, serr := os.Stat(fullName); serr == nil {\n		logger.Info.Printf("delete %s (%d bytes)", fullName, info.Size())\n	}\n	err := os.Remove(fullName)\n')]),
# C28
('C28','catch','n-create-append',[(D,'	f, err := os.Create(fileName)\n	if err == nil {\n		defer f.Close()\n	} else {\n		logger.Error.Printf("could not make','	f, err := os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)\n	if err == nil {\n		defer f.Close()\n	} else {\n		logger.Error.Printf("could not make')]),
('C28','catch','n-flush-unless-err',[(D,'		logger.Error.Printf("could not run mutex profile: %s\\n", err)\n	}\n	w.Flush()\n','		logger.Error.Printf("could not run mutex profile: %s\\n", err)\n		return\n	}\n	if w.Buffered() > 4095 {\n		w.Flush()\n	}\n')]),
('C28','catch','n-old-shadow',[(D,'	old := runtime.SetMutexProfileFraction(rate)\n	defer runtime.SetMutexProfileFraction(old)\n','	old := runtime.SetMutexProfileFraction(rate)\n	if old > 0 {\n		defer runtime.SetMutexProfileFraction(old)\n	}\n')]),
('C28','catch','n-stop-always',[(D,'	if err := pprof.StartCPUProfile(f); err != nil {\n		logger.Error.Printf("could not start CPU profile: %s\\n", err)\n		return\n	}\n	defer pprof.StopCPUProfile()\n','	defer pprof.StopCPUProfile()\n	if err := pprof.StartCPUProfile(f); err != nil {\n		logger.Error.Printf("could not start CPU profile: %s\\n", err)\n		return\n	}\n')]),
('C28','catch','n-sec-ms',[(D,'	defer pprof.StopCPUProfile()\n	time.Sleep(time.Duration(sec) * time.Second)\n','	defer pprof.StopCPUProfile()\n	time.Sleep(time.Duration(sec*1000) * time.Microsecond)\n')]),
('C28','catch','n-block-after-file',[(D,'	runtime.SetBlockProfileRate(rate)\n	defer runtime.SetBlockProfileRate(-1)\n	time.Sleep(time.Duration(sec) * time.Second)\n','	runtime.SetBlockProfileRate(rate)\n	time.Sleep(time.Duration(sec) * time.Second)\n	runtime.SetBlockProfileRate(-1)\n	rate = 1\n	runtime.SetBlockProfileRate(rate)\n')]),
('C28','quiet','n-block-stop-early',[(D,'	runtime.SetBlockProfileRate(rate)\n	defer runtime.SetBlockProfileRate(-1)\n	time.Sleep(time.Duration(sec) * time.Second)\n','	func() {\n		runtime.SetBlockProfileRate(rate)\n		defer runtime.SetBlockProfileRate(-1)\n		time.Sleep(time.Duration(sec) * time.Second)\n	}()\n')]),
('C28','catch','n-name-fmt',[(D,'"go_block_" + time.Now().Format("20060102_150405") + "." + suffix','"go_block_" + time.Now().Format("20060102_150405") + suffix + ".log"')]),
('C28','catch','n-heap-lookup',[(D,'pprof.Lookup("mutex")','pprof.Lookup("block")')]),
('C28','catch','n-name-on-err',[(D,'	if err := profile.WriteTo(w, 2); err != nil {\n		return "", err\n	}\n	return fileName, w.Flush()\n','	if err := profile.WriteTo(w, 2); err != nil {\n		return fileName, nil\n	}\n	return fileName, w.Flush()\n')]),
# C22
('C22','catch','n-after-size',[(CF,'info.ModTime().After(conf.lastModified)','info.ModTime().Unix() > conf.lastModified.Unix()')]),
('C22','catch','n-split-last',[(CF,'			pair := strings.SplitN(e, "=", 2)\n			if len(pair) == 2 {\n				props.Set(pair[0], pair[1])\n			}\n','			if i := strings.LastIndex(e, "="); i >= 0 {\n				props.Set(e[:i], e[i+1:])\n			}\n')]),
('C22','catch','n-merge-order',[(CF,'			props.Merge(fileProps)\n		}\n','			fileProps.Merge(props)\n			props = fileProps\n		}\n')]),
('C22','catch','n-filter-before',[(CF,'		props = props.FilterFunc(func (k, v string) bool {\n			return v != ""\n		})\n\n',''),(CF,'		fileProps, err := properties.LoadFile','		props = props.FilterFunc(func (k, v string) bool {\n			return v != ""\n		})\n		fileProps, err := properties.LoadFile')]),
('C22','catch','n-lm-early',[(CF,'		props := properties.NewProperties()\n','		if info != nil {\n			conf.lastModified = info.ModTime()\n		}\n		props := properties.NewProperties()\n')]),
('C22','catch','n-lm-now',[(CF,'			conf.lastModified = info.ModTime()\n','			conf.lastModified = time.Now()\n')]),
('C22','catch','n-envfile-setonce',[(CF,'func getConfFilePath() string {\n	scouterConfFile := os.Getenv("SCOUTER_CONFIG")\n','func getConfFilePath() string {\n	scouterConfFile := strings.TrimSpace(os.Getenv("SCOUTER_CONFIG"))\n')]),
('C22','catch','n-observers-first-fail',[(OB,'	for _, r := range observers {\n		r.Run()\n	}\n','	for name, r := range observers {\n		if name == "" {\n			break\n		}\n		r.Run()\n	}\n')]),
('C22','catch','n-obj-notify-type',[(CF,'	if oldObjName != conf.ObjName {\n','	if oldObjName != "" && oldObjName != conf.ObjName {\n')]),
('C22','catch','n-encoding',[(CF,'properties.UTF8','properties.ISO_8859_1')]),
('C22','catch','n-expansion-off',[(CF,'		conf.addToConf(props)\n','		props.DisableExpansion = true\n		conf.addToConf(props)\n')]),
('C22','catch','n-trim-key',[(CF,'				props.Set(pair[0], pair[1])\n','				props.Set(strings.ToLower(pair[0]), pair[1])\n')]),
# C21
('C21','catch','n-int32-clamp',[(CF,'func intOf(props *properties.Properties, key string, defaultValue int, desc string) int {\n	descSync.Lock()\n	defer descSync.Unlock()\n\n	value := props.GetInt(key, defaultValue)\n','func intOf(props *properties.Properties, key string, defaultValue int, desc string) int {\n	descSync.Lock()\n	defer descSync.Unlock()\n\n	value := props.GetInt(key, defaultValue)\n	if value < 0 {\n		value = defaultValue\n	}\n')]),
('C21','catch','n-desc-once',[(CF,'	value := props.GetBool(key, defaultValue)\n	descMap.Put(','	value := props.GetBool(key, defaultValue)\n	if _, ok := descMap.Get(key); ok {\n		return value\n	}\n	descMap.Put(')]),
('C21','catch','n-uint',[(CF,'	value := props.GetInt(key, defaultValue)\n','	value := int(props.GetUint(key, uint(defaultValue)))\n')]),
('C21','catch','n-trim-string',[(CF,'func stringOf(props *properties.Properties, key string, defaultValue string, desc string) string {\n	descSync.Lock()\n	defer descSync.Unlock()\n\n	value := props.GetString(key, defaultValue)\n','func stringOf(props *properties.Properties, key string, defaultValue string, desc string) string {\n	descSync.Lock()\n	defer descSync.Unlock()\n\n	value := strings.Trim(props.GetString(key, defaultValue), "\\"")\n')]),
('C21','catch','n-hash-before',[(CF,'	conf.ObjName = "/" + hostname + "/" + newObjSimpleName\n	conf.ObjHash = util.HashString(conf.ObjName)\n','	conf.ObjHash = util.HashString(conf.ObjName)\n	conf.ObjName = "/" + hostname + "/" + newObjSimpleName\n')]),
('C21','catch','n-hostname-short',[(CF,'		hostname = "unknown"\n	}\n','		hostname = "unknown"\n	}\n	if i := strings.IndexByte(hostname, \'.\'); i > 0 {\n		hostname = hostname[:i]\n	}\n')]),
# C33
('C33','catch','n-trim',[(SM,'		matcher.strMatches = append(matcher.strMatches, NewStrMatch(pattern))\n','		matcher.strMatches = append(matcher.strMatches, NewStrMatch(strings.TrimSpace(pattern)))\n')]),
('C33','catch','n-fields',[(SM,'	arrPatterns := strings.Split(patterns, ",")\n','	arrPatterns := strings.SplitN(patterns, ",", 64)\n')]),
('C33','catch','n-foldcase',[(SM,'		return m.mid == target\n','		return strings.EqualFold(m.mid, target)\n')]),
('C33','catch','n-str-end-len',[(SM,'len(target) >= len(m.start)+len(m.end) && ','')]),
('C33','catch','n-mid-end-index',[(SM,'strings.HasSuffix(target, m.end) && strings.Contains(target[:len(target)-len(m.end)], m.mid)','strings.HasSuffix(target, m.end) && strings.Contains(target, m.mid)')]),
('C33','catch','n-mid-mid-last',[(SM,'		x := strings.Index(target, m.mid)\n','		x := strings.LastIndex(target, m.mid)\n')]),
('C33','catch','n-end-strict',[(SM,'		return strings.HasPrefix(target, m.start)\n','		return len(target) > len(m.start) && strings.HasPrefix(target, m.start)\n')]),
('C33','catch','n-short',[(SM,'	if length < 2 {\n','	if length < 3 {\n')]),
('C33','catch','n-first-only',[(SM,'		if match.include(target) {\n			return true\n		}\n','		if match.comp == c_ANY {\n			break\n		}\n		if match.include(target) {\n			return true\n		}\n')]),
('C33','quiet','n-ptr',[(SM,'	for _, match := range m.strMatches {\n		if match.include(target) {\n','	for i := range m.strMatches {\n		match := &m.strMatches[i]\n		if match.include(target) {\n')]),
('C33','quiet','n-empty-early',[(SM,'func (m CommaSeparatedChainedStrMatcher) IsMatch(target string) bool {\n','func (m CommaSeparatedChainedStrMatcher) IsMatch(target string) bool {\n	if target == "" || len(m.strMatches) == 0 {\n		return false\n	}\n')]),
]

F='conf/configure.go'
O='conf/opserver.go'
W='	if info == nil || info.ModTime().After(conf.lastModified) {\n'
FE='	fileProps, err := properties.LoadFile'
ENV='			pair := strings.SplitN(e, "=", 2)\n			if len(pair) == 2 {\n				props.Set(pair[0], pair[1])\n			}\n'
FILT='		props = props.FilterFunc(func (k, v string) bool {\n			return v != ""\n		})\n'
STATERR='''	if err != nil {
		//TODO logging
		switch e := err.(type) {
		case *os.PathError:
			if e.Err != syscall.ENOENT {
				return
			}
		default:
			return
		}
	}
'''
LOADERR='''		if err != nil {
			switch e := err.(type) {
			case *os.PathError:
				if e.Err != syscall.ENOENT {
					return
				}
			default:
				return
			}
		}
'''
MERGE='		if fileProps != nil {\n			props.Merge(fileProps)\n		}\n'
PATH='''	scouterConfFile := os.Getenv("SCOUTER_CONFIG")
	if scouterConfFile == "" {
		scouterConfFile = os.Getenv("scouter.config")
	}
	if scouterConfFile == "" {
		path := util.GetScouterPath()
		confPath := filepath.Join(path, "conf")
		util.MakeDir(confPath)
		scouterConfFile = filepath.Join(path, "conf", "scouter.conf")
	}

	return scouterConfFile
'''
OBJ='	if oldObjName != conf.ObjName {\n		objChangeNotify()\n	}\n'
EDITS=[
('C21','catch','wrong-key',[(F,'intOf(props, "xlog_patterned2_sampling_step3_rate_pct"','intOf(props, "xlog_patterned_sampling_step3_rate_pct"')]),
('C21','catch','wrong-field',[(F,'conf.XlogPatterned3SamplingStep2Ms = ','conf.XlogPatterned3SamplingStep3Ms = ')]),
('C21','catch','wrong-default',[(F,'"stuck_service_base_time_ms", 300000','"stuck_service_base_time_ms", 30000')]),
('C21','catch','no-clamp',[(F,'positiveIntOf(props, "udp_max_bytes"','intOf(props, "udp_max_bytes"')]),
('C21','catch','clamp-zero',[(F,'	if value <= 0 {\n		return defaultValue','	if value < 0 {\n		return defaultValue')]),
('C21','catch','clamp-other',[(F,'	if value <= 0 {\n		return defaultValue','	if value <= 0 {\n		return 1')]),
('C21','catch','desc-kind',[(F,'"xlog_sampling_exclude_patterns", "", vtCommaSeparatedValue','"xlog_sampling_exclude_patterns", "", vtValue')]),
('C21','catch','desc-default',[(F,'		DefaultValue: strconv.Itoa(defaultValue),','		DefaultValue: strconv.Itoa(value),')]),
('C21','catch','desc-value',[(F,'		Value:        strconv.FormatBool(value),','		Value:        strconv.FormatBool(!value),')]),
('C21','catch','desc-dropped',[(F,'	value := props.GetInt(key, defaultValue)\n	descMap','	value := props.GetInt(key, defaultValue)\n	if value == defaultValue {\n		return value\n	}\n	descMap')]),
('C21','catch','hash',[(F,'	conf.ObjHash = util.HashString(conf.ObjName)\n','	conf.ObjHash = util.HashString(newObjSimpleName)\n')]),
('C21','catch','hash-stale',[(F,'	conf.ObjHash = util.HashString(conf.ObjName)\n',''),(F,'	oldObjName := conf.ObjName\n','	oldObjName := conf.ObjName\n	conf.ObjHash = util.HashString(conf.ObjName)\n')]),
('C21','catch','objname',[(F,'"/" + hostname + "/" +','"/" + hostname +')]),
('C21','catch','host-unknown',[(F,'		hostname = "unknown"\n','')]),
('C21','catch','keep-old',[(F,'	conf.UDPMaxBytes = positive','	if conf.UDPMaxBytes == 0 {\n		conf.UDPMaxBytes = 60000\n	}\n	_ = positive')]),
('C21','catch','trimmed',[(F,'conf.ProfileHttpHeaderKeys = stringOfType(props, "profile_http_header_keys", "", vtCommaSeparatedValue, "")','conf.ProfileHttpHeaderKeys = strings.ToLower(stringOfType(props, "profile_http_header_keys", "", vtCommaSeparatedValue, ""))')]),
('C21','quiet','order',[(F,'	conf.TraceObjSend = boolOf(props, "trace_obj_send", false, "")\n',''),(F,'	conf.UDPMaxBytes = positive','	conf.TraceObjSend = boolOf(props, "trace_obj_send", false, "")\n	conf.UDPMaxBytes = positive')]),
('C21','quiet','text',[(F,'"udp_max_bytes", 60000, ""','"udp_max_bytes", 60000, "largest datagram"')]),
('C21','quiet','string-helper',[(F,'	descSync.Lock()\n	defer descSync.Unlock()\n\n	value := props.GetString(key, defaultValue)\n	descMap.Put(key, ConfigureDesc{\n		Key:          key,\n		Value:        value,\n		DefaultValue: defaultValue,\n		Desc:         desc,\n		ValueType:    vtValue,\n	})\n	return value\n','	return stringOfType(props, key, defaultValue, vtValue, desc)\n')]),
('C21','quiet','desc-helper',[(F,'	descMap.Put(key, ConfigureDesc{\n		Key:          key,\n		Value:        strconv.Itoa(value),\n		DefaultValue: strconv.Itoa(defaultValue),\n		Desc:         desc,\n		ValueType:    vtNum,\n	})\n','	describe(key, strconv.Itoa(value), strconv.Itoa(defaultValue), desc, vtNum)\n'),(F,None,'\nfunc describe(key, value, def, desc string, t ValueType) {\n	d := ConfigureDesc{Key: key, Desc: desc, ValueType: t}\n	d.Value = value\n	d.DefaultValue = def\n	descMap.Put(key, d)\n}\n')]),
('C21','quiet','clamp-inline',[(F,'	if value <= 0 {\n		return defaultValue\n	}\n	return value\n','	if value > 0 {\n		return value\n	}\n	return defaultValue\n')]),
('C21','quiet','split',[(F,'	conf.XlogPatternedSamplingEnabled = boolOf','	conf.addPatterned(props)\n}\n\nfunc (conf *Configure) addPatterned(props *properties.Properties) {\n	conf.XlogPatternedSamplingEnabled = boolOf')]),
('C21','quiet','sprintf-name',[(F,'conf.ObjName = "/" + hostname + "/" + newObjSimpleName','conf.ObjName = strings.Join([]string{"", hostname, newObjSimpleName}, "/")')]),
# C22
('C22','catch','env-over-file',[(F,ENV,''),(F,'		for _, e := range os.Environ() {\n		}\n\n',''),(F,MERGE,MERGE+'		for _, e := range os.Environ() {\n'+ENV+'		}\n')]),
('C22','catch','no-filter',[(F,FILT,'')]),
('C22','catch','filter-blank',[(F,'			return v != ""\n','			return strings.TrimSpace(v) != ""\n')]),
('C22','catch','filter-first',[(F,FILT,''),(F,FE.replace('	file','		file') if False else '		fileProps, err := properties.LoadFile',FILT+'		fileProps, err := properties.LoadFile')]),
('C22','catch','split-all',[(F,'strings.SplitN(e, "=", 2)','strings.Split(e, "=")')]),
('C22','catch','reload-always',[(F,W,'	if true {\n')]),
('C22','catch','missing-ignored',[(F,W,'	if info != nil && info.ModTime().After(conf.lastModified) {\n')]),
('C22','catch','remember-early',[(F,'		props := properties.NewProperties()\n','		if info != nil {\n			conf.lastModified = info.ModTime()\n		}\n		props := properties.NewProperties()\n'),(F,'		if info != nil {\n			conf.lastModified = info.ModTime()\n		}\n\n		//last','		//last')]),
('C22','catch','remember-now',[(F,'conf.lastModified = info.ModTime()','conf.lastModified = time.Now()')]),
('C22','catch','never-remember',[(F,'		if info != nil {\n			conf.lastModified = info.ModTime()\n		}\n\n','')]),
('C22','catch','bad-file-defaults',[(F,LOADERR,'		if err != nil {\n			fileProps = nil\n		}\n')]),
('C22','catch','stat-error-load',[(F,STATERR,'	if err != nil {\n		info = nil\n	}\n')]),
('C22','catch','stat-missing-return',[(F,STATERR,'	if err != nil {\n		return\n	}\n')]),
('C22','catch','load-missing-return',[(F,LOADERR,'		if err != nil {\n			return\n		}\n')]),
('C22','catch','notify-first',[(F,'		//last\n		confChangeNotify()\n',''),(F,'		conf.addToConf(props)\n','		confChangeNotify()\n		conf.addToConf(props)\n')]),
('C22','catch','notify-never',[(F,'		confChangeNotify()\n','')]),
('C22','catch','notify-one',[(O,'	for _, r := range observers {\n		r.Run()\n','	for _, r := range observers {\n		r.Run()\n		break\n')]),
('C22','catch','notify-twice',[(O,'		r.Run()\n	}\n}\n\nfunc obj','		r.Run()\n		r.Run()\n	}\n}\n\nfunc obj')]),
('C22','catch','notify-name-always',[(F,OBJ,'	_ = oldObjName\n	objChangeNotify()\n')]),
('C22','catch','notify-name-never',[(F,OBJ,'	_ = oldObjName\n')]),
('C22','catch','name-inverted',[(F,OBJ,OBJ.replace('!=','=='))]),
('C22','catch','path-order',[(F,'os.Getenv("SCOUTER_CONFIG")','os.Getenv("x")'),(F,'os.Getenv("scouter.config")','os.Getenv("SCOUTER_CONFIG")')]),
('C22','catch','load-other-file',[(F,'properties.LoadFile(filePath','properties.LoadFile(filepath.Join(util.GetScouterPath(), "conf", "scouter.conf")')]),
('C22','catch','merge-other-way',[(F,MERGE,'		if fileProps != nil {\n			fileProps.Merge(props)\n			props = fileProps\n		}\n')]),
('C22','catch','init-default',[(F,'		configure.SendQueueSize = 3000\n','')]),
('C22','catch','init-no-load',[(F,'		configure.init()\n','')]),
('C22','catch','init-late',[(F,'		configure.UDPMaxBytes = 60000\n',''),(F,'		go common.Keep','		configure.UDPMaxBytes = 60000\n		go common.Keep')]),
('C22','quiet','const-path',[(F,PATH,'''	for _, k := range []string{"SCOUTER_CONFIG"} {
		if v := os.Getenv(k); v != "" {
			return v
		}
	}
	if v := os.Getenv("scouter.config"); v != "" {
		return v
	}
	dir := filepath.Join(util.GetScouterPath(), "conf")
	util.MakeDir(dir)
	return filepath.Join(dir, "scouter.conf")
''')]),
('C22','quiet','is-not-exist',[(F,STATERR,'	if err != nil && !os.IsNotExist(err) {\n		return\n	}\n'),(F,LOADERR,'		if err != nil && !os.IsNotExist(err) {\n			return\n		}\n'),(F,'	"syscall"\n','')]),
('C22','quiet','helper-env',[(F,'		props := properties.NewProperties()\n		for _, e := range os.Environ() {\n'+ENV+'		}\n','		props := fromEnv()\n'),(F,None,'\nfunc fromEnv() *properties.Properties {\n	props := properties.NewProperties()\n	for _, kv := range os.Environ() {\n		i := strings.IndexByte(kv, \'=\')\n		if i < 0 {\n			continue\n		}\n		props.Set(kv[:i], kv[i+1:])\n	}\n	return props\n}\n')]),
('C22','quiet','early-return',[(F,W,'	if info != nil && !info.ModTime().After(conf.lastModified) {\n		return\n	}\n	{\n')]),
('C22','quiet','before',[(F,'info.ModTime().After(conf.lastModified)','conf.lastModified.Before(info.ModTime())')]),
('C22','quiet','filter-len',[(F,'			return v != ""\n','			return len(v) > 0\n')]),
('C22','quiet','missing-helper',[(F,STATERR,'	if err != nil && !missing(err) {\n		return\n	}\n'),(F,LOADERR,'		if err != nil && !missing(err) {\n			return\n		}\n'),(F,None,'\nfunc missing(err error) bool {\n	pe, ok := err.(*os.PathError)\n	return ok && pe.Err == syscall.ENOENT\n}\n')]),
('C22','quiet','remember-before-add',[(F,'		if info != nil {\n			conf.lastModified = info.ModTime()\n		}\n\n		//last',''),(F,'		conf.addToConf(props)\n','		if info != nil {\n			conf.lastModified = info.ModTime()\n		}\n		conf.addToConf(props)\n')]),
('C22','catch','name-told-early',[(F,OBJ,''),(F,'	conf.ObjHash = util.HashString(conf.ObjName)\n',OBJ+'	conf.ObjHash = util.HashString(conf.ObjName)\n')]),
]

_OLD="""	observerLock.RLock()
	defer observerLock.RUnlock()

	for _, r := range observers {
		r.Run()
	}"""
def _snap(add, run):
    return [('conf/opserver.go',_OLD,"""	var all []Runnable
	observerLock.RLock()
	for _, r := range observers {
		"""+add+"""
	}
	observerLock.RUnlock()
	for i, r := range all {
		_ = i
		"""+run+"""
	}""")]
EDITS+=[
('C22','quiet','notify-list',_snap('all = append(all, r)','r.Run()')),
('C22','catch','notify-list-skip',_snap('all = append(all, r)','if i > 0 {\n			r.Run()\n		}')),
('C22','catch','notify-list-twice',_snap('all = append(all, r)','r.Run()\n		all[0].Run()')),
('C22','catch','notify-list-part',_snap('if len(all) < 8 {\n			all = append(all, r)\n		}','r.Run()')),
('C22','catch','notify-list-only',[('conf/opserver.go',_OLD,"""	var all []Runnable
	observerLock.RLock()
	for _, r := range observers {
		all = append(all, r)
	}
	observerLock.RUnlock()
	_ = all""")]),
]

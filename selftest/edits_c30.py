F = 'strace/tracemain.go'
GET = '''	ip := req.RemoteAddr
	if ac.TraceHttpClientIpHeaderKey != "" {
		headerIp := req.Header.Get(ac.TraceHttpClientIpHeaderKey)
		if headerIp != "" {
			ip = headerIp
		}
	}
	return ip
'''
NORM = '''	return strings.Split(ip, ":")[0]
'''
KEYED = '''			for _, k := range split {
				values := r.Header.Values(strings.TrimSpace(k))
				if values != nil && len(values) > 0 {
					v := strings.Join(values, ",")
					tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("header: %s: %s", k, v), startTime))
				}
			}
'''
ALL = '''			for k, v := range r.Header {
				vs := strings.Join(v, ",")
				tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("header: %s: %s", k, vs), startTime))
			}
'''
NAME = 'strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, "")'


def c(name, o, n):
    return ('C30', 'catch', '30-' + name, [(F, o, n)])


def q(name, *ed):
    return ('C30', 'quiet', '30q-' + name, [(F, a, b) for a, b in ed])


EDITS = [
    c('ip-header-always', 'if headerIp != "" {', 'if true {'),
    c('ip-never-header', 'ip = headerIp', '_ = headerIp'),
    c('ip-other-header', 'req.Header.Get(ac.TraceHttpClientIpHeaderKey)', 'req.Header.Get("X-Forwarded-For")'),
    c('ip-host', 'ip := req.RemoteAddr', 'ip := req.Host'),
    c('ip-port', NORM, '\treturn ip\n'),
    c('ip-last', NORM, '\tparts := strings.Split(ip, ":")\n\treturn parts[len(parts)-1]\n'),
    c('ip-second', NORM, '\tparts := strings.SplitN(ip, ":", 2)\n\treturn parts[len(parts)-1]\n'),
    c('ip-dot', NORM, '\treturn strings.Split(ip, ".")[0]\n'),
    c('ip-cut-one', NORM, '\tif i := strings.Index(ip, ":"); i > 0 {\n\t\treturn ip[:i-1]\n\t}\n\treturn ip\n'),
    c('ip-last-index', NORM, '\tif i := strings.LastIndex(ip, ":"); i >= 0 {\n\t\treturn ip[:i]\n\t}\n\treturn ip\n'),
    c('name-order', NAME, 'strings.Join([]string{req.Method, "<", req.URL.Path, ">"}, "")'),
    c('name-raw', NAME, 'strings.Join([]string{req.RequestURI, "<", req.Method, ">"}, "")'),
    c('name-sep', NAME, 'strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, " ")'),
    c('name-nomethod', NAME, 'req.URL.Path'),
    c('query-always', 'if ac.ProfileHttpQuerystringEnabled {', 'if r.URL.RawQuery != "" {'),
    c('query-inside', '''	if ac.ProfileHttpQuerystringEnabled {
''', '''	if ac.ProfileHttpHeaderEnabled && ac.ProfileHttpQuerystringEnabled {
'''),
    c('query-param', 'if ac.ProfileHttpQuerystringEnabled {', 'if ac.ProfileHttpHeaderEnabled {'),
    c('header-always', 'if ac.ProfileHttpHeaderEnabled {', 'if ac.ProfileHttpHeaderEnabled || ac.ProfileHttpHeaderKeys != "" {'),
    c('header-inverted', 'notAll := len(ac.ProfileHttpHeaderKeys) > 0', 'notAll := len(ac.ProfileHttpHeaderKeys) == 0'),
    c('header-all-only', 'notAll := len(ac.ProfileHttpHeaderKeys) > 0', 'notAll := false'),
    c('header-keyed-only', 'notAll := len(ac.ProfileHttpHeaderKeys) > 0', 'notAll := true'),
    c('header-no-trim', 'strings.TrimSpace(k)', 'k'),
    c('header-first-value', 'v := strings.Join(values, ",")', 'v := values[0]'),
    c('header-one-value', 'if values != nil && len(values) > 0 {', 'if len(values) == 1 {'),
    c('header-two-values', 'len(values) > 0 {', 'len(values) > 1 {'),
    c('header-break', '''values ")''' if False else '''					tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("header: %s: %s", k, v), startTime))
				}
''', '''					tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("header: %s: %s", k, v), startTime))
				} else {
					break
				}
'''),
    c('header-return', '''				if values != nil && len(values) > 0 {
''', '''				if values == nil {
					return
				}
				if len(values) > 0 {
'''),
    c('header-first-key', 'for _, k := range split {', 'for _, k := range split[:1] {'),
    c('header-semicolon', 'strings.Split(ac.ProfileHttpHeaderKeys, ",")', 'strings.Split(ac.ProfileHttpHeaderKeys, ";")'),
    c('header-value-only', 'fmt.Sprintf("header: %s: %s", k, v)', 'fmt.Sprintf("header: %s", v)'),
    c('header-swapped', 'fmt.Sprintf("header: %s: %s", k, v)', 'fmt.Sprintf("header: %s: %s", v, k)'),
    c('header-all-skip', '				vs := strings.Join(v, ",")\n', '				if len(v) > 1 {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n				vs := strings.Join(v, ",")\n'),
    c('header-all-break', 'k, vs), startTime))\n', 'k, vs), startTime))\n				break\n'),
    c('header-map-raw', 'r.Header.Values(strings.TrimSpace(k))', 'r.Header[strings.TrimSpace(k)]'),
    c('header-join-space', 'v := strings.Join(values, ",")', 'v := strings.Join(values, " ")'),
    c('header-time', 'startTime := util.MillisToNow(tctx.StartTime)', 'startTime := int32(0)'),
    c('header-trailer', 'r.Header.Values(', 'r.Trailer.Values('),
    c('header-uncalled', '	profileHttpHeaders(req, tctx)\n', ''),
    q('ip-return', (GET, '''	if ac.TraceHttpClientIpHeaderKey == "" {
		return req.RemoteAddr
	}
	if v := req.Header.Get(ac.TraceHttpClientIpHeaderKey); v != "" {
		return v
	}
	return req.RemoteAddr
''')),
    q('ip-nokeycheck', (GET, '''	if v := req.Header.Get(ac.TraceHttpClientIpHeaderKey); len(v) > 0 {
		return v
	}
	return req.RemoteAddr
''')),
    q('ip-index', (NORM, '\tif i := strings.Index(ip, ":"); i >= 0 {\n\t\treturn ip[:i]\n\t}\n\treturn ip\n')),
    q('ip-indexbyte', (NORM, "\ti := strings.IndexByte(ip, ':')\n\tif i == -1 {\n\t\treturn ip\n\t}\n\treturn ip[:i]\n")),
    q('ip-cut', (NORM, '\tbefore, _, _ := strings.Cut(ip, ":")\n\treturn before\n')),
    q('ip-splitn', (NORM, '\treturn strings.SplitN(ip, ":", 2)[0]\n')),
    q('ip-inline', ('getRemoteIp(req))', 'normalizeIp(getRemoteIp(req)))'),) if False else q('ip-local', ('newCtx, tctx := startService(ctx, serviceName, getRemoteIp(req))', 'addr := getRemoteIp(req)\n\tnewCtx, tctx := startService(ctx, serviceName, addr)')),
    q('name-plus', (NAME, 'req.URL.Path + "<" + req.Method + ">"')),
    q('name-sprintf', (NAME, 'fmt.Sprintf("%s<%s>", req.URL.Path, req.Method)')),
    q('name-func', (NAME, 'nameOf(req)'), (None, '\nfunc nameOf(r *http.Request) string {\n\treturn r.URL.Path + "<" + r.Method + ">"\n}\n')),
    q('header-early', ('''	if ac.ProfileHttpHeaderEnabled {
		notAll := len(ac.ProfileHttpHeaderKeys) > 0
		if notAll {
''', '''	if ac.ProfileHttpHeaderEnabled {
		if ac.ProfileHttpHeaderKeys != "" {
''')),
    q('header-continue', ('''				if values != nil && len(values) > 0 {
					v := strings.Join(values, ",")
					tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("header: %s: %s", k, v), startTime))
				}
''', '''				if len(values) == 0 {
					continue
				}
				addHeader(tctx, k, values, startTime)
'''), ('''				vs := strings.Join(v, ",")
				tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("header: %s: %s", k, vs), startTime))
''', '''				addHeader(tctx, k, v, startTime)
'''), (None, '''
func addHeader(tctx *netio.TraceContext, name string, values []string, at int32) {
	tctx.Profile.Add(netdata.NewMessageStep("header: "+name+": "+strings.Join(values, ","), at))
}
''')),
    q('header-trim-shown', (KEYED, '''			for i := range split {
				name := strings.TrimSpace(split[i])
				if name == "" {
					continue
				}
				if values := r.Header.Values(name); len(values) != 0 {
					tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("header: %s: %s", name, strings.Join(values, ",")), startTime))
				}
			}
''')),
    q('header-canonical', ('r.Header.Values(strings.TrimSpace(k))', 'r.Header[http.CanonicalHeaderKey(strings.TrimSpace(k))]')),
    q('header-funcs', (KEYED, '\t\t\tconfigured(r, tctx, split, startTime)\n'), (ALL, '\t\t\teach(r, tctx, startTime)\n'), (None, '''
func configured(r *http.Request, tctx *netio.TraceContext, split []string, startTime int32) {
''' + KEYED + '''}

func each(r *http.Request, tctx *netio.TraceContext, startTime int32) {
''' + ALL + '''}
''')),
    q('query-first', ('''	if ac.ProfileHttpQuerystringEnabled {
		tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("query: %s", r.URL.RawQuery), startTime))
	}
''', ''), ('	startTime := util.MillisToNow(tctx.StartTime)\n	if ac.ProfileHttpHeaderEnabled {', '''	startTime := util.MillisToNow(tctx.StartTime)
	if ac.ProfileHttpQuerystringEnabled {
		tctx.Profile.Add(netdata.NewMessageStep("query: "+r.URL.RawQuery, startTime))
	}
	if ac.ProfileHttpHeaderEnabled {''')),
    q('header-return', ('	if ac.ProfileHttpHeaderEnabled {\n', '	if !ac.ProfileHttpHeaderEnabled && !ac.ProfileHttpQuerystringEnabled {\n\t\treturn\n\t}\n	if ac.ProfileHttpHeaderEnabled {\n')),
]

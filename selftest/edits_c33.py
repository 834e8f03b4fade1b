F='common/util/strmatch.go'
SRC=open('/repo/scouterx/'+F).read()
def body(fn):
    i=SRC.index(fn); j=SRC.index('\n}\n',i)+3
    return SRC[i:j]
INC=body('func (m *StrMatch) include('); NEW=body('func NewStrMatch('); LST=body('func NewCommaSeparatedChainedStrMatcher('); ANY=body('func (m CommaSeparatedChainedStrMatcher) IsMatch(')
def C(n,*s): return ('C33','catch',n,[(F,a,b) for a,b in s])
def Q(n,*s): return ('C33','quiet',n,[(F,a,b) for a,b in s])
EDITS=[
C('33-end-slice',('m.end = pattern[apos+1:]\n		} else if anyEnd','m.end = pattern[apos:]\n		} else if anyEnd')),
C('33-strend-contains',('len(target) >= len(m.start)+len(m.end) && ','')),
C('33-strend-off',('len(target) >= len(m.start)+len(m.end)','len(target) > len(m.start)+len(m.end)')),
C('33-strmid-any',('target[len(m.start):], m.mid)','target, m.mid)')),
C('33-midend-any',('target[:len(target)-len(m.end)], m.mid)','target, m.mid)')),
C('33-midmid-order',('return strings.Contains(target[x+len(m.mid):], m.mid2)','return strings.Contains(target, m.mid2)')),
C('33-midmid-x',('x+len(m.mid):]','x:]')),
C('33-start-cut',('m.start = pattern[:length-1]','m.start = pattern[:length-2]')),
C('33-start-full',('m.start = pattern[:length-1]','m.start = pattern')),
C('33-fold',('return m.mid == target','return strings.EqualFold(m.mid, target)')),
C('33-apos',('		apos++\n','')),
C('33-anymid',('apos < length-1','apos < length')),
C('33-anymid2',('apos > 0 && apos < length-1','apos > 1 && apos < length-1')),
Q('33q-swap-kind',('m.comp = c_STR\n','m.comp = c_STR_MID\n')),
C('33-suffix-prefix',('return strings.HasSuffix(target, m.end)\n','return strings.HasPrefix(target, m.end)\n')),
C('33-length',('length < 2','length < 3')),
C('33-any',('pattern == asta1 || pattern == asta2','pattern == asta2')),
C('33-empty',('''	if target == "" {
		return false;
	}
''','')),
C('33-index1',('if x < 0','if x <= 0')),
C('33-lastindex',('strings.Index(target, m.mid)','strings.LastIndex(target, m.mid)')),
C('33-lastbyte',('strings.IndexByte(pattern[1:], asta)','strings.LastIndexByte(pattern[1:], asta)')),
C('33-asta',("var asta byte = '*'","var asta byte = '%'")),
C('33-const',('const c_MID_END compType = 6','const c_MID_END compType = 5')) if False else C('33-kind-lost',('	case c_END:\n		return strings.HasSuffix(target, m.end)\n','')),
C('33-sep',('strings.Split(patterns, ",")','strings.Split(patterns, ";")')),
C('33-skip-first',('range arrPatterns {','range arrPatterns[1:] {')),
C('33-skip-empty-break',('		matcher.strMatches = append(','		if pattern == "" {\n			break\n		}\n		matcher.strMatches = append(')),
C('33-skip-some',('		matcher.strMatches = append(','		if len(pattern) < 2 {\n			continue\n		}\n		matcher.strMatches = append(')),
C('33-lower',('NewStrMatch(pattern))','NewStrMatch(strings.ToLower(pattern)))')),
C('33-overwrite',('append(matcher.strMatches, NewStrMatch(pattern))','append([]StrMatch(nil), NewStrMatch(pattern))')),
C('33-first-only',('			return true\n		}\n	}\n	return false\n}\n','			return true\n		}\n		return false\n	}\n	return false\n}\n')),
C('33-all',('		if match.include(target) {\n			return true\n		}\n	}\n	return false','		if !match.include(target) {\n			return false\n		}\n	}\n	return true')),
C('33-neg',('if match.include(target) {','if !match.include(target) {')),
C('33-skip-one',('range m.strMatches {','range m.strMatches[1:] {')),
C('33-empty-list',('	for _, match := range m.strMatches {','	if len(m.strMatches) == 0 {\n		return true\n	}\n	for _, match := range m.strMatches {')),
# the meaning is kept
Q('33q-index-any',('strings.IndexByte(pattern[1:], asta)','strings.Index(pattern[1:], "*")')),
Q('33q-hasprefix',('anyStart := pattern[0] == asta','anyStart := strings.HasPrefix(pattern, "*")'),('anyEnd := pattern[length-1] == asta','anyEnd := strings.HasSuffix(pattern, "*")')),
Q('33q-strend-slice',('len(target) >= len(m.start)+len(m.end) && strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)','strings.HasPrefix(target, m.start) && strings.HasSuffix(target[len(m.start):], m.end)')),
Q('33q-strend-if',('		return len(target) >= len(m.start)+len(m.end) && strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)\n','		if len(target) < len(m.start)+len(m.end) {\n			return false\n		}\n		return strings.HasSuffix(target, m.end) && strings.HasPrefix(target, m.start)\n')),
Q('33q-strend-room',('len(target) >= len(m.start)+len(m.end) &&','len(target)-len(m.start) >= len(m.end) &&')),
Q('33q-midmid-rest',('		return strings.Contains(target[x+len(m.mid):], m.mid2)','		rest := target[x:]\n		rest = rest[len(m.mid):]\n		return strings.Index(rest, m.mid2) >= 0')),
Q('33q-midmid-contains',('		if x < 0 {','		if x == -1 {')),
Q('33q-midend-if',('		return strings.HasSuffix(target, m.end) && strings.Contains(target[:len(target)-len(m.end)], m.mid)','		if !strings.HasSuffix(target, m.end) {\n			return false\n		}\n		head := target[:len(target)-len(m.end)]\n		return strings.Index(head, m.mid) != -1')),
Q('33q-apos',('	apos := strings.IndexByte(pattern[1:], asta)\n	if apos >= 0 {\n		apos++\n	}\n','	apos := strings.IndexByte(pattern[1:], asta) + 1\n')),
Q('33q-trim',('m.start = pattern[:length-1]','m.start = strings.TrimSuffix(pattern, "*")')),
Q('33q-empty-len',('target == "" {','len(target) == 0 {')),
Q('33q-value-recv',('func (m *StrMatch) include(','func (m StrMatch) include(')),
Q('33q-helper',('		return strings.HasPrefix(target, m.start) && strings.Contains(target[len(m.start):], m.mid)','		return m.startsThen(target)')),
Q('33q-lit',('			m.comp = c_EQU\n			m.mid = pattern\n		}\n	}\n	return m','			return StrMatch{Pattern: pattern, comp: c_EQU, mid: pattern}\n		}\n	}\n	return m')),
Q('33q-list-index',(LST,LST.replace('for _, pattern := range arrPatterns {','for i := 0; i < len(arrPatterns); i++ {\n		pattern := arrPatterns[i]'))),
Q('33q-list-make',(LST,'''func NewCommaSeparatedChainedStrMatcher(patterns string) CommaSeparatedChainedStrMatcher {
	arr := strings.Split(patterns, ",")
	ms := make([]StrMatch, len(arr))
	for i, p := range arr {
		ms[i] = NewStrMatch(p)
	}
	return CommaSeparatedChainedStrMatcher{strMatches: ms}
}
''')),
Q('33q-list-local',(LST,'''func NewCommaSeparatedChainedStrMatcher(patterns string) CommaSeparatedChainedStrMatcher {
	var ms []StrMatch
	for _, p := range strings.Split(patterns, ",") {
		m := NewStrMatch(p)
		ms = append(ms, m)
	}
	return CommaSeparatedChainedStrMatcher{strMatches: ms}
}
''')),
Q('33q-any-index',(ANY,ANY.replace('for _, match := range m.strMatches {','for i := range m.strMatches {').replace('match.include','m.strMatches[i].include'))),
Q('33q-any-found',(ANY,'''func (m CommaSeparatedChainedStrMatcher) IsMatch(target string) bool {
	found := false
	for _, match := range m.strMatches {
		if match.include(target) {
			found = true
			break
		}
	}
	return found
}
''')),
Q('33q-any-ptr',(ANY,ANY.replace('(m Comma','(m *Comma'))) if False else Q('33q-any-count',(ANY,ANY.replace('for _, match := range m.strMatches {\n','for i, n := 0, len(m.strMatches); i < n; i++ {\n		match := m.strMatches[i]\n'))),
]
EDITS=[e if e[2]!='33q-helper' else (e[0],e[1],e[2],e[3]+[(F,None,'\nfunc (m *StrMatch) startsThen(target string) bool {\n	if !strings.HasPrefix(target, m.start) {\n		return false\n	}\n	return strings.Contains(target[len(m.start):], m.mid)\n}\n')]) for e in EDITS]

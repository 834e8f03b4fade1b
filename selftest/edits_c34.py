H = 'common/util/hashutil.go'
X = 'common/util/hexautil.go'
I = 'common/util/iputil.go'
K = 'common/util/keygen/keygen.go'
T = 'common/util/timeutil.go'
STEP = 'crc = ((crc >> 8) & 0x00FFFFFF ) ^ (int32)(table[(crc ^ int32(b)) & 0xff])'
HBODY = '''	var crc int32
	crc = -1
	//crc = -1
	for _, b := range bytes {
		''' + STEP + '''
	}
	crc = crc ^ -1
	return crc
'''
IBODY = '''	result := make([]byte, 4)
	split := strings.Split(ip, ".")
	if len(split) != 4 {
		return emptyIp
	}
	for i, part := range split {
		v, err := strconv.ParseUint(part, 10, 8)
		if (err != nil || v < 0) {
			return emptyIp
		}
		result[i] = byte(v)
	}
	return result
'''
XBODY = '''	minus := num < 0
	if minus {
		return xminus + strconv.FormatInt(-num, 32)
	} else {
		return xplus + strconv.FormatInt(num, 32)
	}
'''
HSTR = '''	b := []byte(v)
	return Hash(b)
'''
KB = 'key := keygen.random.Int63()'


def c(name, f, o, n):
    return ('C34', 'catch', '34-' + name, [(f, o, n)])


def q(name, *ed):
    return ('C34', 'quiet', '34q-' + name, list(ed))


EDITS = [
    # hash
    c('hash-init', H, '\tcrc = -1\n\t//crc', '\tcrc = 0\n\t//crc'),
    c('hash-final', H, '\tcrc = crc ^ -1\n\treturn crc', '\treturn crc'),
    c('hash-signed-shift', H, '((crc >> 8) & 0x00FFFFFF )', '(crc >> 8)'),
    c('hash-mask-short', H, '0x00FFFFFF', '0x00FFFFF'),
    c('hash-shift7', H, 'crc >> 8', 'crc >> 7'),
    c('hash-index-mask', H, '& 0xff]', '& 0x7f]'),
    c('hash-index-nobyte', H, STEP, '_ = b\n\t\t' + STEP.replace('(crc ^ int32(b))', 'crc')),
    c('hash-index-shift', H, '(crc ^ int32(b)) & 0xff', '(crc >> 8 ^ int32(b)) & 0xff'),
    c('hash-plus', H, '& 0x00FFFFFF ) ^ (int32)', '& 0x00FFFFFF ) + (int32)'),
    c('hash-or', H, '& 0x00FFFFFF ) ^ (int32)', '& 0x00FFFFFF ) | (int32)'),
    c('hash-table-entry', H, '0xd1bb67f1', '0xd1bb67f0'),
    c('hash-table-swap', H, '0x35b5a8fa, 0x42b2986c', '0x42b2986c, 0x35b5a8fa'),
    c('hash-last-byte', H, 'range bytes {', 'range bytes[:len(bytes)-1] {'),
    c('hash-break', H, '\tfor _, b := range bytes {\n', '\tfor i, b := range bytes {\n\t\tif i > 255 {\n\t\t\tbreak\n\t\t}\n'),
    c('hash-skip-space', H, '\tfor _, b := range bytes {\n', '\tfor _, b := range bytes {\n\t\tif b == 0 {\n\t\t\tcontinue\n\t\t}\n'),
    c('hash-reverse', H, '\tfor _, b := range bytes {\n', '\tfor i := len(bytes) - 1; i >= 0; i-- {\n\t\tb := bytes[i]\n'),
    c('hash-runes', H, HSTR, '\tvar crc int32 = -1\n\tfor _, r := range v {\n\t\tb := byte(r)\n\t\tcrc = ((crc >> 8) & 0x00FFFFFF) ^ int32(table[(crc^int32(b))&0xff])\n\t}\n\treturn ^crc\n'),
    c('hash-trim', H, 'b := []byte(v)', 'if len(v) > 4096 {\n\t\tv = v[:4096]\n\t}\n\tb := []byte(v)'),
    c('hash-empty', H, 'b := []byte(v)', 'if len(v) < 2 {\n\t\treturn 0\n\t}\n\tb := []byte(v)'),
    c('hash-fnv', H, 'return Hash(b)', '_ = b\n\treturn int32(HashUint(v))'),
    ('C34', 'catch', '34-hash-castagnoli', [(H, 'import (\n', 'import (\n\t"hash/crc32"\n'), (H, 'return Hash(b)', 'return int32(crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli)))')]),
    c('hash-int8', H, 'int32(b)) & 0xff', 'int32(int8(b)&0x7f)) & 0xff'),
    c('hash-table-written', H, None, '\nfunc init() {\n\ttable[3] ^= 1\n}\n'),
    q('hash-crc32', (H, 'import (\n', 'import (\n\t"hash/crc32"\n'), (H, 'return Hash(b)', 'return int32(crc32.ChecksumIEEE(b))')),
    q('hash-crc32-update', (H, 'import (\n', 'import (\n\t"hash/crc32"\n'), (H, 'return Hash(b)', 'return int32(crc32.Update(0, crc32.IEEETable, b))')),
    q('hash-uint', (H, HBODY, '''	crc := ^uint32(0)
	for _, b := range bytes {
		crc = crc>>8 ^ uint32(table[byte(crc)^b])
	}
	return int32(^crc)
''')),
    q('hash-signed-byte', (H, 'int32(b)) & 0xff', 'int32(int8(b))) & 0xff')),
    q('hash-index-loop', (H, HBODY, '''	crc := uint32(0xffffffff)
	for i := 0; i < len(bytes); i++ {
		crc = (crc >> 8) ^ uint32(table[(crc^uint32(bytes[i]))%256])
	}
	crc ^= 0xffffffff
	return int32(crc)
''')),
    q('hash-step-func', (H, STEP, 'crc = step(crc, b)'), (H, None, '\nfunc step(crc int32, b byte) int32 {\n\tlow := byte(crc) ^ b\n\treturn (crc>>8)&0x00FFFFFF ^ int32(table[low])\n}\n')),
    q('hash-empty', (H, 'b := []byte(v)', 'if len(v) == 0 {\n\t\treturn 0\n\t}\n\tb := []byte(v)')),
    q('hash-string', (H, HSTR, '\tvar crc int32 = -1\n\tfor i := 0; i < len(v); i++ {\n\t\tcrc = ((crc >> 8) & 0x00FFFFFF) ^ int32(table[(crc^int32(v[i]))&0xff])\n\t}\n\treturn ^crc\n')),
    q('hash-complemented', (H, HBODY, '''	var crc uint32
	for _, b := range bytes {
		c := ^crc
		crc = ^(c>>8 ^ uint32(table[byte(c)^b]))
	}
	return int32(crc)
''')) if False else q('hash-split-step', (H, STEP, 'low := (crc ^ int32(b)) & 0xff\n\t\thigh := int32(uint32(crc) >> 8)\n\t\tcrc = high ^ int32(table[low])')),
    q('hash-table-array', (H, 'var table = []int{', 'var table = [...]uint32{')),
    q('hash-table-var', (H, STEP, 'tb := table\n\t\tcrc = ((crc >> 8) & 0x00FFFFFF) ^ int32(tb[(crc^int32(b))&0xff])')),
    # ids
    c('id-sign-lost', X, 'xminus + strconv.FormatInt(-num, 32)', 'xplus + strconv.FormatInt(-num, 32)'),
    c('id-double-sign', X, 'FormatInt(-num, 32)', 'FormatInt(num, 32)'),
    c('id-base', X, 'xplus + strconv.FormatInt(num, 32)', 'xplus + strconv.FormatInt(num, 36)'),
    c('id-zero', X, 'num < 0', 'num <= 0'),
    c('id-cut', X, 'xplus + strconv.FormatInt(num, 32)', 'xplus + strconv.FormatInt(int64(int32(num)), 32)'),
    c('id-no-prefix', X, XBODY, '\tif num < 0 {\n\t\treturn xminus + strconv.FormatInt(-num, 32)\n\t}\n\tif num < 10 {\n\t\treturn strconv.FormatInt(num, 32)\n\t}\n\treturn xplus + strconv.FormatInt(num, 32)\n'),
    c('id-unsigned', X, XBODY, '\treturn xplus + strconv.FormatUint(uint64(num), 32)\n'),
    c('id-const', X, 'xminus = "z"', 'xminus = "-"'),
    q('id-early', (X, XBODY, '\tif num >= 0 {\n\t\treturn "x" + strconv.FormatInt(num, 32)\n\t}\n\treturn "z" + strconv.FormatInt(-num, 32)\n')),
    q('id-sign-var', (X, XBODY, '\tsign := xplus\n\tif num < 0 {\n\t\tsign = xminus\n\t\tnum = -num\n\t}\n\treturn sign + strconv.FormatInt(num, 32)\n')),
    q('id-switch', (X, XBODY, '\tswitch {\n\tcase num < 0:\n\t\treturn xminus + strconv.FormatInt(0-num, 32)\n\tdefault:\n\t\treturn xplus + strconv.FormatInt(num, 32)\n\t}\n')),
    q('id-minus-one', (X, '-num, 32', 'num*-1, 32')),
    c('key-negative', K, KB, 'key := int64(keygen.random.Uint64())'),
    c('key-fixed', K, KB, 'key := time.Now().UnixNano()'),
    c('key-minus', K, KB, 'key := -keygen.random.Int63()'),
    q('key-shift', (K, KB, 'key := int64(keygen.random.Uint64() >> 1)')),
    q('key-mask', (K, KB, 'key := int64(keygen.random.Uint64() & 0x7fffffffffffffff)')),
    q('key-n', (K, KB, 'key := keygen.random.Int63n(1 << 62)')),
    q('key-helper', (K, KB, 'key := keygen.draw()'), (K, None, '\nfunc (k *KeyGen) draw() int64 {\n\treturn k.random.Int63()\n}\n')),
    # addresses
    c('ip-bits', I, 'part, 10, 8)', 'part, 10, 16)'),
    c('ip-base0', I, 'part, 10, 8)', 'part, 0, 8)'),
    c('ip-base16', I, 'part, 10, 8)', 'part, 16, 8)'),
    c('ip-less', I, 'len(split) != 4', 'len(split) > 4'),
    c('ip-more', I, 'len(split) != 4', 'len(split) < 4'),
    c('ip-reverse', I, 'result[i] = byte(v)', 'result[3-i] = byte(v)'),
    c('ip-error-ignored', I, 'if (err != nil || v < 0) {', 'if err == nil && v < 0 {'),
    c('ip-break', I, '''		if (err != nil || v < 0) {
			return emptyIp
		}
''', '''		if err != nil {
			break
		}
'''),
    c('ip-continue', I, '''			return emptyIp
		}
		result''', '''			continue
		}
		result'''),
    c('ip-partial', I, '''			return emptyIp
		}
		result''', '''			return result
		}
		result'''),
    c('ip-empty-one', I, '[]byte{0, 0, 0, 0}', '[]byte{0, 0, 0, 1}'),
    c('ip-empty-nil', I, '[]byte{0, 0, 0, 0}', '[]byte{}'),
    c('ip-shared', I, 'result := make([]byte, 4)', 'result := emptyIp'),
    c('ip-zero-refused', I, 'v < 0)', 'v == 0)'),
    c('ip-255-refused', I, 'v < 0)', 'v >= 255)'),
    c('ip-atoi', I, 'strconv.ParseUint(part, 10, 8)', 'strconv.Atoi(part)'),
    c('ip-five', I, 'make([]byte, 4)', 'make([]byte, 5)'),
    c('ip-colon', I, 'strings.Split(ip, ".")', 'strings.Split(ip, ":")'),
    q('ip-atoi', (I, 'strconv.ParseUint(part, 10, 8)', 'strconv.Atoi(part)'), (I, 'v < 0)', 'v < 0 || v > 255)')),
    q('ip-parens', (I, 'if (err != nil || v < 0) {', 'if err != nil {')),
    q('ip-count-loop', (I, 'for i, part := range split {\n', 'for i := 0; i < 4; i++ {\n\t\tpart := split[i]\n')),
    q('ip-append', (I, 'make([]byte, 4)', 'make([]byte, 0, 4)'), (I, 'result[i] = byte(v)', 'result = append(result, byte(v))'), (I, 'for i, part', 'for _, part')),
    q('ip-helper', (I, 'v, err := strconv.ParseUint(part, 10, 8)\n\t\tif (err != nil || v < 0) {', 'v, ok := octet(part)\n\t\tif !ok {'), (I, 'byte(v)', 'v'), (I, None, '\nfunc octet(p string) (byte, bool) {\n\tn, err := strconv.ParseUint(p, 10, 8)\n\tif err != nil {\n\t\treturn 0, false\n\t}\n\treturn byte(n), true\n}\n')),
    q('ip-fresh-empty', (I, '\t\treturn emptyIp\n\t}\n\tfor', '\t\treturn make([]byte, 4)\n\t}\n\tfor')),
    q('ip-late-make', (I, IBODY, '''	parts := strings.Split(ip, ".")
	if len(parts) == 4 {
		b := make([]byte, 4)
		ok := true
		for i := range parts {
			n, err := strconv.ParseUint(parts[i], 10, 8)
			if err != nil {
				ok = false
				break
			}
			b[i] = uint8(n)
		}
		if ok {
			return b
		}
	}
	return emptyIp
''')),
    q('ip-empty-first', (I, '\tresult := make', '\tif ip == "" {\n\t\treturn emptyIp\n\t}\n\tresult := make')),
    q('ip-array', (I, 'result := make([]byte, 4)', 'var addr [4]byte\n\tresult := addr[:]')),
    # milliseconds
    c('ms-micro', T, 'int64(time.Millisecond)', 'int64(time.Microsecond)'),
    c('ms-swap', T, 'to.Sub(from)', 'from.Sub(to)'),
    c('ms-now-swap', T, 'time.Now().Sub(from)', 'from.Sub(time.Now())'),
    c('ms-unit', T, 'time.Now().Sub(from).Milliseconds()', 'time.Now().Sub(from).Microseconds()'),
    c('ms-cut-early', T, 'int32(time.Now().Sub(from).Milliseconds())', 'int32(time.Now().Sub(from)) / int32(time.Millisecond)'),
    c('ms-nanosecond', T, 't.UnixNano() / int64(time.Millisecond)', 'int64(t.Nanosecond()) / int64(time.Millisecond)'),
    c('ms-second', T, 't.UnixNano() / int64(time.Millisecond)', 't.Unix()'),
    q('ms-unixmilli', (T, 't.UnixNano() / int64(time.Millisecond)', 't.UnixNano() / 1000000')),
    q('ms-since', (T, 'time.Now().Sub(from).Milliseconds()', 'time.Since(from).Milliseconds()')),
    q('ms-div', (T, 'int32(time.Now().Sub(from).Milliseconds())', 'int32(time.Now().Sub(from) / time.Millisecond)')),
    q('ms-between', (T, 'int32(time.Now().Sub(from).Milliseconds())', 'MillisBetween(from, time.Now())')),
]

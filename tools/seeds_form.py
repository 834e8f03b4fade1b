U='common/util/'
def T(body, imp=''):
    return 'package util\n\nimport (\n\t"testing"\n%s)\n\nfunc TestVerifDemo(t *testing.T) {\n%s}\n' % (imp, body)
SEEDS=[
dict(id='form-table-entry', prop='C34', needs='a text in whose hash the low byte of the running value and a byte of the text combine to 195', breaks='the name is registered under another hash than the collector computes, and only for some names',
 edits=[(U+'hashutil.go','0x5bdeae1d,\n	0x9b64c2b0, 0xec63f226, 0x756aa39c, 0x026d930a','0x5bdeae1d,\n	0x9b64c2b0, 0xec63f226, 0x756aa39c, 0x026d930b')], pkg='scouterx/common/util',
 test=T('''	for i := 0; i < 5000; i++ {
		s := "/service/" + strconv.Itoa(i)
		if HashString(s) != int32(crc32.ChecksumIEEE([]byte(s))) {
			t.Fatal(s)
		}
	}
''','\t"hash/crc32"\n\t"strconv"\n')),
dict(id='form-ip-octet', prop='C34', needs='an address with a number above 255', breaks='the number is cut to a byte and the text is taken for the address of another host',
 edits=[(U+'iputil.go','strconv.ParseUint(part, 10, 8)','strconv.ParseUint(part, 10, 16)')], pkg='scouterx/common/util',
 test=T('''	for s, want := range map[string][]byte{"10.20.30.40": {10, 20, 30, 40}, "10.20.300.40": {0, 0, 0, 0}} {
		if got := IpToBytes(s); !bytes.Equal(got, want) {
			t.Error(s, got)
		}
	}
''','\t"bytes"\n')),
dict(id='form-millis-narrow', prop='C34', needs='a service that runs for more than two seconds', breaks='the span is narrowed to 32 bits before it is divided, so the elapsed time wraps',
 edits=[(U+'timeutil.go','int32(time.Now().Sub(from).Milliseconds())','int32(time.Now().Sub(from)) / int32(time.Millisecond)')], pkg='scouterx/common/util',
 test=T('''	for _, ms := range []int{100, 1500, 10000, 100000} {
		got := MillisToNow(time.Now().Add(-time.Duration(ms) * time.Millisecond))
		if int(got) < ms || int(got) > ms+5000 {
			t.Error(ms, got)
		}
	}
''','\t"time"\n')),
dict(id='form-ip-shared', prop='C34', needs='an address that is refused after another was decoded into the shared bytes', breaks='the bytes of the empty address are written to, so a refused text yields the previous address',
 edits=[(U+'iputil.go','result := make([]byte, 4)','result := emptyIp')], pkg='scouterx/common/util',
 test=T('''	a := IpToBytes("10.20.30.40")
	b := IpToBytes("unknown")
	if a[0] != 10 || b[0] != 0 {
		t.Error(a, b)
	}
''')),
]

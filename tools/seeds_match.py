F='common/util/strmatch.go'
def T(cases):
    return '''package util

import "testing"

func TestVerifDemo(t *testing.T) {
	for _, x := range []struct {
		patterns, name string
		want           bool
	}{%s} {
		if got := NewCommaSeparatedChainedStrMatcher(x.patterns).IsMatch(x.name); got != x.want {
			t.Errorf("%%q on %%q: %%v", x.patterns, x.name, got)
		}
	}
}
''' % ', '.join('{"%s", "%s", %s}'%c for c in cases)
SEEDS=[
dict(id='match-short-wildcard', prop='C33', needs='a pattern of one character and an asterisk, such as /*', breaks='the pattern is compared as a literal and matches no service',
 edits=[(F,'	if length < 2 {','	if length < 3 {')], pkg='scouterx/common/util', test=T([('/*','/a','true'),('/*','x/a','false'),('/a*','/ab','true')])),
dict(id='match-one-char-first', prop='C33', needs='a pattern whose first literal is one character, such as /*/health', breaks='the asterisk between the literals is not seen, and the pattern matches nothing but itself',
 edits=[(F,'	anyMid := apos > 0 && apos < length-1','	anyMid := apos > 1 && apos < length-1')], pkg='scouterx/common/util', test=T([('/*/health','/a/health','true'),('/*/health','/a/other','false'),('/a*/health','/a/health','true')])),
dict(id='match-list-stops', prop='C33', needs='a list of patterns with an empty text between two commas', breaks='the patterns after the empty text are not tried',
 edits=[(F,'	for _, match := range m.strMatches {\n','	for _, match := range m.strMatches {\n		if match.Pattern == "" {\n			break\n		}\n')], pkg='scouterx/common/util', test=T([('/a,,/b','/b','true'),('/a,/b','/b','true'),('/a,/b','/c','false')])),
]

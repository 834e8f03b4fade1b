T='scouterx/common/util/strmatch.go'
PROPS=[
dict(id='C33', title='A service pattern matches exactly the names its asterisks allow',
 statement='A non-empty service name matches a list of patterns exactly when it matches one of the texts between its commas, taken as they are. A text without an asterisk matches only the equal name; an asterisk at its start, at its end, or one between its literals stands for any characters or none, so that the literals (of any length, from one character on) occur in the name in their order without overlapping, at its start and end unless an asterisk is there; a text that is only * or ** matches every name. An empty name matches nothing.',
 over=['inputs'], text='all names, and all patterns with at most one asterisk between their literals',
 why='The patterns decide which services are sampled or discarded. The tests try one pair of words in nine patterns; literals of one character, literals that overlap in the name, their order and the list of patterns are not tried.',
 files=[T], mech=[('NewStrMatch',T),('(*StrMatch).include',T),('NewCommaSeparatedChainedStrMatcher and IsMatch',T)],
 observe=['the compiled pattern','what each path compares of the name, and its answer'],
 technique='abstract interpretation of the pattern compiler and the matcher for each form of pattern, with literals of unknown text; the comparisons of each path must settle its answer by the meaning of asterisks',
 note='Two or more asterisks between literals are outside: the agent takes the second one as a character.'),
]

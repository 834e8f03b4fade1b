T='scouterx/strace/tracemain.go'
PROPS=[
dict(id='C30', title='A request is recorded with its client, its name and just the enabled headers',
 statement='The trace of a request is named path<method>; its client address is the text before the first colon of the configured client header, when one is configured and the request has it, and of the remote address otherwise (of the address given, for StartService). The query string is recorded just when that is enabled. Headers are recorded just when that is enabled: each configured name the request has (blanks around it ignored), or every header when no names are configured, as one message with the name and all values joined by a comma.',
 over=['inputs'], text='all requests and all values of the options concerned',
 why='What operators read about a request, and what they chose to keep out of profiles, depends on four options together. The tests start traces with the options at their defaults, where no header and no query is recorded.',
 files=[T], mech=[('StartHttpService',T),('getRemoteIp, normalizeIp',T),('profileHttpHeaders',T)],
 observe=['the client address and name of the new trace','the steps added to its profile before it is handed out'],
 technique='abstract interpretation of all paths of StartHttpService and StartService: terms over the request, the options known on the path at every recorded step, completeness of the loops over names and headers',
 note='An address of IP version 6 is cut at its first colon, as the code does; the collector protocol has four bytes for it.'),
]

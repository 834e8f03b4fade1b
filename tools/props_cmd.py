P='scouterx/netio/tcpclient/tcpclient.go'
H='scouterx/netio/tcpclient/handlers.go'
D='scouterx/dump/dump.go'
PROPS=[
dict(id='C08', title='The collector session follows the request and reply protocol',
 statement='The agent connects to the configured collector address with the configured timeout, announces the TCP_AGENT_V2 mark and its object hash, and then, for each length-prefixed command it reads under the configured read deadline, hands the decoded command and parameter to the handler once and sends back what the handler streamed (whole HasNEXT frames carrying the file\'s bytes in order, nothing left out), a HasNEXT frame with the handler\'s pack if there is one, and exactly one NoNEXT flag. It awaits no further command after a read, decode or write error, or when its object hash or the configured collector address is no longer the one the session began with. The connection is closed whenever the session is left, also by a panic.',
 over=['inputs','histories','fault_sequences'], text='all commands, handler results, I/O errors and configuration changes during a session',
 why='No test opens a TCP session; errors and configuration changes in mid-session are not exercised at all.',
 files=[P,'scouterx/netio/tcpclient/tcpmanager.go',D], mech=[('Prepare, Process',P),('StreamDumpFileContents, DownloadBinaryDumpFiles',D)],
 observe=['bytes on the TCP connection','connection life time'],
 technique='typestate analysis of the session loop by path-sensitive abstract interpretation with streams as item sequences',
 note='A configuration change is assumed to become visible at a dial or while a command is handled; the delay between sessions is C27.'),
dict(id='C14', title='Every collector command is answered by its handler with complete data',
 statement='Each known command has its own effect and answer (dump and profile functions with their arguments, cache reset, configuration load, save and listing, active services, service detail) and an unknown one has none and is answered with nothing. Lists in an answer have one row per element - configuration entry, active service, dump file - with every column of the row taken from that element. SET_CONFIGURE_WAS reports success, and loads the new text, exactly when saving succeeded.',
 over=['inputs','fault_sequences'], text='all commands, parameters, configuration and service tables, file system errors',
 why='No test calls the handler; columns that slip against each other or a false success show only with particular data.',
 files=[H,D], mech=[('handle and its helpers',H),('ListDumpFiles, ListBinaryDumpFiles',D)],
 observe=['pack returned to the session','calls of the dump, configuration and cache functions'],
 technique='path-sensitive abstract interpretation of the command handler against a table of commands; column counting per loop iteration',
 note='The elements come from a snapshot of the tables taken while other goroutines change them.'),
]

T='scouterx/strace/tracemain.go'; P='scouterx/common/panic.go'; DP='scouterx/netio/dataproxy.go'; U='scouterx/netio/udpsender/udpsender.go'; TC='scouterx/netio/tcpclient/tcpmanager.go'; AG='scouterx/agent.go'; D='scouterx/dump/pprofdump.go'; CF='scouterx/conf/configure.go'; CT='scouterx/task/countertask/countertask.go'; C2='scouterx/common/structure/cachemap2/cachemap2.go'; TM='scouterx/strace/tctxmanager/tctxmanager.go'
PROPS=[
dict(id='C15', title='A panic inside the agent never reaches the calling application',
 statement='Whatever the arguments and the state of the agent, no call of the tracing functions that take a context (Start.../End... of services, methods and API calls, GoWithTrace, the profile and context helpers), nor Init, lets a panic of the agent\'s own code escape into the calling goroutine; the panic is recovered and reported, and reporting it does not panic again. A function that starts a service and recovered from a panic still returns a context that is not nil.',
 over=['inputs','fault_sequences'], text='a panic at any instruction of the functions, with any arguments and agent state',
 why='The guard matters only when something inside panics, which no test provokes; a guard that is one call too deep or one statement too late looks the same in every passing run.',
 files=[T,P,DP,AG], mech=[('ReportScouterPanic',P),('SendPanic',DP),('StartHttpService',T),('EndHttpService',T),('GoWithTrace',T),('Init',AG)],
 observe=['panics in the calling goroutine','returned contexts'],
 technique='interprocedural panic-escape (exception effect) analysis with dominance of direct-recover deferrals; dataflow over named results',
 note='Standard and third-party functions are taken not to panic unless their name starts with Must; running out of memory or stack and the runtime\'s fatal errors cannot be recovered by anything. The function given to GoWithTrace is the application\'s own.'),
dict(id='C16', title='No agent goroutine or library call can take the host process down',
 statement='A panic in any goroutine the agent starts (senders, reloaders, counters, the collector connection, dumps, one-off sends) is recovered inside that goroutine, so it never ends the host process; only a panic of the application function handed to GoWithTrace is left alone. Nothing in the agent ends the process or the calling goroutine, or changes its signal handling, environment, working directory, runtime limits, standard logger or default HTTP handlers.',
 over=['inputs','fault_sequences','schedules'], text='a panic at any instruction run by any goroutine of the agent',
 why='One unguarded go statement or one fatal log call ends the monitored application, on data that the tests never produce.',
 files=[P,U,TC,D,CF,CT,C2,T,DP], mech=[('KeepRunning, RunSafely',P),('GetInstance, SendDirect, SendPackDirect',U),('startTcp',TC),('profileCpu, profileBlock, profileMutex',D),('endChildGoroutineService',T)],
 observe=['survival of the host process'],
 technique='panic-escape analysis of every go statement (function values resolved) plus an effect query over all external calls',
 note='Same assumptions about foreign functions as C15. Data races that make the runtime stop the process are C19.'),
dict(id='C17', title='Calls of the tracing interface never wait',
 statement='No tracing function that takes a context makes its caller wait: whatever the state of the queue, the collector and other goroutines, none of them sleeps, waits for a channel to have room or data, waits for another goroutine, connects to or reads from the network, looks up a name or runs a program. When the send queue is full the data is dropped.',
 over=['schedules','fault_sequences'], text='all states of the queue, the network and the other goroutines',
 why='The tests never fill the queue or lose the collector; a send that waits stalls every request of the monitored application exactly then.',
 files=[T,U,TM,DP], mech=[('AddPack, AddBuffer',U),('endAnyServiceOfTraceContext',T),('Start, End',TM)],
 observe=['calls that return without delay'],
 technique='blocking-effect analysis over the resolved call graph of every tracing function',
 note='Short critical sections of mutexes (C20 bounds what is done inside), file writes of the log and one-time initialisation are not counted as waiting.'),
]

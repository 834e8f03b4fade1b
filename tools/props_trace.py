T='scouterx/strace/tracemain.go'
S='scouterx/strace/xlogsampler.go'
C='scouterx/netio/tracecontext.go'
M='scouterx/strace/tctxmanager/tctxmanager.go'
PROPS=[
dict(id='C09', title='Every service is ended, metered and reported at most once and completely',
 statement='Whichever of EndService, EndHttpService and the stuck-service handler ends a trace first, alone wins by an atomic step; it takes the trace off the active table, closes its profile once (sending the steps exactly when the xlog is not discarded), counts the service once in the service meter with its elapsed time and whether it has an error - sampled or not - and sends the xlog once unless the discard decision drops it (ALL drops it for a driving trace only: gxid 0 or its own txid; ALL_FORCE for every trace). A later or concurrent end of the same trace, or an end without a trace, does none of this.',
 over=['inputs','schedules','histories'], text='all orders and overlaps of ends of one trace, all discard decisions, all trace contents',
 why='Tests end a service once, from one goroutine, with sampling off, and look at nothing the collector would receive.',
 files=[T,M,'scouterx/common/netdata/xlogpack.go'], mech=[('endAnyServiceOfTraceContext, endStuckServiceForcibly',T),('TryEnd',C),('Start, End',M),('IsDriving','scouterx/common/netdata/xlogpack.go')],
 observe=['active table','service meter','xlog and profile packs handed to the UDP sender'],
 technique='typestate analysis by path-sensitive abstract interpretation from every function that can end a trace',
 note='The atomic step is recognised as a compare-and-swap on the trace. A service that was never ended and never got stuck is not covered; numeric meter contents are C31.'),
dict(id='C10', title='The xlog discard decision follows the configured sampling rules',
 statement='A finished service is dropped (ALL_FORCE) when it matches the discard patterns, unless it has an error and errors of discarded services are to be shown; otherwise a service with an error is kept, a service matching the exclude patterns is kept while plain sampling is on, the first enabled pattern sampling (1, 2, 3) whose patterns match decides, and plain sampling decides when none does. The sampling that decides keeps the service when a random number below 100 is below the rate of its time step (elapsed below step 1, 2, 3 limit, or over) and otherwise drops the profile or the whole xlog as its only-profile switch says.',
 over=['inputs'], text='all elapsed times, names, error states, random numbers and configurations',
 why='The table has dozens of rows selected by configuration; no test switches sampling on.',
 files=[S,T], mech=[('eEvaluateXLogDiscard and samplers',S),('findXLogDiscard',T)],
 observe=['discard type of the xlog'],
 technique='symbolic extraction of the decision table along all abstract paths and comparison with the specified table under each path\'s facts',
 note='That the compiled matcher belongs to the current pattern text is C36; what a pattern matches is C33.'),
dict(id='C11', title='The xlog carries what the trace recorded',
 statement='When a trace ends, every field of the xlog sent (type, ids, caller, SQL and API-call counts and times, user, error, status, user agent, referer, login, description, texts, address, profile counts, elapsed time, object hash) is the value the trace holds at that moment - the profile counts as they are after the profile was closed - and its service is the registered hash of the trace\'s current service name. EndHttpService with a response makes the response\'s status code that status.',
 over=['inputs','histories'], text='all trace contents, however they came about, at every function that ends a trace',
 why='Tests never look at an xlog; a field taken too early, swapped or dropped on one path goes unnoticed.',
 files=[C,T], mech=[('ToXlog',C),('endAnyServiceOfTraceContext, EndHttpService',T)],
 observe=['XlogPack handed to the UDP sender'],
 technique='symbolic comparison of every pack field with the trace\'s field on all abstract paths',
 note='ThreadNameHash is not claimed. The encoding of the pack is C01.'),
dict(id='C12', title='Tracing calls record exactly their step in the trace of their context',
 statement='With a trace in its context, each of AddStep, AddMessageStep, AddHashedMessageStep, AddPMessageStep, MarkAsError, StartMethod*, StartCustomMethod*, EndMethod, StartApiCall* and EndApiCall puts exactly one step of its kind into that trace\'s profile, once, with the hash, values, address, level, start and elapsed time its arguments call for (Start pushes the step it returns, End pops the step given; every non-nil parameter given to StartMethodWithParam is recorded first as a message). The first error marked or returned by an API call becomes the trace\'s error and later ones do not replace it, every EndApiCall adds one to the API-call count and its elapsed time to the API-call time, and the setters (MarkAsErrorForcibly, SetServiceNameForcibly, SetAsStream) change just their attribute.',
 over=['inputs','histories'], text='all arguments and trace states',
 why='Tests call a few of these functions and never read the steps or the trace back.',
 files=[T], mech=[('exported tracing functions',T)],
 observe=['calls of the profile collector','fields of the trace'],
 technique='path-sensitive abstract interpretation of every exported call, steps compared field by field',
 note='Concurrent calls on one trace and the method name found by StartMethod are not covered.'),
dict(id='C13', title='Traces are created and linked as the collector needs to join them',
 statement='StartService, StartHttpService and StartNewInheritanceService hand back the caller\'s context extended by one new active trace with a generated id, start time, profile, name and name hash, group id and type (a context that already carries a trace is returned by the first two as it is); an inherited trace takes over its parent\'s attributes and names it as caller. GoWithTrace runs the function exactly once in a new goroutine, without swallowing its panic; when the caller is traced the function gets a child trace that is in the parent\'s group, names the parent as caller, is announced by one async step in the parent\'s profile and is ended exactly once however the function finishes. StartApiCallWithPropagation adds headers with the trace\'s group, the trace, the call step and the agent\'s object to the request.',
 over=['inputs','schedules'], text='all contexts, parents and requests; normal return, panic and Goexit of the function',
 why='Tests start services and goroutines but never compare ids, and none panics.',
 files=[T,M,C], mech=[('startService, startChildGoroutineService, inheritTctx, GoWithTrace, StartApiCallWithPropagation',T),('NewTraceContext, Start',M)],
 observe=['context handed out','active table','request headers','async step'],
 technique='path-sensitive abstract interpretation with the goroutine body inlined, object fields compared at hand-out',
 note='Uniqueness of generated ids is not covered.'),
]

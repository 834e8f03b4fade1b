L='scouterx/common/structure/lra/lra.go'
CM='scouterx/common/structure/cachemap/cachemap.go'
C2='scouterx/common/structure/cachemap2/cachemap2.go'
CS='scouterx/common/structure/cacheset/cacheset.go'
K='scouterx/common/util/keygen/keygen.go'
SM='scouterx/counter/serviceMetering.go'
VM='scouterx/counter/valueMetering.go'
M='scouterx/counter/metering.go'
CF='scouterx/conf/configure.go'
OB='scouterx/conf/opserver.go'
XS='scouterx/strace/xlogsampler.go'
PROPS=[
dict(id='C19', title='Shared agent state is used only under its own lock',
 statement='The caches (lra, cachemap, cachemap2, cacheset), the meters and their buckets, the id generator, the setting descriptions and observers and the sampler\'s patterns may be used by any number of goroutines: every piece of their state that changes after set-up is read only with its lock held, and changed only with it held exclusively. A decision to change it is not based on what was read in an earlier section of the lock, and no internal map or list is handed out to be used without it.',
 over=['schedules'], text='all interleavings of any number of goroutines',
 why='A race needs two goroutines inside the same few instructions; the tests are single-threaded and run without the race detector.',
 files=[L,CM,C2,CS,K,SM,VM,M,CF,OB,XS], mech=[('Cache',L),('CacheMap',CM),('CacheMap',C2),('CacheSet',CS),('Next',K),('ServiceMetering',SM),('ValueMetering',VM),('Metering',M),('descSync',CF),('observerLock',OB),('matcherLock',XS)],
 observe=['results of concurrent calls of the exported methods'],
 technique='interprocedural lock-set (must-hold) analysis with escape of internal containers and stale-section tracking',
 note='The settings in Configure and the fields of a trace context are read without a lock by design and are not part of this. Locks are told apart by variable or field, not by object.'),
dict(id='C20', title='No lock is kept, taken twice, or taken in a cyclic order',
 statement='Every exported function, background goroutine and observer returns without any lock it took, on every path, and a panic of user or observer code called under a lock still releases it. No goroutine takes a lock it already holds (for reading either) or gives back one it does not hold in that mode, and nothing sleeps or waits for a channel, another goroutine or the network while it holds one. The order in which different locks are taken has no cycle.',
 over=['schedules'], text='all paths and all interleavings of the functions that take a lock',
 why='A lock kept on a rare path, or two taken in opposite order, stops tracing in the host for good, under timing that no test produces.',
 files=[L,CM,C2,CS,K,SM,VM,M,CF,OB,XS], mech=[('lock',L),('lock',CM),('Mutex of Metering',M),('Refresh',CF),('confChangeNotify, objChangeNotify',OB)],
 observe=['calls that return','goroutines that make progress'],
 technique='interprocedural may/must lock-set analysis per entry state; typestate of each lock; cycle search in the lock-order graph',
 note='A run-once initialiser is taken to have finished before the state it sets up is used.'),
]

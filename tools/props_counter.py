M='scouterx/counter/metering.go'
SM='scouterx/counter/serviceMetering.go'
VM='scouterx/counter/valueMetering.go'
C='scouterx/counter/collector.go'
T='scouterx/task/countertask/countertask.go'
G='scouterx/counter/gocounter/gocounter.go'
PROPS=[
dict(id='C31', title='A counter over the last p seconds counts exactly those seconds',
 statement='A meter has one bucket per second of a window longer than every period asked for. Add puts a value into the bucket of the current second only, and whenever the clock has moved on, every bucket of the seconds passed is emptied completely before it is used, however long nothing was added. GetAllCounter(p) combines exactly the buckets of the current and the p-1 seconds before it: TPS is count/p, elapsed is the average in ms, error rate the percentage of failed ones, and Avg the average value, each 0 when nothing was counted.',
 over=['histories','inputs'], text='all sequences of additions and reads under a clock that does not go back',
 why='A bucket left over from an earlier turn of the window shows only after idle gaps of particular lengths; tests run for a few seconds.',
 files=[M,SM,VM], mech=[('getPosition, stepBack, SearchOnHandler',M),('ServiceMetering.Add, GetAllCounter',SM),('ValueMetering.Add, GetAllCounter',VM)],
 observe=['values returned by GetAllCounter'],
 technique='abstract interpretation of the window code with modular-residue invariants (init and step at loop headers) and role inference for bucket fields',
 note='Clocks set back and int overflow of sums are outside; locking is another property.'),
dict(id='C23', title='Counter packs carry every counter under its own key with its current value',
 statement='The background counter tasks send, every round, a pack with the current object name and the time type of its kind: the real-time pack has the Go runtime counters (goroutines, cgo calls, GC count and pause ms per second since the previous reading, heap in use), TPS, elapsed time, error rate, average active services, all over 30 s, and the three active-service counts in order; the five-minute packs have TPS, elapsed time, error rate and active services over 300 s. Each value goes under the key of that counter. GC rates are 0 on the first reading and otherwise the difference to the reading before, divided by the time between.',
 over=['histories'], text='all rounds of the counter tasks',
 why='The packs leave by UDP from endless loops; no unit test looks at them, and a crossed key is a well-formed counter.',
 files=[T,C,G], mech=[('getAllCounterOnPack, getAll5MinCounterOnPack',T),('start',C),('GetGoCounter',G)],
 observe=['PerfCounterPacks handed to the UDP sender'],
 technique='path-sensitive abstract interpretation of the counter tasks; comparison of symbolic values with a table of key and meaning',
 note='That Put stores every Go type it is given is another property; values of the runtime package are taken as given.'),
]
A='scouterx/strace/tctxmanager/tctxmanager.go'
N='scouterx/netio/dataproxy.go'
PROPS+=[
dict(id='C32', title='Active services are counted once by elapsed time; stuck ones are reported',
 statement='GetActiveCount counts every running service (at least the first 2000) exactly once: at index 0 when its elapsed milliseconds are at most the yellow time, else at 1 when at most the red time, else at 2. For a service whose elapsed time is over the stuck base time, and for no other, it calls the registered stuck handler with that service and sends one STUCK_SERVICE alert naming it, as error when the stuck alert is enabled and as warning otherwise. SendAlert sends one AlertPack with the level, title and message given and the current object type and hash, and nothing when the title is empty.',
 over=['inputs','histories'], text='all sets of running services, elapsed times and settings',
 why='Which branch is taken depends on times and settings far from those of a test run, and on more services than a test starts.',
 files=[A,N], mech=[('GetActiveCount, RegisterEndStuckServiceForciblyFunc',A),('SendAlert',N)],
 observe=['counts returned','calls of the stuck handler','AlertPacks handed to the UDP sender'],
 technique='path-sensitive abstract interpretation of one general loop iteration, compared with a decision table',
 note='That the table of running services returns all its values is another property; what the handler does is the end-of-trace property.'),
]

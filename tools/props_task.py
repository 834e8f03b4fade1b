P='scouterx/common/panic.go'; U='scouterx/netio/udpsender/udpsender.go'; TC='scouterx/netio/tcpclient/tcpmanager.go'; TCL='scouterx/netio/tcpclient/tcpclient.go'; AG='scouterx/agent.go'; CF='scouterx/conf/configure.go'; T='scouterx/strace/tracemain.go'; K='scouterx/common/util/keygen/keygen.go'; CH='scouterx/common/factory/channelfactory/channelfactory.go'; SM='scouterx/counter/serviceMetering.go'; XS='scouterx/strace/xlogsampler.go'
import glob
def find(sub):
    for f in glob.glob('/repo/scouterx/**/*.go',recursive=True):
        if not f.endswith('_test.go') and sub in open(f).read():
            return f[len('/repo/'):]
AT='scouterx/task/agenttask/agenttask.go'; CT='scouterx/task/countertask/countertask.go'
PROPS=[
dict(id='C27', title='Background tasks run as long as the process, and never spin',
 statement='Configuration reloading, the UDP sender, the follower of the collector address, the announcement of the object, both counter tasks and the collector connection are started on every path of their start functions and never end: no configuration, data, network failure or panic makes one of them return. In every round each of them sleeps for a fixed positive time of at most 10 seconds, waits for a channel, or takes queued data; it never polls without a pause.',
 over=['schedules','fault_sequences','histories'], text='all paths of the tasks, with a panic at any point',
 why='A task that quietly ends stops all later reporting, and one that spins burns a core of the host; both need a rare condition and hours of running, which the tests do not have.',
 files=[P,U,TC,CF,AT,CT], mech=[('KeepRunning, runToEnd',P),('run, reloadUdpSender',U),('startTcp',TC),('run',CF),('start',AT),('startRealTimeCounter, start5MinCounter',CT)],
 observe=['data the tasks keep sending','processor time of an idle agent'],
 technique='interprocedural termination (may-return) analysis with folding of loop conditions and guard results; must-wait analysis of each endless cycle',
 note='That a single call inside a round ends (a read of a hung connection is bounded by its deadline) is not part of this.'),
dict(id='C37', title='Shared instances are made once and are complete when handed out',
 statement='GetInstance of the configuration and the UDP sender, GetUDPChannel, GetTcpClient, GetServiceMeter, GetXlogSampler and the id generator give every caller the same instance, also when many goroutines ask first at the same time, and only after it was completely set up. Setting one up never waits for itself, no two set-ups share one Once, and the instance is never replaced.',
 over=['schedules'], text='any number of goroutines that ask first, in any interleaving',
 why='The tests ask from one goroutine; a caller in between gets a half-made instance, a second queue nobody reads, or waits for ever.',
 files=[CF,U,CH,TCL,SM,XS,K], mech=[('GetInstance',CF),('GetInstance',U),('GetUDPChannel',CH),('GetTcpClient',TCL),('GetServiceMeter',SM),('GetXlogSampler',XS),('getInstance',K)],
 observe=['returned instances','calls that return'],
 technique='dominance analysis of every read of the once-set variables, with a re-entry search in the static call graph of each initialiser',
 note='A caller inside the initialiser itself sees the instance while it is being set up.'),
dict(id='C38', title='Starting the agent takes every step exactly once',
 statement='Loading the package starts the agent, and however often and from however many goroutines Init is called, each step is taken exactly once and unconditionally: the hook that sends panics as alerts, the handler that ends stuck services, the observer that sends a changed object name, and the start of the announcing, counter and collector connection tasks. Nothing else in the agent takes one of these steps again.',
 over=['histories','schedules'], text='all orders and numbers of calls of Init, all configurations',
 why='A missing or repeated step shows as silence or doubled data at the collector long after the start; no test observes it.',
 files=[AG,T,P,AT,CT,TC], mech=[('Init, init',AG),('StartTracingMode',T),('RegisterSendPanicF',P),('Start',AT),('Start',CT),('StartTcp',TC)],
 observe=['goroutines of the agent','registered handlers'],
 technique='must-call analysis from the entry point through run-once initialisers, with a query over all call sites of the start functions',
 note='A panic in one step keeps the later ones from being taken; C15 decides that it does not reach the application.'),
]

T='scouterx/strace/tracemain.go'
PROPS=[
dict(id='C26', title='Tracing calls without a trace or with nil arguments do nothing harmful',
 statement='With a nil context, or one that carries no trace, every tracing call other than the start of a service changes nothing and sends nothing, and returns the neutral value (false, nil); GoWithTrace then still runs the function exactly once with the context it was given. The starting calls return a usable, non-nil context also for a nil one, and StartNewInheritanceService without a parent returns the context given and starts nothing. A nil step, response, error, outgoing request or inbound request at the end of a service is tolerated without following it, and a nil step changes nothing.',
 over=['inputs'], text='all contexts and arguments',
 why='Applications trace conditionally and hand on the nil steps and contexts they were given; the tests never do, and a nil followed on one of the paths is caught by the panic guard and only shows as a lost step or response status.',
 files=[T,'scouterx/strace/tctxmanager/tctxmanager.go'], mech=[('every exported tracing call',T),('GetTraceContext','scouterx/strace/tctxmanager/tctxmanager.go')],
 observe=['stores and calls on each path','returned values and contexts'],
 technique='abstract interpretation of each exported tracing call once per nil argument and kind of context; no path may follow nil, and where nothing is traced no path may have an effect',
 note='The step AddStep records and the request StartHttpService serves have to be given. The panic guard does not excuse following nil.'),
]

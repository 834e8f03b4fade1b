L='scouterx/common/structure/lra/lra.go'; TM='scouterx/strace/tctxmanager/tctxmanager.go'; DP='scouterx/netio/dataproxy.go'
PROPS=[
dict(id='C24', title='The bounded tables keep the newest entries and forget nothing else',
 statement='In the table behind the active traces and the sent texts (lra.Cache), a key added is found with its newest value until it is removed, the table is cleared, or a newer key pushed it out; a table never exceeds its limit (0 means none), only the addition of a new key at the limit drops an entry, exactly one and always the one added first, and replacing a value does not change the age. Get, Contains, Size, Empty and GetValues change nothing and agree with each other; GetValues returns every non-nil value once.',
 over=['inputs','histories'], text='all sequences of operations, all keys and values, all limits >= 0',
 why='A list and a map that disagree show only after the particular sequence that separates them: a trace that never leaves the active list, a text that is never sent, a table that grows without bound. The tests add a dozen keys.',
 files=[L,TM,DP], mech=[('Cache.Add',L),('Cache.removeElement',L),('Cache.GetValues',L),('active traces',TM),('sent texts',DP)],
 observe=['results of the operations after a history','size of the table'],
 technique='abstract interpretation of each operation over an abstract list and map; the effects of every path are compared with the meaning of the operation, inductively over the agreement of list and map',
 note='Add holds the lock over the whole operation (C19, C20). OnEvicted is not set by the agent.'),
]

U='scouterx/netio/udpsender/udpsender.go'
X='scouterx/strace/xlogsampler.go'
F='scouterx/conf/configure.go'
O='scouterx/conf/opserver.go'
D='scouterx/netio/dataproxy.go'
A='scouterx/agent.go'
PROPS=[
dict(id='C35', title='Every text hash sent is backed by its text, registered once per kind',
 statement='Each Send function of netio that takes a text (SendServiceName, SendHashedMessage, SendObjName, SendReferer, SendUserAgent, SendMethod, SendApicall, SendError, SendLogin, SendDesc, SendStackElement) returns 0 for the empty text and HashString(text) otherwise. A text not in that function\'s own cache of sent texts is remembered there by its hash and handed once to the UDP sender as a TextPack with the function\'s text type, the hash and the whole text; a text already there is not sent. ResetTextSent empties all these caches.',
 over=['inputs','histories'], text='all texts and all sequences of calls and resets',
 why='The collector shows only hashes it was told the text of; a crossed cache or type only shows when the same text is used in two roles.',
 files=[D], mech=[('SendServiceName ... SendStackElement, ResetTextSent',D)], observe=['return values','TextPacks handed to the UDP sender'],
 technique='path-sensitive abstract interpretation of each function; alias and ownership comparison of the caches reached',
 note='A text dropped because the send queue is full counts as handed over; the size and eviction of the caches are another property.'),
dict(id='C36', title='A changed configuration reaches every running component',
 statement='Whenever the collector address, UDP port or udp_max_bytes differs from those in use, the UDP sender\'s background check makes a client for the current ones, with the size limit set, uses it from then on and closes the former client\'s socket afterwards; otherwise it keeps its client. The xlog sampler is a configuration observer from its creation and its Run leaves every pattern matcher made of the current pattern list; a changed object name is reported with SendObjName; GetConfigureDescMap returns a copy with every entry. No other package variable keeps the value of a setting.',
 over=['histories'], text='all sequences of configuration changes',
 why='Each setting has to be changed at run time, alone and together with others, to see a component that missed it.',
 files=[U,X,F,O,A], mech=[('reloadUdpSender, GetInstance',U),('GetXlogSampler, Run',X),('GetConfigureDescMap',F),('objNameChangeObserver',A)],
 observe=['address and size of datagrams','sampling decisions after a reload','texts sent'],
 technique='path-sensitive abstract interpretation of the reload loop and observers with typestate for the UDP client; enumeration of stores of settings into package variables',
 note='Field-by-field data races between a reload and its readers are outside.'),
]

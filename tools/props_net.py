UC='scouterx/netio/udpclient/udpclient.go'
US='scouterx/netio/udpsender/udpsender.go'
DP='scouterx/netio/dataproxy.go'
PC='scouterx/netio/profilecollector.go'
PROPS=[
dict(id='C05', title='UDP datagrams are framed so the collector can reassemble every record',
 statement='With an open socket the UDP client sends a record that fits the configured maximum as one datagram CAFE+record, and a larger one as CAFM fragments that partition the record in order, each no larger than the maximum, numbered from 0, with one packet id and the true total. A list of records is sent so that every record of the list is in exactly one datagram: CAFN datagrams whose 16-bit count is the number of records in them and whose payload stays within the maximum, oversized records as fragments.',
 over=['inputs'], text='all record lengths, all maximum sizes above 0, lists of any length and mix of sizes (up to 32767 records or fragments per datagram series)',
 why='Tests send a few packs and look at nothing; the boundaries (exact multiples, one byte over, flush in the middle of a list) decide whether the collector can decode.',
 files=[UC,'scouterx/common/constants/netcafeconstant/netcafeconstants.go'], mech=[('WriteBuffer, writeMTU, WriteBufferList',UC),('frame marks','scouterx/common/constants/netcafeconstant/')],
 observe=['datagrams written to the socket'],
 technique='abstract interpretation over SSA with item-list streams, symbolic polynomial interval cover for fragments and loop-invariant candidates for counts and sizes',
 note='Assumes a positive maximum (C22 of the configuration) and fewer than 32768 fragments/records per series (16-bit wire fields). Delivery by the network and write errors are not covered.'),
dict(id='C06', title='Every record given to the UDP sender is passed on exactly once',
 statement='Each record the sending loop takes from the queue reaches the UDP client exactly once, alone or in a batch, before the loop goes on, and a batch is not changed or emptied before it was sent or while a goroutine still sends it. AddPack and AddBuffer offer the encoded pack or buffer to the queue once without ever blocking; SendPackDirect and SendDirect pass their pack or list to the UDP client exactly once from another goroutine.',
 over=['inputs','schedules','histories'], text='all batch sizes, queue lengths, record sizes; every path of the sender',
 why='Losing or duplicating one record of a batch is invisible to tests that never look at the socket; it depends on batch boundaries and timing.',
 files=[US], mech=[('run, send, sendList',US),('AddPack, AddBuffer, SendPackDirect, SendDirect',US)],
 observe=['calls of the UDP client','queue contents'],
 technique='typestate analysis of records and lists by path-sensitive abstract interpretation, goroutine bodies included',
 note='A full queue drops the offered record by design. Assumes no panic in the UDP client; sizes are C05.'),
dict(id='C07', title='Profile steps are sent completely, once and with correct structure',
 statement='SendProfile cuts a step list into consecutive parts of at most the configured size that cover it exactly once, each sent in a profile pack with the trace\'s txid, service and the object hash, and adds the steps and bytes sent to the trace\'s profile counters. The profile collector keeps every recorded step behind the earlier ones, hands a full buffer to SendProfile exactly once and starts an empty one, and Close sends the remaining steps exactly when asked to. Push gives a step the next index and the open step as parent and opens it, Pop reopens the popped step\'s parent and records the step, Add numbers and records a step without opening it.',
 over=['inputs','histories'], text='all numbers of steps, all buffer and pack sizes above 0, every order of calls',
 why='No test reaches the buffer or pack boundaries, where a step is lost, duplicated or overwritten.',
 files=[DP,PC], mech=[('SendProfile',DP),('ProfileCollector',PC)],
 observe=['profile packs handed to the UDP sender','step index and parent','profile counters of the trace'],
 technique='abstract interpretation with a symbolic partition proof (polynomial bounds) and a buffer typestate monitor',
 note='One goroutine per profile collector; steps recorded after Close are not covered. The byte encoding of a step list is C01.'),
]

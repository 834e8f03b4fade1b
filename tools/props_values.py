N='scouterx/common/netdata/'
PROPS=[
dict(id='C25', title='Values put in maps, lists and packs are kept by kind and read back',
 statement='Put of MapPack, MapValue, PerfCounterPack and PerfCounterK8SPack keeps, under the given key and replacing what was there, every string, boolean, integer of any width, float and Value it is given, as the value type of its kind and without loss (counter packs keep float64 as float); the Add functions of a list append exactly one such element, and NewList returns the list kept under the key. The getters return what was put when it is of their kind, cut only to their own width, and the zero value otherwise; size and containment queries agree with what was put, and none of these panics.',
 over=['inputs'], text='all keys and values of all kinds',
 why='Every counter, command reply and configuration list passes through these; a kind dropped or narrowed in one of the many switches only shows for values of that kind, which the tests do not put.',
 files=[N+'mappack.go',N+'mapvalue.go',N+'listvalue.go',N+'perfcounterpack.go',N+'perfcounter_k8s_pack.go'], mech=[('MapPack.Put',N+'mappack.go'),('MapValue.Put',N+'mapvalue.go'),('ListValue.Add*',N+'listvalue.go'),('PerfCounterPack.Put',N+'perfcounterpack.go')],
 observe=['entries of the table or list','returned values'],
 technique='abstract interpretation of each operation once per kind of value, comparing the entry written with the value given through every conversion',
 note='A list getter with an index outside the list panics like a slice. uint64 above the signed range wraps, as the wire format has no unsigned numbers.'),
]

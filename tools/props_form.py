U='scouterx/common/util/'
PROPS=[
dict(id='C34', title='Hashes, ids, addresses and times take the form the collector computes',
 statement='The hash of a text is CRC-32 (IEEE) of all its bytes, as a signed 32-bit number. The text of an id is x and the id in base 32, or z and the magnitude of a negative one; a new id is drawn at random and never negative. An address of four decimal numbers from 0 to 255 between dots becomes those four bytes in that order and any other text four zero bytes; a span of time is reported in whole milliseconds, a point in time in milliseconds since 1970.',
 over=['inputs'], text='all texts, ids, addresses and times',
 why='The collector joins hashes with the names it computed itself and links services by these ids; one wrong table entry or one narrowing loses some names only. The tests print the hash of two texts and the bytes of one address and compare nothing.',
 files=[U+'hashutil.go',U+'iputil.go',U+'hexautil.go',U+'timeutil.go',U+'keygen/keygen.go'],
 mech=[('HashString',U+'hashutil.go'),('IntToXlogString32',U+'hexautil.go'),('IpToBytes',U+'iputil.go'),('TimeToMillis, MillisToNow, MillisBetween',U+'timeutil.go'),('Next',U+'keygen/keygen.go')],
 observe=['the value returned on each path','the 256 numbers of the table'],
 technique='abstract interpretation of the hash over exclusive-or sets of bits (initial value, step, final value, table read from the source); abstract interpretation of all paths of the id, address and time functions',
 note='That ids differ from each other depends on the generator and its seed and is not decided. A span of more than 24 days does not fit the 32 bits the protocol has.'),
]

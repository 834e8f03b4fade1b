ND = 'scouterx/common/netdata/'
PROPS = [
dict(id='C01', title='Every pack, step and value is encoded in the collector\'s field order',
 statement='Encoding any pack, profile step or value produces exactly the type tag and the sequence of items (kind, order, source field, optional parts, entry counts) that the collector protocol defines for that type, whatever the field values are. No field is dropped, swapped, narrowed below its declared range or written twice on any path. A step list holds every non-nil step once, in order, and a parameterised message joins all its parameters with the separator.',
 over=['inputs'], text='all values of all fields of every encodable type, every branch of every encoder',
 why='The tests encode five types with one sample value each and compare a few decoded fields; most packs and all steps are never decoded back.',
 files=[ND+'*.go'], mech=[('Write methods of packs, steps and values', ND), ('type tags', 'scouterx/common/constants/'), ('WriteValue/WritePack/WriteStep framing', ND+'dataoutputx.go'), ('StepsToBytes', ND+'step.go')],
 observe=['bytes produced by the output stream'],
 technique='abstract interpretation of each encoder over SSA; emitted item language compared with a frozen protocol table',
 note='Decides order, kind, source field, optionality and loop structure of every wire item on every path; the bytes of one item are C03. The protocol tables in the checker are trusted. Fields\' numeric meaning is not judged.'),
dict(id='C02', title='Decoders read back what the encoders of the same type write',
 statement='For every pack and value type that can be decoded, the decoder consumes exactly the items its encoder produces, in order, and stores each one in the field it was taken from; every entry of a map or list reaches the container. The type tag an encoder writes selects, in the value and pack factories, a fresh object of the same type, and a tag of no type selects nothing.',
 over=['inputs'], text='all values of all decodable types, all 256 tags',
 why='Round trips are tested for a handful of values; several decoders were unimplemented or selected the wrong type without a test noticing.',
 files=[ND+'*.go'], mech=[('Read methods', ND), ('CreateValue', ND+'valuecreator.go'), ('CreatePack', ND+'packcreator.go')],
 observe=['objects returned by the input stream'],
 technique='abstract interpretation of encoder/decoder pairs against one layout table; factories evaluated for all 256 tags',
 note='Structural agreement of both sides (items, fields, containers, tags); value equality of one item is C03. One recorded finding (ObjectPack shares ObjectPack2\'s tag).'),
dict(id='C03', title='Primitive wire encodings are lossless, big-endian and canonical',
 statement='Every primitive written to a stream and read back yields the same value: fixed-width numbers are big-endian in the announced width, a variable-length integer uses a length form whose range contains the value, booleans, blobs and texts up to 100000 bytes carry their exact length and bytes in the one form the reader understands for that length. Reading returns exactly the announced number of bytes or an error, never a short or misinterpreted value.',
 over=['inputs'], text='all integers, lengths and byte contents of every primitive, every short read of the underlying stream',
 why='Tests use a few small values; the form boundaries (253/254/65535, sign changes, short network reads) are not sampled.',
 files=[ND+'dataoutputx.go', ND+'datainputx.go'], mech=[('length forms', ND+'dataoutputx.go'), ('full reads', ND+'datainputx.go')],
 observe=['stream bytes', 'returned values'],
 technique='abstract interpretation with interval facts: each path\'s items must be a legal encoding of the whole interval reaching it',
 note='Intervals are exact for the comparisons used here; floating-point formatting is left to encoding/binary. WriteInt32Array beyond 32767 entries is out of scope (dump steps never reach it).'),
dict(id='C04', title='Damaged or truncated input is reported, never panics or loops on',
 statement='Decoding a value or pack from arbitrary bytes never panics and never returns success for input that ends before the record is complete: the error reaches the caller. An undefined type tag or an element of the wrong type is an error, and decoding the entries of a map or list stops at the first entry that fails, whatever count was announced.',
 over=['inputs', 'fault_sequences'], text='all byte sequences, every point at which the stream ends or fails (nesting bounded by the goroutine stack)',
 why='No test feeds malformed input; the collector connection can be cut at any byte.',
 files=[ND+'*.go'], mech=[('error propagation in Read methods', ND), ('io.ReadFull', ND+'datainputx.go')],
 observe=['returned error', 'panics'],
 technique='abstract interpretation with a pending-error monitor (error discipline on every path) and panic-site obligations',
 note='Assumes a failed stream keeps failing (io.Reader contract), so a later successful read discharges earlier ones. Memory exhaustion by huge announced lengths and stack depth of nested lists are not covered.'),
]

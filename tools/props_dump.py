D='scouterx/dump/dump.go'
U='scouterx/common/util/osutil.go'
PROPS=[
dict(id='C18', title='Dump commands act only on files of the agent\'s dump directories',
 statement='For every file name a collector can send, downloading or deleting a binary dump and streaming a text dump open or remove at most the file of exactly that name directly inside the agent\'s binary_dump (for streaming: dump) directory. An empty name, ".", "..", a name with "/" or "\\" and, for the binary commands, a name not ending in pprof is refused without touching any file; names of files the agent creates are not refused. A deletion reports success exactly when the file was removed, and no file is left open.',
 over=['inputs','fault_sequences'], text='all file names and file system errors',
 why='A test tries a few names; the guarantee is about every name a collector (or someone posing as it) can send.',
 files=[D,U], mech=[('DownloadBinaryDumpFiles, DeleteBinaryDumpFiles, StreamDumpFileContents, isFileName',D),('GetScouterPath',U)],
 observe=['paths opened and removed','answer to the delete command'],
 technique='path-sensitive abstract interpretation; evaluation of the established name predicates over classes of improper names at each file operation',
 note='The agent directory itself and symbolic links placed in it are trusted.'),
dict(id='C28', title='Profile dumps are written completely and leave the process as it was',
 statement='Each dump command creates one time-stamped file directly in dump (text: HeavyAllStackTrace, ProfileBlock, ProfileMutex) or binary_dump (ProfileBinaryCpu and the BinaryDump commands, name ending in pprof), samples with the rate and for the seconds given, then writes the runtime profile it is named after in the level given (binary: 0, thread dump: 2), flushed before the file is closed. On every way out, failures to create, start or write included, the file is closed, block sampling is switched off, the mutex sampling rate is put back to its former value and CPU profiling is stopped exactly if it was started here. HeavyAllStackTrace names the file exactly when all of it was written.',
 over=['inputs','fault_sequences'], text='all parameters and all failures of file creation, profile start and writing',
 why='Failure paths and the order of flush, close and rate restoration are not visible to a test that only looks for the file.',
 files=[D], mech=[('profileCpu, profileBlock, profileMutex, heavyAllStackTrace',D)],
 observe=['files created and their content','runtime sampling rates after the command','answer of the thread dump command'],
 technique='typestate analysis of file, writer and profiler operations on every abstract path, goroutine included',
 note='The former block profile rate cannot be asked from the runtime; switching it off is what the code promises.'),
]

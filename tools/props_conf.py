F='scouterx/conf/configure.go'
O='scouterx/conf/opserver.go'
PROPS=[
dict(id='C21', title='Each configuration key sets its own setting and is described truthfully',
 statement='After every load each field of conf.Configure holds the value of its own key (the field\'s name in snake case; obj_name for ObjNameSimple), read with the type and default it is documented with; send_queue_size, udp_max_bytes, profile_step_max_keep_in_memory_count and profile_step_max_count fall back to the default when not positive. ObjName is "/"+hostname (or "unknown")+"/"+obj_name and ObjHash is its hash. Each key (except _trace) has one entry in the description map with the key, the value now configured, its default and its value type.',
 over=['inputs','histories'], text='all contents of the configuration and all earlier configurations',
 why='A test loads a few keys; with 60 settings that differ in a digit, a crossed key, field, default or stale description is only excluded by looking at all of them.',
 files=[F], mech=[('Refresh, addToConf, boolOf, intOf, positiveIntOf, stringOf, stringOfType, resetObjNameAndType',F)],
 observe=['fields of conf.GetInstance()','GetConfigureDescMap'],
 technique='path-sensitive abstract interpretation of Refresh with the properties getters uninterpreted; the final value and description of each field compared with a key table',
 note='Parsing of numbers and booleans is the properties library\'s.'),
dict(id='C22', title='Configuration comes from the right file, when changed, over the environment',
 statement='Loading, showing and saving the configuration all use the file named by SCOUTER_CONFIG, else by scouter.config, else <agent home>/conf/scouter.conf; Refresh loads when that file is newer than the one last loaded or missing, takes every NAME=VALUE of the environment (cut at the first "="), the file\'s entries over them, ignores empty values, and remembers the file\'s modification time only when it was loaded. A file that exists but cannot be read or parsed changes no setting and tells no observer; otherwise every registered observer is run exactly once after all settings are set, and the object-name observer exactly when the object name changed, after name and hash are set. Until anything is loaded, addresses, timeouts, sizes and thresholds have their defaults.',
 over=['inputs','histories','fault_sequences'], text='all environments, file contents, modification times and file system errors',
 why='Failures of the file system, malformed files and reload orders are many; tests in the repository load one good file.',
 files=[F,O], mech=[('Refresh, getConfFilePath, LoadConfigText, SaveConfigText, GetInstance',F),('confChangeNotify, objChangeNotify',O)],
 observe=['settings after Refresh','files opened and written','runs of observers'],
 technique='typestate analysis of the load (stat, load, merge, filter, set, notify) on all abstract paths, with outcome facts of each file operation',
 note='A file replaced by one with an older modification time is not a newer file.'),
]

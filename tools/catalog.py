"""Writes properties.jsonl and MANIFEST.json (both are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: seeded search over '
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(),
         observe=(), hook=None, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mech=mech, state=state,
                  observe=observe, hook=hook, tech=tech, note=note, na=na))


J = 'jsonclasses/'

prop('C03', 'Nothing is stored, deleted or read unless every check agreed',
     'Saving, deleting or outputting an object reaches the storage (or gives '
     'back data) only after every permission check that applies to this action '
     'and operator answered yes, every callback of the action completed and '
     'every field passed validation; each stage runs exactly once per '
     'attempt, in the documented order and with the acting operator. If any '
     'check, callback, validator or on-save step refuses, raises or dies, the '
     'storage keeps its previous content, and the object can be retried.',
     ['fault_sequences', 'crash_points', 'histories', 'configurations'],
     'all sequences of create/update/delete/read attempts by any operator, '
     'with any stage answering false, a message, nothing, an exception or '
     'crashing at any point',
     'tests run each check once with a fixed answer; they never combine '
     'several checks, retry after a failure, or fail between two stages',
     ['jsonclassify.py', 'cdef.py', 'ctx.py', 'fdef.py',
      'modifiers/instanceof_modifier.py', 'modifiers/canc_modifier.py',
      'modifiers/oneisvalid_modifier.py'],
     [('save', 'jsonclassify.py: save'), ('delete', 'jsonclassify.py: delete'),
      ('permission checks', 'jsonclassify.py: _can_cu_check_common'),
      ('callbacks', 'jsonclassify.py: _run_on_*_callbacks'),
      ('field permissions', 'modifiers/instanceof_modifier.py: validate')],
     [('operator', 'who performs the action', 'jsonclassify.py: opby')],
     ['save()', 'delete()', 'tojson()', 'validate()', 'the persistence hooks'],
     tech='attempts, answers, faults and crashes, oracle = stage-order '
     'reference model over the recorded history',
     note='every stage, the storage and the application callbacks are '
     'simulated; answers and faults come from the plan')

prop('C04', 'Saving leaves stored references equal to the links in memory',
     'After any sequence of linking and unlinking, an object whose stored '
     'reference keys are out of date reports that reference as modified; '
     'saving an object stores its current keys and also saves the objects it '
     'was unlinked from, so that no stored reference to a cut link remains. '
     'A save that fails part way can be repeated, and once every object that '
     'reports changes was saved successfully the storage agrees with memory.',
     ['histories', 'fault_sequences', 'crash_points'],
     'all sequences of link, unlink, key and save operations over '
     'one-to-one, one-to-many, many-to-many and self relations, with storage '
     'errors, lost acknowledgements and crashes at any write or code line',
     'tests link once and inspect one object; none saves a graph through a '
     'storage, and none fails a write half way',
     ['jsonclassify.py', 'olist.py', 'ograph.py', 'jfield.py', 'rtypes.py'],
     [('save of unlinked objects', 'jsonclassify.py: save'),
      ('modified bookkeeping', 'jsonclassify.py: __setattr__, __olist_add__, '
       '__olist_del__, __unlink_field__')],
     [('unlinked objects', 'objects still to be saved because a link was cut',
       'jsonclassify.py: _add_unlinked_object')],
     ['save()', 'modified_fields', 'local key attributes',
      'the persistence hooks'],
     tech='relationship operations, storage faults and crashes, oracle = '
     'relation model plus the simulated table',
     note='real linking and save code against a simulated table')

prop('C05', 'What an object reports as changed is complete',
     'Every change made to a persisted object, by attribute, batch or keypath '
     'assignment or by any list or dict operation at any depth of its own '
     'lists and dicts (objects inside them report their own changes), '
     'is reflected in its reported modified fields, so a storage that writes '
     'only reported fields never loses an update, even after failed saves and '
     'restarts. The containers behave like ordinary lists and dicts, an '
     'operation that raises leaves nothing changed but unreported, and '
     'temporary fields are never reported for persisting.',
     ['histories', 'fault_sequences', 'crash_points'],
     'all sequences of mutations, saves, failing saves, crashes and reloads',
     'tests call each list or dict method once on a fresh object and compare '
     'one flag; they never check that an update survives save and reload',
     ['olist.py', 'odict.py', 'outils.py', 'keypath.py', 'jsonclassify.py'],
     [('tracked containers', 'olist.py, odict.py'),
      ('ownership', 'outils.py: to_owned_list, to_owned_dict'),
      ('reporting', 'jsonclassify.py: __olist_add__ and friends')],
     [('modified fields', 'names changed since the last save',
       'jsonclassify.py: modified_fields')],
     ['is_modified', 'modified_fields', 'persisted_modified_fields',
      'values read back', 'the persistence hooks'],
     tech='mutation sequences, save faults, crashes and restarts, oracle = '
     'builtin list/dict reference model and the reloaded row',
     note='the storage trusts the report, so a lost update shows as a '
     'difference between model and table')

prop('C06', 'Reset and previous values give back the last persisted state',
     'On a persisted object, reset restores exactly the state of the last '
     'successful save or load, whatever was changed since and however many '
     'saves failed in between, and leaves the object unmodified; where reset '
     'is impossible it is refused without changing anything. Comparison and '
     'update callbacks are given the last persisted value and the new value, '
     'once per changed field and save, and never run while creating.',
     ['histories', 'fault_sequences'],
     'all sequences of mutations, saves, failing saves, reloads and resets',
     'tests mutate one field once and reset; nested in-place changes, '
     'repeated changes and failed saves in between are not reached',
     ['jsonclassify.py', 'outils.py', 'modifiers/compare_modifier.py',
      'modifiers/onupdate_modifier.py'],
     [('previous values', 'jsonclassify.py: __setattr__, '
       '__olist_will_change__, __odict_will_change__'),
      ('reset', 'jsonclassify.py: reset')],
     [('previous values', 'value of each changed field at the last save',
       'jsonclassify.py: previous_values')],
     ['reset()', 'compare callbacks', 'onupdate callbacks'],
     tech='mutation sequences, failing saves and resets, oracle = deep copy '
     'of the last persisted state',
     note='previous values are checked through the callbacks a user registers')

prop('C07', 'Both sides of a relationship and its keys always agree',
     'After any operation on either side of a relationship (assignment, list '
     'operation, key assignment, nested construction), A refers to B exactly '
     'when B refers to A, a single-valued side refers to at most one object, '
     'and every reference key equals the primary key of the object it stands '
     'for. Keys of objects that were not fetched are kept, and no operation '
     'links, unlinks or drops an object nobody named.',
     ['histories', 'fault_sequences'],
     'all sequences of relationship operations over up to four objects per '
     'class and five kinds of relation, with failing iterables and saves',
     'tests perform one or two operations on one relation; stealing an '
     'object from a third one, slice operations and mixed keys are not '
     'reached',
     ['jsonclassify.py', 'olist.py', 'ograph.py', 'jfield.py', 'cdef.py',
      'modifiers/instanceof_modifier.py'],
     [('linking', 'jsonclassify.py: __link_field__'),
      ('unlinking', 'jsonclassify.py: __unlink_field__'),
      ('local keys', 'jsonclassify.py: __setattr__, __olist_add__, '
       '__olist_del__')],
     [('links', 'attribute values on both sides', 'object attributes')],
     ['reference attributes of every object', 'key attributes'],
     tech='relationship operations and faults, oracle = set-of-links model '
     'checked after every step',
     note='every reachable object is compared with the model after each step')

prop('C01', 'Threads working on their own objects do not disturb each other',
     'When several threads use the same JSON classes at once, each on objects '
     'of its own and each with its own acting operator (objects that are '
     'shared are only read), every operation gives each thread exactly the '
     'result, error message and callbacks it would give with the threads '
     'running one after another, also when the classes are used for the very '
     'first time by several threads together. No thread waits forever, and '
     'later uses of the classes are not affected by the overlap.',
     ['schedules', 'histories'],
     'all interleavings of two or three threads creating, linking, setting, '
     'validating, outputting and saving objects of eight related classes, '
     'first use included',
     'tests are single threaded; a race needs one preemption between two '
     'particular lines and shows only in the first use of a class',
     ['cdef.py', 'jfield.py', 'rtypes.py', 'fdef.py', 'jsonclassify.py',
      'ctx.py', 'cgraph.py', 'modifiers/instanceof_modifier.py'],
     [('lazy class resolution', 'cdef.py: _resolve_if_needed and the name '
       'lists'), ('lazy field resolution', 'jfield.py, fdef.py'),
      ('type resolution', 'rtypes.py: rtypes, rnamedtypes')],
     [('resolved definitions', 'types, references and name lists computed at '
       'first use', 'cdef.py')],
     ['the outcome of every public operation in every thread'],
     tech='thread interleavings (preemption at library lines or bytecodes '
     'chosen by the seed), oracle = the same programs run one after another',
     note='real threads under a baton scheduler; one thread runs at a time '
     'and is preempted only where the plan says')

prop('C02', 'Every class name is registered once and stays found',
     'A class graph is one object per name with its default configuration, '
     'complete whenever anybody sees it. However many threads define classes '
     'and enums at once, exactly one definition of a name succeeds in a graph '
     'and every other one is refused with the name conflict error; a name '
     'that was registered is found from then on by every thread, also by '
     'references from other classes, names of different graphs and of '
     'classes and enums do not mix, and a definition that is interrupted '
     'does not damage the graph.',
     ['schedules', 'crash_points'],
     'all interleavings of two or three threads defining, fetching and using '
     'classes and enums in one or two graphs, with interrupts at any library '
     'call',
     'tests define classes in one thread; lost or doubled registrations need '
     'a preemption between looking a name up and storing it',
     ['cgraph.py', 'jsonclass.py', 'jsonenum.py', 'jconf.py', 'excs.py',
      'cdef.py'],
     [('graph creation', 'cgraph.py: CGraph.__new__, __init__'),
      ('registration', 'cgraph.py: put, put_enum'),
      ('lookup', 'cgraph.py: fetch, fetch_enum, has, has_enum')],
     [('registered names', 'name to class definition or enum per graph',
       'cgraph.py')],
     ['@jsonclass', '@jsonenum', 'CGraph.fetch/has/fetch_enum/has_enum',
      'default_config'],
     tech='thread interleavings and interrupts, oracle = linearizability of '
     'the recorded history against a write-once register per name',
     note='real decorators and graphs under the baton scheduler')

prop('C12', 'Validation judges everything, tells where, and changes nothing',
     'validate() and is_valid accept an object exactly when every field of '
     'every object that is judged with it (all fields of new objects, the '
     'changed fields and the links of persisted ones, through nested objects, '
     'lists, dicts, links and cycles) satisfies its rules. A refusal names by '
     'key path only values that are really wrong: with all_fields every one '
     'of them, with the class setting every wrong field, otherwise one, with '
     'the message of the rule or the validator. Every validator of the '
     'application is asked at most once about a value, with the object the '
     'value belongs to, the root and the operator. Validating changes '
     'nothing, whatever was validated before and whichever validator raises: '
     'that error reaches the caller, and the next validation judges as if it '
     'had not happened. A value of any wrong kind is refused, not a crash.',
     ['histories', 'fault_sequences'],
     'all graphs of objects with nested, shared and cyclic parts holding right '
     'and wrong values of any kind, changed, saved and validated in any order '
     'with validators failing at any call',
     'tests validate one object with one wrong field; they never validate '
     'cycles with several wrong values, repeat validations after a failing '
     'validator, or look for changes made by validating',
     ['modifiers/instanceof_modifier.py', 'modifiers/chained_modifier.py',
      'modifiers/collection_type_modifier.py', 'modifiers/union_modifier.py',
      'modifiers/validate_modifier.py', 'modifiers/oneisvalid_modifier.py',
      'modifiers/required_modifier.py', 'vmsgcollector.py', 'mgraph.py',
      'ctx.py'],
     [('object', 'modifiers/instanceof_modifier.py: validate'),
      ('chain and items', 'modifiers/chained_modifier.py, '
       'modifiers/collection_type_modifier.py'), ('paths', 'ctx.py')],
     [('visited objects', 'objects already judged in this validation',
       'mgraph.py')],
     ['validate()', 'is_valid', 'save()', 'keypath_messages', 'validators',
      'values, links and change marks of every object'],
     tech='object graphs, histories of changes and validations with failing '
     'validators, oracle = independent judgement of every reachable value',
     note='every validator callback and the storage are simulated')

prop('C13', 'Saving processes every linked object once, on its own values',
     'One save validates every object linked to the saved one and runs its '
     'on-save setters and callbacks exactly once, whatever cycles and shared '
     'objects the links form: setters run for new and changed objects (forced '
     'ones always), see the values of their own object and change only their '
     'own field, write and update callbacks run once per changed field with '
     'the previous and the new value of their own object, and nothing else '
     'changes: no link, no other value, no object that was not reached. If '
     'any linked object is not valid, also after its on-save value was set, '
     'nothing is written.',
     ['histories', 'fault_sequences'],
     'all graphs of up to a dozen new, changed and clean objects of four '
     'classes linked in every direction, with setters, validators and '
     'callbacks failing at any point and saves repeated',
     'tests save one object or one parent with one child; a wrong owner or a '
     'second visit shows only in lists, cycles and shared objects',
     ['modifiers/instanceof_modifier.py', 'modifiers/chained_modifier.py',
      'modifiers/setonsave_modifier.py', 'modifiers/onwrite_modifier.py',
      'modifiers/onupdate_modifier.py', 'modifiers/compare_modifier.py',
      'mgraph.py', 'ctx.py', 'jsonclassify.py'],
     [('graph traversal', 'modifiers/instanceof_modifier.py: validate, '
       'serialize'), ('visited marks', 'mgraph.py'),
      ('context', 'ctx.py')],
     [('visited objects', 'objects already handled in this save',
       'mgraph.py')],
     ['save()', 'validate()', 'setonsave, fsetonsave, onsave, onwrite, '
      'onupdate and compare callbacks', 'values and links of every object'],
     tech='object graphs, save sequences and failing callbacks, oracle = '
     'per-pass reference model computed from the graph before the pass',
     note='every callback and the storage are simulated')

prop('C08', 'Recorded times are right whatever the clock does',
     'A created time (tscreated) is the clock reading at creation and never '
     'changes afterwards unless the user sets it. An updated time (tsupdated) '
     'becomes the time of the save for every new or changed object the save '
     'reaches, is stored with it, and stays as it was for every other object. '
     'Both are always aware UTC times, whatever the time zone of the host, '
     'and the clock standing still, jumping forward or jumping back at any '
     'reading never makes creating, saving or loading fail. A time given as '
     'text or with any zone keeps its instant, output is UTC with '
     'milliseconds and reads back as the same instant to the millisecond. A '
     'field with a minimum update interval cannot be saved with a value '
     'closer to the last persisted value than the interval, however many '
     'times it was assigned in between.',
     ['histories', 'fault_sequences'],
     'all histories of creating, changing, linking, validating, saving and '
     'reloading objects, under any sequence of clock readings (jumps at any '
     'reading, coarse and standing clocks, changes of the host zone) and '
     'failing writes',
     'tests run on the real clock in one time zone and cannot make it jump '
     'or stand still',
     ['types.py', 'modifiers/setonsave_modifier.py',
      'modifiers/preserialize_modifier.py', 'modifiers/default_modifier.py',
      'modifiers/datetime_modifier.py', 'modifiers/compare_modifier.py',
      'jsonclassify.py'],
     [('timestamps', 'types.py: tscreated, tsupdated, umininterval'),
      ('on save values', 'modifiers/setonsave_modifier.py'),
      ('conversion', 'modifiers/datetime_modifier.py')],
     [('previous values', 'last persisted value of each changed field',
       'jsonclassify.py: __setattr__')],
     ['values of time fields', 'save()', 'validate()', 'tojson()'],
     tech='virtual clock with jumps at any reading and host zones, save '
     'histories with failing writes; oracle = the recorded clock readings and '
     'a model of new, changed and clean objects',
     note='the clock and the host time zone are simulated')

prop('C09', 'An upload URL always leads to exactly the file',
     'Whenever an upload returns a URL (as the value of an uploader field or '
     'from the uploader itself), the file exists under that URL at that '
     'moment with exactly the bytes given, the extension of its name in lower '
     'case, the configured directory or bucket, access and content type. No '
     'two uploads share a URL and no upload touches another file or leaves '
     'the configured directory, whatever the file name. When the disk, the '
     'service or the sender fails at any point, the error reaches the caller, '
     'the field keeps its value and no partial file stays behind; the next '
     'upload works. This holds for first uploads from several threads at '
     'once. An engine that is unknown or cannot store files refuses.',
     ['inputs', 'schedules', 'fault_sequences'],
     'all sequences of uploads of files of any size and name through local '
     'and S3 uploaders from several threads, with errors, short writes and '
     'crashes at any disk, service or stream operation',
     'there are no tests of uploads at all; the races and partial writes need '
     'faults and schedules a test cannot produce',
     ['uploaders.py', 'modifiers/uploader_modifier.py',
      'modifiers/eager_modifier.py'],
     [('uploaders', 'uploaders.py: LocalFSClient, S3Uploader, '
       'request_uploader'), ('field', 'modifiers/uploader_modifier.py')],
     [('uploaders by name', 'created on first request', 'uploaders.py: '
       '_uploaders')],
     ['value of the field', 'upload()', 'files in the public directory',
      'objects in the bucket'],
     tech='uploads from several threads with disk, service and stream '
     'failures; oracle = contents behind every URL handed out, directory '
     'listing before and after',
     note='the disk is a scratch directory with injected errors; boto3, the '
     'S3 service and the upload objects of the web frameworks are stubs')

prop('C10', 'The configuration is loaded completely, once, or not at all',
     'uconf() returns what config.json of the current directory says, with '
     'every environ[...] value replaced and every key in snake case at any '
     'depth, as UTF-8 whatever the locale of the host, and an empty '
     'configuration when there is no such file. A torn, invalid or unreadable '
     'file or an undefined environment variable is reported as an error, '
     'never as a partial or empty configuration, and does not stick: once the '
     'cause is gone, it loads. After it was loaded, every caller on every '
     'thread gets the same object with the same values, and the file is not '
     'read again.',
     ['inputs', 'schedules', 'fault_sequences'],
     'all configuration files, environments and histories of them being '
     'written, torn, removed and fixed, read errors at any point, and first '
     'calls from several threads',
     'the tests load one good file once in one thread',
     ['uconf.py', 'singleton.py', 'keypath.py'],
     [('loading', 'uconf.py: UserConfRoot'), ('single instance',
                                              'singleton.py')],
     [('the instance', 'made by the first successful call', 'singleton.py')],
     ['uconf()', 'get() and indexing of the configuration'],
     tech='histories of configuration files and environments with read '
     'errors and first calls from several threads; oracle = reference loader',
     note='the disk is a scratch directory with injected errors, the host '
     'encoding is simulated')

prop('C11', 'Required packages are installed once and recorded once',
     'When a field needs a package that cannot be imported, pip is asked for '
     'exactly that requirement once, also when several threads need it, and '
     'only then. After it was installed, requirements.txt (made when it does '
     'not exist) has a line for it: its own unless a line for that package '
     'was there before. A failed, killed or interrupted install is reported '
     'and not recorded. Whatever fails or crashes, no line that was in the '
     'file, or that another process added meanwhile, is lost or altered.',
     ['inputs', 'schedules', 'fault_sequences'],
     'all contents of requirements.txt, sets of missing packages, and '
     'sequences and interleavings of checks, with pip, import and disk '
     'failures and crashes at any point and other processes editing the file',
     'there are no tests of it: a test cannot run pip or fail it',
     ['pkgutils.py', 'modifiers/modifier.py'],
     [('installing', 'pkgutils.py')],
     [('requirements.txt', 'requirements of the project', 'pkgutils.py: '
       'install_package')],
     ['check_and_install_packages()', 'requirements.txt', 'commands run'],
     tech='package checks from several threads with failing installs, '
     'imports and disk; oracle = model of installed modules and lines',
     note='no process is started: pip is a stub; modules are found by a '
     'simulated finder')

prop('C15', 'Random values and salted passwords are what they promise',
     'A random string field has exactly the asked length and only characters '
     'of the asked alphabet, for every length and whatever the source of '
     'randomness gives; it is drawn for each object anew (characters may '
     'repeat, nothing is frozen at class definition) and stays as drawn when '
     'the object is validated, saved or its other fields are set. A salted '
     'password is held and stored only as a hash of exactly the password that '
     'was set last: never in plain, never hashed again by validating, saving '
     'or setting other fields, with a salt of its own each time, and is not '
     'output when writeonly; the password check accepts that password and no '
     'other. When randomness or hashing fails, the failure is reported and '
     'the field stays as it was.',
     ['inputs', 'histories', 'fault_sequences'],
     'all lengths, random sources (also constant and repeating ones), '
     'sequences of setting, saving and checking passwords, and failures of '
     'the random source or the hash function at any call',
     'tests draw one value of one length from the real source and cannot '
     'choose what it returns or make it fail',
     ['modifiers/random_digits_modifier.py',
      'modifiers/random_alnums_modifier.py',
      'modifiers/random_alnumpuncs_modifier.py', 'modifiers/salt_modifier.py',
      'modifiers/default_modifier.py', 'jsonclassify.py'],
     [('drawing', 'modifiers/random_*_modifier.py: transform'),
      ('hashing', 'modifiers/salt_modifier.py: transform')],
     [('password hash', 'what is stored', 'modifiers/salt_modifier.py')],
     ['field values', 'set(), save(), tojson()', 'checkpw validation',
      'the persistence hooks'],
     tech='histories of objects with random and salted fields under a '
     'simulated entropy source and hash with failures; oracle = model of '
     'last set password and drawn values',
     note='the random source and bcrypt are simulated; the modifiers and '
     'objects are real')

prop('C17', 'Fetching related or missing data changes nothing else',
     'include(field) fills the field with exactly the linked objects that are '
     'stored, linked in both directions and using the objects already on the '
     'object graph instead of second copies; complete() fills the fields an '
     'object was loaded without and keeps what the user changed. Neither '
     'marks any object as modified, touches previous values or the objects to '
     'be saved with it, so a later save writes only what the user changed. An '
     'empty reference gives nothing, fetching again or overlapping fetches '
     'and relations changed by other processes give the stored state, and a '
     'fetch that fails changes nothing.',
     ['histories', 'fault_sequences'],
     'all sequences of loading, fetching, changing and saving objects over '
     'every relation kind, with fetches failing at any read and other '
     'processes changing the storage in between',
     'tests fetch one field of one object once, from a storage that never '
     'fails and never changes',
     ['jsonclassify.py', 'ograph.py', 'olist.py'],
     [('fetching', 'jsonclassify.py: include, complete'),
      ('linking', 'jsonclassify.py: __link_graph__')],
     [('object graph', 'objects linked to each other', 'ograph.py')],
     ['include()', 'complete()', 'field values and links', 'is_modified, '
      'modified_fields, previous_values, unlinked_objects', 'save()'],
     tech='sequences of fetches, changes and saves with failing reads and '
     'concurrent writers; oracle = model of storage, links and user changes',
     note='the ORM hooks and storage are simulated')

prop('C14', 'Input never gets past the marks of a field',
     'Whatever input is given to a new object or to set(), by field name, '
     'JSON name, key path or reference key, directly or inside nested '
     'objects, lists and dicts: a readonly or internal field never takes a '
     'value from it and keeps its own (the default on a new object), a '
     'writeonce field takes one only while its value, and the reference of '
     'a link, is None, a writenonnull field never becomes None by it, and '
     'every other given field takes its value. A refused value is ignored: '
     'it runs no transformer, does not mark the object modified and does not '
     'affect the rest of the input. An unknown key of a strict class refuses '
     'the whole input before anything is set. The marks hold as well when '
     'the input fails or is interrupted half way, and across saving, '
     'reloading and resetting; update() and assignment are not restricted.',
     ['inputs', 'histories', 'fault_sequences'],
     'all inputs (names, depths, repeated objects, nulls) in all histories '
     'of set, update, save, reset and reload, with transformers failing and '
     'interrupts at any line',
     'tests give one readonly and one writeonce value to one flat object by '
     'its name',
     ['jsonclassify.py', 'modifiers/instanceof_modifier.py', 'keypath.py',
      'fdef.py', 'modifiers/readonly_modifier.py',
      'modifiers/writeonce_modifier.py', 'modifiers/writenonnull_modifier.py'],
     [('input', 'modifiers/instanceof_modifier.py: transform'),
      ('key paths', 'jsonclassify.py: _keypath_set, _set_to_container')],
     [('field values', 'what the object holds', 'jsonclassify.py')],
     ['creating objects', 'set()', 'update()', 'field values and reference '
      'keys', 'modified_fields'],
     tech='histories of generated inputs with failing transformers and '
     'interrupts at code lines; oracle = reference model of the marks',
     note='transformers and storage are simulated; input handling is real')

prop('C16', 'Output shows what it may, as it is, and changes nothing',
     'tojson() never contains a writeonly, internal or temp field of any '
     'object at any depth, under any name, nor the reference keys of such a '
     'link (ignore_writeonly shows all but the temp ones); a field with a '
     'read check shows its value only when the check, asked about the object '
     'the field belongs to and the operator of the object that is output, '
     'agrees; of a picked object exactly the picked fields (or all but the '
     'omitted) are shown. Every other field, of the object itself and its '
     'nested objects, is shown with its current value under its JSON name, '
     'links of the object itself included, nulls only when asked for, '
     'whatever cycles the links form. The output is a copy; making it, also '
     'when a check or getter fails, changes no object, and making it again '
     'or with the JSON encoder gives the same.',
     ['histories', 'inputs', 'fault_sequences'],
     'all object graphs and histories of changing, linking, picking and '
     'output by any operator, with any option and answers of the checks, and '
     'failures of checks and getters',
     'tests output one flat object or one link; they have no secret deeper '
     'than one level and no failing check',
     ['modifiers/instanceof_modifier.py', 'modifiers/canr_modifier.py',
      'modifiers/collection_type_modifier.py', 'jsonclassify.py', 'ctx.py',
      'encoder.py', 'modifiers/writeonly_modifier.py'],
     [('output', 'modifiers/instanceof_modifier.py: tojson'),
      ('picking', 'jsonclassify.py: pick, omit'),
      ('read checks', 'modifiers/canr_modifier.py: tojson')],
     [('operator', 'who reads', 'jsonclassify.py: opby')],
     ['tojson()', 'JSONEncoder', 'pick(), omit()'],
     tech='object graphs, operators, answers and failing checks and getters; '
     'oracle = reference output computed from the objects',
     note='read checks, getters and storage are simulated; output is real')

prop('C18', 'The acting operator is recorded and recognised truthfully',
     'While an object is new, its operator fields (asop, asopd) hold the key '
     'of exactly the operator that acted on it last, or of what the field\'s '
     'transformer gave for that operator; once it is persisted, others '
     'acting on it never change them, and neither do saving, failing saves '
     'and reloading. An object which is new and has an operator field '
     'without a key, or had it cleared, is not stored, also when it is '
     'reached through another object. The identity checks used in '
     'permissions (getop with isthis, isobj, isobjof) accept exactly the '
     'same object, or one of the same class with the same key, loaded or '
     'not: never one of another class with an equal key, never two objects '
     'without keys, never nobody.',
     ['histories', 'configurations', 'fault_sequences'],
     'all histories of several operators (stored, unsaved, keyless, of other '
     'classes with equal keys, none) acting on, saving, reading and deleting '
     'new, changed and reloaded objects, with failing transformers and writes',
     'tests let one operator with one key act once',
     ['jsonclassify.py', 'modifiers/asop_modifier.py',
      'modifiers/asopd_modifier.py', 'modifiers/isthis_modifier.py',
      'modifiers/isobj_modifier.py', 'modifiers/isobjof_modifier.py',
      'modifiers/getop_modifier.py', 'modifiers/fval_modifier.py',
      'objref.py', 'ctx.py'],
     [('recording', 'jsonclassify.py: opby'),
      ('identity', 'modifiers/isthis_modifier.py, modifiers/'
       'isobj_modifier.py: validate')],
     [('operator', 'who acts', 'jsonclassify.py: _operator')],
     ['opby()', 'save(), delete(), validate(), tojson()', 'operator keys'],
     tech='histories of operators and actions with failing transformers and '
     'writes; oracle = reference notion of identity and recorded keys',
     note='storage and transformers are simulated')

PURE = ('deterministic simulation has nothing to decide here: the result is a '
        'pure function of the arguments, with no schedule, time, randomness, '
        'I/O, other party or history that could change it')

prop('C19', 'Errors of the application reach the caller and leave nothing behind',
     'Whatever application code called by an operation raises (validators, '
     'transformers, filters, defaults and parameters given as callables, '
     'getters, comparisons, on-save setters, formatters, callbacks, '
     'permission checks, the storage), and an interrupt at any point inside '
     'the library, also during the first use of a class, reaches the caller '
     'of the operation as that very error, and no further application code '
     'is called on the way (only an ordinary error of the transformer of a '
     'union alternative counts as this alternative not matching). Nothing is '
     'left behind: validating or outputting the object again gives what it '
     'would have given, and operations on other objects of the class, from '
     'any thread, give exactly what they give when nothing ever failed.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'all operations on classes with every kind of callback, an error of any '
     'kind raised at any callback or an interrupt at any library function '
     'entry, first and later uses of the class',
     'tests hardly ever let a callback raise anything but a refusal, never '
     'interrupt an operation and never look at what works afterwards',
     ['jsonclassify.py', 'modifiers/chained_modifier.py',
      'modifiers/union_modifier.py', 'modifiers/filter_modifier.py',
      'modifiers/oneisvalid_modifier.py', 'modifiers/validate_modifier.py',
      'modifiers/instanceof_modifier.py', 'modifiers/modifier.py',
      'modifiers/presentwith_modifier.py', 'cdef.py', 'fdef.py', 'rtypes.py'],
     [('callbacks', 'modifiers/*.py'), ('parameters',
                                        'modifiers/modifier.py: '
                                        'resolve_param'),
      ('first use', 'cdef.py, fdef.py, rtypes.py')],
     [('resolution of a class', 'types and names resolved at first use',
       'fdef.py: _resolve_ref_types_if_needed')],
     ['the error of the operation', 'calls of application code', 'results of '
      'later operations'],
     tech='errors injected at every kind of callback and interrupts at '
     'library function entries, oracle = identity of the error, prefix of the '
     'undisturbed calls, undisturbed results afterwards',
     note='all callbacks and the storage are simulated; later operations run '
     'in another thread, so that a lock left held is noticed')

prop('N01', 'Validators accept exactly the values they describe',
     'Every validator (length, range, match, oneof, email, url, hexcolor, '
     'alpha, numeric, odd, before, ...) accepts exactly the values its name '
     'and arguments describe and reports others with its message.',
     ['inputs'], 'all values and arguments of each validator',
     'tests sample a few values per validator',
     ['modifiers/length_modifier.py', 'modifiers/match_modifier.py',
      'modifiers/range_modifier.py', 'modifiers/oneof_modifier.py',
      'modifiers/email_modifier.py', 'modifiers/url_modifier.py'],
     [('validators', 'modifiers/*_modifier.py: validate')], (),
     ['validate()'], na=PURE)
prop('N02', 'Value transforms compute what they describe',
     'Every value transform (trim, pad, round, case, split and join, date '
     'truncation, arithmetic, ...) gives the described result for every '
     'value and leaves None alone.',
     ['inputs'], 'all values and arguments of each transform',
     'tests sample a few values per transform',
     ['modifiers/truncate_modifier.py', 'modifiers/round_modifier.py',
      'modifiers/padstart_modifier.py', 'modifiers/tobomon_modifier.py'],
     [('transforms', 'modifiers/*_modifier.py: transform')], (),
     ['set()', 'field values'], na=PURE)
prop('N03', 'Field names convert the same way everywhere',
     'The JSON name of a field, its reference key and the class\'s table '
     'names are computed by the configured strategies alike for input, '
     'output and references, and no two fields collide unnoticed.',
     ['inputs', 'programs'], 'all field names and naming strategies',
     'tests use a few names', ['keypath.py', 'jfield.py', 'cdef.py'],
     [('names', 'keypath.py')], (), ['JSON names', 'reference keys'],
     na=PURE + ' (names as a way of input and output are part of C14 and C16)')
prop('N04', 'Annotations and types chains define the field they describe',
     'A field defined by annotation, by types chain or both has the type, '
     'requiredness, relation and rules its definition says, and a '
     'contradictory definition is refused when the class is defined.',
     ['programs'], 'all class definitions', 'tests define a fixed set of '
     'classes', ['rtypes.py', 'types.py', 'fdef.py', 'cdef.py'],
     [('resolving', 'rtypes.py')], (), ['class definitions'],
     na='deterministic simulation has nothing to decide here: the definition '
     'is a pure function of the source text; what depends on the order and '
     'overlap of definitions is C01 and C02')
prop('N05', 'The mypy plugin types objects as the runtime builds them',
     'The type checker plugin accepts exactly the constructor calls and '
     'attribute uses that work at run time.',
     ['programs'], 'all programs using the library', 'there are no tests of '
     'it', ['mypy.py'], [('plugin', 'mypy.py')], (), ['mypy results'],
     na='static analysis of source text: there is no execution, schedule, '
     'fault or time to simulate')

#MORE


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': [J + x if not x.startswith('/') else x[1:]
                              for x in p['files']],
                    'mechanism': [{'name': a, 'where': J + b}
                                  for a, b in p['mech']],
                    'state': [{'name': a, 'meaning': b, 'where': c}
                              for a, b, c in p['state']],
                    'observe_at': list(p['observe']),
                    'hook_needed': p['hook'],
                }}) + '\n')
    checks, na = [], []
    for p in sorted(P, key=lambda p: p['id']):
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': f"./check.sh {p['id']} quick",
            'thorough_cmd': f"./check.sh {p['id']} thorough",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': TECH + p['tech'],
            'level': 'exploration',
            'level_note': 'Seeded search, not exhaustive: a pass means no '
            'violation on the runs counted in the evidence file. ' + p['note']
            + '.',
        })
    man = {
        'version': 1,
        'setup_cmd': 'true',
        'hooks': {'guard': 'none', 'enable': 'no hooks were added to /repo: '
                  'the seams are the standard library entry points (clock, '
                  'randomness, files, processes, threads) and the persistence '
                  'methods the library leaves to be overridden',
                  'source_commits': []},
        'checks': checks,
        'not_applicable': na,
        'notes': 'check.sh PROPERTY quick|thorough; check.sh replay FILE. '
        'VERIF_SEED selects the seed. DST_WORKERS, DST_SCALE, DST_REPO change '
        'worker count, number of runs, and the tree under test.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()

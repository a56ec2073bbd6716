#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P=[]
def p(id,title,statement,over,quant,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=quant),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,title
    P.append(d)

p('R01','Request framing is byte-exact, pipelined and independent of read boundaries',
  'For every sequence of well-formed multi-bulk (RESP array) requests a client sends, the server executes exactly those commands, in that order, each with byte-for-byte the arguments that were sent, including empty arguments and arguments containing CR, LF or any other byte. The result is the same however the bytes are split over reads and however many requests share one read. Every complete request is executed as soon as its last byte has been read.',
  ['inputs','schedules'],'every request sequence, every argument content, every split of the byte stream into reads',
  'The three parser tests feed one complete request at once with fixed printable arguments; no test splits or pipelines input or sends an empty argument.',
  ['server/resp.go','server/client.go','server/server.go'],
  [('processInputBuffer / processMultiBulkBuffer incremental parser','server/resp.go'),('read buffer growth and cursor','server/client.go moveToNextLineInQueryBuffer, reset; server/server.go readQueryFromClient')],
  [('queryBuf/queryLen','unconsumed input','server/client.go'),('multiBulkLen/bulkLen/args','parser progress','server/client.go')],['args seen by processCommand','replies'])
p('R02','No byte stream from a client can crash or wedge the server',
  'Whatever bytes a client sends, in whatever pieces, the server neither panics, nor exits, nor loops forever: it either waits for more input, answers, or rejects the input by closing that one connection. A length announced by the client never makes the server allocate memory out of proportion (more than 1 MiB at once) before the announced data has arrived.',
  ['inputs','schedules'],'every byte sequence and every split into reads',
  'Tests send only well-formed requests; malformed headers, negative or huge lengths and partial trailers are never tried.',
  ['server/resp.go','server/client.go','server/server.go'],
  [('header validation and error return that frees the client','server/resp.go, server/server.go readQueryFromClient')],None,['process liveness','connection closed or reply'])
p('R03','Each request gets exactly one well-formed reply, in request order',
  'Every executed, rejected or unknown command produces exactly one syntactically complete RESP reply, whose declared lengths and element counts match its content, and replies are queued in the order of the requests. No argument content (including CR and LF inside arguments that are echoed in error messages or returned as data) can change the framing of the reply stream.',
  ['inputs','histories'],'every command with every argument vector against a dataset of any type',
  'No test executes a command or parses a reply.',
  ['server/client.go','server/command.go','server/commandstring.go','server/commandhash.go','server/commandlist.go','server/commandset.go','server/commandzset.go','server/commandkey.go','server/commandconnection.go'],
  [('addReply* helpers','server/client.go'),('one addReply call per handler path','server/command*.go')],None,['client reply queue'])
p('R04','No command with any arguments crashes the server in any dataset state',
  'Executing any supported command with any number and content of arguments, against any dataset (absent keys, keys of any type, empty collections, lists longer than one internal page, expired keys), completes and returns control to the event loop: no panic, no exit, no endless loop. Numeric arguments are covered over their whole range, including negative, minimum, maximum, overflowing, infinite and not-a-number values.',
  ['inputs','histories'],'every command, argument vector and dataset state',
  'No test executes a command handler.',
  ['server/command.go','server/commandlist.go','server/commandzset.go','server/commandconnection.go','server/commandkey.go','server/commandstring.go','datastruct/quicklist.go','datastruct/skiplist.go'],
  [('argument validation in handlers','server/command*.go'),('range normalisation','datastruct/quicklist.go Range/get, datastruct/skiplist.go RangeByRank')],None,['process liveness'])
p('R05','Reply bytes reach the client complete, in order and once, under partial writes',
  'Whatever the kernel does with each write (accepts any part of it, reports would-block or interrupted), the bytes a client receives are exactly the concatenation of its queued replies, each byte once and in order, also when further replies are queued between writes. While output is pending the connection stays registered for writability, and once everything is sent it is deregistered. A failed write closes only that connection.',
  ['inputs','schedules','fault_sequences'],'every reply queue and every sequence of write results',
  'No test drives the reply sender; the one socket test writes 13 bytes in one call.',
  ['server/server.go','server/client.go'],
  [('sendReplayToClient with sentLen cursor','server/server.go'),('addReply registers the writable event when the queue was empty','server/client.go')],
  [('replayHead/sentLen','pending output and offset in its first item','server/client.go')],['bytes passed to write(2)'])
p('C01','Commands dispatch by name and arity; rejected requests have no effect',
  'A request runs a command exactly when its first argument names a supported command (ignoring letter case) and its argument count satisfies that command\'s arity; it runs that command and no other. An unknown command or wrong argument count gets an error reply and changes neither the dataset, nor expiry times, nor the append-only log, nor the connection\'s database or authentication state.',
  ['inputs'],'every command name, letter case and argument count',
  'No test goes through command dispatch.',
  ['server/command.go'],[('commandTable, lookupCommand, arity test in processCommand','server/command.go')],None,['reply','dataset','append-only buffer'])
p('C02','With a password set, nothing but AUTH works before authentication',
  'When a password is configured, a connection that has not sent AUTH with exactly that password can neither read nor change any data, expiry, log, rewrite state or its selected database: every supported command other than AUTH is answered with an error and has no effect. AUTH succeeds if and only if the given string equals the password, affects only the connection that sent it, and a later failing AUTH revokes the authentication. Without a configured password all commands are available.',
  ['inputs','histories'],'every password, every guess, every command and sequence of AUTH attempts on several connections',
  'No test sets a password.',
  ['server/command.go','server/commandconnection.go'],[('authentication gate in processCommand','server/command.go'),('authCommand','server/commandconnection.go')],
  [('authenticated','per-connection flag','server/client.go')],['reply','dataset'])
p('C03','SELECT addresses exactly the configured databases, isolated per connection',
  'SELECT n succeeds exactly for integers 0 <= n < number of configured databases and otherwise replies with an error and leaves the selected database unchanged. It changes the database of that connection only, a new connection starts in database 0, and no command on a connection reads or changes keys or expiry times of any database other than its selected one.',
  ['inputs','histories','configurations'],'every index string, number of databases and interleaving of two connections',
  'No test selects a database.',
  ['server/commandconnection.go','server/server.go','database/database.go'],[('selectCommand range check','server/commandconnection.go'),('per-client db pointer','server/client.go')],None,['reply','per-database contents'])
p('C04','Commands change only the key they name; reads change nothing',
  'A command that modifies data changes, besides the reply, only the key it names (its value and expiry), and a read-only command changes no live key\'s value or expiry and writes nothing to the append-only log (removal of keys whose expiry has passed excepted). A key never holds more than one value: SET replaces a value of any type.',
  ['inputs','histories'],'every command, arguments and dataset holding other keys',
  'No test executes a command handler.',
  ['server/commandstring.go','server/commandhash.go','server/commandlist.go','server/commandset.go','server/commandzset.go','server/commandkey.go'],[('handlers operate on client.db.Dict / Expire by key','server/command*.go')],None,['dataset before/after'])
p('C05','Commands on a key of another type fail without side effects',
  'A command applied to an existing key that holds another type than the command works on, or given an argument it rejects as invalid, answers with an error (read commands of strings included) and leaves every value, every expiry time and the append-only log exactly as they were; in particular it creates no key. (SINTER and SDIFF may answer that the result is empty, because of an absent earlier operand, before they look at later ones.)',
  ['inputs','histories'],'every command crossed with every stored type and with every invalid numeric argument',
  'No test executes a command handler.',
  ['server/commandstring.go','server/commandhash.go','server/commandlist.go','server/commandset.go','server/commandzset.go'],[('getHash/getSet/getZset/getQuickList type checks','server/command*.go'),('argument parsing before mutation','server/command*.go')],None,['reply','dataset','append-only buffer'])
p('C06','String and hash commands behave as maps',
  'SET followed by GET returns the exact bytes stored until the key is overwritten or expires, and GET of an absent key returns null. Over any history, HSET/HDEL return the number of fields created/removed, and HGET, HEXISTS, HLEN and HKEYS report exactly the fields and latest values a mathematical map would hold, for any field names and values.',
  ['inputs','histories'],'every history of string and hash commands over any keys, fields and values',
  'No test executes a command handler.',
  ['server/commandstring.go','server/commandhash.go','datastruct/dict.go','database/dict.go'],[('handlers over Dict','server/commandhash.go, server/commandstring.go')],None,['replies'])
p('C07','List commands behave as a sequence',
  'Over any history, LPUSH/RPUSH/LPOP/RPOP/LLEN/LINDEX and LRANGE reply exactly as operations on a mathematical sequence: pushes add one element per value at the named end and return the new length, pops remove and return the end element or null when nothing is left, LINDEX i (i >= 0) returns element i or null, and LRANGE returns exactly the elements from start to stop inclusive (negative indices that stay within the list count from the end, a stop beyond the end is cut off).',
  ['inputs','histories'],'every history of list commands, any values and indices, lists of any length including several internal pages',
  'No test executes a command handler.',
  ['server/commandlist.go','datastruct/quicklist.go'],[('handlers over Quicklist','server/commandlist.go')],None,['replies'])
p('C08','Set commands behave as mathematical sets, also across several keys',
  'Over any history, SADD/SREM return the number of members added/removed, SISMEMBER, SCARD and SMEMBERS report exactly the current members, and SPOP removes and returns one current member (null when there is none). SUNION, SINTER and SDIFF return exactly the union, intersection and left-to-right difference of the named sets, treating absent or expired keys as empty sets, and modify none of their operands.',
  ['inputs','histories'],'every history of set commands over any members, any number of operand keys including repeated and missing ones',
  'No test executes a command handler; the set tests use three fixed small sets.',
  ['server/commandset.go','datastruct/set.go'],[('sDiff/sInter/sUnion commands','server/commandset.go'),('Union/Intersect/Difference','datastruct/set.go')],None,['replies'])
p('C09','Sorted-set commands agree with a map from member to score ordered by score',
  'Over any history, ZADD (returns the number of new members, updates scores of existing ones), ZREM, ZREMRANGEBYRANK and ZREMRANGEBYSCORE (return the number removed), ZCARD, ZSCORE, ZCOUNT, ZRANGE and ZRANGEBYSCORE (non-negative ranks, optional WITHSCORES) reply exactly as a map from member to its latest score would, listed in ascending score and then member order. Scores that are not numbers are rejected (range bounds that are NaN are left open).',
  ['inputs','histories'],'every history of sorted-set commands over any members and scores, with any random level choices',
  'No test executes a command handler.',
  ['server/commandzset.go','datastruct/zset.go','datastruct/skiplist.go','server/client.go'],[('handlers over Zset','server/commandzset.go'),('addReplyZsetElements','server/client.go')],None,['replies'])
p('D01','The dictionary is a finite map under every history and hash function',
  'After any sequence of Set and Delete, lookup returns the value last set for exactly the keys present and nothing for others, Set reports whether the key was new, Delete reports whether it was present, and the size equals the number of present keys. This holds for every hash function (including total collision), through table growth and at every point of incremental rehashing.',
  ['histories','inputs'],'every operation history, every assignment of hash values',
  'Tests insert keys with one hash function and never delete or overwrite while a rehash is under way.',
  ['datastruct/dict.go'],[('rehashStep/rehash, expandIfNeeded, keyIndex','datastruct/dict.go')],[('hashTables[2], rehashIndex, iterators','old/new table and rehash cursor','datastruct/dict.go')],['Get/Find/Size results'])
p('D02','Dictionary iteration yields every entry once and does not disturb the dictionary',
  'Iterating a dictionary from any state, including half-way through a rehash, returns every present entry exactly once, also when entries already returned (the current one included) are deleted or looked up during the iteration and when several iterators run at once. After the iterators are released the dictionary keeps working (rehashing resumes and completes). A deep copy holds the same keys and values and stays unaffected by later changes to the original, including changes inside stored collections.',
  ['histories','inputs'],'every dictionary state, hash assignment and interleaving of iteration with deletions of visited entries and lookups',
  'One test iterates a dictionary that is not modified; no test iterates while rehashing with deletions, nests iterators or copies.',
  ['datastruct/dict.go','database/database.go'],[('DictIterator with iterators counter pausing rehash','datastruct/dict.go'),('DeepCopy','datastruct/dict.go, database/database.go')],None,['entries returned'])
p('D03','Random selection returns a present entry and can return any of them',
  'Asking a dictionary or set for a random entry returns an entry that is currently present, or nothing when it is empty, in every state including during rehashing, and always terminates for suitable random draws. Every present entry can be selected for some outcome of the random source.',
  ['histories','inputs'],'every dictionary state, hash assignment and outcome of the random source',
  'The one test samples 100 keys of a large dictionary and only checks that they differ.',
  ['datastruct/dict.go','datastruct/set.go'],[('GetRandomKey bucket and chain choice','datastruct/dict.go')],None,['entry returned'])
p('D04','No command or background cycle keeps a table from growing',
  'Whatever commands (failing ones included), log rewrites and expiry cycles read or walk over the tables of the dataset, a table that was growing completes its growth with the operations that follow: later lookups cost no more hash computations than if those commands had not been executed.',
  ['histories'],'every command and combination of commands on every growing table',
  'A table that stays half-way in its growth answers everything correctly, only slower and slower.',
  ['datastruct/dict.go','datastruct/set.go','server/commandkey.go','server/commandhash.go','server/aof.go'],[('NewDictIterator/Release and their users','datastruct/dict.go')])
p('L01','The paged list is a sequence for every history and position',
  'Under any history of insertions at any position, removals, pushes and pops, the list equals the mathematical sequence: length, element at each index, index of a value, forward and backward iteration and ranges agree with it, out-of-range positions are refused without effect, and this holds across page splits, partially filled pages and page removal.',
  ['histories','inputs'],'every operation history, every index, any page layout',
  'Tests never index into the second half of a list that spans several pages, nor mix removals with insertions.',
  ['datastruct/quicklist.go'],[('get() page walk from both ends, Insert page split, Remove','datastruct/quicklist.go')],[('data (pages), length','list of pages and total length','datastruct/quicklist.go')],['Get/Range/Find/iterator results'])
p('S01','Set algebra on in-memory sets is exact and leaves operands unchanged',
  'Union, intersection and difference of any two sets (also of a set with itself, with empty sets and with sets in the middle of rehashing) contain exactly the members the mathematical operation yields, and both operands keep exactly their members and stay usable (and able to grow) afterwards.',
  ['inputs','histories'],'every pair of sets in every internal state',
  'Tests use three fixed pairs of small string sets.',
  ['datastruct/set.go','datastruct/dict.go'],[('Union/Intersect/Difference over DictIterator','datastruct/set.go')],None,['members of result and operands'])
p('Z01','Sorted sets keep one entry per member, ordered by score then member',
  'After any history of additions, score updates and removals, a sorted set lists each present member exactly once with its latest score, in ascending (score, member) order forwards and the reverse backwards; size, score lookup and the rank of each member agree with that order, in both directions. This holds for every outcome of the random level choice and for every member string including the empty one.',
  ['histories','inputs'],'every history, all non-NaN scores, every outcome of the level generator',
  'Tests insert 100 members with ascending distinct scores and never change a score or use equal scores.',
  ['datastruct/zset.go','datastruct/skiplist.go'],[('Zset.Add update path; Skiplist.Insert/Delete span bookkeeping','datastruct/zset.go, datastruct/skiplist.go')],[('dict + skiplist','two views that must agree','datastruct/zset.go')],['RangeByRank/GetRank/Get/Size'])
p('Z02','Sorted-set range queries return exactly the requested elements',
  'For every sorted set, rank ranges and score ranges (both directions, any limit) return exactly the elements whose rank or score lies in the inclusive range, in the requested order, and counting a score range returns their number; empty, inverted and out-of-bounds ranges return nothing beyond the elements that exist. (Bounds that are NaN are left open.)',
  ['inputs','histories'],'every sorted set, every pair of bounds including infinities, and every limit',
  'Tests use ascending integer scores with bounds that coincide with elements.',
  ['datastruct/skiplist.go','datastruct/zset.go'],[('RangeByRank, RangeByScore, Count, GetFirst/LastInScoreRange','datastruct/skiplist.go')],None,['returned elements'])
p('Z03','Sorted-set range deletions remove exactly the requested elements',
  'Deleting a rank range or a score range removes and returns exactly the elements whose rank or score lies in the inclusive range, and every other element stays with its score, rank and order, whatever levels the elements have.',
  ['inputs','histories'],'every sorted set, every pair of bounds, every outcome of the level generator',
  'Tests delete a prefix and then everything, and check only the resulting size.',
  ['datastruct/skiplist.go','datastruct/zset.go'],[('DeleteRangeByRank/DeleteRangeByScore/deleteNode','datastruct/skiplist.go')],None,['remaining and returned elements'])
p('K01','An expired key behaves exactly like an absent key',
  'From the moment a key\'s expiry time has passed, every command (reads, writes, TTL, KEYS, set algebra, random selection) behaves as if the key did not exist, whether or not the server has already reclaimed it; a write to it starts a new value without expiry. Before that moment the key stays fully visible. (In the very millisecond of the expiry time both are allowed.)',
  ['inputs','histories','schedules'],'every command, every type, every instant, with and without background reclamation in between',
  'No test uses expiry.',
  ['server/command.go','server/commandkey.go','server/commandstring.go','server/commandhash.go','server/commandlist.go','server/commandset.go','server/commandzset.go'],[('expireIfNeeded before access','server/command.go and get*IfExist/get* helpers')],[('Expire dict','key -> deadline in ms','database/database.go')],['replies'])
p('K02','EXPIRE, EXPIREAT, SETEX and TTL keep exact deadlines on existing keys only',
  'EXPIRE k n and SETEX give key k the deadline now + n seconds and EXPIREAT the given instant, for every n that fits, and an n whose deadline does not fit a 64-bit millisecond clock is refused; EXPIRE and EXPIREAT on an absent key leave no trace for a key created later. TTL returns the whole seconds left, -1 for a key without and -2 for a key that does not exist. SET removes a deadline, other writes to the key keep it.',
  ['inputs','histories'],'every expiry argument over the full 64-bit range, every clock value',
  'No test uses expiry.',
  ['server/commandkey.go','server/commandstring.go'],[('expireCommand/expireAtCommand/setExCommand/ttlCommand','server/commandkey.go, server/commandstring.go')],None,['TTL replies','visibility of the key'])
p('K03','Background expiry removes only expired keys, and completely',
  'A background expiry cycle never removes or alters a key whose deadline has not passed or that has none, in any database, and a key it reclaims disappears together with its deadline. Whatever random samples it draws it terminates, and an expired key is eventually reclaimable: some draw reclaims it.',
  ['histories','schedules','inputs'],'every dataset with deadlines, every clock value and outcome of the random source',
  'No test runs the server cron.',
  ['server/server.go'],[('databasesCron random sampling','server/server.go')],None,['dataset before/after a cycle'])
p('A01','Replaying the append-only log reproduces the dataset',
  'With the append-only log enabled, after any history of commands on any connections and databases, starting a new server on the log yields the same dataset in every database: the same keys with the same values, and the same expiry deadlines (up to less than one second, the resolution of the log). This includes relative expiries, commands with random outcome, keys that expired and were written again, and further histories appended after a restart (a collection without elements counts as absent).',
  ['histories','inputs','schedules'],'every command history over several connections and databases, every clock progress and random outcome, with restarts in between',
  'No test enables the append-only log.',
  ['server/aof.go','server/command.go'],[('call() dirty detection and feedAppendOnlyFile translation','server/command.go, server/aof.go'),('loadAppendOnlyFile','server/aof.go'),('aofSelectDBID','server/server.go')],[('aofBuf','commands not yet written','server/server.go')],['dataset after restart'])
p('A02','Log records round-trip byte-exactly whatever their size and content',
  'Any command written to the append-only log is read back on load as the same command with byte-for-byte the same arguments, for any argument content (empty, CR/LF, binary) and any size, including arguments larger than or straddling the loader\'s read buffer.',
  ['inputs'],'every argument vector, every size and alignment relative to the read buffer',
  'No test encodes or loads a log.',
  ['server/aof.go'],[('catAppendOnlyGenericCommand','server/aof.go'),('loadAppendOnlyFile reader','server/aof.go')],None,['commands executed by the loader'])
p('A03','Log rewriting preserves the dataset, whatever commands run meanwhile',
  'A background rewrite of the append-only log, started in any state and finished at any later moment with any commands executed in between, produces a log that loads to exactly the dataset the running server has: all types, element order, scores, expiry deadlines to the second, all databases, collections larger than one rewrite record. Commands executed after the rewrite are logged correctly behind it, and a rewrite never changes the live dataset.',
  ['histories','schedules','inputs'],'every dataset, every history of commands between start and end of the rewrite and after it',
  'No test rewrites a log.',
  ['server/aof.go','database/database.go','datastruct/dict.go','server/server.go'],[('rewriteAppendOnlyFileBackground snapshot by DeepCopy','server/aof.go'),('rewrite*Object','server/aof.go'),('aofRewriteBuf appended in aofRewriteDoneCallback','server/aof.go')],[('aofRewriteBuf','commands executed during the rewrite','server/server.go')],['dataset after restart'])
p('A04','A log cut off at any byte loads to the commands completely contained in it',
  'If a crash leaves the append-only log truncated at an arbitrary byte, the server starts and its dataset is the result of exactly the commands that are completely contained in the log; commands logged after that restart are not lost at the next restart.',
  ['crash_points','inputs','histories'],'every log and every truncation point',
  'No test loads a log.',
  ['server/aof.go'],[('loadAppendOnlyFile end-of-file handling','server/aof.go')],None,['dataset after restart'])
p('A05','No reply leaves the server before the command is in the log',
  'With the append-only log enabled, at the moment any byte of the reply to a data-changing command is handed to the kernel, that command has already been written to the log file, and, with the always-fsync policy, the file has been synced after that write; this holds for every order in which the event loop reports readable and writable connections. If the command cannot be written to the log, its reply is not sent. With the everysec policy what is written is synced within about two seconds, but at most about once a second; the no policy never syncs the log in use.',
  ['schedules','histories','configurations'],'every order of readable/writable events over event-loop iterations, every fsync policy',
  'No test runs the server\'s event loop with the log enabled.',
  ['server/server.go','server/aof.go','ae/ae.go'],[('beforeSleep flush','server/server.go beforeSleepProc'),('flushAppendOnlyFile/aofFileSync','server/aof.go'),('sendReplayToClient','server/server.go')],None,['order of log write, fsync and socket write'])
p('A06','Automatic log rewriting starts exactly when the growth rule says so',
  'On each cron tick the server starts a background rewrite if and only if the feature is enabled (percentage > 0), no background task is running, the log is larger than the configured minimum size and it has grown by at least the configured percentage over its size after the last rewrite (before the first rewrite of the process, or when that size was zero, the size to compare with counts as one byte). At most one rewrite runs at a time, and completing one makes the next possible.',
  ['inputs','configurations','histories'],'every log size, base size, percentage and minimum size',
  'No test runs the server cron.',
  ['server/server.go','server/aof.go'],[('serverCron growth computation','server/server.go'),('backgroundTaskTypeAtomic','server/aof.go')],None,['whether a rewrite task is started'])
p('A07','A crash during log rewriting or restart loses no acknowledged command',
  'Whenever the process dies (between or in the middle of any two operations on files, also while a log rewrite starts, runs and is completed, or while a server started after a crash repairs its log), a server started afterwards has the effect of every command whose reply was sent, and of the one under way either all or nothing. With the always-fsync policy this holds too if the machine loses power and files keep only their synced bytes.',
  ['crash_points','histories','configurations'],'every crash point in every history of commands and rewrites',
  'No test rewrites a log or crashes.',
  ['server/aof.go'],[('aofRewriteDoneCallback replacing the log','server/aof.go'),('rewriteAppendOnlyFile','server/aof.go'),('loadAppendOnlyFile truncation','server/aof.go')],[('aofRewriteBuf','commands executed during the rewrite','server/server.go')],['dataset after restart'])
p('A08','Background log work at any moment neither ends the server nor harms the log',
  'The background tasks of the log (the everysec sync, the dump of a rewrite) may run at any moment between the file operations of the event loop: the server goes on, its dataset is unaffected, and a server started on the log later has the complete dataset.',
  ['schedules','histories','configurations'],'every moment at which a background task may run relative to commands, cron ticks and rewrite completion',
  'No test uses the log.',
  ['server/aof.go','server/server.go'],[('aofFileSync goroutine','server/aof.go'),('rewriteAppendOnlyFile goroutine','server/aof.go')],None,['liveness of the server','dataset after restart'])
p('E01','The kernel interest set always equals the registered handlers',
  'After any sequence of registrations and removals of readable and writable handlers on any descriptors (failed ones included), the events the event loop has asked the kernel to watch for each descriptor are exactly those with a registered handler. Registering an event twice and removing an unregistered one fail without effect, and handlers of different descriptors or directions never collide.',
  ['histories','inputs','fault_sequences'],'every sequence of registrations/removals over any descriptors, any of which the kernel may refuse',
  'The one event-loop test registers three handlers in one fixed order.',
  ['ae/ae.go'],[('AddFileEvent/RemoveFileEvent with getEpollEventMask','ae/ae.go')],[('fileEventMap','registered handlers','ae/ae.go')],['epoll_ctl arguments'])
p('E02','Ready events reach exactly their current handler',
  'In every iteration of the event loop, each handler invoked is the one currently registered for a descriptor and direction the kernel reported ready, it receives its own descriptor and client data, and each reported event with a registered handler is delivered. A handler that was removed (by another handler in the same iteration too, for instance because its connection was closed) is not invoked any more.',
  ['schedules','histories'],'every set of ready events and every removal/registration performed by handlers',
  'The one event-loop test has one connection and removes a handler only from within itself.',
  ['ae/ae.go','server/server.go'],[('wait() collection and processEvents()','ae/ae.go')],None,['handler invocations'])
p('E03','Timers never fire early, one-shot timers fire once, removed timers never',
  'A timer\'s handler runs only when its interval has passed since registration or since its previous run, in every iteration of the event loop in which it is due, however the clock advances; a one-shot timer runs exactly once, a periodic one is rescheduled, and a removed timer never runs again (also when removed by a handler in the same iteration). Timer ids are unique, and waiting for events never outlasts the next due timer by more than 10 ms.',
  ['schedules','histories','inputs'],'every set of timers, intervals, clock progress and add/remove sequence',
  'The one test waits for one one-shot and one periodic timer.',
  ['ae/ae.go'],[('AddTimeEvent/RemoveTimeEvent/wait/processEvents/getNearestTime','ae/ae.go')],None,['handler invocations','timeout given to epoll_wait'])
p('N01','The server binds exactly the configured address and port',
  'For every IPv4 address and port, binding (or connecting) uses exactly that address and port, and text that is not an IPv4 address (an IPv4-mapped IPv6 address counts as one) is refused with an error instead of binding some other address. If any step of creating the listening socket fails, the error is reported and the descriptor is closed.',
  ['inputs','configurations','fault_sequences'],'every dotted-quad address, every port, every failing step',
  'The one test binds 127.0.0.1 and connects to it, which also succeeds when all interfaces are bound.',
  ['socket/socket.go','server/tcp.go'],[('Bind/Connect address conversion','socket/socket.go'),('CreateTCPServer cleanup','server/tcp.go')],None,['sockaddr given to bind(2)/connect(2)'])
p('N02','Closing one connection leaves every other connection and descriptor intact',
  'Whatever a connection does (disconnects, resets, sends a malformed request, has a failing write), the server closes its descriptor exactly once, forgets it, and never reads from, writes to, closes or deregisters a descriptor that has since been given to another connection. Other connections keep their state and pending replies.',
  ['schedules','histories','fault_sequences'],'every sequence of connection events and failures, with descriptor reuse by the kernel',
  'No test closes a connection.',
  ['server/server.go','server/client.go','ae/ae.go'],[('Client.free','server/client.go'),('readQueryFromClient / sendReplayToClient / acceptTCPHandler','server/server.go')],[('clients map','live connections by descriptor','server/server.go')],['close(2)/read(2)/write(2) per descriptor'])
p('G01','Configuration values are exactly those in the file, also after it changes',
  'After the start every option of the configuration has exactly the value the file gives it (a size such as "64mb" in bytes) and one the file does not give is zero or empty; a file that is missing, cannot be parsed or holds a value of a wrong type ends the start. Loading again returns the same configuration. After the file has changed the same holds for the new content, whatever the old one was; if the new content is invalid, the configuration in use stays as it was in every option and the server goes on.',
  ['configurations','histories','inputs'],'every configuration file, every change of it to another valid or invalid one',
  'No test loads a configuration.',
  ['config/config.go'],[('LoadConfig via viper','config/config.go')])
p('G02','Shutdown does not lose acknowledged writes or corrupt the log',
  'Stopping the server by signal at any moment leaves a log that contains every command whose reply has been sent and no torn record, with the event loop, the rewrite task and the stopping goroutine running concurrently.',
  ['schedules','crash_points'],'every moment of the stop relative to the event loop and the rewrite task',
  'No test stops a server.',
  ['server/server.go','cmd/root.go'],[('Server.Stop','server/server.go')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))

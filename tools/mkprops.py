#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as one readable source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

S='cache/cachestring.go'; H='cache/cachehash.go'; U='cache/cacheutil.go'; D='cache/cachedb.go'

p('C01','Stored strings read back byte for byte',
 'After a storing command (Set, SetNX on an absent key, SetEX, PSetEX, GetSet, MSet, MSetNX on absent keys; HSet, HSetNX, HMSet for hash fields) accepts a string, every read of that key or field (Get, MGet, the old value returned by GetSet, StrLen as its length; HGet, HMGet, HStrLen) yields exactly those bytes until it is written again. This includes strings that merely look numeric, such as "007", "+5", "1.50", "1e3", "-0" or "inf".',
 ['inputs'],'every value string (symbolic bytes, every length up to the stated bound), every storing command and every reading command',
 'Tests store three fixed values ("test","1","1.11"); number-looking strings whose canonical form differs from their text are a thin set no sample hits.',
 [S,H],[('numeric normalisation on store','cache/cachestring.go:tryInt64'),('formatting on read','cache/cachestring.go:fmtString')],
 [('data table','key to stored value (string, integer, float or hash)','cache/cache.go:Cache')],['Cache.Get','Cache.MGet','Cache.HGet'])

p('C02','Append, SetRange, GetRange and StrLen act on the exact byte string',
 'On an absent key the value counts as the empty string. Append concatenates and returns the new byte length; SetRange overwrites from the given non-negative offset, padding any gap with zero bytes, and returns the new length (a negative offset is an error that changes nothing); GetRange(start,end) returns the bytes at positions start..end inclusive, negative positions counting from the end and positions outside the value ignored, for every pair of 64-bit positions and in time bounded by the value; StrLen returns the byte length.',
 ['inputs','histories'],'every stored value, argument string and 64-bit offset pair within the stated lengths, and sequences of edits',
 'Tests cover about ten fixed offset/value combinations on short ASCII; boundary offsets, extreme integers and values with numeric look are not reached.',
 [S],[('byte copy loops','cache/cachestring.go:SetRange, GetRange, Append')],(),['Cache.Append','Cache.SetRange','Cache.GetRange','Cache.StrLen'])

p('C03','Integer counters are exact',
 'Incr, IncrBy, Decr and DecrBy on an absent key start from 0; on a key holding the decimal text of a 64-bit integer they return the exact mathematical result and the following Get shows its decimal text. If the result would not fit in a signed 64-bit integer, or the value is not an integer, they return an error and the stored value is unchanged (DecrBy of -2^63, whose opposite is not a 64-bit integer, may be refused in every state).',
 ['inputs','histories'],'every signed 64-bit stored value and increment, every non-integer value, and sequences of counter commands',
 'Tests add a handful of small constants; overflow and the type paths need values no test picks.',
 [S],[('typed increment','cache/cachestring.go:incrBy')],(),['Cache.Incr','Cache.IncrBy','Cache.Decr','Cache.DecrBy','Cache.Get'])

p('C04','Float counters add to the stored number whatever command wrote it',
 'IncrByFloat(key, x) on an absent key stores x; on a key whose value is a decimal number (written by Set, an integer counter, or an earlier IncrByFloat) it returns the IEEE-754 double sum of that number and x, and that sum is what later reads and increments see. On any other value it returns an error and leaves the value unchanged.',
 ['inputs','histories'],'every double increment and every stored integer or double, every writer of the previous value',
 'Tests only chain IncrByFloat after IncrByFloat with five constants; mixed writers are untested.',
 [S],[('typed float increment','cache/cachestring.go:IncrByFloat')],(),['Cache.IncrByFloat','Cache.Get'])

p('C05','Conditional writes write only when the target is absent, all or nothing',
 'SetNX and HSetNX write and return 1 exactly when the key (field) is absent or expired, and otherwise return 0 and change nothing. MSetNX writes every given pair and returns the number of pairs when none of the keys is present, and otherwise writes nothing and returns 0.',
 ['inputs','histories'],'every subset of keys already present (string, hash, expired, absent) and every set of up to three pairs with arbitrary keys and values',
 'Tests try only the all-absent and all-present cases; the mixed and expired cases are unreached.',
 [S,H],[('load-or-store','cache/cachestring.go:SetNX, MSetNX'),('hash load-or-store','cache/cachehash.go:HSetNX')],(),['Cache.SetNX','Cache.MSetNX','Cache.HSetNX'])

p('C06','A time to live hides a key exactly after its deadline, for every command',
 'A key written with SetEX (seconds) or PSetEX (milliseconds) and a positive lifetime is visible to every command until that lifetime has elapsed and is treated as absent by every command afterwards, including the conditional writes, counters, Exists, Type, Del and hash commands, for every positive lifetime however large. A plain overwrite (Set, GetSet, MSet) or a delete discards the lifetime, while Append, SetRange and counters on a live key keep it; no lifetime ever applies to a later value of the key.',
 ['inputs','histories'],'every positive 64-bit lifetime, every clock reading relative to the deadline, every command before and after the deadline',
 'Tests sleep through one 1 s and one 100 ms expiry and then call only Get; the other commands, overwrites and large lifetimes never meet an expired entry.',
 [S,U,D,H],[('deadline check','cache/cacheutil.go:expired, expires, get')],[('expiry table','key to deadline','cache/cache.go:Cache')],['Cache.SetEX','Cache.PSetEX','every cache command'])

p('C07','The background expiry sweep removes expired keys and nothing else',
 'When the periodic cleaning started by Cron runs, keys whose lifetime has elapsed become absent and every other key keeps its value, type and remaining lifetime, however many keys of whatever kinds the cache holds; commands issued afterwards keep working.',
 ['inputs','histories','schedules'],'every mix of persistent, live and expired string and hash keys, every lifetime and clock reading at each tick',
 'The sweep is never started by any test.',
 ['cache/cachecron.go','cache/cache.go'],[('sweep loop','cache/cachecron.go:cronExpire')],[('expiry table','key to deadline','cache/cache.go:Cache')],['Cache.Cron','Cache.Get'])

p('C08','Keys are independent and Del, Flush, Exists and Type agree with reads',
 'A command naming one set of keys never changes the value, type or presence of any other key. Exists counts the present keys among its arguments, Type is "string", "hash" or "none" accordingly, Del returns 1 and removes a present key and returns 0 otherwise, Flush removes every key, and MGet reports for each position exactly what Get would; a removed key is absent for every command.',
 ['inputs','histories'],'every pair of distinct keys, every single command on one of them, every prior kind of value on both',
 'Tests use one shared key most of the time and never look at a second key after an operation, nor call Type or Flush.',
 [D,S,H],[('key lookup','cache/cachedb.go, cache/cacheutil.go:get')],(),['Cache.Exists','Cache.Type','Cache.Del','Cache.Flush','Cache.MGet'])

p('C09','Commands on a key of the wrong kind fail and change nothing',
 'A string read, edit or counter command on a hash key, and any hash command on a string key, returns a non-nil error (for MGet, an error in that position) and leaves the key with its previous contents, type and lifetime.',
 ['inputs','histories'],'every string command against a hash key and every hash command against a string key with arbitrary contents and arguments',
 'No test runs a command against a key of the other kind.',
 [S,H],[('type dispatch','cache/cachestring.go:fmtString, incrBy; cache/cachehash.go:getHashEntry')],(),['every string and hash command'])

p('C10','A hash behaves as a map from fields to strings',
 'After any sequence of HSet, HSetNX, HMSet and HDel, the hash commands report the resulting field map: HGet, HMGet, HExists, HStrLen per field (the nil error for a missing field or key), HLen the number of fields, HKeys, HVals and HGetAll exactly the fields, values and pairs. HSet and HSetNX return 1 for a new field and 0 otherwise, HMSet the number of new fields, HDel the number of fields removed; a read never changes the hash, and all of them work on an absent key (as an empty hash).',
 ['inputs','histories'],'every sequence of up to the stated number of hash writes with arbitrary fields (possibly equal) and values, followed by every read',
 'Tests do at most three writes on one field and never call HLen, HKeys, HVals, HGetAll, HMGet or HStrLen.',
 [H],[('field table and length counter','cache/cachehash.go:hashEntry')],[('length','cached number of fields','cache/cachehash.go:hashEntry')],['hash commands'])

p('C11','Hash counters accumulate',
 'HIncrBy and HIncrByFloat on an absent key or field start from 0, store the sum they return, and that sum is what later HGet and further increments see, whichever hash command wrote the previous number. A result outside the signed 64-bit range (HIncrBy) or a non-numeric field value gives an error and leaves the field unchanged.',
 ['inputs','histories'],'every integer or double field value and increment, every writer of the previous value',
 'HIncrBy and HIncrByFloat are never called by a test.',
 [H],[('typed field increment','cache/cachehash.go:HIncrBy, HIncrByFloat')],(),['Cache.HIncrBy','Cache.HIncrByFloat','Cache.HGet'])

p('C12','Concurrent string and key commands act as if executed one at a time',
 'When two clients issue string or key commands (including the multi-key MSet, MSetNX and MGet) on the same keys at the same time, the results they receive and the final contents equal those of executing the commands in one of the two orders; no increment, append or conditional write is lost, and no command blocks forever.',
 ['schedules','inputs'],'every pair of string/key commands on overlapping keys with symbolic arguments, every interleaving within the stated preemption bound',
 'The tests are single threaded; the only concurrency is in benchmarks that are not run.',
 [S,D,'cache/cache.go'],[('reader/writer lock','cache/cache.go:Cache.lock')],(),['Cache string and key commands'])

p('C13','Concurrent hash commands act as if executed one at a time',
 'When two clients issue hash commands on the same key at the same time (including a key that neither has created yet), the results they receive and the final field map and field count equal those of executing the commands in one of the two orders; no field, increment or count update is lost.',
 ['schedules','inputs'],'every pair of hash commands on the same key with symbolic fields, every interleaving within the stated preemption bound',
 'No test runs two hash commands concurrently.',
 [H],[('locking of hash commands','cache/cachehash.go')],[('length','cached number of fields','cache/cachehash.go:hashEntry')],['Cache hash commands'])

p('C14','Every string, hash and key command returns and leaves the cache usable',
 'For every argument and every prior state of the keys involved, each string, hash and key command returns without panicking, blocking or running for a time unrelated to its data, and afterwards any other command on the cache still completes.',
 ['inputs','histories'],'every ordered pair of commands with arbitrary arguments (including empty strings, empty lists and extreme integers) on absent, string, hash and expired keys',
 'Tests call each command with friendly arguments on keys of the right kind; hash listing commands on absent keys are never called.',
 [S,H,D,U],[('lock/unlock pairing','cache/*.go')],(),['every cache command'])

p('C15','Encoding then decoding a protocol message gives the same messages back',
 'For every message tree of simple strings and errors (without CR or LF), integers, bulk strings of any bytes and length, nil and nested arrays (up to some thousands deep, beyond which decoding may refuse), decoding its encoding yields an equal message of the same kind and consumes exactly its bytes, so that a sequence of messages is decoded one by one in order. This holds however the transport splits the byte stream into reads.',
 ['inputs','schedules'],'every message shape within the stated depth and size, every fragmentation of the stream within the stated bound, sequences of messages',
 'There is no test of the protocol layer.',
 ['redis/conn.go','redis/protocol.go'],[('serialise','redis/protocol.go:Serialize'),('decode','redis/conn.go:readMessage')],(),['Conn.Recv','Message.Serialize'])

p('C16','Malformed or truncated protocol input gives an error, never a wrong message',
 'Whatever bytes the peer sends, receiving returns a message or an error: it never panics or overflows the stack, never hangs on a finished stream, and never reserves memory out of proportion to a declared length that is negative or absurd. When the stream ends inside a message the result is an error, not a shortened or padded message.',
 ['inputs','fault_sequences'],'every byte sequence up to the stated length and every cut point of valid messages',
 'There is no test of the protocol layer, and malformed input is never produced by a healthy server.',
 ['redis/conn.go'],[('length and type checks','redis/conn.go:readMessage')],(),['Conn.Recv'])

p('C17','Snapshot transfer copies the announced bytes exactly or reports an error',
 'When the master announces a payload of n bytes, exactly those n bytes reach the destination writer, the reported length is n, and the bytes following the payload remain for the next read, however the stream is fragmented. If the stream ends early or the destination refuses or shortens a write, an error is returned.',
 ['inputs','fault_sequences'],'every payload content and size class (including beyond the buffer size), every fragmentation, every failing write position',
 'No test transfers a payload; write faults never occur in tests.',
 ['redis/conn.go','redis/replication.go'],[('payload copy','redis/conn.go:ReadWithWriter')],(),['Conn.ReadWithWriter'])

p('C18','Each client method sends the Redis command of its name with its arguments',
 'Each method of the Redis client puts on the wire exactly one request: a Redis array of bulk strings with the command of that name (SET, SETNX, SETEX, PSETEX, GET, GETSET, STRLEN, APPEND, SETRANGE, GETRANGE, INCR, INCRBY, INCRBYFLOAT, DECR, DECRBY, MSET, MSETNX, MGET, SELECT; letter case free) followed by its arguments in the order the Redis protocol prescribes, byte for byte (SETEX and PSETEX take key, lifetime, value).',
 ['inputs'],'every method with arbitrary argument bytes, integers and key sets within the stated sizes',
 'Tests need a live server and only call Get; nothing inspects the bytes sent.',
 ['redis/redis.go','redis/command.go','redis/protocol.go'],[('request construction','redis/redis.go')],(),['bytes written to the connection'])

p('C19','Client results reflect the server reply',
 'An error reply surfaces as a non-nil error carrying its text; a nil reply as a non-nil error for single-value commands and as an error in its position for MGET; otherwise a status reply OK gives "OK" with no error, an integer reply its number, a bulk reply its bytes, a number-valued bulk reply its float value, an array reply its elements in order. A reply of a kind the command cannot have is an error, never a silent zero value.',
 ['inputs'],'every method against every kind of reply with arbitrary contents',
 'Tests need a live server; error, nil and unexpected replies never occur.',
 ['redis/command.go','redis/conn.go','redis/redis.go'],[('reply parsing','redis/command.go:Parse'),('dispatch on reply kind','redis/conn.go:ExecCommand')],(),['client method results'])

p('C20','The pool never exceeds its capacity and never shares a connection',
 'At every moment at most the configured number of connections is open, each is used by at most one command at a time, every command receives the reply to its own request, and a command waiting for a connection proceeds once one is returned (or fails when its context ends).',
 ['schedules','inputs'],'every interleaving within the stated preemption bound of two or three commands over pools of capacity one and two',
 'No test issues two commands, let alone concurrently.',
 ['redis/pool.go'],[('size accounting and idle channel','redis/pool.go:Get, Put')],[('size','open connections','redis/pool.go:Pool')],['Pool.Get','Pool.Put','Pool.ExecCommand'])

p('C21','A failed dial, handshake or exchange does not poison the pool',
 'If connecting fails, or the exchange of a command fails part way, that command reports an error and later commands still work as soon as the server does: nothing stays locked, capacity is not lost, and no later command is given a connection that has failed or receives a reply that belongs to an earlier command.',
 ['fault_sequences','histories'],'every position of one or two faults (dial refused, handshake rejected, stream cut or malformed at any reply byte) in a short sequence of commands',
 'Tests never see a server, so at most one failing dial is exercised and its consequences are not checked.',
 ['redis/pool.go','redis/conn.go'],[('pool lock and size on error paths','redis/pool.go:Get'),('returning connections','redis/pool.go:Put')],(),['client method results after a fault'])

p('C22','Every pooled connection is authenticated and on its database before use',
 'When the client is configured with a password or a database number, every new connection first sends AUTH with that password and then SELECT with that database, before any command; if either is refused, the command gets an error and is not sent on that connection. With neither configured no handshake is sent.',
 ['inputs','configurations','fault_sequences'],'every password, database number and handshake reply, for the first and for later connections of the pool',
 'Tests never configure a password or a database and have no server.',
 ['redis/redis.go','redis/pool.go'],[('open handlers','redis/redis.go:NewClient; redis/pool.go:create')],(),['bytes written to the connection'])

p('C23','Snapshot lengths decode to the value Redis encoded',
 'Reading a length yields the encoded number for each of the formats Redis writes: 6-bit, 14-bit, 32-bit and 64-bit big-endian, and the special-encoding flag with its 6-bit code; exactly the bytes of the encoding are consumed. An unknown format byte or a stream ending inside the encoding gives an error.',
 ['inputs'],'every first byte and every following byte (all 2^64 values of the longest form) and every truncation',
 'The snapshot package has no tests.',
 ['redis/rdb/rdb.go'],[('length decoding','redis/rdb/rdb.go:LoadLen')],(),['rdb.LoadLen'])

p('C24','Snapshot strings decode to the original bytes',
 'Reading a string yields exactly the bytes Redis saved, whether stored raw (any length), as an 8, 16 or 32-bit signed integer, or LZF-compressed, and consumes exactly its encoding, also when the underlying file is delivered in pieces. A stream ending inside the string gives an error.',
 ['inputs','fault_sequences'],'every content, every integer value, every length class including lengths beyond the read buffer, every truncation',
 'The snapshot package has no tests.',
 ['redis/rdb/rdb.go','redis/lzf/lzf.go'],[('string decoding','redis/rdb/rdb.go:LoadString')],(),['rdb.LoadString'])

p('C25','Snapshot scores decode to the exact double',
 'A binary score decodes to the double whose little-endian IEEE-754 bytes are stored; a text score decodes to the double its decimal text denotes; the three special markers decode to not-a-number, positive infinity and negative infinity. Exactly the encoding is consumed and truncation is an error.',
 ['inputs'],'every 64-bit pattern for the binary form, every marker byte and text within the stated length for the text form, every truncation',
 'The snapshot package has no tests.',
 ['redis/rdb/rdb.go'],[('score decoding','redis/rdb/rdb.go:LoadDouble, LoadBinaryDouble')],(),['rdb.LoadDouble','rdb.LoadBinaryDouble'])

p('C26','Integer sets decode to the signed members Redis stored',
 'Decoding an integer-set blob yields its members in order with their sign, for each member width (16, 32 and 64 bits) and any number of members.',
 ['inputs'],'every member value at every width, every member count up to the stated bound',
 'The package has no tests.',
 ['redis/intset/intset.go'],[('member decoding','redis/intset/intset.go:Load')],(),['intset.Load'])

p('C27','Ziplists decode to the entries Redis stored',
 'Decoding a ziplist blob yields every entry in order: string entries byte for byte for all three string-length formats, integer entries (4-bit immediate, 8, 16, 24, 32 and 64-bit, signed) as their decimal text, whatever the sizes of the previous-entry fields.',
 ['inputs'],'every sequence of up to the stated number of entries over all encodings with arbitrary contents, including the length boundaries of each format',
 'The package has no tests.',
 ['redis/ziplist/ziplist.go'],[('entry decoding','redis/ziplist/ziplist.go:Next, entry, prevLength')],(),['ziplist.Load'])

p('C28','Zipmaps decode to the fields and values Redis stored',
 'Decoding a zipmap blob yields exactly its field/value pairs for any number of pairs, any field and value bytes and lengths (one-byte and five-byte length forms), and any amount of free space after a value.',
 ['inputs'],'every sequence of up to the stated number of pairs with arbitrary contents, lengths on both sides of the length-form boundary, free space 0..n',
 'The only test adds one pair to a builder and prints it; decoding is never called.',
 ['redis/zipmap/zipmap.go'],[('pair decoding','redis/zipmap/zipmap.go:Load')],(),['zipmap.Load'])

p('C29','A zipmap under construction finds exactly the keys that were set',
 'After setting any sequence of keys and values in a zipmap, looking up a key succeeds exactly if it was set, and setting never fails or panics, for any key and value bytes and lengths, including empty ones and ones needing the long length form.',
 ['inputs','histories'],'every sequence of up to the stated number of Set calls with arbitrary keys and values',
 'The only test sets one pair and prints the result.',
 ['redis/zipmap/zipmap.go'],[('append and scan','redis/zipmap/zipmap.go:Set, Lookup')],(),['zipMap.Set','zipMap.Lookup'])

p('C30','Decompressing what was compressed gives the original bytes',
 'For every input string, including the empty and the incompressible ones, decompressing the compressor output with the original length returns the original string, and neither operation reads or writes outside its buffers, whatever the (uninitialised) working table contains. Decompressing a well-formed LZF stream yields the bytes the format denotes.',
 ['inputs'],'every input up to the stated length; every well-formed stream up to the stated size',
 'The tests compress one fixed 10-byte string and only log the result.',
 ['redis/lzf/lzf.go','redis/lzf/lzf_c.c','redis/lzf/lzf_d.c'],[('codec','redis/lzf/lzf_c.c:lzf_compress; redis/lzf/lzf_d.c:lzf_decompress'),('buffer sizing','redis/lzf/lzf.go')],(),['lzf.Compress','lzf.DeCompress'])

p('C31','Loading a snapshot emits the commands that recreate its data set',
 'For a well-formed snapshot, loading emits, in file order and tagged with the database each key belongs to, exactly one Redis command per (non-empty) key that recreates it: SET key value; RPUSH key followed by the elements head to tail; SADD key members; ZADD key then score and member for each element; HMSET key then field and value for each pair; for plain, ziplist, quicklist, intset and zipmap encodings alike. A key with an expiry is followed by PEXPIREAT with that key and its absolute millisecond timestamp (whether the file stores seconds or milliseconds) and no other key is; replication id and offset fields are taken over, and other auxiliary records change nothing.',
 ['inputs'],'every short sequence of snapshot records over all supported types, encodings, databases and expiries with symbolic contents',
 'No test loads a snapshot.',
 ['redis/replication.go','redis/rdb/rdb.go','redis/ziplist/ziplist.go','redis/zipmap/zipmap.go','redis/intset/intset.go'],[('record dispatch','redis/replication.go:Load')],[('current database and pending expiry','decoder state','redis/replication.go:Load')],['Replication.Messages'])

p('C32','A damaged, truncated or unsupported snapshot is reported as an error',
 'Loading any file terminates without panicking, exiting the process or exhausting memory. It returns nil only if it reached the end-of-file record having understood every record before it; a truncated file, an unknown or unsupported record type, or a malformed encoding yields a non-nil error.',
 ['inputs','crash_points','fault_sequences'],'every truncation point of well-formed snapshots and every corruption of the stated number of bytes, and arbitrary short bodies',
 'No test loads a snapshot, let alone a damaged one.',
 ['redis/replication.go','redis/rdb/rdb.go','redis/ziplist/ziplist.go','redis/zipmap/zipmap.go','redis/intset/intset.go','redis/lzf/lzf.go'],[('error propagation','redis/replication.go:Load')],(),['Replication.Load result'])

p('C33','Replicated commands are applied faithfully or rejected without effect',
 'Applying a replicated SET key value (in any letter case) makes the key hold that value, and HMSET key f v ... makes the hash hold those pairs; nothing else changes. Every other message, whatever its kind, command or number of arguments, is answered with an error, leaves the cache unchanged and never panics.',
 ['inputs'],'every message tree within the stated shape: kinds, command words, argument counts and contents',
 'The only test of message handling is commented out.',
 ['cache/message.go'],[('command dispatch','cache/message.go:HandleMessage')],(),['HandleMessage','Cache reads'])

p('C34','Replicated commands keep the database they were issued in',
 'Each command received on the replication link is delivered, in order and unmodified, tagged with the database named by the last SELECT on that link (initially 0), and the client applies only those of its own database. SELECT and keep-alive PING are not delivered as data and PING does not disturb the stream.',
 ['inputs','histories'],'every sequence of up to the stated number of stream commands (SELECT n, SET, PING and others) with symbolic arguments',
 'No test runs the replication link.',
 ['redis/replication.go','xxcache.go'],[('stream loop','redis/replication.go:WaitForMessage'),('database filter','xxcache.go:handleReplication')],[('current database','database selected on the link','redis/replication.go:Replication')],['Replication.Messages'])

p('C35','An error on the replication path never stalls or crashes the client',
 'Whatever sequence of commands the cache cannot apply arrives from the master, later applicable commands are still applied; when the link breaks, the client does not panic, deadlock or spin, and reads from the cache continue to be answered.',
 ['schedules','fault_sequences','histories'],'every sequence of up to the stated number of applicable and unsupported commands followed by link loss, every scheduling of the delivery and error paths within the bound',
 'No test runs the replication path without a live server.',
 ['xxcache.go','redis/replication.go','cache/message.go'],[('consumer loop','xxcache.go:handleReplication'),('error channel','redis/replication.go:Replication.Err')],(),['Client.Get','process liveness'])

p('C36','Client reads prefer the local cache and fall back to the master',
 'Client.Get returns the locally cached value when the key is cached locally, without asking the master; when the key is not cached it asks the master and returns the value or error of the reply. Client.Set sends SET to the master and returns its outcome; a SET that failed does not change what Get answers.',
 ['inputs'],'every key and value within the bound, cached and not cached, every kind of master reply',
 'The root tests need a live server and are not run.',
 ['command.go','xxcache.go','redis/redis.go'],[('read path','command.go:Get')],(),['Client.Get','Client.Set'])

p('C37','A new client serves what the master snapshot contains',
 'New checks the master with PING, requests a full synchronisation, and returns a client on which every string key of database 0 in the received snapshot, and every SET replicated afterwards, is readable with its value once applied; newlines the master sends ahead of the payload are skipped. If the master is unreachable, answers PING wrongly, or the snapshot is cut short or damaged, New returns an error and does not panic.',
 ['inputs','fault_sequences'],'every snapshot of up to the stated number of keys with symbolic contents, every subsequent SET, every failing start-up step',
 'The root tests need a live server and are not run.',
 ['xxcache.go','redis/replication.go','cache/message.go'],[('start-up sequence','xxcache.go:New; redis/replication.go:SyncWithRedis, Load')],(),['New','Client.Get'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')

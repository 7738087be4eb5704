#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Request decoding is exact and binary-safe",
  "Whatever list of arguments a client sends as a RESP array of bulk strings (any number of arguments, any bytes in them including CR, LF, NUL and empty strings), decoding yields exactly those arguments in that order and consumes exactly that request's bytes, so that the next request in the same stream decodes correctly too. The result does not depend on how the transport splits the bytes into reads.",
  ["inputs", "schedules"], "all argument lists; all ways a reader may return the encoded bytes in pieces",
  "The decode test feeds four fixed messages from a complete in-memory buffer; contents, lengths with more digits, back-to-back requests and short reads are never varied.",
  ["protocol/decode.go", "protocol/api.go"],
  [("length-prefixed read of bulk strings", "protocol/decode.go: DecodeFromReader, readArray, readBulkStrings")],
  ["elements of the decoded request", "bytes left in the reader"])
p("C02", "Malformed request bytes are rejected, never crash or invent data",
  "For every byte sequence a peer may send, decoding terminates with either a request or an error: it never panics, never loops forever, never reserves memory out of proportion to what the protocol allows, and never yields argument bytes that the peer did not send. A request that is cut short yields an error, not a padded request.",
  ["inputs", "fault_sequences"], "all byte sequences and all truncation points of valid requests",
  "No test sends a malformed or truncated request.",
  ["protocol/decode.go"],
  [("header parsing and length validation", "protocol/decode.go: decodeSingleLine, readBulkOrArrayLength, readBulkStrings, readArray")],
  ["return values of decoding", "process liveness"])
p("C03", "Replies are encoded as exactly the RESP value they stand for",
  "Encoding a reply and parsing it by the RESP rules gives back the same value: the same kind (status, error, integer, bulk, nil, array), the same integer over the whole 64-bit range, the same bulk bytes whatever they are, and for arrays the same number and order of elements including nil elements. The encoding is exactly one RESP value with nothing before or after it.",
  ["inputs"], "all reply values of every kind, array sizes and payload bytes",
  "No test looks at an encoded reply at all.",
  ["protocol/encode.go", "util/strings.go"],
  [("Response.Encode", "protocol/encode.go: Encode, encode")],
  ["encoded reply bytes"])
p("C04", "Every command gets exactly one well-formed reply and never kills the server",
  "For every command name in any letter case, every number of arguments and every argument value, whatever kind of value (or none) the addressed keys hold, the server answers with exactly one well-formed RESP reply and stays alive. A command name that is not supported gets an error reply.",
  ["inputs", "histories"], "all command names, argument counts and argument values, in every kind of keyspace state",
  "The end-to-end test sends three fixed messages and ignores the answers; no test calls a command handler. A panic in a command runs in a goroutine nobody recovers, so one bad argument ends the process.",
  ["redis/command.go", "redis/keys.go", "redis/string.go", "redis/list.go", "redis/set.go", "redis/hash_table.go", "redis/sorted_set.go", "event/handler.go", "protocol/encode.go"],
  [("command table and dispatch", "redis/command.go: ExecuteAsync"), ("argument-count checks", "redis/*.go")],
  ["reply bytes of a request", "process liveness"])
p("C05", "A command that reports an error changes nothing",
  "If a command is answered with an error (wrong number of arguments, an argument that is not a number, an overflow, or a key of the wrong kind), then every key and every stored value is exactly as it was before the command.",
  ["inputs", "histories"], "all failing commands and arguments, over all kinds of keyspace state",
  "Command-level error paths are not tested; multi-step commands (moving between sets, multi-field or multi-member writes) can fail half way.",
  ["redis/string.go", "redis/list.go", "redis/set.go", "redis/hash_table.go", "redis/sorted_set.go", "datastruct/set.go", "datastruct/hash_table.go", "datastruct/sorted_set.go", "datastruct/string.go"],
  [("validation before mutation", "redis/*.go, datastruct/*.go")],
  ["replies of read commands before and after"])
p("C06", "A key holds one kind of value and other kinds' commands are refused",
  "A command for one kind of value (string, list, set, hash, sorted set) addressed to an existing key of another kind is answered with an error (MGET: with nil for that key) and never reads or alters that value as if it were its own kind. Only commands documented to overwrite (SET, MSET, and the destination of the set-store commands) may change what kind a key holds.",
  ["inputs", "histories"], "all pairs of command and kind of the addressed key, all arguments",
  "No test addresses a key with a command of another kind.",
  ["datastruct/keys.go", "datastruct/string.go", "datastruct/list.go", "datastruct/set.go", "datastruct/hash_table.go", "datastruct/sorted_set.go"],
  [("kind check on load", "datastruct/keys.go: loadKeyInfo")],
  ["reply bytes", "TYPE of the key afterwards"])
p("C07", "String keys return exactly the bytes last written",
  "GET and MGET return, for each key, exactly the bytes of the latest SET, MSET or APPEND history of that key (APPEND concatenates and reports the resulting length, creating the key if needed), and nil for a key that does not exist; MGET answers positionally with one element per requested key and MSET with an odd number of arguments is refused.",
  ["inputs", "histories"], "all histories of string commands, all key and value bytes",
  "No test exercises the string commands.",
  ["redis/string.go", "datastruct/string.go"],
  [("string storage", "datastruct/string.go: Set, MSet, Append, Get, MGet")],
  ["replies of GET and MGET"])
p("C08", "Counters are exact 64-bit integers that never wrap",
  "INCR, DECR, INCRBY and DECRBY change the stored number by exactly the requested amount and reply with the new number, treating a missing key as 0; the decimal text of that number is what GET returns. If the result would not fit in a signed 64-bit integer, or the stored text or the amount is not a decimal integer, the reply is an error and the stored value is unchanged.",
  ["inputs", "histories"], "all 64-bit stored values and increments, all texts",
  "No test exercises the counter commands; overflow happens only for values near the ends of the range.",
  ["redis/string.go", "datastruct/string.go"],
  [("integer parse, add, format", "datastruct/string.go: IncrBy; redis/string.go: incrBy, decrBy")],
  ["replies of the counter commands", "GET"])
p("C09", "List pushes and pops behave as a double-ended queue",
  "Under any history of LPUSH, RPUSH, LPOP and RPOP (with and without counts), the list holds exactly the pushed and not yet popped values in deque order: pushes report the new length, pops return the right values from the right end in pop order, LLEN reports the number of elements, and LRANGE 0 -1 returns them all from head to tail.",
  ["inputs", "histories"], "all histories of push and pop commands, all values and counts",
  "Two tests pop four fixed values from one end; mixed histories, counts and emptying and refilling are not tested.",
  ["datastruct/list.go", "redis/list.go"],
  [("linked list ends and length", "datastruct/list.go: LPush, LPop, RPush, RPop")],
  ["replies of LLEN, LRANGE, LPOP, RPOP"],
  [dict(name="length, head, tail", meaning="element count and the ends of the doubly linked list", where="datastruct/list.go: List")])
p("C10", "List positions address the right element",
  "For every list and every pair of integers, LINDEX returns the element at that position (negative positions count from the tail, positions outside give nil), LRANGE returns exactly the elements between the two positions inclusive after clamping to the list, and LSET replaces exactly the element at that position, answering an error when the position is outside the list.",
  ["inputs", "histories"], "all lists, all 64-bit positions",
  "A few fixed indexes on lists of four to six elements are tested below the command level; the command layer of LINDEX is not reached at all.",
  ["datastruct/list.go", "redis/list.go"],
  [("index normalisation and bidirectional walk", "datastruct/list.go: LRange, lIndexNode, LSet")],
  ["replies of LINDEX and LRANGE"])
p("C11", "List insertion and removal by value edit exactly the intended elements",
  "LINSERT places the new element immediately before or after the first element equal to the pivot and reports the new length; LREM removes exactly the first N (count N > 0), last N (count -N) or all (count 0) elements equal to the value and reports how many it removed. All other elements keep their order, and afterwards the list works from both ends and by position as a list of the remaining elements.",
  ["inputs", "histories"], "all lists, pivots, values and counts, followed by any list command",
  "Removal is checked only by one forward walk over fixed lists directly after the call; use of the list afterwards from either end is not.",
  ["datastruct/list.go", "redis/list.go"],
  [("unlinking nodes and repairing the ends", "datastruct/list.go: LRemCountFromHead, LRemCountFromTail, LInsert")],
  ["replies of LINSERT, LREM, LRANGE, LPOP, RPOP, LINDEX, LLEN"])
p("C12", "Sets contain exactly the members added and not removed",
  "Under any history of SADD, SREM, SPOP and SMOVE, SISMEMBER and SMEMBERS report exactly the members added and not since removed, each once, SCARD reports their number, and SADD, SREM report how many members were really added or removed. SPOP removes and returns the requested number (default one, at most all) of distinct current members, and SMOVE takes the member out of the source and makes it a member of the destination.",
  ["inputs", "histories"], "all histories of set commands, all members",
  "The set tests are commented out.",
  ["datastruct/set.go", "redis/set.go", "lib/shard_map/shard_map.go"],
  [("membership map and separate length counter", "datastruct/set.go: sAdd, sRem, sPop, SMove")],
  ["replies of SISMEMBER, SMEMBERS, SCARD"])
p("C13", "Set algebra is exact and its stored results are independent",
  "SDIFF, SINTER and SUNION over any number of keys return exactly the difference, intersection and union of those sets in argument order, a missing key counting as the empty set; the STORE forms replace the destination with that result and report its size. The sources are unchanged (unless one is the destination), and later changes to a source or to the destination do not affect the other.",
  ["inputs", "histories"], "all families of sets, all orders and repetitions of keys, including the destination among the sources and later changes",
  "No set-algebra command is tested.",
  ["datastruct/set.go", "redis/set.go"],
  [("folding pairwise set operations", "datastruct/set.go: SDiff, SInter, SUnion and their Store forms")],
  ["replies of the set-algebra commands and SMEMBERS"])
p("C14", "Hash fields return exactly the value last written",
  "After any history of HSET, HMSET, HSETNX and HDEL, HGET, HMGET, HGETALL, HKEYS and HVALS return for each field exactly the bytes last written to it (HSETNX writes only absent fields), nil or nothing for absent fields; HEXISTS tells presence, HLEN the number of fields, and HDEL reports how many fields it removed.",
  ["inputs", "histories"], "all histories of hash commands, all fields and values including text that looks like a number",
  "Only the in-memory table's set and increment are tested, on one field; whether a hash command stores anything under its key is not.",
  ["datastruct/hash_table.go", "redis/hash_table.go", "util/strconv.go"],
  [("field table, numeric conversion and length counter", "datastruct/hash_table.go; util/strconv.go: ConvertToValidValue")],
  ["replies of the hash commands"])
p("C15", "Hash field increments are exact and persistent",
  "HINCRBY adds exactly the given integer to a field that holds an integer (an absent key or field counts as 0), replies with the new value and stores it so that HGET returns it; HINCRBYFLOAT does the same for fields holding floating-point numbers. Adding to a field that is not such a number, or an integer result that does not fit in 64 bits, is an error that leaves the field unchanged.",
  ["inputs", "histories"], "all stored values and increments over the full 64-bit range",
  "The table-level tests use small fixed numbers and do not go through a key.",
  ["datastruct/hash_table.go", "redis/hash_table.go", "lib/shard_map/shard_map.go"],
  [("upsert with abort", "datastruct/hash_table.go: incrBy, incrByFloat; lib/shard_map/shard_map.go: Upsert")],
  ["replies of HINCRBY, HINCRBYFLOAT, HGET, HLEN"])
p("C16", "Sorted sets keep one score per member in (score, member) order",
  "After any history of ZADD (with NX, XX, INCR), ZINCR and ZREM, every member has exactly one score, the one last given or accumulated, as ZSCORE reports; ZCARD is the number of members, ZRANK of a member is its position (from 0) in ascending (score, member) order, ZINCR replies with the new score, and ZRANGE over everything lists each member once in that order. This holds for every internal random choice.",
  ["inputs", "histories", "schedules"], "all histories and scores, ties included, and all outcomes of the random level generator",
  "One fixed set of six members is built and queried; deletion is never tested, re-scoring once, and level patterns depend on luck.",
  ["datastruct/sorted_set.go", "redis/sorted_set.go"],
  [("skip list with spans plus member dictionary", "datastruct/sorted_set.go: insert, updateScore, delete, deleteNode, rank, zAdd")],
  ["replies of ZSCORE, ZRANK, ZCARD, ZRANGE"],
  [dict(name="levels, spans, backward links, dictionary", meaning="the two views of the sorted set that must agree", where="datastruct/sorted_set.go: zSkipList, zSet")])
p("C17", "Sorted-set ranges by position return the right slice in order",
  "For all integers start and stop, ZRANGE returns exactly the members at those positions (negative from the end, clamped to the set) in ascending order, and ZREVRANGE those at the positions counted from the highest score in descending order; WITHSCORES adds each member's own score after it and changes nothing else.",
  ["inputs", "histories"], "all sorted sets, all 64-bit positions, with and without scores",
  "Six fixed position pairs are tested for the ascending form on one set; the descending form not at all.",
  ["datastruct/sorted_set.go", "redis/sorted_set.go"],
  [("rank search over spans", "datastruct/sorted_set.go: zRange, zRevRange, findElementByRank")],
  ["replies of ZRANGE and ZREVRANGE"])
p("C18", "Sorted-set queries by score select exactly the scores in the interval",
  "For every interval with open or closed, finite or infinite ends, ZCOUNT counts and ZRANGEBYSCORE (and ZRANGE BYSCORE) lists, in ascending order, exactly the members whose score lies in the interval, and nothing when the interval is empty, reversed or outside all scores. A bound that is not a number is an error (of a key that exists).",
  ["inputs", "histories"], "all sorted sets with ties and gaps, all interval ends and openness combinations, all skip-list shapes",
  "Fifteen fixed intervals on one set without ties are tested; bounds between, below and above all scores are mostly not.",
  ["datastruct/sorted_set.go", "redis/sorted_set.go"],
  [("rank of the interval ends", "datastruct/sorted_set.go: minScoreRank, maxScoreRank, count, zRangeByScore, handleFloatScoreStr")],
  ["replies of ZCOUNT and ZRANGEBYSCORE"])
p("C19", "Sorted-set pops and removals take members out completely",
  "ZPOPMIN and ZPOPMAX return the requested number (default one, at most all) of lowest or highest members with their scores, in pop order, and remove exactly those; ZREM removes exactly the named members and reports how many existed. A removed member has no score and no rank, appears in no range or count, and can be added again as a new member.",
  ["inputs", "histories", "schedules"], "all sorted sets, counts and following commands, and all outcomes of the random level generator",
  "No test removes anything from a sorted set.",
  ["datastruct/sorted_set.go", "redis/sorted_set.go"],
  [("removal from the list and from the dictionary", "datastruct/sorted_set.go: ZPopMin, ZPopMax, ZRem, delete, deleteNode")],
  ["replies of ZPOPMIN, ZPOPMAX, ZREM, ZSCORE, ZCARD, ZRANGE"])
p("C20", "Keys are independent, and EXISTS, TYPE and DEL tell the truth",
  "EXISTS answers 1 exactly for keys that hold a value, TYPE names the kind of that value consistently (none for a missing key), and DEL removes the key entirely, reporting whether it existed, so that it can be reused with any kind. A command never changes the value, kind or existence of a key it does not name.",
  ["inputs", "histories"], "all histories over several keys, all key bytes, including keys that fall into the same internal bucket",
  "No key command is tested.",
  ["datastruct/keys.go", "redis/keys.go", "lib/shard_map/shard_map.go"],
  [("sharded keyspace map", "datastruct/keys.go; lib/shard_map/shard_map.go")],
  ["replies of EXISTS, TYPE, DEL and the read commands"])
p("C21", "KEYS returns exactly the keys that match the pattern",
  "KEYS with a glob pattern returns exactly the existing keys that match it, each once: literal text matches itself, * matches any text, ? matches one character and [...] one listed character. No pattern, however malformed, brings the server down.",
  ["inputs", "histories"], "all sets of keys and all patterns",
  "KEYS is not tested.",
  ["datastruct/keys.go", "redis/keys.go"],
  [("glob compilation and full scan", "datastruct/keys.go: Keys")],
  ["reply of KEYS"])
p("C22", "Concurrent commands are atomic and each request gets its own reply",
  "However requests from concurrent connections interleave, each is executed exactly once as if alone (all commands take effect in some single order, without overlapping access to the data), and each requester receives exactly the reply to its own request.",
  ["schedules", "inputs"], "all interleavings of concurrent requests at every synchronisation point",
  "No test sends two requests at the same time.",
  ["event/event_pool.go", "event/worker.go", "event/handler.go", "event/event.go", "redis/command.go"],
  [("single worker draining one channel of events", "event/event_pool.go: NewEventPool; event/worker.go: run"), ("per-event completion channel", "event/event.go; event/handler.go: HandleRequest")],
  ["replies of concurrent requests", "final keyspace state"])
p("C23", "Graceful shutdown completes accepted requests and terminates",
  "When the server is stopped, the stop call returns, no part of the server crashes, and every request handed over before the stop is still executed and answered; a request that arrives after the stop does not crash or block the server.",
  ["schedules"], "all interleavings of a stop with requests in every stage of processing",
  "The end-to-end test stops an idle server.",
  ["event/event_pool.go", "event/worker.go", "event/handler.go", "server/v2/server.go"],
  [("closing the event channel and draining the worker", "event/event_pool.go: Stop; event/worker.go: run, stop")],
  ["return of the stop call", "replies of in-flight requests"])
p("C24", "A connection's pipelined requests are each answered, in order",
  "However the requests of a connection are divided over network reads (several complete requests in one read, one request spread over several reads), every complete request is executed and answered, and the replies are written to that connection in request order; other connections get none of them. The server works on its own copy of the received bytes, so reuse of the network buffer cannot alter a request that is being processed.",
  ["inputs", "schedules"], "all request sequences, all divisions into reads, and all timings of buffer reuse",
  "The end-to-end test sends one request per connection and ignores the answer.",
  ["server/v2/server.go", "protocol/decode.go"],
  [("per-read handler", "server/v2/server.go: React"), ("one serving goroutine per connection", "server/v2/server.go: serve"), ("bytes handed over between them", "server/v2/stream.go")],
  ["bytes written to the connection"])
p("C25", "The sharded map is one consistent map",
  "Under any history of its operations the sharded map behaves as a single map from string keys to values: lookups, presence, conditional insert, upsert, delete and load-and-delete agree with that map and report truthfully whether the key was present. Iteration, key listing and copying visit every entry exactly once wherever it is stored, and deletion while iterating removes exactly the chosen entries and stops when told to.",
  ["inputs", "histories"], "all operation histories, all key bytes (hence all buckets)",
  "The package has no tests.",
  ["lib/shard_map/shard_map.go"],
  [("hash-selected bucket per key", "lib/shard_map/shard_map.go: GetShard, fnv32")],
  ["return values of the map operations"])
p("C26", "A collection that becomes empty ceases to exist",
  "When the last element of a list, set, hash or sorted set is removed by any command, the key no longer exists: EXISTS answers 0, TYPE answers none, KEYS does not list it, reads see an empty collection, and the key can be reused with a command of any other kind. Storing an empty set-algebra result likewise leaves no destination key.",
  ["histories", "inputs"], "all histories that empty a collection, for every removing command",
  "No test looks at the keyspace after a collection is emptied.",
  ["datastruct/list.go", "datastruct/set.go", "datastruct/hash_table.go", "datastruct/sorted_set.go", "datastruct/keys.go"],
  [("removal commands", "datastruct/*.go")],
  ["replies of EXISTS, TYPE, KEYS and of commands of another kind on the emptied key"])
p("C27", "The command table is generated faithfully from the command functions",
  "Running the command generator over the command sources registers every command function exactly once under the lower-case name given in its comment (or its own name), so the registered table and the implemented commands agree.",
  ["programs"], "all command source files",
  "The generator's only test matches one line against the regular expression.",
  ["cmd/gen_redis_cmd/main.go", "redis/string.cmd.go", "redis/list.cmd.go", "redis/set.cmd.go", "redis/hash_table.cmd.go", "redis/sorted_set.cmd.go", "redis/keys.cmd.go"],
  [("regular expression over source lines and a text template", "cmd/gen_redis_cmd/main.go")],
  ["generated *.cmd.go files"])
p("C28", "Configuration is read faithfully",
  "Loading a configuration makes the configured default timeout effective and keeps the previous configuration when the document is malformed; without a configured value the default is five seconds.",
  ["configurations"], "all YAML documents",
  "The configuration package has no tests.",
  ["config/config.go"], [("YAML decoding into the config struct", "config/config.go: InitConfig")],
  ["effective default timeout"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

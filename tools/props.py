import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
M="memcache/"
p("C01","Every call gets the response to its own command",
"Whatever the interleaving of goroutines whose pipelines share connections, every call that completes returns exactly what a well-behaved server answered to that very command (response type, value, flags, CAS, error message), never the answer to another command or a mixture of two. This holds for any number of pipelines, batches and connections in flight and whatever order results are collected in; and as long as no fault occurs and the client is not closed, no call returns an error the server did not send.",
["schedules","programs"],"all interleavings (up to the preemption bound) of 2-4 goroutines issuing pipelines of every command type, on 1-2 connections, with small batch sizes, write limits and buffers so that batches split, queues fill and responses arrive coalesced",
"Almost all tests that look at results need a live memcached (absent here), and those sample a handful of schedules; matching relies on the FIFO agreement of three goroutines over two queues, which only breaks in particular interleavings.",
[M+"sender.go",M+"core.go",M+"pipeline.go",M+"input_selector.go",M+"reader.go"],
[("commands are pushed to the receive queue in the order they are written","sender.go sendToWriter"),("FIFO receive queue","sender.go recvBuffer push/read"),("responses are attached to the current command","core.go recvSingleCommandData, reader.go setCurrentCommand"),("batch responses are dealt out to the pipeline's commands","pipeline.go parseCommands")],
[("recv.buf/begin/end","batches written or about to be written whose responses are outstanding","sender.go recvBuffer"),("remainingData","bytes already read that belong to later commands","reader.go responseReader")],
["results returned by MGet/MSet/MDel/Version/FlushAll result functions","net.Conn Read/Write calls"])
p("C02","Commands reach the wire whole, in order and at most once",
"The bytes written to any connection are always a prefix of a concatenation of complete encodings of commands that were issued: concurrent pipelines never tear, interleave, corrupt or duplicate one another's commands, and the commands of one pipeline appear in the order they were issued. Every command that was flushed on a healthy connection is delivered exactly once; after any write, read or dial failure no command is ever written a second time, on the same or another connection.",
["schedules","fault_sequences"],"all interleavings up to the preemption bound of 2-3 goroutines with multi-batch pipelines, values larger than the write buffer, and every single write error / partial write / read error / reset position",
"Tests check the byte stream for a few sequential histories, plus one stress run; torn or duplicated writes need a particular preemption or a failure at a particular write.",
[M+"sender.go",M+"send_buffer.go",M+"input_selector.go",M+"command.go",M+"builder.go"],
[("one writer goroutine per connection","sender.go runSenderJob"),("linked list of pending pipelines","send_buffer.go push/popAll"),("batches of one pipeline are requeued one after another","input_selector.go getNextCommand"),("request interleaves header text and binary entries","command.go writeToWriter"),("nothing is written to a failed connection","sender.go writeAndFlush")],
[("sendBuf","published pipelines not yet selected","send_buffer.go"),("inputList/longCmdList","selected order of batches","input_selector.go")],
["net.Conn.Write byte stream per connection"])
p("C03","Every call returns: no schedule or fault can make a call hang",
"Every result function, Finish and Execute returns after finitely many steps in every schedule, however many batches are in flight, and whatever the server or network does (answers late, stalls, resets, half-writes, refuses to be redialled): with a silent peer a call ends, with an error, no later than the configured read and write timeouts after the last network activity. No combination of full queues, exhausted write limit, failing reads or writes and reconnection can deadlock the client.",
["schedules","fault_sequences"],"all interleavings up to the bound of goroutines, sender, receiver, reconnector and health checker, together with every single fault or stall position, including histories with several hundred batches in flight that fill every internal queue",
"A lost wake-up or lock cycle shows only in one interleaving or when an internal queue (256 slots) is full at the moment a read fails; tests drive a few dozen commands and healthy or sequentially failing connections.",
[M+"sender.go",M+"core.go",M+"input_selector.go",M+"send_buffer.go",M+"command.go",M+"conn.go"],
[("condition variables with re-checked predicates","send_buffer.go popAll, sender.go recvBuffer, input_selector.go connWriteLimiter"),("every batch is completed exactly once","core.go recvCommands, sender.go publish"),("deadlines on every read and write","netconn/netconn.go timeoutReader/timeoutWriter")],
[("connMut","guards the current connection; held while queueing and writing","sender.go"),("cmdReadCount/cmdWriteCount","write-limit window","input_selector.go")],
["return of each API call","virtual time at return"])
p("C04","Failures are reported truthfully and stay on their connection",
"A call reports success only if the server's complete reply to it was received on the connection that carried it; if that connection fails in any way before, the call returns a non-nil error, and never a zero-value or stale response with a nil error. Conversely a call returns an error only if its own connection failed (or could not be dialled), the server's reply was an error or malformed, or the client was closed, and the error says so: the network's own error, the server's error, or the closed error. A failure on one connection of the pool never fails or delays calls carried by the others.",
["fault_sequences","schedules"],"every position of a read error, EOF, mid-reply cut, write error, partial write, stall or refused dial in a short history, one or two faults per history, combined with interleavings up to the bound, 1-2 connections",
"Tests script a handful of failure points on mocks; the outcome of a failure at each byte and at each interleaving with other goroutines is not sampled.",
[M+"sender.go",M+"core.go",M+"pipeline.go",M+"conn.go",M+"netconn/netconn.go"],
[("sticky last error per connection","sender.go setLastErrorAndCloseUnsafe/readData"),("batch error reaches every command of the batch","pipeline.go parseCommandsForSingleCommandData"),("error connection for failed dials","netconn/netconn.go ErrorNetConn")],
[("lastErr","first error of a connection","sender.go senderConnection")],
["errors and responses of result functions versus the scripted network"])
p("C05","The client reconnects after a failure and recovers completely",
"Once a call or health check has run into a broken connection (or one that could not be dialled), the client closes it and redials immediately, and as long as dialling fails it reports the error to the dial error logger and tries again after each retry duration, for ever. Once the replacement is in place every later call on that slot succeeds and nothing from the old connection, neither unread bytes nor half-parsed replies, influences it, even after any number of failures. A healthy connection is never closed or redialled, and a pool slot never has more than one open connection.",
["fault_sequences","histories","schedules"],"all sequences of up to three failures (any kind, including replies followed by surplus bytes) and dial outcomes, with the next call issued at every point relative to the reconnection",
"One unit test covers a single reset with an empty receive buffer; residue of the old connection and repeated dial failures are not explored.",
[M+"conn.go",M+"sender.go",M+"core.go",M+"reader.go"],
[("reconnect loop","conn.go newConn"),("wait for the connection's error","sender.go waitForError"),("swap of the connection","sender.go resetNetConn"),("parser reset","reader.go reset")],
[("remainingData/state/lastErr","reply parser state that must not survive a connection","reader.go")],
["dial calls and their virtual times","logger calls","results after the reconnection"])
p("C06","Close always terminates and releases everything",
"Close returns from every state (idle, commands in flight, server silent, reconnecting, dial failing) in a time bounded by the timeouts of the dial, reads and writes under way, however long the retry and health-check durations are, and whatever other goroutines do concurrently; when it returns all background goroutines have ended, every connection ever dialled is closed and nothing is dialled afterwards, and Close by itself never dials. Calls concurrent with Close either complete normally or return an error; calls made after Close, with any number of commands, promptly return the connection-closed error. Closing again is harmless.",
["schedules","fault_sequences","programs"],"all interleavings up to the bound of Close with 1-2 goroutines issuing small and multi-batch pipelines, with the health checker and with each kind of network failure and dial outcome",
"Tests close idle clients or look at mocks after a sleep; races between Close, publishing and reconnecting and calls of more than one batch after Close are not reached.",
[M+"memcache.go",M+"conn.go",M+"core.go",M+"sender.go",M+"health.go"],
[("shutdown order sender, receiver, reconnector","memcache.go Close, conn.go shutdown/waitCloseCompleted, core.go recvCommands"),("publish after close is refused","sender.go publish, send_buffer.go push"),("late connection is closed","sender.go resetNetConn")],
[("closed flags","sendBuf.closed, recv.closed, sender.closed, clientConn.closed","send_buffer.go, sender.go, conn.go")],
["return of Close and of calls","live goroutines","Close calls on every dialled conn","dial calls"])
p("C07","The write limit bounds unanswered commands and never erodes",
"On each connection the number of commands written whose batch has not begun to be answered never exceeds the configured write limit; only batches that are themselves larger than the limit are exempt (they are never held back). The full limit stays usable: as long as fewer commands are unanswered, pending ones are sent without waiting for replies, after any history of completed, failed or reset commands.",
["schedules","histories","fault_sequences"],"write limits 1-3 (and the default), pipelines of 1-4 commands in batches of 1-3, all interleavings up to the bound, servers that withhold replies until the window is full, after 0-4 failures",
"Unit tests call the limiter directly with a few counts; that counts are credited exactly once on every path (success, parse error, read error, reconnect) for every interleaving is not tested.",
[M+"input_selector.go",M+"core.go"],
[("window check before selecting a batch","input_selector.go allowMoreWrite"),("credit on the first reply byte or error of a batch","core.go increaseReadCount.apply")],
[("cmdWriteCount, cmdReadCount","commands selected and credited","input_selector.go connWriteLimiter")],
["commands received by the server minus batches whose reply has begun to be read"])
p("C08","A long pipeline cannot starve other pipelines of its connection",
"When a pipeline is flushed while others are being transmitted on the same connection, its first batch is written before more than one write limit's worth of commands plus one batch of pipelines that are already under way, however long those pipelines are. Several multi-batch pipelines on one connection are served in turn, batch by batch, and all of them are eventually sent completely.",
["schedules","programs"],"a long pipeline (up to dozens of batches) and one or two later ones, all flush points relative to the long one's progress, batch sizes and limits 1-4, interleavings up to the bound",
"Unit tests check a few hand-made selector states in one fixed call order; they never run selector, limiter and receiver concurrently.",
[M+"input_selector.go",M+"send_buffer.go",M+"builder.go"],
[("new pipelines are preferred over continuations, one batch each","input_selector.go popAllThenRead/getNextCommand"),("pipelines are split into batches","builder.go internalIncreaseCount")],
[("inputList/longCmdList","fresh pipelines and continuations","input_selector.go")],
["order of commands on the wire versus the time of the flush"])
p("C09","Requests carry exactly the caller's arguments",
"For every valid key, every value (any bytes, any length including 0 and sizes around every buffer boundary) and every combination of options, the bytes sent are exactly the memcached meta-command the call denotes: right verb, key, length, value, and the N, c, C, T and I flags with the caller's numbers, each flag present if and only if the option asks for it. This holds at any position in a pipeline, in any mix with other commands, and across batch boundaries.",
["inputs","programs"],"all option combinations over boundary numbers (0, 1, every power of 2 and 10 and their neighbours up to the type's maximum), all value lengths 0..4200 and neighbours of powers of two up to 4 MiB, all byte values, every command sequence up to length 5, all batch sizes 1-4",
"Tests check about twenty literal examples; encodings are arithmetic on lengths, digits and pooled buffers.",
[M+"builder.go",M+"command.go",M+"pool.go"],
[("text encoders","builder.go addMGet/addMSet/addMDel/appendNumber"),("binary entries with offsets","builder.go addMSet, command.go writeToWriter"),("pooled buffers by size class","pool.go getByteSlice")],None,
["bytes received by the server, parsed by an independent parser"])
p("C10","Well-formed replies decode exactly under every fragmentation",
"For every sequence of well-formed replies (values of any bytes and length, any set and order of W/X/Z/c flags, any CAS, every status, server errors with any message, version strings) the calls return exactly the decoded replies, independently of how the byte stream is cut into reads and of the receive buffer size. Each reply byte is consumed exactly once, so no reply is lost, duplicated, or shifted to a neighbour.",
["inputs","histories"],"all reply sequences up to length 3-4 over an alphabet of all reply forms, all positions of one and two cuts, all fixed chunk sizes, receive buffers from 1 byte up, value lengths at all size-class boundaries, CAS values as in C09",
"Tests enumerate some cuts for a few replies on internal methods; the product of reply kinds, sequences and cut positions through reader and parser together is not covered.",
[M+"reader.go",M+"parser.go",M+"core.go"],
[("incremental segmentation","reader.go recvInLoop"),("second-pass parser","parser.go readMGet/readMSet/readMDel/readVersion/readFlushAll"),("bytes left over for the next command","reader.go readNextData")],
[("state, tmpData, dataLen, currentIndex, remainingData","segmentation automaton","reader.go")],
["results of calls versus the scripted reply stream"])
p("C11","Malformed server output cannot crash, hang or poison the client",
"Whatever bytes a server sends, the client never panics, spins or hangs: every call returns, calls whose whole batch was answered correctly before the first malformed reply keep their results, and a call whose reply is malformed (empty, a status word its command cannot have, a missing or absurd length or CAS number, a CR without LF, a value block not ended by CR LF) or is a protocol-level client error returns an error. The connection that produced it is closed and replaced, and later calls work normally on the replacement.",
["inputs","histories"],"all byte strings up to a length bound over an alphabet of protocol fragments (verbs, flags, digits, CR, LF, huge lengths) as reply to every command type, followed by well-formed or malformed replies and by a fresh connection",
"Tests feed a dozen malformed replies to single parser methods; they do not combine them, and a spin or an oversized allocation only shows on particular fragments.",
[M+"reader.go",M+"parser.go",M+"pipeline.go",M+"core.go"],
[("parser errors","parser.go Err*"),("reader errors","reader.go setErrorAndReturn"),("close on any non-server error","pipeline.go parseCommandsForSingleCommandData")],None,
["return of calls, panics, closing and redialling of connections, later results"])
p("C12","Invalid keys are refused locally and valid keys always accepted",
"A key is accepted if and only if it is 1 to 250 bytes long and every byte is a printable, non-space ASCII character; otherwise the call returns the matching key error (empty, too long, invalid format), nothing of it reaches the server, and other commands of the same pipeline, before and after it, are unaffected. Hence no key can inject another command or change the meaning of its own.",
["inputs","programs"],"every one- and two-byte string, every byte value at first, middle and last position of keys of every length class, all lengths 0..260 for every command, inside pipelines of up to 3 commands",
"Tests try about ten bad keys for some commands only.",
[M+"pipeline.go",M+"builder.go"],
[("validation before a command is added","pipeline.go validateKeyFormat, MGetFast, MSet, MDel")],None,
["errors returned and bytes received by the server"])
p("C13","Pipelines are lazy, ordered, and give each result exactly once",
"For every sequence of operations on a pipeline, nothing is sent before Execute, Finish, a result function call, or a command issued after Execute, at which point all pending commands are sent together in issue order; Finish returns only after everything pending has been delivered and answered (or has failed), and the pipeline stays usable. Each sent command's result can be collected in any order, before or after Finish, and exactly once: every further call of the same result function returns the already-gotten error. The results are those of executing the commands in issue order.",
["programs","histories"],"all sequences of pipeline operations (issue any command, call any outstanding result function, call one again, Execute, Finish, invalid key) up to a depth bound, batch sizes 1-3, against a reference pipeline over a model memcached",
"Tests are a few fixed scripts against a real server that is absent here; the interplay of sessions, Execute, Finish and late result calls is a state machine they do not enumerate.",
[M+"pipeline.go",M+"builder.go",M+"pool.go"],
[("sessions published once, waited once","pipeline.go pushCommandsIfNotPublished/waitAndParseCmdData"),("read-once flag","pipeline.go pushAndWaitIfNotRead"),("new session after publish","pipeline.go getCurrentSession")],
[("currentSession/published/alreadyWaited/isRead","session state machine","pipeline.go")],
["server byte stream after each operation","results"])
p("C14","Values are never aliased: buffers handed out or in stay intact",
"The bytes of a value returned by a get stay unchanged until the caller releases them, whatever other calls run meanwhile and although buffers are recycled; and the value passed to a set is captured at the call, so the caller may modify its slice at once. Recycling of any internal object (request and reply buffers, value buffers, command objects) never mixes data of different calls, pipelines or clients, including after failures and when callers release slices of any capacity.",
["histories","schedules","inputs"],"all histories up to a bound of gets, sets, releases and retained values over sizes at every size-class boundary with pools that always recycle the most recently freed object, combined with interleavings up to the bound and failures",
"sync.Pool rarely hands the dangerous buffer back in a test and randomly drops objects under the race detector; tests check pool functions in isolation.",
[M+"pool.go",M+"command.go",M+"pipeline.go",M+"sender.go"],
[("size-class pools","pool.go getByteSlice/releaseByteSlice/getResponseBinaries/putResponseBinaries"),("release points","command.go freeCommandRequestData/freeCommandResponseData"),("command objects","pool.go putPipelineCmdToPool, putCommandList")],None,
["contents of retained values, bytes on the wire"])
p("C15","Health checks ping idle connections and only those that need it",
"In every health-check period in which fewer pipelines than connections were started, every connection that was not assigned a pipeline is pinged with a version command, so a connection that died silently is detected and replaced within one period without user traffic plus the read timeout; when user traffic already covered all connections in the period no ping is sent. Health checks never alter the results or order of user calls, and stop at Close.",
["histories","schedules","fault_sequences"],"1-3 connections, all distributions of up to 4 pipelines over up to 3 periods, a silent death of any connection at any period, interleavings of a check with user pipelines and Close up to the bound",
"Tests drive the check's inner loop with fake counters in a few states; detection end to end, and races with users taking sequence numbers, are not covered.",
[M+"health.go",M+"memcache.go",M+"conn.go"],
[("sequence-number comparison","health.go runSingleLoop"),("ticker and shutdown","health.go runInBackground/shutdown")],
[("prevSequence/next","round-robin position at the last check","health.go, memcache.go")],
["version commands per connection with virtual time","redials"])
p("C16","Pipelines are spread evenly and stay on one connection",
"Pipelines are assigned to connections round robin when they issue their first command: among any n consecutive assignments (n the pool size, health checks included) every connection is used exactly once, also when pipelines are started concurrently. All commands of one pipeline object travel on the same slot of the pool, in order.",
["schedules","programs"],"pool sizes 1-4, up to 3 goroutines starting pipelines concurrently, all interleavings up to the bound, sequential histories of up to 3n pipelines including empty and invalid ones",
"No stable test checks distribution; fairness under concurrent starts depends on an atomic counter.",
[M+"memcache.go",M+"pipeline.go"],
[("atomic counter","memcache.go getNextConn"),("connection fixed at first command","pipeline.go newPipelineSession")],
[("next","number of assignments so far","memcache.go")],
["connection on which each pipeline's commands arrive"])
p("C17","The client is free of data races",
"No schedule of user goroutines (each using its own pipelines), background goroutines, connection failures, reconnection and Close makes two goroutines access the same memory without synchronisation, at least one of them writing.",
["schedules","fault_sequences"],"happens-before race detection on every explored schedule of the concurrency harnesses, with scheduler hand-offs hidden from the detector",
"Upstream's race run samples schedules against a live server; the stable tests here are not run under the race detector at all.",
[M+"sender.go",M+"core.go",M+"pipeline.go",M+"conn.go",M+"command.go",M+"health.go",M+"pool.go"],
[("mutexes, condition variables, atomics and the completion channel","sender.go, send_buffer.go, input_selector.go, command.go")],None,
["race detector reports per schedule"])
p("C18","Configured timeouts, sizes and hooks govern every network operation",
"Every dial is made through the configured dial function with the connect timeout, every read and every write on a connection is guarded by a deadline of exactly the configured read or write timeout from its start (defaults 1 s), and every option takes effect regardless of the order and combination in which options are given. Consequently a peer that stops reading, stops answering, or never finishes the authentication handshake blocks nothing beyond the configured timeout.",
["configurations","fault_sequences"],"all ordered combinations of up to 3 options over distinct values, each network operation stalled in turn, with and without authentication",
"memcache/netconn has no tests; deadlines are never observed.",
[M+"netconn/netconn.go",M+"netconn/auth.go",M+"options.go",M+"conn.go"],
[("deadline before each operation","netconn/netconn.go timeoutReader/timeoutWriter"),("option accumulation","options.go computeOptions/addConnOption, netconn.go computeConfig")],None,
["arguments of dial and deadline calls, virtual time of failures"])
p("C19","No command travels on a connection that failed authentication",
"With password authentication every dial first sends exactly one authentication command carrying the user name and password and their combined length, and the connection is used only if the server's complete answer is the success reply, however the answer is fragmented. Any other answer, an error, or an early close makes the dial fail, with the invalid-credentials error if the answer was a refusal line (at least as long as the success reply); the connection is closed, and no command is ever written to it.",
["inputs","fault_sequences"],"all cuts of the answer, every error position, all prefixes and one-byte corruptions of the success answer, refusals of any length, user names and passwords of lengths 0-300, for the cache client and the stats client",
"The only authentication tests need a live server on port 11212.",
[M+"netconn/auth.go",M+"netconn/netconn.go"],
[("handshake","netconn/auth.go GetDialFunc/tryReadBytes")],None,
["bytes written to and Close calls on each dialled conn, dial errors"])
p("C20","Statistics calls return exactly what the server reported",
"For every well-formed statistics or key-dump response, cut into reads in any way, the stats client returns exactly the reported numbers, slab lists in order of appearance, and keys (decoded from their escaped form) with all their attributes. If the response is malformed, truncated or interrupted by an error, the call returns a non-nil error; in particular it never reports an incomplete response as complete.",
["inputs","fault_sequences"],"all known stat names, boundary numbers, slab-id sequences, every key of one or two bytes, all cuts, every truncation point, every single-token corruption of the responses",
"Tests use one or two literal responses each, never fragmented or truncated in the middle of a dump.",
[M+"stats/stats.go",M+"stats/parser.go"],
[("line scanner and terminator","stats/parser.go next"),("per-command interpretation","stats/stats.go parseSlabStat/parseSlabItemStat/parseMetaDumpKey/MetaDumpAll")],None,
["results and errors of the four stats calls"])
p("C21","One statistics call never reads another's response",
"For every sequence of calls on a stats client, each call sends exactly its own command and is answered from the response to that command only: after a call that failed because of something in its response, the next call on the same client either returns the correct result for its own command or an error, never data left over from an earlier response presented as its own.",
["histories","inputs"],"all sequences of up to 3 calls over the four commands, each response well-formed, malformed in one line at any position, or a one-line server error",
"Tests issue one call per client; leftovers only matter for the next call.",
[M+"stats/stats.go",M+"stats/parser.go"],
[("responses consumed up to END","stats/parser.go next, stats/stats.go Get*")],None,
["results of consecutive calls"])
p("C22","Resource use stays bounded however long a client runs",
"However long a client runs and whatever happens to it - commands, failed and refused connections, lost connections, timeouts, malformed replies, pipelines reused or abandoned, calls after Close, clients opened and closed again - what it holds when at rest stays bounded: at most one open connection for each of its connections slots (none after Close), a number of goroutines that does not grow, and memory that does not grow with the number of commands, replies and failed connections already done with. The same holds for a statistics client.",
["histories","faults"],"all multisets of up to 3 of 20 kinds of events (1 connection) and of up to 2 (2 connections), and of 3 of 10 kinds of statistics calls, each multiset repeated 200 times",
"Tests run a client for one or two failures and never look at what stays behind; a leak shows only for particular events, after many of them.",
[M+"conn.go",M+"core.go",M+"sender.go",M+"pipeline.go",M+"pool.go",M+"memcache.go",M+"stats/stats.go"],
[("a failed connection is closed and its reader goroutine ends","conn.go, core.go"),("commands are dropped once answered","sender.go, core.go"),("byte buffers go back to pools","pipeline.go, pool.go")],None,
["open connections, goroutines and memory in use at rest"])
p("C23","Commands that wait together go out in one network write",
"Under every interleaving of users, sender and receiver: the batches of one pipeline session that fit the write limit are sent together and not in a write each; all batches (up to 100) published on a connection before one of its network writes returns are contained in the next write, as far as the write limit has room for them; what does not fit the write buffer is cut only where the buffer is full (two consecutive writes of a burst together always exceed it); and nothing is written when there is nothing to send.",
["schedules","inputs"],"2-4 users executing 1-3 pipelines of 1-5 commands with and without a write limit, P preemptions; bursts of up to 100 pipelines; all sequences of up to 3 (thorough 5) commands of 8 sizes around the buffer size",
"Fewer system calls by batching is what the library is for; unit tests look at single calls of the selector, and results are right even if every command travels alone.",
[M+"input_selector.go",M+"send_buffer.go",M+"sender.go",M+"command.go",M+"netconn/netconn.go"],
[("everything waiting is taken at once","input_selector.go popAllThenRead, readCommands"),("one flush per round","sender.go writeAndFlush")],None,
["network writes of a connection"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))

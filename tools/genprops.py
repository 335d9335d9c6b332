#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so that they are easy to edit."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
S='pkg/server/session.go'; V='pkg/server/server.go'; D='pkg/server/config_distributor.go'; E='pkg/server/event.go'
CN='pkg/pg/conn.go'; SF='pkg/pg/standard_frame.go'; UF='pkg/pg/startup_frame.go'; SM='pkg/pg/startup_message.go'
CLI='pkg/cli/cli.go'; FW='pkg/cli/file_watcher.go'; WC='pkg/cli/watch_server_config.go'; RC='pkg/cli/read_server_config.go'
NONE_RELAY="No existing test starts a session with a database behind it: the relay (pumps, queues, dispatcher) is executed by no test, and the codec tests each use one captured packet in one piece."
p('C01','Client-to-database traffic is relayed exactly',
 "For every accepted session, the byte stream the database receives is the client's startup message followed by the client's messages, byte for byte, in order, each exactly once. At every moment it is a prefix of that stream ending in bytes the client really sent, and once traffic settles with both sides connected and reading it is the whole of it.",
 ['schedules','inputs','fault_sequences'],"every interleaving of the session's goroutines, every segmentation, delay and back-pressure of both connections, and every sequence of well-formed frontend messages (simple and extended query, COPY, password/SASL, unknown types, any size)",
 NONE_RELAY,[S,CN,SF,UF,SM],[('in pump, dispatcher, out pump',S),('frame reader',SF),('message parse / re-serialise',CN)],[('clientIn/dbOut','queues between the connections',S)],['bytes read by the simulated database'])
p('C02','Database-to-client traffic is relayed exactly',
 "For every accepted session, the byte stream the client receives after negotiation is the database's messages, byte for byte, in order, each exactly once: at every moment a prefix of what the database sent, and all of it once traffic settles with both sides connected and reading. This holds for every backend message, including NULL and empty column values, unknown message types and asynchronous notices.",
 ['schedules','inputs','fault_sequences'],"every interleaving, segmentation, delay and back-pressure, and every sequence of well-formed backend messages",
 NONE_RELAY,[S,CN,SF,'pkg/pg/data_row_message.go'],[('in pump, dispatcher, out pump',S),('message parse / re-serialise',CN)],[('dbIn/clientOut','queues between the connections',S)],['bytes read by the simulated client'])
p('C03','Nothing sent before a hang-up is lost',
 "When one side sends complete messages and then closes its connection, every one of those messages is delivered to the other side before the proxy closes that side's connection, provided the receiving side stays connected and keeps reading. This includes a last message sent immediately before the close (a database's fatal error, a client's Terminate), even while the receiving side is itself sending.",
 ['schedules','crash_points','fault_sequences'],"every point at which either side may close relative to traffic queued inside the proxy, every schedule of the session goroutines and every delivery delay",
 "Needs a close racing with queued traffic; no test has a session with two live ends.",[S],[('ordered shutdown of pumps',S)],None,['bytes and EOF seen by the surviving side'])
p('C04','One stalled direction does not block the other',
 "If a party stops reading, only traffic addressed to that party waits: messages from that party to its peer keep flowing however much is queued the other way. Consequently a client and a database that would make progress over a direct connection also make progress through the proxy.",
 ['schedules','fault_sequences','inputs'],"every pattern of stalled readers, socket buffer size, number and size of queued messages and schedule",
 "Needs full queues and sockets in one direction while the other is live; no test queues more than one message.",[S],[('per-direction dispatching and bounded queues',S)],[('message queues','bounded, 64 entries each',S)],['progress of simulated client and database'])
p('C05','A hang-up by either side ends the whole session',
 "Once the client or the database closes or loses its connection (at any moment, including during negotiation or while the database is being dialled) and the other side keeps reading or has gone too, the proxy closes both connections of that session and the session's serving call returns, within a bounded time and without outside help. That holds too for a side whose host disappears without a word (power, network): once TCP has found out, by keep-alive probes on an idle connection or by retransmissions on a busy one, the session is over. No connection to the database outlives its client and vice versa.",
 ['schedules','crash_points','fault_sequences'],"every instant of hang-up, connection reset or silent disappearance, on either side, in every phase of the session and every schedule",
 "Needs hang-ups in every phase with a live database; tests only close the server with a single un-negotiated session.",[S,V],[('pump exit closes the peer, Session.Close',S),('Server.ServeConn return',V)],None,['EOF/RST at simulated peers','return of ServeConn','goroutines left'])
p('C06','Sessions are isolated from each other',
 "Bytes of one session never appear in another: each database connection serves exactly one client for its whole life. A session that stalls, fails, is refused, sends garbage or is reset never delays, alters or ends any other session.",
 ['schedules','fault_sequences','inputs'],"every number of concurrent sessions, every mix of failures in some of them and every interleaving between them",
 "Tests run at most one session at a time.",[V,S,CN],[('one Session and one pair of connections per client',S),('goroutine per connection',V)],None,['per-session byte logs'])
p('C07','Malformed or hostile traffic cannot take the proxy down',
 "No byte sequence sent by a client or by a database, cut or closed at any point, makes the process crash, spin, or allocate memory out of proportion to the bytes received; at worst that one session is closed. Whatever well-formed messages preceded the malformed bytes are relayed unaltered, and other sessions continue.",
 ['inputs','schedules','fault_sequences'],"every byte string on either side in the startup and in the message phase (bad lengths, negative counts, truncated fields, endless negotiation), every cut point, every schedule",
 "Codec tests use one good packet and one wrong type byte; no malformed length, count or truncation is tried.",[SF,UF,'pkg/pg/read_buffer.go','pkg/pg/data_row_message.go','pkg/pg/row_description_message.go','pkg/pg/negotiate_protocol_version_message.go',S],[('length and count validation in the parsers','pkg/pg'),('session error handling',S)],None,['process survival','other sessions','allocated bytes'])
p('C08','Only the configured database can be reached',
 "A connection whose effective startup database (as PostgreSQL would interpret the startup packet; physical replication is bound to none) is not the configured one, or whose protocol version is not 3.0, is disconnected without a single byte of it reaching the database; and a client naming exactly the configured database is let through. The decision cannot be bypassed by repetition, ordering or segmentation of the startup parameters.",
 ['inputs','schedules','fault_sequences'],"every startup packet, negotiation prefix, segmentation and schedule, alone or next to other sessions and configuration changes",
 "No test performs a startup against a session.",[S,SM],[('database check in negotiation',S),('GetParameter',SM)],None,['startup packets at the simulated database'])
p('C09','SSL negotiation is answered once each and loses no bytes',
 "Every SSL request a client sends before its startup message is answered with exactly one 'N' byte, after which a plaintext startup proceeds normally. Bytes the client pipelines behind an SSL request or the startup message are neither lost nor interpreted twice, and nothing but these answers reaches the client before the database speaks.",
 ['inputs','schedules','fault_sequences'],"any number of SSL requests, any pipelining and segmentation of requests, startup and first messages, any delay",
 "The SSL request is only tested as a byte encoding.",[S,UF,CN],[('negotiateSessionParams',S),('exact-length frame reads',UF)],None,['bytes received by client and database'])
p('C10','An unreachable database only fails the session that needed it',
 "If the database cannot be dialled, or the connection dies while the startup message is sent, that client is disconnected, nothing of the session is left behind, and the server goes on accepting and serving other clients, including as soon as the database is back.",
 ['fault_sequences','schedules'],"every pattern of refused, hanging, late or dying database connections across sessions and every schedule",
 "No test dials a database.",[S,V],[('establishDBConnection error path',S)],None,['client EOF, later sessions'])
p('C11','Closing the server releases everything, whenever it happens',
 "After Close is called, at any moment and concurrently with accepts, negotiations, database dials, relaying and configuration changes, Close returns within its five-second watchdog without a panic, and then no listener, client connection or database connection opened by the server stays open and none of its goroutines keeps running. Close on an already closed server returns immediately with no error.",
 ['schedules','crash_points','fault_sequences'],"every instant of Close relative to every other operation, every stall of peers (silent clients, unreadable sockets, hanging dials), every schedule",
 "Tests close an idle server, or one with a single idle session; the windows between check and registration need a precise interleaving.",[V,S],[('shutdown event, mutex, wait group, watchdog',V),('Session.Close',S)],[('listener, sessions','what Close must release',V)],['open simulated sockets','live goroutines','simulated clock'])
p('C12','Start-once and closed-server results hold under concurrency',
 "Of any number of concurrent or repeated Start calls on a server at most one serves and the others report that it is already started or closed; a serving Start returns only after Close, with the closed-server error. Start, Serve and ServeConn called after Close has returned report the closed-server error and never serve anyone.",
 ['schedules','histories'],"every interleaving of Start, Serve, ServeConn and Close calls",
 "Tests call these in one fixed sequential order.",[V,E],[('start and shutdown events',V)],None,['returned errors','dials after close'])
p('C13','The listener converges to the latest configuration',
 "After configuration updates stop, the server accepts clients on the listen address of the last configuration if that address could be bound, and otherwise keeps serving on the address it had; it listens on exactly one address and has released every other it opened. This holds for any sequence and timing of updates, including returning to an earlier address.",
 ['schedules','histories','configurations','fault_sequences'],"every sequence and spacing of configuration updates, bind failures and schedules",
 "One test makes one change and waits for each listener before the next step.",[V,D],[('Start loop and changeListener',V),('config subscription',D)],[('listener','current listener',V)],['listening simulated addresses'])
p('C14','Established sessions survive configuration changes',
 "Changing the listen address or the database URL never closes, corrupts or redirects a session that is already established: it keeps relaying between the same client and the same database until one of them hangs up or the server is closed.",
 ['schedules','histories','configurations'],"every sequence and timing of configuration updates relative to session traffic",
 "No test changes configuration while a session exists.",[V,S],[('sessions own their connections',S),('changeListener closes only the listener',V)],None,['per-session byte logs'])
p('C15','A session uses one consistent, current configuration',
 "Each session takes the allowed database name and the database address from one and the same configuration, never a mixture of two; that configuration is at least as new as the newest one that had taken effect before the client connected. A client is therefore never sent to one configuration's server under another configuration's database name.",
 ['schedules','histories','configurations'],"every interleaving of configuration updates with session negotiation",
 "Needs an update in the middle of a negotiation.",[S,D,'pkg/pg/dsn.go'],[('cached connection parameters',S),('Get',D)],[('dbConnectionParams','parameters parsed once per session',S)],['address and startup packet of each database connection'])
p('C16','Transient accept errors and failed binds do not stop service',
 "Temporary errors while accepting (aborted connections, descriptor exhaustion) and configurations whose address cannot be bound never stop the server: clients connecting to the current address afterwards are served. A permanent failure ends only the serving call for that listener and reports it.",
 ['fault_sequences','schedules'],"every sequence of accept and bind errors interleaved with connections and updates",
 "No test injects an accept or bind error.",[V],[('temporary-error check in Serve, error path of Start',V)],None,['service to later clients','return of Serve'])
p('C17','Config subscribers get ordered, exactly-once, filtered updates',
 "A subscriber first receives the current configuration (if there is one and its checks want it) and then every later configuration for which at least one of its checks, given the previous and the new configuration, returns true (all, if it gave none), in source order and exactly once. After Unsubscribe returns nothing more is sent on its channel.",
 ['schedules','histories'],"every interleaving of updates, Subscribe and Unsubscribe by any number of subscribers with any channel capacity and any speed of reading",
 "Tests use one fixed sequence with two subscribers.",[D],[('subscription map and notification under the mutex',D)],[('lastConfig, subscriptions','state guarded by the mutex',D)],['configurations received per subscriber'])
p('C18','Reading the configuration blocks until known and never goes back',
 "Get waits until a first configuration has arrived, then always returns a configuration that was really published, never one older than a configuration already returned or delivered before the call began, and after updates stop the last one. After Close or after the end of the source Get, like Subscribe, reports that the store is closed instead of waiting.",
 ['schedules','histories'],"every interleaving of Get calls with updates, subscriptions and Close",
 "One test, racy itself, with one reader and two updates.",[D],[('lastConfig snapshot, waiting path of Get',D)],None,['values returned by Get'])
p('C19','The configuration store never deadlocks',
 "Get, Subscribe, Unsubscribe and Close always return, for any timing of updates, as long as the subscribers that stay subscribed keep receiving; a subscriber may stop receiving before it calls Unsubscribe, and Close needs no one to receive. Closing (or the end of the source) releases every waiting Get and stops the background goroutine.",
 ['schedules','histories'],"every interleaving of the operations and updates, every channel capacity",
 "Deadlocks need two updates inside a window of a few instructions.",[D],[('mutex discipline and abortable sends',D)],None,['blocked goroutines at quiescence'])
p('C20','An event fires exactly once and is seen by everyone',
 "Of all Fire calls on an event, concurrent or not, exactly one reports that it fired it; when any Fire call has returned, HasFired reports true and Done is closed, for good. HasFired and Done never report an event that nobody fired, and whoever has seen Done closed also sees HasFired true.",
 ['schedules','histories'],"every interleaving of Fire, HasFired and Done by any number of goroutines",
 "Tests are single-threaded.",[E],[('once, atomic flag and channel',E)],None,['returned values'])
p('C21','Edits of the configuration file take effect',
 "After the configuration file was last rewritten in place with a valid configuration - at any moment, including while the program is starting, in one or many writes, and also when change notifications fail or get lost with an error - the running proxy ends up using exactly that content, for its listen address and for new sessions. Nobody has to restart it or save again.",
 ['schedules','histories','fault_sequences'],"every sequence and timing of in-place writes, every split of a save into separate writes, every merging and delay of change notifications, every schedule of watcher, reader, distributor and server",
 "One test makes one write after the watcher is known to be running.",[CLI,WC,FW,RC,D],[('watch, then load',CLI),('reload on every write event',WC)],None,['listening address and dialled database of the simulated proxy'])
p('C22','A torn or invalid configuration file is never applied',
 "Whatever the file contains while being saved (empty, cut short, unparsable, without a listen address, briefly missing), the proxy keeps running on the last usable configuration and never listens on an address that no written version names; started with such a file it reports failure with exit status 1 instead of serving.",
 ['crash_points','inputs','fault_sequences','schedules'],"every cut point of every save, every order of writes and notifications",
 "Tests read one good file and one missing file.",[RC,WC,CLI],[('readServerConfig validation',RC),('error path of the reload callback',WC)],None,['listening addresses over time','exit code'])
p('C23','Message framing is exact on any byte stream',
 "Reading startup and ordinary messages from a connection yields exactly the messages that were written, in order, whatever the segmentation of the stream, and never consumes a byte beyond the message returned. A stream that ends or fails inside a message yields an error and never a shortened, padded or merged message; a length field that cannot be valid yields an error.",
 ['inputs','fault_sequences'],"every sequence of frames, every segmentation, every cut or error position, every length field",
 "Tests feed a whole frame in one piece, once.",[CN,SF,UF],[('ReadStandardFrame',SF),('ReadStartupFrame',UF),('RecvMessage',CN)],None,['messages and errors returned'])
p('C24','Sending a message is atomic and reports failure',
 "A send reports success only if the connection accepted every byte of the message, and reports an error otherwise (failed, closed, or partly accepted writes). Messages sent from several goroutines on one connection are never interleaved within a message.",
 ['schedules','fault_sequences'],"every position of a write failure, every back-pressure pattern and every interleaving of senders",
 "Tests send one message through an in-memory pipe.",[CN],[('single write per frame',CN)],None,['bytes at the receiving end, returned errors'])
p('C25','Database metadata is read completely or not at all',
 "Connecting to the database for inspection, asking its name and listing its tables (the ordinary, partitioned and foreign tables, views and materialized views of every schema that is not the system's own, by OID) each return either the complete, correct answer or an error; a connection that fails, stalls and dies, or reports an error at any point of the exchange never yields a partial answer without an error, and a healthy database always yields the answer.",
 ['fault_sequences','crash_points'],"every byte position at which the database connection is cut or an error is injected, every segmentation of the reply",
 "The tests need a live PostgreSQL, are not run here, and never interrupt it.",['pkg/pgmeta/inspector.go'],[('row iteration and error checks','pkg/pgmeta/inspector.go')],None,['returned mapping and error'])
p('C26','Messages built in memory survive encode and decode',
 "Encoding any message value and decoding the result gives an equal value, and decoding any well-formed packet and encoding it gives the same packet.",
 ['inputs'],"every message value of every message type",
 "Each type is tested on one captured packet.",['pkg/pg'],[('Parse*Message and Frame','pkg/pg')])
p('C27','Database URLs are interpreted as libpq does',
 "For every PostgreSQL connection URI the extracted host, port, user, password, database and options are those libpq documents, with the documented defaults, and anything else is rejected.",
 ['inputs'],"every URI string",
 "Eight URIs are tested.",['pkg/pg/dsn.go'],[('ParseDatabaseURI','pkg/pg/dsn.go')])
p('C28','What is held for a slow party is bounded',
 "While one party of a session does not read, the proxy takes only a limited number of messages from the other (fewer than a thousand per session and direction, whatever is waiting to be sent) and then leaves it waiting, as a direct connection would: what a session keeps in memory does not grow with what somebody wants to send, in any phase of the session.",
 ['schedules','fault_sequences','inputs'],"every pattern of readers that stall, read a little and stall again, every size and number of messages, in either direction or both, including while the database is being dialled",
 "Needs a session with a party that does not read and thousands of messages for it; no test has a session with two live ends.",[S],[('bounded queues between pumps and dispatchers',S)],[('message queues','bounded, 64 entries each',S)],['bytes read from one party and written to the other'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))

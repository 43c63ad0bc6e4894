# ---------------------------------------------------------------- wire format
prop("P01", "Wire messages have the protocol-3 layout, in both directions", """
Every message the library builds has the type byte, the fields, the field order, the widths and the length word that
version 3.0 of the PostgreSQL frontend/backend protocol prescribes for it, and NULL items are written as length -1 with
no bytes. For every message class with both a writer and a reader, the reader takes back exactly the fields that the
writer lays down, in the same order and at the same offsets.""",
["inputs"], "every message class and every field value, including NULL, empty strings and zero-length lists",
"tests build a few sample messages and compare them with themselves, so a change made to both sides or in a message without a sample passes",
["postgresql/protocol/element3.py"],
[("message serializers and parsers", "postgresql/protocol/element3.py: *.serialize / *.parse / *.bytes"),
 ("tuple packing", "postgresql/protocol/element3.py: pack_tuple_data, cat_messages")])

prop("P02", "Incoming bytes are cut into messages the same way for any chunking", """
However the byte stream is split into writes, the message buffer hands out a message only when its five header bytes and
its whole body have arrived, hands out each message once, in order and with exactly the body its length word announces,
and keeps the unread remainder. A length word smaller than four is refused with an error in every reading operation
instead of being read as a message.""",
["inputs", "schedules"], "every byte stream and every way of chunking it, for the pure-Python and the C buffer",
"the number of chunkings of a stream is unbounded; tests try a handful of splits with well-formed lengths",
["postgresql/protocol/pbuffer.py", "postgresql/port/_optimized/buffer.c"],
[("Python buffer", "postgresql/protocol/pbuffer.py: pq_message_stream"),
 ("C buffer", "postgresql/port/_optimized/buffer.c: p_build_tuple, p_length, p_has_message, p_read")])

prop("P03", "Only replies the protocol allows advance a conversation", """
For every request sent, the reply messages accepted at each step and the step that follows are those of the
extended/simple query, function-call and copy sub-protocols; any other synchronous reply makes the conversation fatal
with a protocol-violation error. Notices, notifications and parameter reports are accepted at any moment
and never change the step, and after an error reply the driver skips to the next synchronization point.""",
["histories", "fault_sequences"], "every sequence of server messages against every sequence of requests",
"a server in good order never sends the out-of-order replies that would expose a wrong table entry",
["postgresql/protocol/xact3.py"],
[("reply tables", "postgresql/protocol/xact3.py: Instruction.hook, initial_state"),
 ("reply loop", "postgresql/protocol/xact3.py: Instruction.standard_put, put_copydata, put_tupledata"),
 ("startup", "postgresql/protocol/xact3.py: Negotiation.state_machine, put_messages")])

prop("P04", "Transport failures are fatal; interrupted transfers resume exactly", """
When connecting, negotiating TLS, sending or receiving fails, or the peer closes the socket, the current protocol
conversation is left complete, marked fatal and carrying an error message with an SQLSTATE-like code and severity, and
the original exception is kept as the cause where there is one. A conversation that became fatal stays attached to the
connection, so that no later request is pushed over the broken channel as if it were healthy. A transfer interrupted by
a retryable error resumes where it stopped: no byte or message is sent, encoded, received or processed twice or dropped.""",
["fault_sequences", "crash_points"], "a failure at any socket operation, at any point of any conversation",
"tests can cut a connection at a few points; the property is about every socket call site and every exception path",
["postgresql/protocol/client3.py"],
[("connect and TLS", "postgresql/protocol/client3.py: Connection.connect, negotiate_ssl"),
 ("receive", "postgresql/protocol/client3.py: Connection.read_into"),
 ("send", "postgresql/protocol/client3.py: Connection.send_message_data"),
 ("drive", "postgresql/protocol/client3.py: Connection.push, step, complete")],
state=[("xact.fatal", "None: fine, False: server error, True: connection unusable", "postgresql/protocol/xact3.py")])

prop("P05", "A required TLS session is never replaced by plaintext", """
When the caller requires TLS, the startup message (user, database) and the password are written only to a socket that
has been wrapped in TLS, and a server that answers anything but the accept byte makes the connection attempt fail. The
sslmode setting selects the attempts and their order: disable only plaintext, allow plaintext then TLS, prefer TLS if
offered and otherwise plaintext, require only TLS; any other mode is refused.""",
["configurations", "fault_sequences"], "every sslmode, every answer of the server to the TLS request, every attempt order",
"tests reach one server configuration per mode and cannot have a server that strips TLS",
["postgresql/protocol/client3.py", "postgresql/driver/pq3.py"],
[("negotiation", "postgresql/protocol/client3.py: Connection.connect, negotiate_ssl"),
 ("sslmode table", "postgresql/driver/pq3.py: Connection._establish"),
 ("mode validation", "postgresql/driver/pq3.py: Host.__init__")])

prop("P06", "The password is sent only in the form the server's request asks for", """
During startup the password leaves the client only in reply to an authentication request, in the form requested:
clear text for a clear-text request, the salted MD5 form for an MD5 request, the crypt form for a crypt request. Any other request, an unknown request or an unexpected message aborts the connection as
fatal without sending anything derived from the password.""",
["fault_sequences", "inputs"], "every authentication request code and every order of startup replies",
"tests have one server with three methods; unknown or hostile requests are never sent to them",
["postgresql/protocol/xact3.py", "postgresql/driver/pq3.py"],
[("startup state machine", "postgresql/protocol/xact3.py: Negotiation.state_machine, unsupported_auth_request")])

prop("P07", "A failed request always raises, with the class its SQLSTATE denotes", """
When the server reports an error or the channel fails, the driver operation that issued the request raises, and never
returns as if it had worked. The exception's class is the one registered for the SQLSTATE, else that of its class
('xx000'), else the base error; every SQLSTATE in the hierarchy denotes exactly one exception, and details, message and
code arrive unchanged.""",
["fault_sequences", "inputs"], "every error reply at every point where the driver waits for the server, and every SQLSTATE",
"tests provoke a few of some 250 codes, at a few of the call sites that wait for a reply",
["postgresql/driver/pq3.py", "postgresql/exceptions.py"],
[("raising", "postgresql/driver/pq3.py: Connection._pq_push, _pq_complete, _pq_step, TypeIO.raise_error"),
 ("code table", "postgresql/exceptions.py: class codes, map_errors_and_warnings, code_lookup")])

prop("P08", "Transaction objects issue the right SQL and never lie about their state", """
Outside a block a transaction object uses START TRANSACTION / COMMIT / ABORT, inside one it uses a
savepoint of its own (SAVEPOINT / RELEASE / ROLLBACK TO). Its state becomes open, committed or aborted only after the
server accepted the statement; committing or rolling back an object in the wrong state raises instead of issuing SQL,
and committing inside a failed block rolls back and raises.""",
["histories", "fault_sequences"], "every order of start, commit, rollback and context exits, nested to any depth, with a failure at any of them",
"tests walk a few histories; a failing COMMIT or a mis-nested exit is rarely among them",
["postgresql/driver/pq3.py"],
[("transaction object", "postgresql/driver/pq3.py: Transaction.start, commit, rollback, __enter__, __exit__")],
state=[("state", "initialized / open / committed / aborted", "postgresql/driver/pq3.py: Transaction")])

prop("P09", "Statements check the parameter count and encode each value by its own type", """
Every way to execute a prepared statement or open a cursor compares the number of arguments with the number the server
announced before anything is sent. Each non-NULL argument goes through the packer of its own position and is declared in
the format (text or binary) that packer produces, each non-NULL column goes through the unpacker of its own position and
is requested in the format that unpacker reads, and NULL passes both ways as None.""",
["inputs", "programs"], "every statement, every argument list, every mixture of types with and without binary support, NULL anywhere",
"tests use the types they thought of, mostly without NULLs, through the most common methods",
["postgresql/driver/pq3.py", "postgresql/python/functools.py", "postgresql/port/_optimized/functools.c"],
[("execution methods", "postgresql/driver/pq3.py: Statement.__call__, declare, rows, chunks, column, first, load_rows, load_chunks"),
 ("format selection", "postgresql/driver/pq3.py: Statement._fini"),
 ("item processing", "postgresql/python/functools.py: process_tuple; postgresql/driver/pq3.py: Output._process_tuple_chunk*")])

prop("P10", "Names and values spliced into SQL text are quoted", """
Wherever the library itself composes SQL from text supplied by the caller or the server (identifiers, savepoint,
cursor and channel names, literals, configuration values), that text passes through the matching
quoting function, which doubles the delimiter, so that it can only ever be read as the one identifier or literal it
stands for.""",
["inputs"], "every string, including quotes, backslashes, mixed case and text crafted to end the literal",
"one unquoted splice among dozens suffices, and tests use tame names",
["postgresql/driver/pq3.py", "postgresql/string.py", "postgresql/notifyman.py", "postgresql/cluster.py"],
[("quoting primitives", "postgresql/string.py: quote_ident, quote_literal, quote_ident_if_needed"),
 ("SQL composition", "postgresql/driver/pq3.py: declare_statement_string, Cursor, Transaction, Settings, Connection.listen/unlisten/notify/do")])

prop("P11", "Passwords never reach a display string, a log or an error message", """
No repr(), str(), traceback description, connection IRI shown to the user or error detail produced by the library
contains the password given to it; where a field must be shown it is replaced by a fixed mask.""",
["programs", "configurations"], "every object that holds a password and every description made of it",
"tests look at one or two representations; a leak is any one path from a password to any one description",
["postgresql/driver/pq3.py", "postgresql/iri.py", "postgresql/protocol/xact3.py", "postgresql/cluster.py"],
[("masking", "postgresql/driver/pq3.py: Connector._pq_iri, _e_metas, __repr__; postgresql/iri.py: serialize(obscure_password)")])

prop("P12", "Sockets, files and temporary secrets are released on every path", """
Every socket, file and temporary password file the library opens is, on every path including each exception, closed or
removed by it, or handed to an owner that does so. A failed connection attempt leaves no open socket behind and the
temporary password file never outlives cluster initialization.""",
["fault_sequences", "crash_points"], "an exception at any statement between acquisition and release",
"tests cannot raise at each statement of each acquiring function",
["postgresql/protocol/client3.py", "postgresql/driver/pq3.py", "postgresql/cluster.py", "postgresql/python/socket.py", "postgresql/installation.py", "postgresql/configfile.py", "postgresql/clientparameters.py"],
[("acquire/release pairs", "open(), os.open, socket.socket, SocketFactory call sites")])

prop("P13", "Server-side statements and cursors the driver made are released exactly once", """
A prepared statement or cursor whose name the driver generated is queued for release exactly once, when it is closed or
garbage collected, and the release is sent before a later request; objects whose name the user supplied are never
released by garbage collection. Nothing queued is lost or sent twice when the release request itself fails or when more
objects are queued meanwhile.""",
["histories", "schedules"], "every order of close, garbage collection and pushes",
"garbage collection may happen between any two operations; tests have one order",
["postgresql/driver/pq3.py", "postgresql/protocol/client3.py"],
[("queue", "postgresql/protocol/client3.py: register_*, trash_*, take_out_trash, push"),
 ("owners", "postgresql/driver/pq3.py: Statement.close, Output.close, Statement.__init__, Output.__init__")])

prop("P14", "Binary type I/O has PostgreSQL's layout and is registered under the right OIDs", """
For every type with a registered binary conversion, the packer makes exactly the bytes that PostgreSQL's receive function
takes for the value, and the unpacker gives the value of the bytes its send function makes: fields in their order, width,
sign and byte order, epoch, units (microseconds or floating point seconds), time zone sign, special values (infinite
times, NaN), address family and mask, digits, weight, scale and sign of a numeric, bit counts, and NULL markers, counts,
dimensions and lower bounds of hstore, arrays and records, whose values go through the conversion of their own type. A
value that cannot be sent is refused with an error. Every OID listed for a module has an entry there and is the catalog's,
and every conversion names the Python type of its values. (xml, the conversion of text by the encoding, and layouts that
are registered for no type are outside.)""",
["inputs", "configurations"], "every registered type, every value, both date/time storage variants",
"tests compare sample values of some types; a wrong rarely used field, sign or constant survives",
["postgresql/types/io/lib.py", "postgresql/types/io/__init__.py", "postgresql/types/io/stdlib_datetime.py", "postgresql/types/io/builtins.py", "postgresql/types/__init__.py", "postgresql/driver/pq3.py"],
[("struct layouts", "postgresql/types/io/lib.py: *_pack / *_unpack"),
 ("registry", "postgresql/types/io/__init__.py: module_io, resolve; */oid_to_io"),
 ("arrays and records", "postgresql/driver/pq3.py: TypeIO.array_io_factory, record_io_factory, anon_record_io_factory"),
 ("OID constants", "postgresql/types/__init__.py")])

prop("P15", "The C extension never touches memory it does not own", """
On every path through the C extension, including every failed allocation and every Python error, each object reference it
owns is released or handed over exactly once, no result that may be NULL is dereferenced, no read or write leaves the
buffer it was sized for, and a function that reports failure has an exception set while one that reports success has
none. (The lists and tuples given are not changed by code called meanwhile.)""",
["inputs", "fault_sequences"], "every argument, every message byte, and a failure of every allocation and call",
"tests run the success paths; allocation failures and hostile lengths or type bytes never occur in them",
["postgresql/port/_optimized/buffer.c", "postgresql/port/_optimized/element3.c", "postgresql/port/_optimized/functools.c", "postgresql/port/_optimized/structlib.c", "postgresql/port/_optimized/wirestate.c", "postgresql/port/_optimized/module.c"],
[("ownership and bounds", "postgresql/port/_optimized/*.c")])

prop("P16", "The C twins and the Python originals compute the same thing", """
Each operation that exists both in C and in Python accepts the same value range, uses the same byte order, width and
sign, the same NULL marker and the same message framing, calls the row processors with the same items in the same order
and their failure handler with the same arguments, and refuses out-of-range or malformed input with an error instead of
truncating it; the C wire state counts and cuts COPY data the same way for any chunking; every name that Python code
expects from the extension is exported by it under that name with the matching meaning.""",
["inputs", "configurations"], "every argument, with and without the extension built",
"the test run has the extension or does not; it never compares the two over their whole input ranges",
["postgresql/port/_optimized/structlib.c", "postgresql/port/_optimized/element3.c", "postgresql/python/structlib.py", "postgresql/protocol/element3.py", "postgresql/python/functools.py", "postgresql/copyman.py"],
[("integer packers", "postgresql/python/structlib.py / port/_optimized/structlib.c"),
 ("tuple and message packing", "postgresql/protocol/element3.py / port/_optimized/element3.c"),
 ("wire state", "postgresql/copyman.py: WireState / port/_optimized/wirestate.c")])

prop("P17", "A COPY either completes everywhere or is reported as failed", """
Leaving a copy context (run included) without the end of the data having been seen, or with a producer or receiver that
fails to finish, raises a copy failure that names the faults; it returns quietly only when the producer was exhausted and it
and every remaining receiver finished. A receiver that fails at a chunk is taken out, reported once with its exception, and is put back only
by a reconciliation, which sends what it had left; every remaining receiver gets every chunk once, in a form its protocol
accepts. Receivers are given the COPY data and nothing else, whatever the reads are cut to; the rest of what was read goes
back to the connection. Left within a message, receivers are given the rest of one and the connection finds the next one.""",
["fault_sequences", "histories"], "a failure of any producer or receiver at any chunk, and every combination of protocols",
"the faults can fall on any chunk, half-way through a message; tests place a few",
["postgresql/copyman.py"],
[("manager", "postgresql/copyman.py: CopyManager.__enter__, __exit__, __next__, _service_producer, _service_receivers, reconcile, run"),
 ("transformers", "postgresql/copyman.py: CopyTransformer, WireState, ProtocolProducer, WireReceiver, StatementProducer, StatementReceiver")])

prop("P18", "Each notification is delivered once, in order, and closed connections show", """
Every asynchronous message received during any request of the driver reaches the connection, and the notification manager
hands out every notification its watched connections have taken in, once and in arrival order, before it reports idleness
or the end, also when more arrive while earlier ones are being collected. A connection that fails or is found closed while
watched is removed from the watch and put among the discarded ones, after what it had received was collected, and it is not
waited on again.""",
["schedules", "histories"], "every interleaving of arrivals, consumption and connection loss",
"arrival during consumption is a race that tests hit by chance",
["postgresql/notifyman.py", "postgresql/driver/pq3.py"],
[("manager", "postgresql/notifyman.py: NotificationManager"),
 ("single connection", "postgresql/driver/pq3.py: Connection.iternotifies, _receive_async")])

prop("P19", "Advisory locks held match the object's count, and partial acquisition is undone", """
A lock object acquires all its locks or, in non-blocking mode, none: those obtained in a partial success are released
before it reports failure. The database call precedes the change of the hold count, only the outermost
acquire and the outermost release talk to the server, releasing an unheld lock raises, and the same keys in the same mode are released as
were acquired.""",
["histories", "fault_sequences"], "every nesting of acquire and release, every subset of keys already held elsewhere, a failure at any call",
"tests contend for one or two keys and never fail the database call between the two steps",
["postgresql/alock.py", "postgresql/lib/libsys.sql"],
[("lock object", "postgresql/alock.py: ALock.acquire, release, __enter__, __exit__"),
 ("lock statements", "postgresql/lib/libsys.sql: acquire_/try_/release_advisory_*")])

prop("P20", "Connection parameters are collected with the documented precedence", """
A parameter given in a more specific source (command line over environment over given parameters over defaults; in `open`,
keywords over the IRI over these; later over earlier within a source) wins over the same parameter from a less specific
source. Each documented environment variable sets exactly the parameter documented for it, under the given prefix, and
each option the parameter documented for it. An address of one kind (host and port, or unix socket) on the command line,
and a unix socket given to `open`, replaces the other kind from less specific sources. Server settings from all sources
are merged key by key. The section of a service file is taken from the documented file; the password is prompted for when
asked for, looked up when there is none, and the keys that steer this are removed.""",
["configurations"], "every combination of option, environment variable and default",
"the combinations are exponential and tests cover none of the environment",
["postgresql/clientparameters.py"],
[("collection", "postgresql/clientparameters.py: collect, envvars, defaults, normalize, normalize_parameter")])

prop("P21", "A connection IRI parses back to the parameters it was built from", """
Building an IRI from connection parameters and parsing it yields the same parameters, for every part: user, password,
host (name, IPv4 or IPv6 without brackets) and port, or unix socket (a path without colons and brackets), database, path,
each driver parameter and server setting, and the search_path as a list of names; reserved characters are percent-encoded
on the way out in every component in which the parser gives them meaning, and decoded on the way in.""",
["inputs"], "every parameter value, including reserved and non-ASCII characters",
"tests have a list of sample IRIs",
["postgresql/iri.py", "postgresql/resolved/riparse.py"],
[("IRI", "postgresql/iri.py: structure, construct, parse, serialize"), ("URI library", "postgresql/resolved/riparse.py")])

prop("P22", "Editing a configuration file changes only the named settings", """
Setting a parameter in a configuration file changes the effective line of that parameter and leaves every
other line as it was, byte for byte and in order; unset parameters are commented out rather than dropped, new ones are
appended, and values are quoted such that reading the file gives the value that was set.""",
["inputs"], "every file content and every set of settings",
"tests edit a few small files",
["postgresql/configfile.py"],
[("parser and writer", "postgresql/configfile.py: parse_line, unescape_quoted, write_config, alter_config, ConfigFile")])

prop("P23", "Cluster control acts only on its own server and reports failures", """
Signals are sent only to the process recorded in the cluster's pid file, a process that is gone is not
an error while any other failure of the signal is raised; initialization that fails raises and leaves no
password file, starting or initializing requires the right prior state, and waiting for start or stop ends in success,
an exception for a dead server, or a timeout error.""",
["fault_sequences", "configurations"], "every failure of an external command, signal or file at every step",
"tests run the success path of one installation",
["postgresql/cluster.py"],
[("control", "postgresql/cluster.py: Cluster.init, start, stop, shutdown, signal, drop, wait_until_started, wait_until_stopped")])

prop("P24", "The DB-API layer follows its specification for cursors and transactions", """
An open DB-API connection that is not in autocommit is always inside one transaction, the one commit makes durable: after
connect (also by entering its context), commit and rollback, and also after a commit the server refused; commit and rollback
report their failure; autocommit switches by rolling back, and makes commit and rollback raise. Every method of a closed cursor
raises Error. execute refuses a wrong number of parameters, fetches give the rows of the last statement once each, in order, in
any mix of fetch methods, and raise after a statement without rows. %-placeholders are replaced outside quoted text only, each by
the parameter of its position or name, mixing both is refused, and the error classes form the hierarchy PEP 249 demands.""",
["histories", "inputs", "programs"], "every order of cursor and connection calls and every statement text",
"the test-suite of PEP 249 has a fixed list of calls",
["postgresql/driver/dbapi20.py"],
[("connection", "postgresql/driver/dbapi20.py: Connection"), ("cursor", "postgresql/driver/dbapi20.py: Cursor, Portal, _convert_query")])

prop("P25", "Temporary settings are restored and the settings cache never goes stale", """
A settings context reads the values of its settings on entry before it sets them, and on every exit, normal or by exception,
puts exactly those values back (or raises when the server refuses, as in a failed transaction, whose rollback puts them back);
a failed entry leaves the settings as they were. For changes made through the settings object, reported by the server, or taken
back by a reset or by the end of a transaction, a cached value is always the server's, so that reading gives the server's value
and an unknown name raises KeyError. Every report of the server is cached and calls the subscribers of its name and those of all
names, also when one of them raises or unsubscribes.""",
["histories", "fault_sequences"], "every nesting of contexts, every report order, an exception anywhere in the block",
"tests do not raise inside nested contexts or change settings behind the cache",
["postgresql/driver/pq3.py"],
[("settings", "postgresql/driver/pq3.py: SettingsCM, Settings"), ("taking back", "postgresql/driver/pq3.py: Transaction.commit, Transaction.rollback, Connection.reset")])

prop("P26", "Every catalog statement the driver names exists and fits its use", """
Each library symbol that the driver, lock, cluster and temporal code calls exists in the shipped SQL library, is called
with as many arguments as its text has parameters, and has the execution method whose result shape the caller uses; a
symbol binds to the method it declares.""",
["programs", "configurations"], "every symbol reference in the code, including those only reached on old servers or error paths",
"references for other server versions and rare paths are never executed by the tests",
["postgresql/lib/libsys.sql", "postgresql/lib/__init__.py", "postgresql/driver/pq3.py", "postgresql/alock.py"],
[("library text", "postgresql/lib/libsys.sql"), ("binding", "postgresql/lib/__init__.py: ILF.from_lines, BoundSymbol, Binding")])

prop("P27", "Failure paths raise what they intend, not an accident of their own", """
Every name, module attribute, own-instance attribute and own-class method that code refers to exists on every path, every raise
statement raises an exception, every format string gets the arguments it needs and every call of an in-repository function passes
arguments it accepts; so an error path reports the condition it was written for.""",
["programs", "fault_sequences"], "every statement of every module, whether or not a test reaches it",
"error paths are by nature the least executed statements",
["postgresql"],
[("whole source", "postgresql/**/*.py")])

prop("P28", "Cursors and result streams deliver every row once, in order", """
Reading a result in chunks, rows, columns or by cursor delivers each row of the result exactly once and in
the server's order, whatever the chunk and fetch sizes; the end of the result is reported only when the server said so,
and cursor direction and seek follow the documented signs.""",
["inputs", "schedules", "histories"], "every result size against every chunk and fetch size, direction and seek",
"boundary sizes differ per class and tests use few",
["postgresql/driver/pq3.py", "postgresql/driver/dbapi20.py", "postgresql/python/itertools.py"],
[("streams", "postgresql/driver/pq3.py: FetchAll, MultiXactInsideBlock, MultiXactOutsideBlock, Cursor"),
 ("portal", "postgresql/driver/dbapi20.py: Portal")])

prop("P29", "Quoting helpers and SQL splitting are exact inverses", """
Quoting or escaping an identifier or literal gives a text that the server's rules (standard_conforming_strings on, key words
apart) read as the original; an identifier quoted "if needed" is left bare only if it reads as itself. string.split cuts SQL
at exactly the quoted parts those rules give - '...' and "..." with doubled quotes, E'...' or e'...' (not following a letter,
digit, _ or $) with backslash escapes too, $tag$...$tag$ over any number of lines; comments are not parsed - as unquoted
text and (quote, content) pairs in turn, ends on a pair exactly when that quote is not terminated, and unsplit of its parts
gives the original text. split_sql cuts at every separator of the unquoted parts and at no other; split_using cuts at every
separator, of any length, outside quotes, at most maxsplit times; split_ident and split_qname give the identifiers, unquoted
ones in lower case, and raise ValueError for a piece that is no identifier; qname joins its quoted parts by dots.""",
["inputs"], "every text, including nested dollar quotes, doubled quotes and escapes",
"tests have sample strings",
["postgresql/string.py"],
[("quoting", "postgresql/string.py: escape_literal, quote_*, split, unsplit, split_using, split_qname, qname")])

prop("P30", "Text crosses the wire in the negotiated client encoding", """
All text sent in or decoded from protocol messages is converted with the connection's current client encoding, which
follows every report of it by the server; error and notice fields that cannot be decoded are
still delivered.""",
["inputs", "histories"], "every client encoding, changed at any time, and every undecodable byte",
"tests use utf-8 databases",
["postgresql/driver/pq3.py", "postgresql/encodings/aliases.py"],
[("conversion", "postgresql/driver/pq3.py: TypeIO.set_encoding, encode, decode, decode_notice, _decode_failsafe, Connection._receive_async")])

prop("P31", "Row and array values keep position, name and shape", """
A Row gives the same value by position, counted from either end, and by column name (for a name of several columns: the last
of them); get gives None and indexing raises IndexError or KeyError outside; column_names are in column order, items pairs
each name with its value, from_sequence, from_mapping (None for missing names) and transform keep values, order and names, and
every row, record and named tuple is made with a true mapping of names to positions. An Array built from nested lists or from
elements and bounds keeps elements, NULLs, order, dimensions and bounds; nest, iteration, items (negative too), slices,
get_element and sql_get_element (None outside) give what the dimensions say; uneven nests and bounds that do not fit the
elements raise.""",
["inputs"], "every row width, column name and array shape",
"tests use small shapes",
["postgresql/types/__init__.py", "postgresql/types/namedtuple.py"],
[("row and array", "postgresql/types/__init__.py: Row, Array")])

prop("P32", "Numeric, date/time and geometric values survive conversion exactly", """
Every numeric, timestamp, interval and geometric value representable on both sides is converted without loss
in either direction.""",
["inputs"], "every value of the type",
"the value spaces are unbounded; tests sample them",
["postgresql/types/io/lib.py", "postgresql/types/io/stdlib_decimal.py", "postgresql/types/io/stdlib_datetime.py"],
[("value arithmetic", "postgresql/types/io/stdlib_decimal.py: numeric_pack, numeric_unpack; stdlib_datetime.py")])

prop("P33", "Waiting operations honour their time limits", """
Connecting, interrupting, waiting for notifications and waiting for a cluster to start or stop return or raise within
the time the caller allowed, plus scheduling delay.""",
["schedules", "configurations"], "every time limit and every speed of the peer",
"timing varies with the machine",
["postgresql/cluster.py", "postgresql/notifyman.py", "postgresql/protocol/client3.py"],
[("timeouts", "postgresql/cluster.py: wait_until_*; postgresql/notifyman.py: settimeout; postgresql/protocol/client3.py: connect, interrupt")])

prop("P34", "A canceled request cancels only this connection's own backend", """
Interrupting a connection opens a separate socket to the same server and sends one cancel request made of the process id
and secret key which that server issued to this connection at startup, then closes that socket; the session's own socket
is not written to.""",
["histories", "fault_sequences"], "every moment at which an interrupt is requested, including before and after startup",
"tests interrupt one busy connection",
["postgresql/protocol/client3.py", "postgresql/driver/pq3.py"],
[("interrupt", "postgresql/protocol/client3.py: Connection.interrupt; postgresql/driver/pq3.py: Connection.interrupt")])

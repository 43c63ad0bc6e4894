"""Which properties have a check, and why the others have none."""
CHECKS = {
    "P01": {
        "technique": "abstract interpretation over a byte-layout domain: every writer's layout is derived, compared with the protocol's and read back through the reader",
        "note": "all message types in both implementations (with and without the C extension); field values are symbolic, lists have 0..3 elements",
    },
    "P03": {
        "technique": "reply tables compared as automata; abstract interpretation of the put methods over every (step, message) and message pair against a reference automaton",
        "note": "message contents are opaque; batches of one and two messages (three in the thorough tier); both implementations of the row fast path",
    },
    "P04": {
        "technique": "path-sensitive abstract interpretation with exceptional edges at every socket operation (typestate of the conversation)",
        "note": "every path of the transport functions of client3.Connection, loops widened; OSError is assumed to be what sockets raise",
    },
    "P08": {
        "technique": "typestate analysis: abstract interpretation of every Transaction method from every abstract state against a transition table",
        "note": "all paths of all methods over the finite abstraction of the object's state; SQL compared after normalisation",
    },
}
CHECKS["P05"] = {
    "technique": "typestate over connect() with the server's answer as input; enumeration of _establish()'s attempt sequences by abstract interpretation",
    "note": "all paths for ssl True/False/None and six answers; two hosts per sslmode with every outcome of every attempt",
}
CHECKS["P06"] = {
    "technique": "abstract interpretation of the startup generator against every reply history; terms handed out for sending are matched against the requested form",
    "note": "13 request codes, seven reply types per step, up to five replies; message batches of one to three for put_messages",
}
CHECKS["P34"] = {
    "technique": "typestate over the socket that interrupt() opens; abstract interpretation of connect() for every outcome of the startup; enumeration of all stores to the identity",
    "note": "all paths of interrupt() and connect(); the byte form of the request is decided under P01",
}
CHECKS["P07"] = {
    "technique": "typestate of pending requests (pushed, stepped, known not to have failed) over every driver function; exception-flow over every handler; class table of the exceptions decided against the SQLSTATE table",
    "note": "all paths of the driver's request functions, intraprocedural with the request primitives as primitives; COPY management is decided under P17",
}
CHECKS["P11"] = {
    "technique": "taint analysis over the abstract interpreter's terms: from every password to every display method, message, prompt, stream and trace",
    "note": "all display methods of the library; messages of all functions of the modules a password passes through; containers of parameters count as tainted unless only a constant other key is read",
}
CHECKS["P10"] = {
    "technique": "abstract interpretation reconstructs every SQL text as literals and holes; a lexical scanner decides the context of each hole",
    "note": "all texts that reach execute, prepare, Query, Parse or search_path in the driver and its companions; loops over names unrolled for two names",
}
CHECKS["P13"] = {
    "technique": "abstract interpretation of the release queue with exact contents and an arrival before every statement; typestate of the owners",
    "note": "up to two names (three in the thorough tier) in each queue, one arrival at every statement, the release request succeeding, failing and raising",
}
CHECKS["P18"] = {
    "technique": "abstract interpretation of the notification manager with exact sets and lists and an arrival before every statement; typestate of its event loop; syntactic flow of the asynchronous-message hook",
    "note": "one or two connections with up to three notifications each, every outcome of select() and of the collecting statement; the event loop's helpers are events with all outcomes",
}
CHECKS["P27"] = {
    "technique": "name resolution over scope tables, definite binding along exception edges, class attribute tables over the hierarchy, arity and keyword matching of in-repository calls, format strings against arguments",
    "note": "every function of the library; attributes of objects whose class the source does not give are only required to exist somewhere in the library or the standard library; calls through values are not matched",
}
CHECKS["P12"] = {
    "technique": "typestate of every opened socket, file and temporary file over all paths of the opening functions, exceptions at every call included; the owners of a connection's socket for every outcome of each step",
    "note": "every opening call of the library outside its documentation and packaging; every call after the opening may raise; ordinary exceptions (a KeyboardInterrupt is left to the interpreter); child processes and whole connections are not tracked",
}
CHECKS["P09"] = {
    "technique": "abstract interpretation with exact tuples: every outcome of type resolution per parameter and column, every small argument count against every parameter count, every Bind of the library, every position of NULLs and of a failing item",
    "note": "up to 2 columns or parameters and 3 items; the Python definitions of process_tuple and process_chunk (their C twins belong to P16); which processors a type has is P14",
}
CHECKS["P28"] = {
    "technique": "abstract interpretation over exact result messages and call sequences: every row count against every chunk size, batches present or to come, every fetch sequence on a portal; the effect of every seek computed and compared with the documented one",
    "note": "chunk sizes up to 3, portal histories up to 3 calls over up to 3 chunks, offsets by sign; that the server answers with fewer rows only at the end is assumed",
}
CHECKS["P19"] = {
    "technique": "abstract interpretation of every method of the lock object over its hold count, with each subset of grants and a failure at each statement; matching of the lock statements with role, mode and form of key",
    "note": "what PostgreSQL does with the statements is assumed",
}
CHECKS["P26"] = {
    "technique": "resolution of every symbol reference against the parsed SQL library; abstract interpretation of the callers with the result shape of each statement, for every server version; abstract interpretation of the parsing and binding code per kind of section and symbol",
    "note": "the SQL itself is read lexically (parameters, select list, names); that the catalog gives what a statement asks is a table by version",
}
CHECKS["P25"] = {
    "technique": "abstract interpretation of every operation of the settings object against a model of the server's settings, from every cache that agrees with it, with a failure at each server call: cached = server is inductive; contexts over every block effect; every outcome of every subscriber",
    "note": "two names that exist and one that does not stand for all names (they are only compared); raw SQL that sets an unreported setting is outside",
}
CHECKS["P24"] = {
    "technique": "abstract interpretation of the connection as a machine over the server's transaction state with every outcome of every call; of every cursor method open and closed; of placeholder conversion over every sequence of parts and placeholders; of fetching over every split into chunks; the placeholder pattern against its tokenization; class hierarchy",
    "note": "up to three parts of two placeholders each, three chunks of two rows, three fetches in a row; texts for the pattern up to 7 characters of %s(); what split takes for quoted is P29",
}
CHECKS["P29"] = {
    "technique": "abstract interpretation of the functions over a symbolic text known by its shape, results compared as positions of the text with a reference lexer; the pattern of quotes, a constant, compared with that lexer on every short text of the characters that matter",
    "note": "shapes: up to two (thorough three) quoted parts of thirteen kinds and eighteen open ones; texts for the pattern up to 8 characters; key words and comments are outside the statement",
}
CHECKS["P31"] = {
    "technique": "abstract interpretation of the methods of Row and Array (generators and recursion included) over symbolic values in containers known exactly, for every width, mapping, shape and bounds up to a bound; a flow analysis of the names every type of rows is made with",
    "note": "rows of up to four columns, arrays of up to three dimensions of up to three (thorough: four dimensions)",
}
CHECKS["P14"] = {
    "technique": "abstract interpretation of every registered packer and unpacker over symbolic values in typed wire fields, exact linear arithmetic with floor division and ranges, compared with PostgreSQL's formats; constants of the OID table against the catalog's; arrays, records and hstore with element conversions that stand for themselves",
    "note": "numerics of up to 9 digits and exponents -10..7, arrays of up to 4 dimensions, records and hstore of up to 3 values; the rest for all values of the fields; the primitives' C definitions belong to P16",
}
CHECKS["P17"] = {
    "technique": "abstract interpretation of the copy manager with a producer and receivers whose every operation may succeed or fail, over every sequence of steps, reconciliations and ways to leave, for each combination of protocols; of message tracking over streams of messages of symbolic octets cut anywhere; of the ends of statement producers and receivers over every state",
    "note": "up to two receivers, two steps (thorough: three) and two faults; streams of up to three (thorough: four) messages and sizes up to 260, two cuts; the C wire state belongs to P16",
}
CHECKS["P02"] = {
    "technique": "abstract interpretation of the buffer's operations over streams whose headers are known and whose bodies are runs of the stream known by position, for every order of writes, reads and questions, states compared by what the buffer holds; results compared with the messages of the stream",
    "note": "streams of up to three (thorough: four) small messages cut anywhere, and of messages around the limits at which the buffer moves its content; a malformed length at the end; both the Python and the C buffer (the C one over clang's syntax tree), the C one with longer streams cut around headers and ends only",
}
CHECKS["P15"] = {
    "technique": "abstract interpretation of clang's syntax tree of the extension over regions of memory with bounds and objects with reference counts; every call that can fail may fail, each path is followed to the release of everything held, every access and reference checked as it is made",
    "note": "arguments of every kind and shape up to two or three items, sizes up to 8 GiB, streams of up to two messages in up to four parts; Python's own interface is a model; containers are not changed by the processors called",
}
CHECKS["P16"] = {
    "technique": "abstract interpretation of clang's syntax tree of the extension over numbers known by range, octets known by place and objects known by identity, and of the Python originals; results, accepted ranges, framing, calls made and errors compared with one definition for both",
    "note": "rows of up to three attributes and some of 300, sizes at and above 4 GiB, messages of every kind in sequences of up to five, COPY streams of up to 18 octets with up to two cuts or cut everywhere; Python's framing of messages is decided under P01; little-endian machines",
}
CHECKS["P20"] = {
    "technique": "abstract interpretation of the collection of parameters with the dictionaries known exactly and the values symbols, over every documented variable, every set of sources of a parameter and every kind of address; the resulting dictionary compared with the documentation",
    "note": "optparse, configparser, the password file and the IRI are models; POSIX paths; a parameter at a time from every set of sources, all variables together, settings from every set of sources",
}
CHECKS["P21"] = {
    "technique": "abstract interpretation of serialize and parse over texts of known characters and of runs known by the characters they cannot hold: encoding takes the class of the folded regular expression out of a run, searching a character a run may hold has every outcome; the parameters that come out compared with those put in",
    "note": "non-empty values, except that passwords and settings are also tried empty; the ssl key (scheme pqs) is outside; quick: all pairs around a full and an empty IRI, thorough: every combination of the forms",
}
PENDING = "no check built yet"
NOT_APPLICABLE = {
    "P32": "exactness of runtime arithmetic over unbounded values: no static argument in reach bounds it; the layout and "
           "epoch part of conversion is decided under P14",
    "P33": "quantifies over elapsed wall-clock time, which no property of the source bounds",
}

prop("C01", "Entity sets behave as keyed maps, whichever store backs them",
     "After any history of inserts, merges, replaces, deletes and media-stream writes on an entity set, every read (by key, iteration, length, membership, stream) shows exactly the entities the accepted operations left: each property holds the last value written to it, or its declared default (else null) if it was never given one or a replace left it out. An operation on a missing key, or inserting a duplicate key, is refused and changes nothing. The in-memory and the SQLite store behave identically.",
     ["histories", "inputs"], "all operation histories over several collections open on the same set, all property types the store persists",
     "The tests run one fixed script per store; wrong results appear only for particular sequences of selected/unselected properties, re-inserts and replaced values.",
     ["pyslet/odata2/memds.py", "pyslet/odata2/sqlds.py", "pyslet/odata2/csdl.py"],
     [("InMemoryEntityStore add/read/update/delete", "pyslet/odata2/memds.py"), ("SQLEntityCollection insert_entity_sql/update_entity/delete_entity", "pyslet/odata2/sqlds.py"), ("Entity.is_selected/merge/set_from_value", "pyslet/odata2/csdl.py")],
     observe=["EntityCollection: insert_entity, update_entity, __getitem__, __delitem__, itervalues, __len__, __contains__"], done=True,
     note="Every state and transition of one small set (all choices of selected properties and values) replayed in both stores; random histories over five sets with all persistable types, nested complex values, defaults and five sorts of key, over concurrency tokens of ten sorts and over media streams, validated event by event with full dumps.")
prop("C02", "Links are symmetric, within multiplicity and never dangle",
     "After any history of link, unlink, replace, bind-on-insert, deep-insert and delete operations, the links seen from one end of an association are exactly those seen from the other, both ends exist, and no entity has more links than its multiplicity allows or loses a link it requires while it exists. Deleting an entity removes its links and deletes exactly the entities that required it. An operation refused by the SQL store changes nothing; the in-memory store may keep completed optional parts of a refused compound operation, but never breaks the above.",
     ["histories", "configurations"], "all link/insert/delete histories over every pairing of 0..1, 1 and * association ends, including self associations, in memory and in SQLite",
     "Each test exercises one multiplicity with one short script; broken symmetry shows only after particular sequences (re-link, replace, cascade).",
     ["pyslet/odata2/memds.py", "pyslet/odata2/sqlds.py", "pyslet/odata2/csdl.py"],
     [("InMemoryAssociationIndex, NavigationCollection, cascade in __delitem__", "pyslet/odata2/memds.py"), ("SQLForeignKeyCollection, SQLReverseKeyCollection, SQLAssociationCollection", "pyslet/odata2/sqlds.py"), ("DeferredValue.bind_entity/update_bindings, check_navigation_constraints", "pyslet/odata2/csdl.py")],
     observe=["Entity navigation properties opened from both ends"], done=True,
     note="Every state of two sets with two entities each for ten kinds of association, every transition replayed in both stores; random histories over ten associations at once (self-association, compound keys, one-way navigation, deep inserts) validated with dumps from both ends. Not covered: 0..1 to 0..1 in SQL and required ends without a navigation property, which the SQL mapping does not support.")
prop("C03", "Filtering, ordering, counting and paging select exactly the matches",
     "Setting a filter, ordering, page window (top, skip, skip token) or maximum page size on a collection makes it yield exactly the matching entities, sorted by the ordering (nulls first, ties broken consistently), restricted to the window; its length and inline count ignore the window. Following next-page tokens until exhausted yields the same sequence as reading it in one go, with no entity repeated or missed. Both stores agree.",
     ["inputs", "configurations"], "all combinations of data, filter, ordering, top, skip and page size",
     "Tests use a handful of fixed page sizes and orderings; boundary and tie cases are combinations.",
     ["pyslet/odata2/csdl.py", "pyslet/odata2/memds.py", "pyslet/odata2/sqlds.py", "pyslet/odata2/core.py"],
     [("order_entities, iterpage, set_page, next_skiptoken", "pyslet/odata2/csdl.py"), ("page_generator, where_skiptoken_clause, orderby_clause, limit_clause", "pyslet/odata2/sqlds.py")],
     observe=["EntityCollection.set_filter/set_orderby/set_page/set_topmax/iterpage/next_skiptoken/__len__"],
     done=True,
     note='spec/ODataQuery.tla: filter/order/select/page semantics over integer-ranked values; TLC enumerates small configurations (ODataQueryMC) each replayed on memds and SQLite, and validates random recorded sessions (ODataQueryTrace).')
prop("C04", "Filter expressions follow OData precedence, promotion and null rules",
     "Parsing an expression string groups operators by the OData precedence table, left to right, and evaluating it gives the value defined by OData: numeric promotion, the [MS-ODATA] rules for null in and/or (false) and not (null), null results for null arithmetic operands, false for relations on null, and the documented string, date and math functions. Formatting a parsed expression and parsing it again gives an expression with the same value.",
     ["inputs", "programs"], "all expressions over boolean, numeric, string, date and null operands, to bounded depth",
     "The space of operator/type/null combinations is a product the tests sample one at a time.",
     ["pyslet/odata2/core.py", "pyslet/odata2/csdl.py"],
     [("Parser.parse_common_expression", "pyslet/odata2/core.py"), ("BinaryExpression/UnaryExpression/CallExpression evaluate_*", "pyslet/odata2/core.py"), ("promote_types", "pyslet/odata2/core.py")],
     observe=["CommonExpression.from_str(...).evaluate(entity)", "str(expression)"],
     done=True,
     note='spec/ODataExpr.tla: tokens, a grammar by precedence levels, formatting and evaluation over typed values. Every tree of operators/functions up to two operators over 45 typed samples (53,589 expressions) and 25,000 random expressions of depth up to 4, each parsed, evaluated, formatted and read again by the code; TLC gives the verdict on every one.')
prop("C05", "A failed SQL operation leaves the database as it was",
     "If the database reports an error at any statement of an insert, deep insert, update, link change or delete, the operation raises an error and afterwards the database holds exactly what it held before; an operation that returns normally is fully committed and visible to every other connection. No connection is left inside an open transaction.",
     ["fault_sequences", "histories"], "every statement of every multi-statement operation failing, for every operation kind",
     "No test injects database errors; each operation issues a sequence of statements and any of them may fail.",
     ["pyslet/odata2/sqlds.py"],
     [("SQLTransaction begin/commit/rollback/close", "pyslet/odata2/sqlds.py"), ("insert_entity_sql, update_entity, delete_entity and link methods", "pyslet/odata2/sqlds.py")],
     observe=["the database through an independent connection"],
     done=True,
     note='Design (SQLTxn): 113k states, every nesting of transactions and every failure of up to 2 statements in operations of up to 8 steps. Code: every statement and commit of random operations over ten associations fails in turn, in four ways (once, from then on, connection lost, other error); after each the database is read through an independent connection and must be as before (or as after, if success was reported), and not locked.')
prop("C06", "Pooled SQL connections are never shared, leaked or over-allocated",
     "At every moment a pooled database connection is in use by at most one thread (a thread may hold its own connection several times), no more than the configured maximum exist, and every connection is available again once all collections using it are closed. A thread that needs a connection when all are busy waits and obtains one as soon as one is released; idle connections may be closed by the pool cleaner, busy ones never are.",
     ["schedules", "histories"], "all interleavings of open/close by several threads with cleaning and closing",
     "Tests run one schedule with sleeps.",
     ["pyslet/odata2/sqlds.py"],
     [("acquire_connection, release_connection, pool_cleaner, close", "pyslet/odata2/sqlds.py")],
     state=[("cpool_locked", "connections in use by thread", "SQLEntityContainer"), ("cpool_unlocked", "idle connections", "SQLEntityContainer"), ("cpool_dead", "connections to be removed", "SQLEntityContainer")],
     observe=["SQLEntityContainer.acquire_connection/release_connection/connection_stats"],
     done=True,
     note="spec/Pool.tla says what users of the pool may see; PoolMC models the pool's tables and lock step by step and TLC checks every visible event against Pool, no lost wake-ups and one place per connection (each of four parts of the design shown necessary by a run without it). The graph is replayed with a stand-in driver under the deterministic scheduler, and random schedules (deaths, reused thread ids, failing opens, cleaner, close) and real SQLite collections are recorded and validated by PoolTrace.")
prop("C07", "The OData service applies each request exactly or refuses it",
     "For every request to the OData service, the response status and body and the resulting entities, links and values are those the protocol prescribes for that method, path and query (create, read, count, replace, merge, delete, links, property values, media streams); a request answered with a 4xx or 5xx status changes nothing. A conditional write takes effect only if its If-Match matches the entity's current version, so of two writers holding the same version at most one succeeds.",
     ["histories", "inputs"], "all request histories over a small model, with and without conditional headers",
     "Tests check individual requests against one fixed data set, not the composition of several.",
     ["pyslet/odata2/server.py", "pyslet/odata2/core.py"],
     [("handle_request, get_resource", "pyslet/odata2/server.py"), ("ODataURI parsing", "pyslet/odata2/core.py")],
     observe=["Server.__call__ (WSGI)"])
prop("C08", "Entities survive Atom, JSON and URI-literal encoding unchanged",
     "Encoding any entity (all simple types, nulls, complex values, expanded links) as an Atom entry or as JSON and decoding it again gives an entity equal in every property, and formatting any key or value as a URI literal and parsing it back gives an equal value.",
     ["inputs"], "all entities over all simple types at boundary and special values",
     "Round-trip fidelity is universally quantified over values.",
     ["pyslet/odata2/core.py", "pyslet/odata2/csdl.py"],
     [("Entry.set_value/get_value, simple_value_to_json_str/from_json, uri_literal_from_str", "pyslet/odata2/core.py")],
     observe=["Entry, Entity.generate_entity_type_in_json/set_from_json_object, ODataURI.format_literal"])
prop("C09", "A lock has at most one live holder and unlock never frees another's",
     "While a lock is younger than its timeout no second owner can acquire it; a stale lock can be taken over by at most one contender; releasing removes the lock only if the caller still owns it. A released or expired lock can be acquired by a waiting caller, and a caller that cannot acquire within its timeout gets a lock error.",
     ["schedules", "histories"], "all interleavings of lock, unlock, expiry and takeover by several owners",
     "The multithread test samples a few schedules and never interleaves inside lock or unlock.",
     ["pyslet/blockstore.py"],
     [("LockStore.lock/unlock with optimistic update on 'created'", "pyslet/blockstore.py")],
     observe=["LockStore.lock/unlock; the lock entity set"],
     done=True,
     note="spec/LockStore.tla models the lock row, contenders as sequences of single table operations, and time; TLC checks that at most one contender holds a live lock and that every change to the row is allowed; schedules from the model and random ones run on real threads under a deterministic scheduler with virtual time over SQLite, and the row's recorded history is validated.")
prop("C10", "Stored streams read back as written; referenced blocks never vanish",
     "A stream in the block store behaves as a byte array under any sequence of reads, writes, seeks and re-opens in any mode, with its recorded size (and MD5, when present) matching its content. Streams sharing identical blocks do not affect each other: a block referenced by any stream is retrievable, and a block no stream references any more is deleted, also when streams are written and deleted concurrently.",
     ["histories", "schedules"], "all operation sequences over small block sizes, with streams sharing content, and interleaved writers/deleters",
     "Tests write sequential random data; partial-block overwrites, seeks past the end and shared blocks are combinations.",
     ["pyslet/blockstore.py"],
     [("BlockStream read/write/seek/flush", "pyslet/blockstore.py"), ("StreamStore.store_block/update_block/delete_blocks", "pyslet/blockstore.py"), ("FileBlockStore, EDMBlockStore", "pyslet/blockstore.py")],
     observe=["StreamStore.open_stream, delete_stream; BlockStore.retrieve"],
     done=True,
     note="spec/StreamStore.tla says what every read, write, seek and re-open of a byte array may do; StreamMC's graph is replayed on real streams; BlockRefsMC model-checks the reference and lock protocol that shares blocks between streams (and fails without each precaution); sequential and interleaved (deterministic scheduler) sessions over all stores are validated, with an audit of references against stored blocks.")
prop("C11", "A pipe delivers every byte once, in order, then end of file",
     "For any interleaving of writers and a reader using any mix of read, readinto, readall, readmatch, write, flush and the wait and can-read/can-write calls, the reader receives exactly the bytes accepted by write, in order, followed by EOF only after write_eof and an empty buffer. Blocking calls return as soon as they can proceed and otherwise time out; non-blocking calls never block; the reported buffer occupancy and writable space always equal the true ones.",
     ["schedules", "histories"], "all call sequences and interleavings with small buffers",
     "Tests run single scripts with sleeps.",
     ["pyslet/streams.py"],
     [("Pipe with Condition lock", "pyslet/streams.py")],
     state=[("buffer/bsize/rpos", "queued byte strings, total size, read offset", "Pipe"), ("_eof", "EOF written", "Pipe")],
     observe=["Pipe public methods"], done=True,
     note="Exhaustive on the specification (one writer, one reader, buffer 2, every interleaving; liveness under fairness); bound to the code by replaying every transition of the sequential specification and by validating randomly scheduled executions of 2-4 threads under a deterministic scheduler with virtual time. Threads switch at lock operations and, in a third of the runs, between lines of streams.py.")
prop("C12", "Stream adapters deliver their source's bytes whatever the read sizes",
     "Reading through the buffered wrapper, the chunked decoder, the WSGI input wrapper or the gzip encoder and decoder yields exactly the bytes of the (decoded) source, for any sequence of read sizes, short or blocked source reads, peeks and permitted seeks, followed by end of file and never by bytes beyond the source's end.",
     ["inputs", "histories"], "all splits of the data and all read-size sequences",
     "Tests read with a few fixed sizes.",
     ["pyslet/streams.py", "pyslet/http/messages.py"],
     [("BufferedStreamWrapper", "pyslet/streams.py"), ("GzipEncoder, GzipDecoder, ChunkedReader, WSGIInputWrapper", "pyslet/http/messages.py")],
     observe=["read/readinto/peek/seek/write of each adapter"],
     done=True,
     note='spec/Adapter.tla models each adapter as a position in the decoded bytes, with every outcome a call may have; TLC checks delivery and prints the graph of the seekable readers, which is replayed with sources cut at random; random sessions over short, blocked, chunked and truncated sources and gzip sessions are validated against it.')
prop("C13", "HTTP messages are framed so that sender and receiver agree",
     "Any sequence of requests or responses sent on one connection is received as the same sequence of start lines, headers and bodies, whatever the framing (none, content length, chunked, close-delimited) and however the bytes are split in transit. A message whose framing is invalid or truncated is reported as an error, never delivered as complete, and no byte of one message is ever taken for another.",
     ["inputs", "fault_sequences"], "all message sequences, framings, methods, status codes, and split/truncation points",
     "Tests send a handful of messages through unsplit pipes.",
     ["pyslet/http/messages.py"],
     [("Message.send_header/send_body/recv/recv_transferlength", "pyslet/http/messages.py")],
     observe=["Request/Response start_sending, send_*, start_receiving, recv"])
prop("C14", "Each HTTP client request is answered once, by its own response",
     "Every request queued with the HTTP client ends exactly once, either with the status, headers and complete body of the server's response to that request (after following redirects and retrying as allowed) or with an error, however requests are pipelined, connections are reused, and servers close connections or answer early. A non-idempotent request is never sent to a server that may already have acted on it, and the connection limit is never exceeded.",
     ["schedules", "fault_sequences"], "all server behaviours at each point of a pipeline: reply, close before/within/after a reply, redirect, 401, idle close",
     "Tests script a few server behaviours.",
     ["pyslet/http/client.py", "pyslet/http/messages.py"],
     [("Connection.connection_task, Client.queue_request/thread_task, ClientRequest.response_finished/resend", "pyslet/http/client.py")],
     observe=["Client.process_request and the bytes the server sees"],
     done=True,
     note='spec/HTTPClient.tla: one connection with pipelining, a server that answers in order and may break the connection anywhere. TLC explores every schedule (responses matched, POST never pipelined nor repeated, every request ends exactly once). Histories of a real Client with scripted servers on an in-memory network (any fragmentation, errors, truncation, early answers, 1xx, redirections) are validated by HTTPClientTrace.')
prop("C15", "The cookie store returns exactly the cookies a request may carry",
     "After any history of set-cookie, expiry, end-of-session and search operations, searching a URL returns exactly the unexpired stored cookies whose domain, path, secure and http-only attributes match the URL under RFC 6265, longest path first and then oldest first. A cookie is accepted only from a host within its domain and never for a public suffix; setting a cookie with the same name, domain and path replaces it, keeping its creation time.",
     ["histories", "inputs"], "all histories over small sets of hosts, paths, names and attributes",
     "Tests set a few cookies; matching is a product of domain, path and attribute relations.",
     ["pyslet/http/cookie.py"],
     [("CookieStore.set_cookie/search/expire_cookies/end_session/public suffix tables", "pyslet/http/cookie.py")],
     observe=["CookieStore.set_cookie/search/check_public_suffix/get_registered_domain"],
     done=True,
     note='spec/CookieStore.tla: the cookie store of RFC 6265 with a public suffix list. TLC explores small histories (a cookie never leaves the site that set it) and prints all short rule lists with the registered domain of every domain, and all pairs of short paths, which are replayed; random histories of Set-Cookie headers, searches, expiry, end of session and rule changes under a virtual clock are recorded and validated by CookieStoreTrace.')
prop("C16", "Credentials are used only inside their own protection space",
     "The HTTP client attaches credentials to a request, or answers a challenge with them, only if the scheme, host and port match the protection space and, for a challenge, the realm matches; unprompted, only for paths at or below a path where they already succeeded or when a request that carried them is redirected within that space. After any history of challenges, successes, redirects and removals no request outside that space carries them, and rejected credentials are not retried forever.",
     ["histories", "inputs"], "all histories of requests, challenges and credentials over small sets of servers, realms and paths",
     "Tests check one server with one realm.",
     ["pyslet/http/auth.py", "pyslet/http/client.py"],
     [("BasicCredentials.test_url/add_success_path/is_prefix, match_challenge", "pyslet/http/auth.py"), ("Client.find_credentials*, ClientRequest.response_finished", "pyslet/http/client.py")],
     observe=["Authorization headers on outgoing requests"],
     done=True,
     note='spec/AuthSpace.tla: requests, challenges, redirections and credentials of an HTTP client. TLC explores all histories over two spaces, four paths and every set of credentials (credentials never leave their space, unprompted only below a path where they worked, challenges cost credentials). A real Client talks to scripted servers over an in-memory network; every request seen by a server and every answer is validated by AuthSpaceTrace.')
prop("C17", "Content negotiation picks the best acceptable alternative",
     "For any Accept, Accept-Charset, Accept-Encoding or Accept-Language value and any list of available alternatives, the chosen alternative is one whose quality under the most specific matching range is non-zero and maximal, and none is chosen only if none is acceptable. Parsing the text form of any parsed header value gives an equal value.",
     ["inputs"], "all header values over small token sets with q-values and parameters",
     "Selection is a function of a product of ranges and alternatives.",
     ["pyslet/http/messages.py", "pyslet/http/params.py", "pyslet/http/grammar.py"],
     [("AcceptList.select_type, AcceptTokenList.select_token and subclasses", "pyslet/http/messages.py")],
     observe=["AcceptList.from_str(..).select_type(..) etc."])
prop("C18", "Data stays readable and signatures stay valid across key changes",
     "Anything encrypted or signed under a key that was current at the time can be decrypted or verified after any number (up to the maximum age) of later key changes, by the same process or by one restarted with the newest key; an old key stays in use until its change-over time and never after. A signature or message altered in any way, or made with a different key, is rejected.",
     ["histories", "inputs"], "all histories of key changes, clock advances, restarts, encryptions and signatures",
     "Tests change the key once or twice in one process.",
     ["pyslet/wsgi.py"],
     [("AppCipher.change_key/_get_cipher/_get_current_cipher/check_signature", "pyslet/wsgi.py")],
     observe=["AppCipher public methods"],
     done=True,
     note='spec/Cipher.tla models the processes that share the key table, the chain of key changes with their change-over times, the tokens and the clock; TLC explores it (CipherMC, judging every event with the same step function) and the printed histories and random ones, under a virtual clock, are run on real AppCipher objects over memory and SQL containers and validated by CipherTrace.')
prop("C19", "Only the browser that established a session can act in it",
     "For any history of browser requests, including replayed, tampered and mixed-up cookies, query parameters and user agents, a page handler only ever runs in an established, unexpired session whose identifier was never exposed in a URL; a POST reaches its handler only with the session's own token; redirects only lead back into the application. Cookies that fail verification or have timed out start a new session.",
     ["histories", "inputs"], "all histories of honest and hostile requests from several browsers with clock advances",
     "Tests follow the honest path and a few single deviations.",
     ["pyslet/wsgi.py"],
     [("SessionApp.session_wrapper/set_session/session_page/ctest/wlaunch/check_redirect", "pyslet/wsgi.py"), ("CookieSession", "pyslet/wsgi.py")],
     observe=["WSGI responses of a SessionApp"])
prop("C20", "A WSGI request runs the handler registered for its longest path",
     "For any set of registered handlers and any request path, the dispatcher runs the handler of the deepest matching registration (exact match first, then the nearest wildcard) or answers not found, whatever the order of registration; the script name and path info it reports always concatenate to the request path, and query, form and cookie parameters are returned exactly as sent.",
     ["inputs", "configurations"], "all registration sets and request paths over a small segment alphabet",
     "Tests register one fixed tree.",
     ["pyslet/wsgi.py"],
     [("WSGIApp.set_method/__call__", "pyslet/wsgi.py"), ("WSGIContext", "pyslet/wsgi.py")],
     observe=["WSGIApp.__call__"],
     done=True,
     note='spec/Dispatch.tla defines which registration a path runs (declaratively and as a tree walk; TLC shows both agree); DispatchTrace judges the handler chosen, the URL rebuilt, the query and form parameters and static files of real requests.')
prop("C21", "An LTI launch is accepted once, from its own consumer, unaltered",
     "A launch is accepted only if it was signed with the secret of a registered consumer, no signed parameter was altered, its timestamp is within the window and its nonce was not used before by that consumer; a replay is refused while its timestamp would still be accepted. The same consumer's context, resource and user identifiers always map to the same records and different consumers' never to the same ones, and permissions follow the roles in the launch.",
     ["histories", "inputs"], "all histories of genuine, altered, replayed and late launches from several consumers",
     "Tests launch once or twice.",
     ["pyslet/imsbltiv1p0.py"],
     [("ToolProvider.launch/validate_timestamp_and_nonce, ToolConsumer.get_context/get_resource/get_user", "pyslet/imsbltiv1p0.py")],
     observe=["ToolProvider.launch, ToolConsumer.get_*"])
prop("C22", "URI references resolve and relativise as RFC 2396 defines",
     "For any absolute base and any reference, the resolved URI is the one defined by the RFC 2396 resolution algorithm, and resolving the relative form of a URI against the same base gives that URI back. Canonicalising is idempotent and makes equivalent URIs equal (with equal hashes) without changing which resource is named, and splitting a URI into components and formatting it gives the original string.",
     ["inputs"], "all URIs over small component and path-segment alphabets including dot segments and empty segments",
     "Tests check the RFC's example table.",
     ["pyslet/rfc2396.py", "pyslet/http/params.py", "pyslet/urn.py"],
     [("URI.resolve/relative/canonicalize, normalize_segments", "pyslet/rfc2396.py")],
     observe=["URI.from_octets, resolve, relative, canonicalize, ==, hash"],
     done=True,
     note='spec/URI.tla defines resolution, normal form and relative forms; URIMC checks that relative forms lead back (all absolute pairs up to 3 segments); URITrace judges 100k events of the code: parse/format, resolve, relative, canonical forms, equality and hashes.')
prop("C23", "Calendar, ordinal and week dates name the same days and order by time",
     "Converting any date between calendar, ordinal, week and absolute-day forms and back gives the same day, consecutive days are consecutive in every form, and formatting and parsing any date, time or time point in any supported format gives an equal value. Shifting a time point to another zone or offsetting it by a duration names the instant it should, and comparison orders time points by instant.",
     ["inputs"], "all dates across century, leap-year and week-year boundaries, all precisions, truncations and zones",
     "Tests list chosen dates.",
     ["pyslet/iso8601.py"],
     [("Date, Time, TimePoint conversions", "pyslet/iso8601.py")],
     observe=["Date/Time/TimePoint constructors, get_*, offset, shift_zone, comparison"],
     done=True,
     note='spec/Calendar.tla: the proleptic calendar by day numbers, with calendar, ordinal, week and Julian forms, truncated forms relative to a base, reduced precision, times, zones and time points as instants. TLC checks the conversions against each other on every day of a range (thorough: years 1 to 9990); conversions, texts, truncated and reduced forms, offsets, zone shifts, comparisons and Unix times of pyslet.iso8601 are recorded as independent questions and judged by TLC.')
prop("C24", "Character classes obey set algebra whatever their history",
     "A character class built by any sequence of adding, subtracting and merging characters, ranges and classes and negating contains exactly the characters set algebra says, and membership tests, equality and the regular-expression form all agree with that set.",
     ["histories", "inputs"], "all operation sequences over a small alphabet embedded at several code-point boundaries",
     "Tests apply a few operations; range merge/split errors depend on adjacency and order.",
     ["pyslet/unicode5.py"],
     [("CharClass add_range/subtract_range/negate/_merge/test", "pyslet/unicode5.py")],
     observe=["CharClass.test, ==, str/re"],
     done=True,
     note='spec/CharSet.tla: classes as sets of intervals of code points. TLC explores every class (6 atoms, 64 sets; two classes with 4 atoms, 256 states) and every operation; each transition is replayed with the atoms placed at several places of the code space (regular-expression special characters, cache block boundaries, surrogates, both ends), plus random histories of three classes over up to 26 atoms; membership (cached and not), str as regular expression, format_re and equality are judged by TLC after every operation.')
prop("C25", "A validating parse accepts exactly the children the content model allows",
     "For any declared content model and any sequence of child elements, the validating XML parser reports a validity error if and only if the sequence is not in the language of the model (including mixed, EMPTY and ANY), and flags exactly the non-deterministic models.",
     ["inputs"], "all content models and child sequences to bounded size",
     "Tests use a few DTDs.",
     ["pyslet/xml/parser.py", "pyslet/xml/structures.py"],
     [("ContentParticleCursor, build_particle_maps, seek_particles, is_deterministic", "pyslet/xml/structures.py")],
     observe=["XMLParser with check_validity"],
     done=True,
     note='spec/ContentModel.tla defines the language of a content model twice, by its meaning and as the state of a parse (the residues of the model), and determinism over marked occurrences; TLC checks the two against each other on all small models and words and prints every case, each of which is parsed by the real parser; random documents with nested elements, entities, data and undeclared elements are recorded and validated by ContentModelTrace.')
prop("C26", "Parsing what was written gives the same document back",
     "Writing any document tree and parsing the result gives an equal tree (names, namespaces, attributes, character data), and parsing follows XML: line ends and attribute values are normalised, entity and character references are expanded once and never recursively, and input that is not well formed is rejected.",
     ["inputs"], "all small trees and all texts over an alphabet of markup-significant characters",
     "Round trips are quantified over trees; escaping bugs need particular character sequences.",
     ["pyslet/xml/parser.py", "pyslet/xml/structures.py", "pyslet/xml/namespace.py"],
     [("generate_xml, escape_char_data, write_nsattrs", "pyslet/xml/structures.py"), ("parse_att_value, parse_reference, push_entity, expand_qname", "pyslet/xml/parser.py")],
     observe=["Document.read, str(document)"])
prop("C27", "Document trees stay consistent through any edits",
     "After any sequence of adding, removing, moving and identifying elements, every element is a child of exactly its parent, belongs to its root's document, and the document's ID table maps exactly the IDs of the elements attached to it; an edit that would break this (cycle, duplicate ID, disallowed child) is refused and changes nothing.",
     ["histories"], "all edit sequences over a few elements and documents",
     "Tests build trees once and look at them.",
     ["pyslet/xml/structures.py"],
     [("Element.add_child/remove_child/attach_to_*/detach_from_*, set_id, Document.register_element", "pyslet/xml/structures.py")],
     observe=["Element.parent, get_children, get_document, Document.get_element_by_id"],
     done=True,
     note='spec/XMLTree.tla models elements, content, IDs and documents under 12 kinds of edit; every transition of its bounded graph is replayed on real elements (plain, always empty, customised content model) and random histories are judged by XMLTreeTrace.')
prop("C28", "Schema regular expressions and simple types mean what XSD says",
     "A schema regular expression matches exactly the strings in its XSD language (branches, quantifiers, classes, subtraction, escapes), and every XSD boolean, integer, decimal, float, double and duration lexical form parses to its value, formats to a form that parses to an equal value, and anything else is rejected.",
     ["inputs"], "all expressions and strings to bounded size; all numeric forms over sign, digit, point and exponent patterns",
     "Language equality is quantified over strings.",
     ["pyslet/xml/xsdatatypes.py"],
     [("RegularExpressionParser, decimal_to_str, double_to_str", "pyslet/xml/xsdatatypes.py")],
     observe=["RegularExpression(p).match(s), *_from_str, *_to_str"])
prop("C29", "The in-memory file system behaves as a file tree",
     "Any sequence of making, writing, copying, listing and removing files and directories in the virtual file system has the effect it has on a tree of directories and files, failing (without change) exactly when a parent is missing, a name is taken, or a directory is not empty. Joining, splitting and normalising paths obey the path algebra: joining the parts of a split path gives an equivalent path, and normalising is idempotent and never changes the file named.",
     ["histories", "inputs"], "all histories over a small tree; all paths over a small segment alphabet",
     "Tests walk one script.",
     ["pyslet/vfs.py"],
     [("VirtualFilePath, MemFilePath", "pyslet/vfs.py")],
     observe=["MemFilePath methods"],
     done=True,
     note='spec/FileTree.tla: path algebra (parts between separators) and a tree with open files. TLC checks the algebra on all paths of up to 4 parts and the tree invariants on every tree over 4 places; every transition is replayed on MemFilePath (text and binary paths; thorough: also drives and backslashes), every path of up to 4 parts and every pair of joins is checked in four file systems, and 1,200 random histories with odd paths, working directories and up to three open files are validated by TLC.')
prop("C30", "QTI expressions evaluate by the QTI rules for type, order and null",
     "Evaluating any QTI expression tree gives the value the QTI specification defines for its operator, including cardinality and base-type checks and the rules for null operands; ill-typed expressions raise a processing error rather than giving a value.",
     ["inputs", "programs"], "all operators over all small values of every base type and cardinality, nested to bounded depth",
     "Tests try a few operands per operator.",
     ["pyslet/qtiv2/expressions.py", "pyslet/qtiv2/variables.py"],
     [("Expression.evaluate of each operator", "pyslet/qtiv2/expressions.py")],
     observe=["expression.evaluate(session_state)"])
prop("C31", "Item sessions run rules in order and keep variables typed",
     "In an item session, defaults, responses, attempts and template and response processing change variables exactly as the rules, run in order with the first true branch and stopping at exit rules, prescribe; built-in counters and completion status follow the attempts; a variable only ever holds null or a value of its declared type. Saved parameters that were tampered with are ignored or refused.",
     ["histories", "programs"], "all small rule programs and all begin/save/submit/end histories",
     "Tests run one item.",
     ["pyslet/qtiv2/processing.py", "pyslet/qtiv2/variables.py"],
     [("ResponseCondition/TemplateCondition.run, ItemSessionState", "pyslet/qtiv2/variables.py")],
     observe=["ItemSessionState variables"])
prop("C32", "Test forms respect selection and ordering; sessions visit them in order",
     "A form created for a test contains, for every section, exactly the selected number of children, all required ones, repeats only where replacement is allowed, fixed parts in place, and invisible sections' unkept parts mixed as prescribed. Running a session visits the form's questions in order, honouring pre-conditions and branch rules, accepts each action only with the current session key, and ends after the last question.",
     ["inputs", "histories"], "all small test structures, random choices and navigation histories",
     "Tests build a few forms with random choices unconstrained.",
     ["pyslet/qtiv2/tests.py", "pyslet/qtiv2/variables.py"],
     [("TestForm.select", "pyslet/qtiv2/tests.py"), ("TestSessionState._next_question/begin_session/handle_event", "pyslet/qtiv2/variables.py")],
     observe=["TestForm, TestSessionState"])
prop("C33", "Entity data values hold only values of their declared type",
     "Setting an EDM value from any Python value, literal or other EDM value either stores exactly that value within the type's range, precision and facets (max length, precision, scale) or raises an error and keeps the old value; a cast gives the same number or an error, and two values are equal exactly when they denote the same value after promotion.",
     ["inputs"], "all simple types crossed with boundary values and facets",
     "Tests check selected boundaries per type.",
     ["pyslet/odata2/csdl.py"],
     [("SimpleValue subclasses set_from_value/set_from_literal/cast/__eq__", "pyslet/odata2/csdl.py")],
     observe=["EDMValue.set_from_value, set_from_literal, cast, value"])
prop("C34", "Name tables in the data model stay unique and complete",
     "After any sequence of declaring and undeclaring names in schemas, types and containers, a qualified name looks up exactly the object declared under it, duplicates are refused without effect, and length and iteration agree with lookup; every type, set and association end reference in a complete model resolves to the object of that name whichever order declarations arrive in.",
     ["histories", "configurations"], "all declare/undeclare sequences and all orders of model elements",
     "Tests load metadata in one order.",
     ["pyslet/odata2/csdl.py"],
     [("NameTableMixin.declare/undeclare, TypeRef, update_*_refs", "pyslet/odata2/csdl.py")],
     observe=["Schema/DataServices lookup, EntitySet.entityType, get_target"],
     done=True,
     note='spec/NameTable.tla models nested scopes (declare, undeclare, lookup) and, for whole data models, what every reference must resolve to (Facts) and every qualified name (Names); the graph is replayed on real schema objects and random models are written in random orders, read and compared.')
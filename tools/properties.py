prop('C01', 'Event type matching rules',
     "A query type matches an event type exactly when their subtypes agree "
     "one by one, where '?' stands for exactly one arbitrary subtype and a "
     "final '*' for zero or more arbitrary subtypes. A subscription matches "
     "an event type exactly when at least one of its query types does, for "
     "every available implementation of subscriptions. Query types with '*' "
     "before the last subtype are refused.",
     ['inputs'],
     'all event types up to 3 (thorough 4) subtypes against query types of '
     'up to 3 subtypes, subtypes over a pool of 16 texts including '
     'wildcards and empty text; subscriptions of up to 3 query types',
     'tests list some tens of pairs; wildcards, empty types and prefix '
     'relations combine beyond them',
     ['common/matches.py', 'common/subscription/pysubscription.py',
      'common/subscription/csubscription.py'],
     [('recursive matching', 'common/matches.py'),
      ('subtype tree', 'common/subscription/pysubscription.py')],
     'All paths of matches_query_type and subscription matching within the '
     'size bounds.',
     ['matches_query_type', 'Subscription.matches'])

prop('C02', 'Subscription set algebra',
     'Union and intersection of subscriptions match exactly the event types '
     'matched by any, respectively all, of them; the query types a '
     'subscription reports describe exactly what it matches. Two '
     'subscriptions are disjoint exactly when no event type is matched by '
     'both. This holds also for subscriptions which are themselves results '
     'of these operations.',
     ['inputs'],
     'subscriptions of up to 2-3 query types of up to 2 subtypes (three '
     'subscriptions in union/intersection), event types up to 3 subtypes, '
     'subtypes over a pool of 16 texts',
     'tests use a fixed list of pairs; the algebra must hold for every '
     'combination of wildcards and prefixes',
     ['common/subscription/common.py',
      'common/subscription/pysubscription.py',
      'common/subscription/csubscription.py'],
     [('tree merge and intersection', 'common/subscription/common.py')],
     'All paths within the size bounds; disjointness decided against the '
     'existence of a common event type.',
     ['Subscription.union', 'Subscription.intersection',
      'Subscription.isdisjoint', 'Subscription.get_query_types'])

prop('C03', 'Event type collection is a multimap over subscriptions',
     'After any sequence of adding and removing values, looking up an event '
     'type yields exactly the values with at least one subscription matching '
     'it, each once; iteration and length agree with the values added and '
     'not removed. All implementations of the collection agree.',
     ['histories', 'inputs'],
     'two or three add/remove steps with up to 2 query types of up to 2 '
     'subtypes each, re-adding of values included; lookups of event types '
     'up to 2 subtypes',
     'tests use single fixed histories',
     ['common/collection/common.py', 'common/collection/pytree.py',
      'common/collection/pylist.py', 'common/collection/ctree.py'],
     [('tree of values', 'common/collection/pytree.py'),
      ('list of pairs', 'common/collection/pylist.py')],
     'All paths of both pure python collections within the history and size '
     'bounds.',
     ['EventTypeCollection.get'])

prop('C04', 'Timestamp conversions and arithmetic',
     'Timestamp to bytes conversion keeps value and order over the whole '
     'range; conversion to datetime and back keeps the value, naive datetimes '
     'are taken as UTC, and conversion to float and back keeps the value and '
     'order for moments within 2^32 seconds of the epoch. Every resulting '
     'timestamp has 0 <= us < 10^6 and adding seconds to a timestamp moves it '
     'by exactly that amount, rounded to a microsecond; timestamps are '
     'ordered by time.',
     ['inputs'],
     'all timestamps with 64 bit seconds; floats in stated magnitude ranges '
     'with IEEE 754 rounding',
     'rounding and carry at rare values (negative whole seconds, values just '
     'below a microsecond boundary) are not reachable by samples',
     ['common/common.py', 'common/encoder.py'],
     [('normalization in add', 'common/common.py'),
      ('conversions', 'common/encoder.py')],
     'Integer parts over the complete domain; doubles modelled as reals with '
     'bounded rounding error and grid, counterexamples refined to exact '
     'doubles.',
     ['Timestamp.add', 'timestamp_to_bytes', 'timestamp_from_bytes',
      'timestamp_to_float', 'timestamp_from_float', 'timestamp_to_datetime',
      'timestamp_from_datetime'])

prop('C05', 'Protocol data encoding loses nothing',
     'Events, register events, event ids, timestamps, payloads (none, JSON, '
     'binary), all query parameter variants with every optional field '
     'present or absent, query results and statuses are the same after '
     'encoding to protocol data and decoding back.',
     ['inputs'],
     'every combination of optional fields, integers over 64 bits, event '
     'types of 0-3 subtypes, JSON of six shapes with arbitrary leafs, binary '
     'payloads',
     'tests use a single event and single parameters',
     ['common/encoder.py'],
     [('to/from sbs functions', 'common/encoder.py')],
     'SBS serialization itself is modelled as an inverse pair which validates '
     'the regenerated schema.',
     ['event_to_sbs', 'event_from_sbs', 'query_params_to_sbs',
      'query_params_from_sbs', 'query_result_to_sbs'])

prop('C06', 'Natural event order',
     'Comparing two events of one server follows their session and instance '
     'identifiers, comparing events of different servers follows their '
     'timestamps, an event is neither before nor after itself, and two '
     'different events are always ordered by < or >. Sorting events gives '
     'an order in which neither timestamps nor the identifiers of any '
     'server go backwards.',
     ['inputs'],
     'all identifiers and timestamps of two events; sorting of up to 3 '
     '(thorough 4) events',
     'not tested directly at all',
     ['common/common.py'],
     [('Event comparison operators', 'common/common.py')],
     'Complete for pairs.',
     ['Event.__lt__', 'Event.__gt__'])

prop('C07', 'Database keys and values decode to what was encoded',
     'Every key and value of every database of the LMDB backend decodes to '
     'what was encoded. The byte order of encoded keys, which is the order in '
     'which LMDB iterates over them, is the order of the identifiers, '
     'timestamps and partitions they represent.',
     ['inputs'],
     'all keys and pairs of keys with 64 bit integers; values of every field '
     'combination, event types up to 3 subtypes, up to 3 (thorough 4) '
     'references',
     'not tested directly; order of encoded integers and timestamps is broken '
     'only at sign and byte boundaries which samples avoid',
     ['backends/lmdb/common.py', 'common/encoder.py'],
     [('database definitions', 'backends/lmdb/common.py')],
     'Complete for keys; values up to stated sizes. SBS and JSON '
     'serialization of payloads is modelled as an inverse pair.',
     ['db_defs'])

prop('C08', 'Only valid events are registered, each exactly once',
     'Of the events registered to the LMDB backend, exactly those whose '
     'identifier is greater than the last accepted one of the same server and '
     'whose timestamp does not go backwards for that server are accepted, and '
     'each of them is returned by queries exactly once, at once and after '
     'the database is reopened; the last accepted identifier of each server '
     'is reported likewise. Registration reports every batch to the '
     'registered callback once, and, once it is written to the database, to '
     'the flushed callback once and in the same order. A database is opened '
     'only with the identifier it was created with.',
     ['histories', 'inputs'],
     'histories of 2-3 events of arbitrary identifiers, timestamps and source '
     'timestamps, in one batch or separately, with flush or reopening after '
     'each',
     'validity depends on the relation of identifiers and timestamps across '
     'batches, servers, flushes and restarts; tests register few increasing '
     'events',
     ['backends/lmdb/backend.py', 'backends/lmdb/systemdb.py',
      'backends/lmdb/latestdb.py', 'backends/lmdb/timeseriesdb.py',
      'backends/lmdb/refdb.py'],
     [('registration', 'backends/lmdb/backend.py'),
      ('last identifiers', 'backends/lmdb/systemdb.py')],
     'All paths within the history bounds; LMDB is modelled as a set of '
     'ordered maps with transactions, alarms are replayed on the real '
     'library.',
     ['create', 'register', 'query', 'get_last_event_id'],
     [('last event id and timestamp of each server', 'cached and persisted',
       'backends/lmdb/systemdb.py')])

prop('C09', 'Latest events',
     'A query for latest events yields, for every event type the backend is '
     'configured to track, exactly the last accepted event of that type, '
     'provided the event type matches any of the queried types (if given). '
     'The answer is the same before and after changes are flushed and after '
     'the database is reopened, and conditions which an event does not '
     'satisfy exclude it also when configured on reopening.',
     ['histories', 'inputs', 'configurations'],
     'histories of up to 3 events with types of 0-3 subtypes, flush or '
     'reopening after each; queries of up to 2 query types of up to 2 '
     'subtypes; changed subscriptions and conditions between openings',
     'replacement of latest event depends on history across restarts; tests '
     'use single sessions',
     ['backends/lmdb/latestdb.py', 'backends/lmdb/backend.py',
      'backends/lmdb/conditions.py'],
     [('latest database', 'backends/lmdb/latestdb.py')],
     'All paths within the history bounds over a model of LMDB.',
     ['query'],
     [('latest events by type', 'cached and persisted',
       'backends/lmdb/latestdb.py')])

prop('C10', 'Timeseries queries',
     'A timeseries query yields exactly the registered events kept in the '
     'timeseries which match the queried event types and all four time '
     'limits, each once, in ascending or descending order of the requested '
     'timestamp. Results are limited to the requested or configured number '
     'of events, the answer says whether more events follow, and continuing '
     'after the last returned event pages through all of them without '
     'omission or repetition. The answer does not depend on which of the '
     'events are already flushed to the database.',
     ['histories', 'inputs', 'configurations'],
     '2-3 events of one or two servers with arbitrary timestamps and source '
     'timestamps (present or absent), any flush between; every combination '
     'of order, order by, limits, page size; up to 4 partitions',
     'boundaries of intervals and pages and the split between cached and '
     'persisted events multiply; tests sample few of them',
     ['backends/lmdb/timeseriesdb.py', 'backends/lmdb/backend.py'],
     [('query of cached and persisted events',
       'backends/lmdb/timeseriesdb.py')],
     'All paths within the history bounds over a model of LMDB.',
     ['query'],
     [('unflushed changes', 'events registered since last flush',
       'backends/lmdb/timeseriesdb.py')])

prop('C11', 'Server event queries deliver every event once and in order',
     'A query for events of one server after a given event yields exactly '
     'the retained later events of that server, ordered by identifier and '
     'limited to the requested number, with information whether more follow; '
     'with the persisted option only events written to the database are '
     'returned. Paging by last returned event misses and repeats nothing, '
     'also when registration and flushing are interleaved with queries, and '
     'when the database is reopened with changed configuration.',
     ['histories', 'schedules', 'configurations'],
     '2-3 events of two servers, flush or reopening after each, any page; '
     'interleavings of registration, flush and query with executor jobs; '
     '2-3 openings with changed configuration',
     'replication depends on it after every interleaving of flush and query, '
     'tests run them one after another',
     ['backends/lmdb/refdb.py', 'backends/lmdb/latestdb.py',
      'backends/lmdb/timeseriesdb.py', 'backends/lmdb/backend.py'],
     [('references of events', 'backends/lmdb/refdb.py'),
      ('flush', 'backends/lmdb/backend.py')],
     'All paths and schedules within the bounds over a model of LMDB and of '
     'the event loop.',
     ['query'],
     [('references', 'event id to latest/timeseries keys',
       'backends/lmdb/refdb.py')])

prop('C12', 'Cleanup keeps configured limits of timeseries',
     'Cleanup removes from every limited timeseries partition exactly the '
     'oldest events which exceed the maximum number of entries, the size or '
     'the duration, and never reduces a partition below its minimum number '
     'of entries. Other partitions, latest events and events only registered '
     'after are left as they were, and removed events no longer appear in '
     'server queries unless they are retained elsewhere.',
     ['histories', 'inputs', 'configurations'],
     '2-3 events with arbitrary timestamps, every combination of limits from '
     'stated values, chunked cleanup, up to two partitions, arbitrary current '
     'time',
     'limits combine, and cleanup competes with unflushed events and chunks; '
     'tests check single limits',
     ['backends/lmdb/timeseriesdb.py', 'backends/lmdb/refdb.py',
      'backends/lmdb/backend.py'],
     [('cleanup', 'backends/lmdb/timeseriesdb.py')],
     'All paths within the bounds over a model of LMDB with single page '
     'statistics.',
     ['query'],
     [('partition entry counts', 'persisted number of entries',
       'backends/lmdb/timeseriesdb.py')])

prop('C13', 'Crashes and failures lose no flushed event and leave no gap',
     'After a crash or a failure of any database operation, the database can '
     'be opened again and contains a prefix of the sequence of registered '
     'events which includes every event reported as flushed; all queries '
     'agree on that content. A failed flush closes the backend and is '
     'reported to those waiting for it.',
     ['crash_points', 'fault_sequences', 'schedules'],
     'crash or error at any of up to 60 database operations of creation, '
     'opening, flush, cleanup and closing, in all interleavings of '
     'registration, flush and executor jobs of 5-6 steps',
     'no test injects a failure or crash',
     ['backends/lmdb/backend.py', 'backends/lmdb/environment.py',
      'backends/lmdb/common.py'],
     [('flush loop', 'backends/lmdb/backend.py'),
      ('creation of databases', 'backends/lmdb/environment.py')],
     'All crash points and schedules within the bounds, under the documented '
     'atomicity and durability of LMDB transactions.',
     ['create', 'flush', 'query'])

prop('C14', 'Engine sessions: complete, ordered, uniquely identified',
     'Requests to register events are processed one session at a time, in '
     'the order in which they were made. A session contains the requested '
     'events in order followed by all events which modules produced for '
     'events matching their subscriptions, repeated until nothing more is '
     'produced, and modules take part from its start to its end. All its '
     'events get the identifier of the server, the same session and '
     'timestamp (the current time), consecutive instance numbers, and the '
     'session identifiers continue those of the backend without repetition. All events of a session are registered to the backend '
     'at once and the result reports exactly the requested events. A '
     'failure of a module or backend closes the engine, closing ends all '
     'waiting requests, and cancelling one request does not disturb others.',
     ['histories', 'schedules', 'fault_sequences'],
     'up to 3 requests of up to 3 events, up to 2 (thorough 3) modules of '
     'arbitrary subscriptions producing up to 2 (thorough 3) events, '
     'synchronous or asynchronous calls; failure of any call, cancelling '
     'and closing at any step of the event loop',
     'tests use fixed sequences; cancelling, failures and closing at any '
     'moment are not tested',
     ['server/engine.py'],
     [('session processing', 'server/engine.py')],
     'All paths and schedules within the bounds over a deterministic event '
     'loop; clock is symbolic and monotonic.',
     ['Engine.register'],
     [('last event id', 'session counter', 'server/engine.py')])

prop('C15', 'Eventer notifications reach every subscriber once and in order',
     'Every notification of registered or persisted events reaches exactly '
     'the connected clients which asked for that kind of events, with '
     'exactly those events which match the subscription and server of the '
     'client, in order and not repeated; clients without such events are '
     'not notified. Notification with acknowledgment completes only when '
     'all notified clients processed it or were disconnected, and '
     'disconnection of one client does not affect waiting for others. Every '
     'client sees each change of server status, in order, starting with '
     'that at the moment of its connection.',
     ['inputs', 'schedules'],
     'up to 3 clients of any subscription, server and kind; up to 4 '
     'notifications or status changes, clients connecting, closing or lost '
     'at any step of the event loop',
     'tests use one client at a time without concurrent disconnects',
     ['eventer/server.py', 'eventer/client.py'],
     [('notification', 'eventer/server.py'),
      ('receiving', 'eventer/client.py')],
     'All paths and schedules within the bounds. Transport is a reliable '
     'ordered channel; chatter above it is the real library.',
     ['notify_events', 'set_status', 'events_cb', 'status_cb'])

prop('C16', 'Eventer requests get their own responses',
     'Each register and query request of a client arrives at the server '
     'once, unchanged and in order, and its caller gets the result which '
     'the server produced for that very request, also when many requests '
     'wait at once and responses arrive in any order; a failed query or '
     'registration is reported as such. Repeated or unexpected responses '
     'are not delivered to other requests. When the connection is closed or '
     'lost all waiting requests end with connection error. A peer which '
     'does not follow the protocol is disconnected without effect on other '
     'clients.',
     ['schedules', 'inputs', 'fault_sequences'],
     'up to 4 concurrent requests of up to 2 clients; responses in any '
     'order; closing, loss or cancelling at any step; up to 3 (thorough) '
     'arbitrary messages of a client',
     'tests make one request at a time',
     ['eventer/client.py', 'eventer/server.py', 'eventer/common.py'],
     [('conversations', 'eventer/client.py'),
      ('protocol', 'eventer/server.py')],
     'All paths and schedules within the bounds over the real chatter '
     'library on simulated transport.',
     ['Client.register', 'Client.query', 'register_cb', 'query_cb'])

prop('C17', 'Synchronization copies all remote events exactly once',
     'After connecting to a remote event server, all its events persisted '
     'after those already known locally are registered to the local backend '
     'exactly once and in order, no matter how they divide between pages of '
     'query and notifications received meanwhile. Synchronization is '
     'reported as connected, synchronized (with the number of events) and '
     'disconnected accordingly, the last one whenever connection is closed, '
     'and status of the remote server is reported as it changes. A failure '
     'of local registration or loss of connection closes the client and '
     'loses nothing which the next connection would not get.',
     ['schedules', 'histories', 'fault_sequences'],
     'up to 3 sessions of remote events, any page limits and local starting '
     'point, up to 2 flushes, connection loss and registration failure at '
     'any step of the event loop',
     'the race of paged query with notifications is not tested',
     ['server/eventer_client.py'],
     [('synchronization', 'server/eventer_client.py')],
     'All paths and schedules within the bounds; remote server is the real '
     'eventer server with a model of its backend.',
     ['synced_cb', 'Backend.register'])

prop('C18', 'Engine runner keeps exactly one engine while it should',
     'An engine and its modules are created only while no remote event '
     'server is active, and one engine exists at a time; the eventer server is operational '
     'exactly while an engine exists, passing starting and stopping between. '
     'Restart closes the engine with all of its modules, flushes the '
     'backend and creates a new one. Whatever moment restart, change of '
     'remote servers, failure of a module or closing happens at, every '
     'created engine and module is closed, and closing of the runner ends '
     'in standby state.',
     ['schedules', 'fault_sequences'],
     'up to 4 (thorough 5) operations of restart, remote activity, '
     'synchronization status, module failure and closing, at any step of '
     'the event loop; up to 2 modules of arbitrary duration of calls',
     'tests do not interrupt creation and closing',
     ['server/engine_runner.py', 'server/engine.py'],
     [('engine loop', 'server/engine_runner.py'),
      ('creation of modules', 'server/engine.py')],
     'All paths and schedules within the bounds.',
     ['set_status', 'create_module'])

prop('C19', 'Eventer server registers what clients do, as those clients',
     'Only clients without token or with the token of the server are '
     'accepted. While an engine is operational, connecting and disconnecting '
     'of each client is registered as an event naming the server and the '
     'client, requested events are registered by the current engine exactly '
     'once, and its result is returned; a request while there is no engine '
     'is reported as failed. All these come from the same source for one '
     'client and different sources for different clients, and the reported '
     'list of clients agrees. Queries are answered by the backend. '
     'All clients see the current status, whenever they connect, and an '
     'operational status cannot be set without an engine nor any other '
     'with one.',
     ['histories', 'schedules'],
     'up to 6 operations of connecting, disconnecting, registration, query '
     'and changes of status; connecting at any moment of 2 status changes',
     'tests check single operations',
     ['server/eventer_server.py', 'eventer/server.py'],
     [('client events', 'server/eventer_server.py')],
     'All paths and schedules within the bounds over the real chatter '
     'library on simulated transport.',
     ['set_status', 'get_client_names', 'Engine.register'])

prop('C20', 'Component follows the active server with one runner',
     'An eventer component is connected to the event server which is the '
     'active one for it: the newest blessed and ready component of the '
     'given group in the state reported by the monitor server, with a '
     'matching token. While so connected, exactly one runner created for '
     'that server exists; it is closed before a runner for another server '
     'or connection is created. Events, status and monitor state are '
     'delivered to callbacks unchanged and in order. Loss of connection or '
     'failure of the runner is followed by a new connection and a new '
     'runner while the server is active, and closing of the component '
     'closes every runner and connection, at whatever moment these happen.',
     ['schedules', 'fault_sequences', 'inputs'],
     'any 2 consecutive states of the monitor server with up to 3 '
     'components; up to 5 of: change of active server, loss of connection, '
     'closing, failure of runner, at any step of the event loop',
     'tests change the state of the monitor server only while nothing else '
     'happens',
     ['component.py'],
     [('active server selection', 'component.py'),
      ('connection loop', 'component.py')],
     'All paths and schedules within the bounds; the client of monitor and '
     'eventer are the real libraries on simulated transport.',
     ['runner_cb', 'status_cb', 'events_cb', 'state_cb'])

prop('C21', 'Eventer client runner connects to all remote servers of group',
     'A redundant event server is connected to exactly those other servers '
     'of its group which the monitor server reports together with itself '
     'and whose token agrees. Remote activity is reported exactly while '
     'some connected server is not in standby, and each change of it is '
     'notified once. Lost connections are established again exactly while the '
     'server is listed, each server has at most one connection, and all '
     'connections are closed at closing, at whatever moment '
     'these happen.',
     ['schedules', 'fault_sequences', 'inputs'],
     'any 2 consecutive states of the monitor server with up to 3 '
     'components; up to 4 of: change of status, loss of connection, closing '
     'and opening of server, change of state, at any step of the event loop',
     'tests use one server and a few state changes',
     ['server/eventer_client_runner.py', 'server/eventer_client.py'],
     [('set of connections', 'server/eventer_client_runner.py')],
     'All paths and schedules within the bounds; remote servers are real '
     'eventer servers.',
     ['remote_active', 'remote_active_cb', 'synced_cb'])

prop('C22', 'Redundant servers: one engine, complete and equal histories',
     'In the whole server process with real components, an acknowledged '
     'registration is in the database, every client is notified of exactly '
     'the events registered during its connection, in order and once, and '
     'closing leaves a complete database. Of two redundant servers at most '
     'one has an engine at a time: the other one starts its engine only '
     'after the first one stopped and all events of the first one are known '
     'to it, and both databases finally contain all events of both servers '
     'in order and once.',
     ['schedules', 'histories'],
     'single server with up to 4 operations (registration, flush, restart, '
     'closing of client, server or module); pair of servers with up to 4 '
     'changes of active server and registrations; second operation at any '
     'step of the event loop',
     'tests exercise the parts with mocks, no test runs two servers',
     ['server/main_runner.py', 'server/engine_runner.py',
      'server/eventer_client_runner.py', 'server/eventer_client.py',
      'server/eventer_server.py', 'backends/lmdb/backend.py'],
     [('composition and closing order', 'server/main_runner.py')],
     'All paths and schedules within the bounds; LMDB and transport are '
     'models.',
     ['Client.register', 'events_cb', 'Backend.query'])

prop('C23', 'Every backend answers queries as the documentation says',
     'The memory backend answers latest, timeseries and server queries '
     'exactly as the parameters say: the events which are registered and '
     'match the query types, time intervals and last event id, each once, in '
     'the given order by timestamp or source timestamp, at most the given '
     'number; pages linked by the last event id contain every event once. '
     'The last event id of each server is the one of its newest event. '
     'Callbacks are notified of each registration in order. The dummy '
     'backend returns registered events and has no history.',
     ['inputs', 'histories'],
     'up to 4 events of 2 servers with any timestamps and types, registered '
     'in any batches; any intervals, last event id, pages of 1 or 2; query '
     'types up to 2 subtypes',
     'tests use one or two histories with growing timestamps and server '
     'identifiers',
     ['backends/memory.py', 'backends/dummy.py'],
     [('queries', 'backends/memory.py')],
     'All paths within the bounds.',
     ['Backend.register', 'Backend.query', 'Backend.get_last_event_id'])

prop('C24', 'LMDB backend stores exactly events which satisfy conditions',
     'A configured condition decides about each event as described: a JSON '
     'condition is satisfied by a JSON payload whose value at the given path '
     'has the given type and equals the given data (a missing value counts '
     'as null); "all" by all and '
     '"any" by any of the nested conditions. An event is stored exactly when '
     'it satisfies every condition whose subscriptions match its type.',
     ['inputs'],
     'payloads of depth 2, any value type; up to 2 conditions with nesting '
     'of depth 2, any data',
     'tests use a few payloads for each operator',
     ['backends/lmdb/conditions.py', 'backends/lmdb/common.py'],
     [('conditions', 'backends/lmdb/conditions.py')],
     'All paths within the bounds.',
     ['Conditions.matches'])

prop('C25', 'Adminer: each request gets its own response',
     'Each request to the adminer server calls its callback once with the '
     'given parameters and gets the result of that call, or fails if the '
     'call fails; this holds for any interleaving of requests of one or '
     'more clients, cancellation, loss of connection and closing at any '
     'moment, and no request waits forever. Logging configuration read by '
     'a client is the one last successfully set.',
     ['schedules', 'inputs', 'fault_sequences'],
     'up to 3 requests of 2 clients, closing or loss at any of 18 steps; '
     'arbitrary message of a non-conforming peer',
     'tests run one request at a time',
     ['adminer/client.py', 'adminer/server.py', 'server/adminer_server.py'],
     [('pending requests', 'adminer/client.py'),
      ('request handling', 'adminer/server.py'),
      ('logging configuration', 'server/adminer_server.py')],
     'All paths and schedules within the bounds over the real chatter '
     'library on simulated transport.',
     ['Client.get_log_conf', 'Client.set_log_conf'])

prop('C26', 'Conversion of old databases preserves content',
     'Conversion of a database of version 0.6 or 0.7 yields a database of '
     'the current version whose latest events, timeseries, last event '
     'identifiers and timestamps are those of the old one; nothing is '
     'invented or lost and the old database is not changed.',
     ['inputs', 'histories'],
     'old databases with up to 2 events (thorough: 3) of any servers, '
     'sessions, timestamps and payloads in up to 2 partitions, the oldest '
     'possibly removed',
     'no test converts a database',
     ['backends/lmdb/convert/v06.py', 'backends/lmdb/convert/v07.py',
      'backends/lmdb/convert/v09.py',
      'backends/lmdb/convert/convert_v06_to_v07.py',
      'backends/lmdb/convert/convert_v07_to_v09.py',
      'backends/lmdb/convert/main.py'],
     [('conversion', 'backends/lmdb/convert/main.py')],
     'All paths within the bounds; LMDB is a model, the old database is '
     'written by the encoder of its version.',
     ['convert'])

prop('C27', 'LMDB manager shows and copies exactly what is stored',
     'Each query of the LMDB manager prints exactly the content of the '
     'database selected by its arguments. A copy contains the latest events '
     'and timeseries of the source unless they are skipped, '
     'answers server queries with the events copied, keeps last event '
     'identifiers and timestamps, settings and identity, and neither the '
     'source nor an existing database is changed.',
     ['inputs', 'histories'],
     'databases of 2 (thorough: 3) events of 2 servers in 2 partitions with '
     'any types, timestamps and payloads; any query arguments',
     'no test runs the manager',
     ['backends/lmdb/manager/main.py', 'backends/lmdb/manager/query.py',
      'backends/lmdb/manager/copy.py', 'backends/lmdb/manager/common.py'],
     [('queries', 'backends/lmdb/manager/query.py'),
      ('copy', 'backends/lmdb/manager/copy.py')],
     'All paths within the bounds; LMDB is a model.',
     ['main'])

prop('C28', 'Manager does exactly what its arguments say',
     'Each command of the event manager sends the server exactly what its '
     'arguments say, once: the event to register with its payload read from '
     'the given source, the query with the given parameters, the '
     'subscription. It prints exactly the received result and notified '
     'events, in order, as JSON; its exit status tells whether the command '
     'succeeded, and its connection is always closed.',
     ['inputs', 'schedules'],
     'any combination of arguments each with up to 3 values; results of up '
     'to 2 events of any content; 2 notifications, interruption at any of 8 '
     'steps',
     'no test runs the manager',
     ['manager/main.py', 'manager/common.py'],
     [('arguments', 'manager/main.py'), ('JSON', 'manager/common.py')],
     'All paths within the bounds; server is the real eventer server on '
     'simulated transport.',
     ['main'])

prop('C29', 'C implementation of subscriptions',
     'The C implementation of subscriptions gives the same answers as the '
     'rules demand: matching, disjointness, and the query types it reports '
     '(also after union and intersection). It refuses invalid query types '
     'and objects of other types with an exception. Whatever its input, and '
     'whichever allocation fails, it never touches memory which is not its '
     'own or not initialized, and releases every piece of memory and every '
     'reference it took exactly once.',
     ['inputs', 'fault_sequences'],
     'subscriptions of up to 2 query types of up to 2 (thorough 3) '
     'subtypes, event types of up to 3 subtypes, over a pool of 12 texts '
     'with zero characters, prefixes and multi-byte characters; any one of '
     'the first 6 allocations failing; both orders of hash table iteration',
     'the extension is not even built by the tests here; leaks, invalid '
     'accesses and failing allocations are invisible to them anyway',
     ['src_c/py/subscription/_csubscription.c',
      'common/subscription/csubscription.py'],
     [('subtype tree', 'src_c/py/subscription/_csubscription.c'),
      ('wrapper', 'common/subscription/csubscription.py')],
     'All paths of the C code (LLVM IR of the current source) and of its '
     'Python wrapper within the bounds; CPython API and the hash table of '
     'hat-util are modelled; counterexamples and sampled paths are run on '
     'the extension compiled with gcc.',
     ['Subscription.matches', 'Subscription.isdisjoint',
      'Subscription.get_query_types', 'reference counts'])

prop('C30', 'C implementation of event type collections',
     'The C implementation of the event type collection returns for each '
     'event type exactly the values added (and not since removed) with a '
     'query type matching it, each once, through any history of additions '
     'and removals in any order. It refuses arguments of other types with an '
     'exception and reports failed allocations. It never touches memory '
     'which is not its own or not initialized, and releases every piece of '
     'memory and every reference exactly once, whether the references to '
     'entries outlive the collection or not.',
     ['inputs', 'histories', 'fault_sequences'],
     'histories of up to 3 (thorough 4) operations with query types of up '
     'to 2 (thorough 3) subtypes over a pool of 12 texts; up to 3 entries '
     'removed in any order; any one of the first 8 allocations failing',
     'the extension is not even built by the tests here; leaks, invalid '
     'accesses and failing allocations are invisible to them anyway',
     ['src_c/py/collection/_ctree.c', 'common/collection/ctree.py'],
     [('tree with lists of values', 'src_c/py/collection/_ctree.c'),
      ('wrapper', 'common/collection/ctree.py')],
     'All paths of the C code (LLVM IR of the current source) and of its '
     'Python wrapper within the bounds; CPython API and the hash table of '
     'hat-util are modelled; counterexamples and sampled paths are run on '
     'the extension compiled with gcc.',
     ['Collection.add', 'Collection.remove', 'Collection.get',
      'reference counts'])

prop('C31', 'Server process: valid configuration, complete shutdown',
     'The server process runs exactly with configurations which satisfy the '
     'documented schema of the server, the schema of the configured backend '
     'and the schema of each configured module. A refused configuration has '
     'no effect: nothing is created, nothing listens, logging is not '
     'changed. Logging is configured as given before the server starts. '
     'At whatever moment the process is signalled to end, or the server '
     'closes by itself, the process ends after all modules, connections and '
     'listening sockets are closed and every acknowledged registration is '
     'in the database.',
     ['inputs', 'schedules'],
     'any one (thorough: two) elements of a full configuration changed to '
     'any kind of value; end at any of 60 moments of start and of running '
     'server, repeated signal, failure of a module',
     'tests start the process with valid configurations only',
     ['server/main.py', 'server/main_runner.py', 'common/backend.py',
      'common/module.py'],
     [('process entry point', 'server/main.py'),
      ('parts of the server', 'server/main_runner.py')],
     'The real entry point with the real server over simulated network and '
     'LMDB; jsonschema is the real one.',
     ['main.sync_main', 'main.async_main', 'MainRunner'])

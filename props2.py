prop('C05', 'Datagrams from sockets take effect exactly once, whole and in order',
     'A datagram of up to 65535 bytes sent to a UDP port (IPv4 or IPv6), the statsd port or the unix socket is handed to the protocol parser exactly once, byte for byte, in the order it came in, whatever was received before it, shorter or longer; '
     'a longer one is cut off and corrupts nothing. The meters and the parsed and error counts that many concurrent senders leave behind equal what their lines mean. '
     'The unix socket replaces a stale file of an earlier run, everybody may write to it, and SIGTERM or SIGINT stops the server.',
     ['inputs', 'histories', 'schedules'], 'all sequences of datagrams of all sizes over all transports, from one and several senders',
     'the tests send a single short datagram over UDP',
     ['server/udp_server.cc', 'server/local_server.cc', 'server/spectatord.cc'],
     [('start_udp_receive / start_local_receive', 'server/udp_server.cc, server/local_server.cc'), ('Server::Start', 'server/spectatord.cc')],
     ['the handler of the receivers', 'Registry::Measurements() of a running server'],
     'property testing over real sockets with a record of what was sent and a reference model',
     'Loopback only; senders wait for room, so the kernel drops nothing.')

prop('C16', 'The payload carries exactly the measurements of the report',
     'Whatever measurements are encoded, the payload is a gzip-compressed SMILE array: a table of the distinct strings, then for each measurement, in order, its own and the common tags and its name as indexes into that table, its operation and its value. '
     'The operation is add (0) for the statistics count, totalAmount, totalTime, totalOfSquares and percentile, and max (10) for every other statistic; decoding gives back exactly what went in.',
     ['inputs'], 'all lists of measurements and sets of common tags',
     'the tests look at one payload with two or three measurements',
     ['spectator/publisher.h', 'spectator/smile.cc', 'spectator/measurement.h'],
     [('measurements_to_json, build_str_table, op_from_tags', 'spectator/publisher.h')],
     ['the payload through an independent decoder'],
     'round-trip property testing with an independent decoder',
     'Random lists; a measurement never has a tag key of the common tags.')

prop('C17', 'Each report is sent exactly once, in batches',
     'In each interval the measurements of the report are POSTed, gzip-compressed SMILE with the matching headers, to the configured uri in requests of at most the configured batch size (10000 when it is not positive) that together contain each measurement exactly once, with one or several sender threads; a request is repeated unchanged when the answer asks for it, and nothing is sent again in later intervals. '
     'While publishing is disabled nothing is sent. The time of the last success moves exactly when the final answer to a request is a 2xx.',
     ['inputs', 'histories', 'schedules'], 'all sizes of reports and batches, all sequences of answers, several intervals, 1 to 8 sender threads',
     'the tests publish a handful of measurements to a server that always accepts',
     ['spectator/publisher.h', 'spectator/registry.cc', 'spectator/config.h'],
     [('get_batches, send_metrics, send_batch', 'spectator/publisher.h')],
     ['the requests that a scripted aggregator receives', 'GetLastSuccessTime()'],
     'model-based property testing against a scripted HTTP aggregator',
     'Random answers: statuses, bodies, closed connections, refused connections.')

prop('C18', 'Every measurement counts as sent or dropped, whatever the answer',
     'For every answer of the aggregator (any status, any body of any shape or depth, no answer at all) the spectator.measurements counters grow by exactly the number of measurements of the request: by that number with id=sent for a 200; '
     'for a status from 201 to 499 whose body is a JSON object with an errorCount of at most that number, by errorCount with id=dropped,error=validation and by the rest with id=sent, otherwise, and without an answer, by all with error=other; for a 5xx by all with error=http-error. '
     'They carry owner=spectatord, exactly the strings of the message array count as messages, and nothing crashes. With status metrics disabled no such counter exists.',
     ['inputs', 'faults'], 'all statuses and bodies an aggregator, or something else in its place, may answer with',
     'the tests use three fixed answers',
     ['spectator/publisher.h'],
     [('handle_aggr_response, update_http_sent/failures', 'spectator/publisher.h')],
     ['Registry::Measurements()', 'the process under AddressSanitizer'],
     'property testing of generated answers against the accounting rules',
     'Random bodies, well-formed JSON and not; one step in twelve goes through real HTTP with retried attempts.')

prop('C19', 'HTTP requests are retried and recorded by the rules',
     'A request reaches the server with its method, path, headers and (decompressed) body. It is tried at most three times: again after a 429 or 5xx, with pauses of 200 and 400 ms, and after a transport error as long as the total timeout allows it; any other answer ends it. '
     'The caller gets status, body and headers of the last answer, or -1 without one. With status metrics each attempt is recorded once in the percentile timer ipc.client.call with its outcome, attempt number, status and endpoint (the path of the url) and its duration; without them nothing is recorded.',
     ['inputs', 'faults', 'histories'], 'all sequences of answers and transport errors, all urls, headers and bodies',
     'the tests use a fixed server with a few fixed paths',
     ['spectator/http_client.cc', 'spectator/http_client.h', 'spectator/log_entry.h'],
     [('perform, do_post, PathFromUrl', 'spectator/http_client.cc'), ('LogEntry', 'spectator/log_entry.h')],
     ['the requests a scripted server sees', 'HttpResponse', 'Registry::Measurements()'],
     'model-based property testing against a scripted HTTP server',
     'Random sequences; the pauses are recorded, not slept.')

prop('C23', 'Common tags in force are on every published measurement',
     'Every measurement of every request carries exactly the common tags that are in force when its interval is published: those of the configuration changed by every update (a new value replaces, an empty value removes) made since. '
     'Reading the common tags back gives the tags in force.',
     ['histories'], 'all configurations and histories of updates and intervals',
     'the tests publish once with fixed common tags',
     ['spectator/publisher.h', 'spectator/registry.cc', 'spectator/config.h'],
     [('UpdateCommonTags / EraseCommonTag / GetCommonTags', 'spectator/registry.cc'), ('the common tags of the string table', 'spectator/publisher.h')],
     ['the requests that a scripted aggregator receives', 'GetCommonTags()'],
     'model-based property testing against a scripted HTTP aggregator',
     'Random histories; updates happen between intervals.')

prop('C22', 'The admin API shows and changes exactly what it says',
     'The admin server lists every current meter of each kind once with its id and value, the configuration and the common tags. Local requests may set or delete the six allowed common tags, all or none of them per request, '
     'and delete one or all gauges or age gauges, which takes effect at once; every other modification (foreign host, other key, value that is no string, bad JSON) is answered with 400, an unknown meter or endpoint with 404, and neither these nor reading changes anything; an answer with a body is JSON and says so. '
     'Requests may come at any time, also while the meters are updated, deleted, expired and reported.',
     ['inputs', 'histories', 'schedules'], 'all histories of recordings and requests, at any time',
     'the tests send about twenty fixed requests to a registry of a few meters',
     ['admin/admin_server.cc', 'admin/admin_server.h', 'spectator/registry.cc', 'spectator/registry.h'],
     [('RequestHandler::handleRequest', 'admin/admin_server.cc'), ('Registry::DeleteMeter, UpdateCommonTags', 'spectator/registry.cc')],
     ['HTTP answers of the admin server', 'Registry::Measurements()'],
     'stateful model-based property testing over HTTP',
     'Random histories; the percent-decoding of ids in the URI is not judged. The schedules under load are those of the operating system.')

prop('C10', 'Concurrent use loses, invents and corrupts nothing',
     'When several threads record into meters, by one handle or by lookups of their own, while others report, list, expire and delete: every record is in exactly one report, so that the counts, sums, sums of squares, increases and rates of all reports add up to what was recorded, and maxima and last values are those recorded; '
     'one id gives all threads the same meter; the age gauge limit holds; equal strings are interned as one and the pool counts exactly; the percentile cache keeps one object per id; readers see only common tags and last-success times that were set; concurrent senders lose no batch. '
     'There are no data races, uses of freed memory or deadlocks. (Not included: a meter that expires between its lookup and the record through it, after a whole idle ttl.)',
     ['schedules', 'histories'], 'all interleavings of recording, reporting, expiring, deleting and publishing threads',
     'a unit test runs one schedule, and a lost update needs a preemption between two particular instructions',
     ['spectator/counter.h', 'spectator/atomicnumber.h', 'spectator/timer.h', 'spectator/dist_summary.h', 'spectator/monotonic_counter.h', 'spectator/registry.h', 'spectator/registry.cc', 'spectator/string_pool.h', 'server/expiring_cache.h', 'spectator/publisher.h'],
     [('add_double, update_max, exchange', 'spectator/atomicnumber.h'), ('meter_map and its mutex', 'spectator/registry.h'), ('Registry::GetAgeGauge, UpdateCommonTags', 'spectator/registry.cc'),
      ('StringPool::Intern', 'spectator/string_pool.h'), ('ExpiringCache', 'server/expiring_cache.h'), ('send_metrics, responses_mutex', 'spectator/publisher.h')],
     ['Measurements() of the reporting thread', 'Stats()', 'the requests that the aggregator receives', 'a happens-before race detector'],
     'property testing of generated thread schedules (deterministic scheduler with a race detector) against conservation models',
     'Schedules of up to 5 preemptions at every memory access, atomic or lock operation of the code of the repository; memory is sequentially consistent, weaker orders show as data races.')

prop('C26', 'Stopping is immediate and complete, starting again works',
     'Registry::Stop, destroying a registry, and SIGTERM or SIGINT to a running server end at once, whatever the background threads are doing at that moment: no waiting interval has to run out, and no thread is left. '
     'While a registry is stopped nothing is sent. While it runs, at first or after a restart, it publishes at its start and then every interval: a record is published exactly once, at the first such instant after it, and idle meters expire.',
     ['schedules', 'histories', 'crash points'], 'all histories of starting, stopping, restarting and destroying, at all instants and under all interleavings with the sender, the expirer, the upkeep thread and the event loop',
     'the tests never stop anything while it works; a lost wakeup needs a particular interleaving',
     ['spectator/registry.cc', 'spectator/publisher.h', 'server/spectatord.cc'],
     [('Registry::Start, Stop, expirer', 'spectator/registry.cc'), ('Publisher::Start, Stop, sender', 'spectator/publisher.h'), ('Server::Start, Stop, upkeep', 'server/spectatord.cc')],
     ['the requests a scripted aggregator receives, with their instants', 'virtual time', 'the threads that live', 'Registry::Size()'],
     'property testing of generated histories under generated thread schedules with virtual time',
     'Schedules with up to 5 preemptions; requests under way are answered.')

prop('C27', 'What is received is published exactly, in every interval',
     'End to end: in each interval a running daemon publishes exactly what the lines received so far mean (counter increments since the last report, gauges until they expire, timers, summaries, percentiles, maxima, monotonic counters, age gauges), '
     'whichever of the UDP port, the statsd port and the unix socket they came through, with any batch size and number of senders, while meters expire and gauges are deleted.',
     ['inputs', 'histories', 'schedules'], 'all sequences of datagrams over minutes, under all interleavings of receiving, publishing, expiring and upkeep',
     'no test runs receiving, publishing and expiring together',
     ['server/spectatord.cc', 'server/udp_server.cc', 'server/local_server.cc', 'spectator/registry.cc', 'spectator/publisher.h', 'spectator/meter_type.h'],
     [('Server::Start, parse', 'server/spectatord.cc'), ('Publisher::sender, send_metrics', 'spectator/publisher.h'), ('Registry::Measurements, remove_expired_meters', 'spectator/registry.cc')],
     ['the decoded requests of each interval at a scripted aggregator'],
     'model-based property testing of the whole daemon under generated thread schedules with virtual time',
     'Runs of up to 320 s of virtual time on real sockets of the loopback.')

prop('C29', 'What the daemon reports about itself is true',
     'With status metrics the daemon publishes about itself, in every interval: its uptime as an age, the number of parsed lines and of errors, the measurements sent, the size of the registry, how many percentile meters its caches hold and how many expired from them, '
     'the size and the use of the string pool, and the queues of its UDP ports; these figures are what really happened, and they stay so when meters expire or are deleted. Without status metrics it publishes none of those the flag governs.',
     ['histories', 'schedules', 'inputs'], 'all histories of datagrams, expiry and deletion over minutes',
     'the tests check the parsed count and the network metrics of one fixed file',
     ['server/spectatord.cc', 'spectator/registry.cc', 'spectator/publisher.h', 'server/proc_utils.cc', 'spectator/string_pool.cc'],
     [('Server::upkeep, update_network_metrics', 'server/spectatord.cc'), ('Publisher::sent_metrics', 'spectator/publisher.h'), ('Registry::Measurements', 'spectator/registry.cc')],
     ['the decoded requests of each interval at a scripted aggregator', 'the caches and the pool read directly'],
     'model-based property testing of the whole daemon under generated thread schedules with virtual time',
     'Figures of the upkeep thread are those of its last turn, every 30 s.')

prop('C24', "The kernel's figures are read right",
     'The receive buffer of a UDP port is the maximum that the system allows: the number in the rmem_max file, or 16 MiB when there is none that can be read. '
     'The queue and the number of dropped packets of a UDP port are those the kernel states for that very port, whatever other sockets there are and however many, and nothing when the port or the table does not exist. No file is left open or memory touched that is not theirs.',
     ['inputs', 'faults'], 'all contents of the files, all tables of sockets, all states of real sockets',
     'the tests read one fixed file of each kind',
     ['server/proc_utils.cc', 'server/udp_server.cc', 'util/files.h'],
     [('max_buffer_size, udp_info', 'server/proc_utils.cc'), ('UdpServer', 'server/udp_server.cc')],
     ['the return values', 'getsockopt of the receiver', 'open descriptors', 'the process under AddressSanitizer'],
     'coverage-guided property testing against generated tables and the kernel itself',
     'Tables as Linux writes them.')

prop('C30', 'The command line means what it says',
     'Every flag of the program has its documented effect and no other, in any order and spelling: the ports, IPv4 only, statsd, the unix socket and its path, where to publish (--uri before --enable_external before the site), '
     'the common tags (those given replace those of the site; --no_common_tags removes them and all of the internal metrics), the ttl of meters, the limit of age gauges. '
     'A wrong value is refused with a failure status before anything is published; SIGTERM and SIGINT end the daemon with status 0.',
     ['inputs', 'histories'], 'all command lines',
     'no test runs the program',
     ['bin/spectatord_main.cc', 'server/spectatord.cc', 'spectator/registry.cc', 'admin/admin_server.cc'],
     [('main, AbslParseFlag', 'bin/spectatord_main.cc')],
     ['the sockets of the process', 'the decoded requests at a scripted aggregator', 'the admin port', 'the exit status'],
     'property testing of the built program with generated command lines',
     'Real time; the intervals come from a configuration of the check. --debug is not tried.')

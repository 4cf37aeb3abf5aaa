import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': x, 'meaning': x, 'where': files[0]} for x in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})
S = 'weatherlink/serial.py'; PO = 'weatherlink/poller.py'; M = 'weatherlink/models.py'; D = 'weatherlink/downloader.py'
I = 'weatherlink/importer.py'; Q = 'weatherlink/exporter/mysql.py'; W = 'weatherlink/exporter/wunderground.py'; U = 'weatherlink/utils.py'
SQL = 'weatherlink/exporter/mysql.sql'

p('C01', 'Console connection lifecycle never leaks a link and stays usable',
  'Connecting to the console either leaves exactly one open link or raises the underlying error and leaves none open and the communicator disconnected, so that connecting again works; connecting twice, or disconnecting when not connected, is refused with a value error and changes nothing. Disconnecting always releases the link and leaves the communicator disconnected even when closing reports an error. Leaving the context manager, for any reason, releases the link, and an exception raised inside it is never replaced by an error from disconnecting, while a disconnect error with no other exception in flight is raised.',
  ['fault_sequences', 'histories', 'inputs'],
  'For every sequence of connect, disconnect and context-manager uses (including misuse and exceptions in the body) on one communicator, and every fault in socket creation, connecting (refused, timed out, unreachable, interrupted) and closing.',
  'Unit tests replace the socket or drive a few fixed calls; none makes connect or close fail at each point and then reuses the communicator, and none counts open links.',
  [S, PO], [('link open/close and cleanup on failure', S + ':SerialIPCommunicator.connect/disconnect'), ('context manager', S + ':SerialCommunicator.__enter__/__exit__')],
  ['whether the communicator holds a socket'], ['simulated socket table of the process', 'exceptions raised to the caller'])

p('C02', 'No instruction is treated as accepted unless the console acknowledged it',
  'Every instruction that expects an acknowledgement (configuration read, configuration write, poll, background-poll start) proceeds past it only if the next byte from the console is ACK: a NAK or "!" raises the not-acknowledged error, any other byte raises the invalid-acknowledgement error, and a link that closes before answering raises an I/O-class error. After a refusal nothing more is sent for that operation, no data is returned and no background work is started. An acknowledgement that arrives late is waited for, not given up on or skipped.',
  ['fault_sequences', 'inputs', 'histories'],
  'For every instruction in a session, every byte value the console may answer with, every delay before it answers, and every point at which the link may die.',
  'The tests mock the read of a single byte with four or five constants; none covers all byte values, end-of-stream, delays, or what is sent afterwards.',
  [S, PO], [('acknowledgement check', S + ':SerialCommunicator.confirm_ack, _send_instruction')],
  None, ['bytes received by the simulated console', 'exceptions raised to the caller'])

p('C03', 'A configuration read returns exactly what the console holds, or raises',
  'With checksum confirmation on, a configuration read returns exactly the bytes stored at the requested address and length, however the reply is split or delayed in transit, or raises; damaged, short or interrupted replies never come back as data. The checksum bytes are included exactly when asked for and the number of bytes is the requested one, also without confirmation, the session stays usable for the next operation after a successful read, and the setup-bit and rain-collector reads return the masked bits of the stored setup byte.',
  ['inputs', 'fault_sequences', 'histories'],
  'For every address, length and memory content, every segmentation and delay of the reply, every bit flip or burst of up to 16 bits in it, every truncation, reset or end of stream, and every sequence of reads and writes in a session.',
  'The tests feed one in-memory reply that is complete and correct or has one wrong checksum; partial deliveries, damage positions and sessions of several operations are unreached.',
  [S, M], [('request and checksum confirmation', S + ':ConfigurationSettingMixin.read_config_setting, read_setup_bit'), ('checksum', M + ':calculate_weatherlink_crc')],
  ['console memory'], ['returned bytes', 'console history'])

p('C04', 'A configuration write that returns is stored exactly; one that is not raises',
  'When a configuration write returns, the console has stored exactly the given bytes at the given address and nothing else changed, and the session is in step: the next operation on the same link works and reports its own result. If the console refuses the instruction, or refuses the data because it was damaged, or the link fails, the write raises. A value whose length differs from the stated length is refused before anything is sent.',
  ['inputs', 'fault_sequences', 'histories'],
  'For every address, value and length, every damage to the data on the wire, every answer of the console to the instruction and to the data, every link failure point, and every sequence of reads and writes in a session.',
  'The tests check the bytes handed to a mocked sender once; they have no console that stores, refuses or answers, and never perform a second operation.',
  [S, M], [('write protocol', S + ':ConfigurationSettingMixin.write_config_setting'), ('checksum', M + ':calculate_weatherlink_crc')],
  ['console memory'], ['console memory after the call', 'result of the following operation'])

p('C05', 'A foreground poll returns exactly the packets sent, in order, or raises',
  'Polling for n packets returns n records, the i-th decoded from the i-th packet of the stream the console sent for this poll, with every sensor value (or absence) exactly as encoded, whatever the segmentation, delay or pauses in the stream. The integrity flag of a record is true exactly when the packet arrived with a matching checksum. A stream that ends or resets early, or whose framing is broken, raises instead of returning fewer, partial or misaligned records, and a communicator can poll again afterwards on a healthy link.',
  ['inputs', 'fault_sequences', 'histories'],
  'For every n, every packet content, every segmentation and timing, every damaged, lost, duplicated or inserted byte, every early end of stream or reset, and sequences of polls on one link.',
  'There is no test of the poller at all; the packet-decoding tests use three fixed packets from a complete in-memory buffer.',
  [PO, M, S], [('poll loop', PO + ':Poller.poll, _receive_loop_packets'), ('packet decoding and integrity flag', M + ':LoopRecord._get_loop_2_arguments')],
  None, ['returned records', 'bytes put on the wire by the simulated console'])

p('C06', 'Background polling delivers every packet once, in order, and stops cleanly',
  'With background polling, the callback receives the decoded packets in stream order, each exactly once, never concurrently, all of the requested ones when nobody stops it and the stream is intact, and never a partial or misaligned packet. After a stop request at most one further packet is delivered, the console is told to cancel with exactly one carriage return (none if all packets had been received already), nothing else is sent, and the background thread ends. The caller is never blocked by the packet stream, and a broken stream ends the thread rather than delivering wrong data.',
  ['schedules', 'fault_sequences', 'histories'],
  'For every interleaving of the caller, the background thread and packet arrivals, every moment of stopping (before the first packet, between and during packets, with the last one), every stream fault and every callback duration or exception.',
  'The poller has no tests; the outcome depends on how three parties interleave, which a unit test does not control.',
  [PO, S, M], [('background thread and stop event', PO + ':Poller.start_background_polling, stop_background_polling, _receive_loop_packets')],
  ['stop event', 'thread liveness'], ['callback history', 'bytes received by the simulated console'])

p('C07', 'Background polling can be started and stopped again, and refuses misuse',
  'Background polling can be started again once the previous run has finished — because it was stopped, delivered everything, failed, or never started because its instruction was refused — and a foreground poll on the same communicator then works normally (after reconnecting, if unread packets were left on the link or it broke). While a run is in progress a second start is refused with a value error and disturbs nothing, and a stop with none in progress is refused with a value error. Each run delivers only its own packets to its own callback.',
  ['schedules', 'histories', 'fault_sequences'],
  'For every sequence of starts, stops, foreground polls, reconnections and waits on one poller, every interleaving with the background thread, and every fault in starting or streaming.',
  'The poller has no tests, and a single start/stop cannot show whether the state it leaves behind allows the next.',
  [PO, S], [('start/stop state', PO + ':Poller.start_background_polling, stop_background_polling')],
  ['stop event'], ['exceptions raised to the caller', 'callback history per run'])

p('C08', 'A web download is complete and exact, or raises',
  'A download that returns holds exactly the records the server listed, in order and with every value (or absence) exactly as encoded, and the console version, archive interval, record count and account maximum from the header response; it asks the server with exactly the given credentials, token and start timestamp, and an empty result set gives an empty list. A response with the wrong type, encoding, station model or a malformed record, or a transfer that is cut short or reset at any byte, raises instead of returning missing or altered records. A record with no date ends the list without being included.',
  ['inputs', 'fault_sequences'],
  'For every set of records, credentials and start time, every segmentation and delay of both responses, every connection failure or cut point, and every deviating header.',
  'The downloader has no tests; record decoding is tested on fixed complete buffers only, with no HTTP exchange.',
  [D, M], [('two-step download', D + ':Downloader.download, _process_headers, _process_download'), ('record decoding', M + ':ArchiveIntervalRecord.load_from_download')],
  None, ['downloader attributes after the call', 'requests seen by the simulated server'])

p('C09', 'Downloads are independent of each other',
  'Each download on a downloader describes exactly its own exchange: records, counts and interval from an earlier download, successful or failed, never appear in a later one, and after a failed download a retry against a healthy server succeeds. The same holds for several downloaders used in turn or at the same time from several threads, whatever connections the server closed, reset or left half-read in between.',
  ['histories', 'fault_sequences', 'schedules'],
  'For every sequence of downloads by one or several downloaders with different accounts and start times, every failure in any of them, every connection reuse or loss in between, and every interleaving of concurrent downloads.',
  'The downloader has no tests; the shared HTTP session and the state left by a failure only show over several exchanges.',
  [D], [('shared HTTP session', D + ':_requests_session'), ('per-download state', D + ':Downloader._process_headers, _process_download')],
  ['HTTP connection pool', 'downloader attributes'], ['downloader attributes after each call'])

p('C10', 'A database-file import is exact and repeatable, or raises',
  'Importing a monthly database file yields exactly the daily summaries and interval records stored in it — every value (or absence), date and order, per day and overall — with the year and month taken from the file name, however the file system splits reads. A file that is truncated, damaged in the fixed markers of its records or fails to read raises instead of yielding missing or altered data. The file is closed in every case, it is never written to, and importing again gives the same result from scratch.',
  ['inputs', 'fault_sequences', 'histories'],
  'For every well-formed file (days with and without data, any sensor values), every truncation point, I/O error at any read, damaged marker, file replaced between imports, and repeated imports with one importer.',
  'Tests decode a handful of fixed summaries and records from memory and never run an import; failures, truncations and repetition are unreached.',
  [I, M], [('file walk', I + ':Importer.import_data'), ('record decoding', M + ':Header, DayIndex, DailySummary, ArchiveIntervalRecord.load_from_wlk')],
  ['importer attributes'], ['importer attributes after the call', 'simulated file handles'])

p('C11', 'An export that returns is durable, and every record is stored at most once',
  'When exporting a record returns, its row is committed and survives any later crash of the client, the link or the database server; when it raises, the row is either wholly present or wholly absent, and never partially written or left pending in an open transaction. A record already stored is rejected without altering the stored row, so re-exporting after an ambiguous failure leaves exactly one row per record. An exporter keeps working for later records after a failed one, on the same connection if it survived or after reconnecting. Leaving its context manager, for any reason, releases the connection and lets every error raised inside it through.',
  ['crash_points', 'fault_sequences', 'histories'],
  'For every sequence of exports, reconnections and retries, every crash of client or server and every link failure at any byte of the conversation (including after the commit but before its confirmation), and every statement rejected by the server.',
  'There is no test of the database exporter; durability and duplication only show across crashes and retries.',
  [Q, SQL], [('insert and commit', Q + ':MySQLExporter.export_record, _get_cursor'), ('uniqueness of rows', SQL + ':weather_archive_record unique indexes')],
  ['rows of the archive table', 'open transaction'], ['durable rows of the simulated server'])

p('C12', 'An exported row holds exactly the record, with the correct UTC time',
  'The stored row of an exported record holds each measured value in its column as the record had it (absent ones as null), wind directions by name, the station-local and Davis timestamps and calendar fields of the record, and the derived values computed from it; an operator-supplied table name or column map is honoured. The UTC timestamp is the true UTC instant of the station-local time in the configured time zone, including daylight-saving transitions (either instant where the local time is ambiguous or skipped), and the newest timestamp an exporter reports is the greatest one committed to its table, by whichever client.',
  ['inputs', 'configurations', 'histories'],
  'For every record from either source, every configured time zone and date around or away from transitions, and custom column maps and table names, over sequences of exports by several clients.',
  'There is no test of the database exporter; the conversion depends on the configured zone, the date and what earlier clients stored.',
  [Q, SQL, U], [('row construction', Q + ':MySQLExporter.export_record, _add_*_to_arguments'), ('newest timestamp', Q + ':MySQLExporter.get_newest_timestamp')],
  ['rows of the archive table'], ['committed rows of the simulated server'])

p('C13', 'Recalculated summaries equal a recomputation from the stored records',
  'After recalculating summaries for a set of dates that includes every date with records new or changed since the last time, the daily, weekly, monthly and yearly summaries those dates belong to exist exactly once and equal a direct recomputation from the stored records: lows, highs, averages, totals, the times extremes first occurred (optional for wind, rain, sun and UV extremes of zero), prevailing directions (any of those that are equally frequent), the highest ten-minute wind average with its window, degree days and average wind run. Other summaries, records and rain events are not touched. This holds whatever was stored before (including older summaries of fewer records, missing sensors and values of zero), in any order and repetition of dates, and recalculating again without new records changes nothing.',
  ['inputs', 'histories', 'configurations'],
  'For every set of stored records (gaps, missing sensors, ties, zero and negative values, archive intervals, weeks crossing month and year boundaries), every order and multiplicity of dates, and every history of earlier exports and recalculations.',
  'No test touches the summaries; they depend on the accumulated database state and on several queries agreeing with each other.',
  [Q, U, SQL], [('summary queries', Q + ':MySQLExporter.recalculate_summaries_for_dates, _recalculate_*_summary'), ('ten-minute wind average', U + ':calculate_10_minute_wind_average')],
  ['rows of the summary table'], ['committed rows of the simulated server'])

p('C14', 'Summary recalculation is all-or-nothing under failures and concurrency',
  'Every summary row visible to others is at all times the complete result for one consistent state of the stored records (and of the shorter summaries it is aggregated from), no older than the beginning of the recalculation that stored it, never a mixture or a half-filled row, even while records are exported or summaries recalculated by other clients and when the recalculation crashes or fails at any point. A recalculation that returns has stored its results. A failed operation leaves nothing pending: later successful operations on the same exporter never commit leftovers of the failed one. Recalculating again after any failure, on the same connection if it survived, brings all affected summaries to the correct result.',
  ['schedules', 'crash_points', 'fault_sequences', 'histories'],
  'For every interleaving of recalculations and exports from several clients, every crash or connection loss at any byte, every statement rejected, and every subsequent operation on the surviving exporter.',
  'No test touches the summaries, and no test has two clients, a transaction or a failure.',
  [Q], [('one transaction per summary', Q + ':MySQLExporter._recalculate_daily_summary and siblings'), ('cursor and transaction handling', Q + ':MySQLExporter._get_cursor')],
  ['open transaction', 'rows of the summary table'], ['rows committed by the simulated server, with the snapshot each was computed from'])

p('C15', 'Rain events match the stored rain, whatever the schedule of searches and crashes',
  'Records being exported in chronological order and searches not overlapping each other, after a search for rain events that returns the stored events are exactly the rain periods in the stored records: a period starts with the first rain after the previous one, ends with the last rain before more than three hours without any, is still open if fewer than three hours of records follow its last rain, and carries its total, average and highest rate and the first time of the latter. The result depends only on the stored records, not on when earlier searches ran, crashed or failed, or on which client ran them, and the search reports the numbers of events it completed and of events still open. Events that become visible during a search, or before it fails, are correct too.',
  ['histories', 'crash_points', 'schedules', 'inputs'],
  'For every series of rain and dry records (any interval, gaps, gaps of exactly three hours, periods longer than a day), every splitting of its export into batches with searches in between or meanwhile, and every crash, connection loss or rejected statement during a search.',
  'No test touches rain events; an error shows only for particular gaps or for searches that resume where an earlier one stopped.',
  [Q, SQL], [('event search', Q + ':MySQLExporter.find_new_rain_events'), ('upsert by start time', SQL + ':weather_rain_event unique index')],
  ['rows of the rain event table'], ['committed rows of the simulated server'])

p('C16', 'A Weather Underground update succeeds exactly when the service accepted it',
  'Sending an update returns normally only if the service answered it with a 2xx status and the body "success"; any other answer, a cut or failed exchange, or an unreachable service raises. The request the service receives carries exactly the station identity, password, UTC time and the available values of that record, decoded to what was given whatever characters or signs they contain, and omits absent ones; each send transmits its own record once per call. After a failed send the next one works normally.',
  ['inputs', 'fault_sequences', 'histories', 'configurations'],
  'For every record and credentials, time zone and date around or away from daylight-saving transitions, every answer of the service, every failure point of the exchange, and sequences of sends reusing or losing the connection.',
  'The Weather Underground exporter has no tests.',
  [W], [('request construction and acceptance check', W + ':WundergroundExporter._send_update, send_simple_update, send_rapid_update')],
  ['HTTP connection pool'], ['requests received by the simulated service', 'exceptions raised to the caller'])

p('C17', 'Rapid-fire gust and wind direction reflect exactly the newest packets',
  'In every rapid update the reported gust is the highest wind speed among the 25 newest packets submitted, including the current one, with the direction of the most recent of them that had that speed, and the reported two-minute direction is the mean of the known directions among the 49 newest. Packets without wind readings are skipped, not counted as zero, and if there are no readings the value is omitted. This holds over any history of successful and failed sends, and the history kept never exceeds 50 packets.',
  ['histories', 'inputs', 'fault_sequences'],
  'For every sequence of packets, with missing or zero wind values, ties and long runs beyond the kept history, and any pattern of sends failing in between.',
  'The Weather Underground exporter has no tests; window behaviour only shows over dozens of sends.',
  [W], [('packet history', W + ':WundergroundExporter.record_queue'), ('gust and direction', W + ':_get_wind_gust, _get_2_minute_average_wind_direction')],
  ['packet history'], ['values received by the simulated service'])

p('C18', 'Resuming from the newest stored record catches up with no loss or duplication',
  'A station program that repeatedly asks the database for the newest stored timestamp, downloads everything after it and exports the records one by one always has the first so many of the records the server has in the database, each exactly once and correct, and ends, once faults cease, with all of them and, their dates being recalculated and rain events searched, with summaries and rain events equal to a recomputation. This holds however often and wherever earlier rounds crashed or failed, and while new records keep arriving.',
  ['crash_points', 'fault_sequences', 'histories', 'schedules'],
  'For every sequence of rounds with crashes, network failures and server restarts at any point, and every arrival schedule of new records on the server.',
  'No test connects two components; the guarantee is about the composition across restarts.',
  [Q, D, M], [('resume point', Q + ':MySQLExporter.get_newest_timestamp'), ('download from a timestamp', D + ':Downloader.download'), ('insert', Q + ':MySQLExporter.export_record')],
  ['archive table', 'server record list'], ['durable rows of the simulated server'])

p('C19', 'Relayed packets reach Weather Underground once, in order and unmixed',
  'A station program that polls its consoles, in the foreground or in the background, and passes each intact record, dated, to the rapid update of that station submits the packets of a poll in the order its console sent them; the service receives each at most once, with that packet\'s values, that moment in UTC, that station\'s credentials and the wind history of that station alone. Several pollers and exporters in one program do not influence each other; a failing service does not disturb the polling, a callback that fails ends its own run only, and after any failure reconnecting, polling and sending work again.',
  ['schedules', 'fault_sequences', 'histories'],
  'For every interleaving of background threads, packet arrivals, sends and stops, for one or several consoles, with any pattern of service failures, damaged packets and broken links, over any sequence of runs.',
  'No test runs a poller or the Weather Underground exporter at all, let alone both together or two of each.',
  [PO, S, W], [('callback from the background thread', PO + ':Poller._receive_loop_packets'), ('per-exporter packet history', W + ':WundergroundExporter.send_rapid_update'), ('run state', PO + ':Poller.start_background_polling')],
  ['records handed to the callback', 'packet history'], ['requests received by the simulated service', 'bytes sent by the simulated consoles'])

p('C20', 'Loading database files leaves each of their records stored exactly once',
  'A station program that imports monthly database files and exports their records one by one, leaving out what the database already has (by the newest stored timestamp, or because the insert is refused as a duplicate), never stores anything but records of those files with the values, station time and UTC of the file, never a part of a damaged or incomplete file that was taken for a whole one, and never one record twice, also if it was downloaded before, another such program is loading the same files, or another exporter of the same program is filling a table of its own with another time zone. However often it fails or crashes, once faults cease another round completes the set, and recalculated summaries and rain events equal a recomputation.',
  ['crash_points', 'fault_sequences', 'histories', 'schedules', 'inputs'],
  'For every set of files that grow, are damaged and restored between rounds, every crash, read error, statement error and connection failure at any point, and every interleaving of two loaders.',
  'The importer test reads one file and stops there; no test reaches the database, and none connects two components.',
  [I, Q, M], [('import', I + ':Importer.import_data'), ('record time from day and minute', M + ':ArchiveIntervalRecord.load_from_wlk'), ('insert', Q + ':MySQLExporter.export_record'), ('resume point', Q + ':MySQLExporter.get_newest_timestamp')],
  ['importer records', 'archive tables'], ['durable rows of the simulated server'])

with open('/verif/properties.jsonl', 'w') as h:
    for x in P:
        if len(x['title']) > 80: print('LONG', x['id'], len(x['title']))
        h.write(json.dumps(x) + '\n')

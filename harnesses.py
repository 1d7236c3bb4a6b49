"""Which harnesses decide which property, within which bounds. `witness`: what a run has to have reached
(vacuity guard); only states that the property itself promises to be reachable are listed."""

ENTRIES = {
    # --- protosocket::Connection
    'vp_conn_inbound': dict(bounds='1-3 messages of 0-2 symbolic bytes, max_buffer_length 3-5, max_queued 1-2, every split of the bytes into reads, one WouldBlock between any two reads, both kinds of size hints', witness=['everything delivered']),
    'vp_conn_inbound_skip': dict(bounds='1-3 messages of 0-2 symbolic bytes, any of them skipped by the deserializer, max_buffer_length 3-4, max_queued 1-2, every split into reads', witness=['everything delivered', 'skipped']),
    'vp_conn_inbound_faults': dict(bounds='1-2 messages of 0-2 symbolic bytes, max_buffer_length 3-4, max_queued 1-2, every split into reads, one WouldBlock, one EINTR, one exhausted cooperative budget at any point', witness=['everything delivered']),
    'vp_conn_inbound_deep': dict(bounds='1-4 messages of 0-2 symbolic bytes, max_buffer_length 3-5, max_queued 1-2, every split into reads, one WouldBlock', witness=['everything delivered']),
    'vp_conn_inbound_grow': dict(bounds='3 messages of 2-3 symbolic bytes, max_buffer_length 9-13 (several growth steps), max_queued 1-2, every split into reads, one WouldBlock between any two', witness=['everything delivered']),
    'vp_conn_inbound_grow_deep': dict(bounds='4 messages of 2-3 symbolic bytes, max_buffer_length 9-16 (several growth steps), max_queued 1-2, every split into reads, one WouldBlock between any two', witness=['everything delivered']),
    'vp_conn_inbound_two@prod': dict(bounds='growth step of 2 MiB as released; 1-2 messages of 0-2 symbolic bytes, max_buffer_length 3-4, max_queued 1-2, every split into reads, one WouldBlock', witness=['everything delivered']),
    'vp_conn_big@prod': dict(bounds='growth step of 2 MiB as released; 3 frames of 5 bytes, 2 MiB, 2 MiB + 1 and 3 MiB (first and last byte symbolic), max_buffer_length 4 MiB, 4 MiB + 1 and 8 MiB, max_queued 1-2, reads of up to 1 MiB + 1, 2 MiB - 1 and 6 MiB', witness=['everything delivered']),
    'vp_conn_limit_in@prod': dict(bounds='as vp_conn_limit_in, growth step of 2 MiB as released', witness=['fits']),
    'vp_conn_hold@prod': dict(bounds='as vp_conn_hold, growth step of 2 MiB as released', witness=['held']),
    'vp_conn_outbound': dict(bounds='1-3 messages of 0-2 symbolic bytes, max_queued 1-2, channel of 1-2, every split of the bytes into partial writes, one WouldBlock at any write, messages offered before or after the connection ran', witness=['everything written']),
    'vp_conn_outbound_faults': dict(bounds='1-2 messages of 0-2 symbolic bytes, max_queued 1-2, channel of 1-2, every split into partial writes, one WouldBlock, one EINTR, one exhausted cooperative budget', witness=['everything written']),
    'vp_conn_outbound_deep': dict(bounds='1-4 messages of 0-2 symbolic bytes, max_queued 1-2, channel of 1-2, every split into partial writes, one WouldBlock', witness=['everything written']),
    'vp_conn_duplex': dict(bounds='1-2 messages of 0-1 symbolic bytes each way, every split into reads and partial writes, one blocked write', witness=['both directions complete']),
    'vp_conn_duplex_deep': dict(bounds='as vp_conn_duplex with one exhausted cooperative budget at any point', witness=['both directions complete']),
    'vp_conn_echo_deep': dict(bounds='1-3 messages of 0-1 symbolic bytes that the reactor sends back while it is called, max_queued 1-2, channel of 1-2, every split into reads and partial writes, peer reading at once or late; then EOF', witness=['echoed']),
    'vp_conn_bulk_deep': dict(bounds='as vp_conn_bulk, 8,000 messages', witness=['bulk complete']),
    'vp_srv_bulk_deep': dict(bounds='as vp_srv_bulk, 16,000 requests', witness=['bulk']),
    'vp_srv_bulk_streams_deep': dict(bounds='as vp_srv_bulk_streams, 6,000 items each', witness=['bulk']),
    'vp_srv_bulk_pending_deep': dict(bounds='as vp_srv_bulk_pending, 4,200 rpcs', witness=['bulk']),
    'vp_cli_bulk_deep': dict(bounds='as vp_cli_bulk, 4,200 rpcs', witness=['bulk']),
    'vp_cli_bulk_items': dict(bounds='a stream of 4,200 items (one symbolic) that the application reads only afterwards, polled before or not, ended, open or cut off; a second stream beside it', witness=['bulk']),
    'vp_cli_bulk_items_deep': dict(bounds='as vp_cli_bulk_items, 70,000 items', witness=['bulk']),
    'vp_cross_down': dict(bounds='threads: an application task starts an rpc of either kind while the connection ends (EOF, reset, invalid bytes, or its task dropped by another thread); up to 3 thread switches, at any synchronisation operations, both threads being stopped midway; queue 1-2', witness=['cancelled', 'refused']),
    'vp_cross_down_deep': dict(bounds='as vp_cross_down with two application tasks, three threads', witness=['cancelled', 'refused']),
    'vp_cross_answers': dict(bounds='threads: the connection delivers answers for one rpc (unary, or a stream of 0-2 items, ended or not) while another rpc starts and either of them, or none, is dropped by a third thread; 1 switch', witness=['answers', 'cancelled']),
    'vp_cross_answers_deep': dict(bounds='as vp_cross_answers, 2 switches', witness=['answers', 'cancelled']),
    'vp_cross_server': dict(bounds='threads: two workers run the tasks of a server connection with two rpcs of either kind, the service produces 1 result or end on a third, one rpc may be cancelled by the peer; 1 switch; queue 1-2', witness=['threads', 'cancelled', 'unary answered']),
    'vp_cross_server_deep': dict(bounds='as vp_cross_server, 2 results, 2 switches', witness=['threads', 'cancelled', 'unary answered', 'stream ended']),
    'vp_cross_conn': dict(bounds='threads: two tasks send two messages each into a channel of 1-2 while the connection writes, may lose its last sender and may see the peer close; 1 switch; max_queued 1-2', witness=['threads']),
    'vp_cross_conn_deep': dict(bounds='as vp_cross_conn, 2 switches', witness=['threads']),
    'vp_cross_teardown': dict(bounds='threads: two workers run two server connections, one of which ends (EOF, reset, invalid bytes, broken pipe) while a third thread produces results for both and another request arrives; 1 switch', witness=['torn down']),
    'vp_cross_teardown_deep': dict(bounds='as vp_cross_teardown, 2 switches', witness=['torn down']),
    'vp_cross_e2e': dict(bounds='threads: client and server joined by a wire, two calls of either kind as application tasks, two workers, the service on a third thread, one call dropped by a fourth or not; 1 switch', witness=['served']),
    'vp_cross_e2e_deep': dict(bounds='as vp_cross_e2e, 2 switches', witness=['served']),
    'vp_srv_duplicate': dict(bounds='2-3 requests of either kind with the same id while it is in use, at once or one after the other; queue 1-3', witness=['answered', 'repeated']),
    'vp_cross_reuse': dict(bounds='threads: an application uses an id again as soon as its rpc (either kind) has ended, been cancelled or been dropped, while two workers run the connection; 2 switches; queue 2-6', witness=['reused']),
    'vp_cross_reuse_deep': dict(bounds='as vp_cross_reuse, 3 switches', witness=['reused']),
    'vp_cross_srv_reuse': dict(bounds='threads: the peer cancels an rpc of either kind and uses its id again while two workers run the connection and the service produces 0-2 results on a third thread; 2 switches', witness=['reused']),
    'vp_cross_srv_reuse_deep': dict(bounds='as vp_cross_srv_reuse, 3 switches', witness=['reused']),
    'vp_cross_leak': dict(bounds='threads: an rpc of either kind, under way or not, answered or not, ended or not, is dropped on another thread while the connection runs and another rpc may start; every channel and oneshot is counted; 2 switches', witness=['nothing left']),
    'vp_cross_leak_deep': dict(bounds='as vp_cross_leak, 3 switches', witness=['nothing left']),
    'vp_acc_rpc_bulk': dict(bounds='1100 times the same: accept fails in one of 6 ways, or a connection whose options cannot be set, or one that stays, or one that ends; at once or one after the other; then one more connection', witness=['served']),
    'vp_acc_raw_bulk': dict(bounds='as vp_acc_rpc_bulk for the plain server', witness=['served']),
    'vp_acc_rpc_bulk_deep': dict(bounds='as vp_acc_rpc_bulk, 5000 times', witness=['served']),
    'vp_acc_raw_bulk_deep': dict(bounds='as vp_acc_raw_bulk, 5000 times', witness=['served']),
    'vp_conn_bulk_close': dict(bounds='1100 messages are under way, inbound or outbound, when the peer ends (EOF, reset, invalid bytes) or the last sender goes; max_queued 1, 7, 200 or all; kernel takes 100, 200 or any number of bytes', witness=['closed']),
    'vp_conn_bulk': dict(bounds='1,100 messages each way (one symbolic byte), max_queued 1, 7, 200, 600 or all of them (more than one writev of 128, more than one batch), reads of 7/14/21 bytes, kernel send room growing in steps of 61 bytes', witness=['bulk complete']),
    'vp_conn_limit_in': dict(bounds='max_buffer_length 2-6, a frame of 1-9 bytes with symbolic body after 0-1 messages and before another one, both kinds of size hints, max_queued 1-2, every split into reads', witness=['fits']),
    'vp_conn_limit_skip': dict(bounds='as vp_conn_limit_in with a frame that the deserializer skips', witness=['fits']),
    'vp_conn_limit_out': dict(bounds='max_buffer_length 1-4, two frames of 1-6 bytes, max_queued 1-3, every split into partial writes', witness=['both fit', 'oversized']),
    'vp_conn_backpressure': dict(bounds='max_queued 1-3, channel 1-3, kernel room 0-3 bytes, 20 offers in groups of 1-4', witness=['blocked']),
    'vp_conn_hold': dict(bounds='max_buffer_length 3-6, max_queued 1-2, 12 frames of 1-3 bytes, reads of at most 1-8 bytes, the last 0-3 bytes late, looked at after every poll', witness=['held']),
    'vp_conn_end': dict(bounds='7 causes (EOF, read errors (7 errnos), write errors (7 errnos), write of 0, reactor disconnect, senders gone, invalid bytes) or none, 0-2 messages each way before, EINTR on either side, every split into reads and writes', witness=['ended', 'alive']),
    'vp_conn_end_driver': dict(bounds='readiness polling fails on either side', witness=['ended']),
    'vp_conn_close_in': dict(bounds='1-3 messages of 0-2 symbolic bytes, then 0-2 bytes of an unfinished one, then EOF, reset or invalid bytes; max_buffer_length 3-4, max_queued 1-2, every split into reads', witness=['delivered then ended']),
    'vp_conn_batches': dict(bounds='10 or 13 messages of 1 byte (one symbolic), none, every fourth or every eighth skipped, 1-7 bytes at a time (arriving, or per read), max_queued 1-5, max_buffer_length 2-13, then EOF or not', witness=['delivered']),
    'vp_conn_pressure': dict(bounds='1-12 messages of 1 symbolic byte while the peer does not read, room for 0-5 bytes, 0-3 more messages, the last sender dropped or not, then room 1-5 bytes at a time; max_queued 1-4, channel capacity 1-4', witness=['flushed', 'flushed then ended']),
    'vp_conn_close_out': dict(bounds='1-3 messages of 0-1 symbolic bytes, then the last sender is dropped; max_queued 1-2, every split into partial writes, one WouldBlock', witness=['flushed then ended']),
    'vp_conn_mute': dict(bounds='1-4 messages, each possibly one that encodes to nothing, max_queued 1-2, every split into partial writes', witness=['mute', 'plain']),
    # --- codecs
    'vp_prost_round': dict(bounds='a message with a 64 bit id, a 32 bit code and 0-2 bytes, 0-2 arbitrary bytes behind it, every proper prefix', witness=['round trip', 'prefix incomplete']),
    'vp_prost_large': dict(bounds='bodies of 120-135, 244-259, 16376-16391, 65524-65539 and 2097138-2097153 bytes (the last one symbolic), 0-1 arbitrary bytes behind, 7 prefixes each', witness=['round trip', 'prefix incomplete']),
    'vp_prost_hostile': dict(bounds='1-6 arbitrary bytes', witness=['incomplete', 'decoded', 'unfinished length']),
    'vp_prost_hostile_head': dict(bounds='7-11 arbitrary bytes that start with 7-10 continuation bytes', witness=['malformed length', 'incomplete']),
    'vp_mp_round': dict(bounds='a message with a 64 bit id, an 8 bit code and 0-2 bytes, 0-2 arbitrary bytes behind it, decoded after any prefix of it was seen, and again', witness=['round trip', 'prefix incomplete']),
    'vp_mp_large': dict(bounds='bodies of 120-135, 244-259, 16376-16391, 65524-65539 and 2097138-2097153 bytes (the last one symbolic), 0-1 arbitrary bytes behind, after one of 7 prefixes was seen', witness=['round trip', 'prefix incomplete']),
    'vp_mp_hostile': dict(bounds='1-6 arbitrary bytes, decoded after any prefix of them was seen', witness=['malformed length', 'incomplete']),
    'vp_mp_hostile_body': dict(bounds='frames that declare 0-5 bytes with up to 5 arbitrary bytes behind the length, decoded after any prefix was seen', witness=['decoded', 'invalid body']),
    'vp_control_code': dict(bounds='every byte', witness=['code']),
    # --- rpc client
    'vp_cli_mix': dict(bounds='2 rpcs of either kind, 4 events out of: response, end, cancellation for either or for no rpc (symbolic payload), callers poll, connection runs', witness=['mix', 'stream with items']),
    'vp_cli_mix_deep': dict(bounds='3 rpcs of either kind, 4 events', witness=['mix', 'stream with items'], limit=3000),
    'vp_cli_mix_segments': dict(bounds='2 rpcs of either kind, 2 events, every split of the responses into reads', witness=['mix']),
    'vp_cli_long_stream': dict(bounds='a stream of 38-40 items (one symbolic), first polled after any of them', witness=['long stream']),
    'vp_cli_stream_rhythm': dict(bounds='a stream of 300 items (one symbolic), 1-5 of them per read, the caller polls after every 1-5 reads, for one item or for all', witness=['long stream']),
    'vp_cli_handles': dict(bounds='0-2 rpcs of either kind, then every handle of the client is dropped; then symbolic responses, ends, drops of the completions', witness=['let go']),
    'vp_cli_drop': dict(bounds='2 rpcs of either kind, one dropped before or after the request is sent, 0-2 responses, end or cancellation by the peer, 0-4 polls', witness=['cancelled', 'finished then dropped']),
    'vp_cli_loss': dict(bounds='0-2 rpcs of either kind, queue 1-2, peer reading or not, 5 causes (EOF, reset, invalid bytes, connection dropped, driver gone)', witness=['rpcs ended']),
    'vp_cli_loss_race': dict(bounds='as vp_cli_loss with another thread sending at any one synchronisation operation while the connection goes down', witness=['rpcs ended']),
    'vp_cli_waiting': dict(bounds='5, 8 or 11 callers on a queue of 1-3 with a peer that does not read, any one of those waiting gives up or none, then the peer reads (at once or 1, 3, 4 or 8 bytes at a time) or goes away', witness=[]),
    'vp_cli_race_response': dict(bounds='the connection runs at any one synchronisation operation inside send, poll or drop', witness=['race']),
    'vp_cli_race_reactor': dict(bounds='another thread sends, drops or both at any two synchronisation operations while responses are processed', witness=['race']),
    'vp_cli_race_poll': dict(bounds='0-2 responses, end or loss of the connection arrive at any one synchronisation operation inside poll of a completion of either kind', witness=['race']),
    'vp_cli_reuse': dict(bounds='an rpc of either kind ends in 3 ways, its completion dropped before, during or after a second rpc with its id', witness=['reused']),
    # --- rpc server
    'vp_srv_mix': dict(bounds='2 rpcs of either kind, queue 1-2, 5 events out of: result (symbolic), end of stream, everything runs', witness=['mix', 'stream ended', 'unary answered']),
    'vp_srv_mix_cancel': dict(bounds='as vp_srv_mix with 4 events and cancellations', witness=['mix', 'cancelled']),
    'vp_srv_mix_slow': dict(bounds='as vp_srv_mix_cancel with a peer that has room for 0, 2, 4 or 6 bytes, then reads', witness=['mix', 'cancelled']),
    'vp_srv_mix_deep': dict(bounds='3 rpcs of either kind, queue 1-2, 4 events and cancellations, slow peer', witness=['mix', 'cancelled'], limit=3000),
    'vp_srv_cancel': dict(bounds='an rpc of either kind cancelled in the same batch or after 0-2 results, twice, amid other messages; another rpc of either kind beside it', witness=['cancelled']),
    'vp_srv_reuse': dict(bounds='an rpc of either kind ends or is cancelled, then another one of either kind with its id, before or after the server noticed; peer slow or not', witness=['reused']),
    'vp_srv_pressure': dict(bounds='0, 3 or 6 unary rpcs answered at once, 0-2 streams with 0, 3 or 6 items (one symbolic each), ended or not, queue 1-4, the peer reading 1-7 bytes at a time', witness=['drained']),
    'vp_srv_backpressure': dict(bounds='4 unary requests and a stream of 4 items, queue 1-2, kernel room 0, 3 or 6 bytes, then the peer reads at once or byte by byte', witness=['drained']),
    'vp_srv_bulk': dict(bounds='4,200 requests at once (one symbolic payload; more than one internal batch of 128), queue 16 or 32', witness=['bulk']),
    'vp_srv_teardown': dict(bounds='2 connections, one ends in 5 ways with 0-2 rpcs of either kind at any stage, peer reading or not', witness=['torn down']),
    'vp_srv_isolation': dict(bounds='2 connections with the same ids, either kind, a cancellation on either, the first 4 scheduling decisions symbolic', witness=['isolated']),
    'vp_srv_unknown': dict(bounds='a message with any control code and payload, then a request', witness=['unknown', 'alive']),
    # --- what makes connections
    'vp_acc_rpc': dict(bounds='3 events out of: connection arrives, connection whose options cannot be set arrives, accept fails in 6 ways, a peer goes away, everything runs', witness=['served', 'broken connection']),
    'vp_acc_raw': dict(bounds='as vp_acc_rpc for the plain server', witness=['served', 'broken connection']),
    'vp_acc_rpc_deep': dict(bounds='as vp_acc_rpc with 5 events', witness=['served', 'broken connection']),
    'vp_acc_raw_deep': dict(bounds='as vp_acc_raw with 5 events', witness=['served', 'broken connection']),
    'vp_acc_rpc_limits': dict(bounds='2 connections accepted under max_buffer_length 2-4 and max_queued 1-3 each', witness=['limited', 'too long']),
    'vp_acc_raw_limits': dict(bounds='2 connections accepted under max_buffer_length 3-6 and max_queued 1-3 each, messages of 3-9 bytes', witness=['limited', 'too long']),
    'vp_acc_registry': dict(bounds='max_read_buffer_length 2-5, max_queued 1-3, connect succeeds or fails, responses of 3-7 bytes', witness=['limited', 'too long', 'refused']),
    'vp_acc_registry_address': dict(bounds='6 malformed addresses', witness=['refused']),
    'vp_acc_connect': dict(bounds='max_buffer_length 2-5, max_queued 1-3, connect succeeds or fails', witness=['limited', 'too long', 'refused']),
    # --- memory over a long history
    'vp_leak_client': dict(bounds='48 rounds alternating between any 2 of 12 kinds (answered, ended, cancelled by the peer, dropped at 5 stages, messages for no rpc, given up while waiting for room, same id again, cloned handle), either kind of rpc, beside an rpc of either kind or none', witness=['rounds']),
    'vp_leak_server': dict(bounds='48 rounds alternating between any 2 of 8 kinds (served, cancelled at 4 stages, unknown or answered at once, messages for no rpc, same id again), either kind of rpc, beside an rpc of either kind or none', witness=['rounds']),
    'vp_leak_connection': dict(bounds='48 rounds of messages of 0-3 bytes in, out, both ways or skipped, in two reads, with blocked writes; max_buffer_length 5-9, max_queued 1-3', witness=['rounds']),
    'vp_leak_accepted': dict(bounds='48 connections one after the other, each ending in 2 ways with 0-2 rpcs of either kind, peer reading or not', witness=['rounds']),
    'vp_leak_dead': dict(bounds='48 rounds of 2 kinds of refused requests on a client whose connection is gone', witness=['rounds']),
    # --- many at once
    'vp_srv_bulk_streams': dict(bounds='1-3 streams of 1,100 items each (one symbolic), all there at once, ended or not, queue 1, 16 or 256, peer reading at once or late', witness=['bulk']),
    'vp_srv_bulk_pending': dict(bounds='1,100 rpcs of either or both kinds outstanding, every one, second or third of them cancelled at once, the rest answered at once (one symbolic result), queue 1, 16 or 256', witness=['bulk']),
    'vp_cli_bulk': dict(bounds='1,100 rpcs of either or both kinds outstanding, then all answered (one symbolic response) in either order, all dropped as fast as the queue allows, or the connection lost; queue 1-4', witness=['bulk']),
    # --- threads and schedules
    'vp_race_conn': dict(bounds='0-1 messages each way (symbolic), max_queued 1-2, kernel room 0, 1 or any; at any one lock, channel or socket operation of the connection something happens elsewhere: a message is sent, one arrives, the kernel gets room, the last sender is dropped', witness=['race', 'meanwhile']),
    'vp_race_conn_deep': dict(bounds='as vp_race_conn with two things happening at any two operations', witness=['race', 'meanwhile']),
    'vp_race_server': dict(bounds='2 rpcs of either kind, queue 1-2, kernel room 0, 3 or any; at any one operation of the tasks of the connection something happens elsewhere: a result of either rpc, the end of a stream, a cancellation arrives, the kernel gets room, or nothing; another task runs at that point or not', witness=['race', 'meanwhile', 'cancelled', 'stream ended', 'unary answered']),
    'vp_race_server_deep': dict(bounds='as vp_race_server with two things happening at any two operations', witness=['race', 'meanwhile', 'cancelled', 'stream ended', 'unary answered']),
    'vp_srv_sched': dict(bounds='2 rpcs of either kind, 3 events out of: result (symbolic), end of stream, cancellation, everything runs; the first 5 decisions which task runs next symbolic', witness=['mix', 'cancelled', 'stream ended', 'unary answered']),
    'vp_srv_sched_deep': dict(bounds='as vp_srv_sched with 4 events and the first 8 scheduling decisions', witness=['mix', 'cancelled', 'stream ended', 'unary answered']),
    'vp_e2e_sched': dict(bounds='as vp_e2e_one with 3 events, the first 4 decisions which task runs next symbolic', witness=['mix', 'served', 'dropped']),
    'vp_e2e_sched_deep': dict(bounds='as vp_e2e_one with 3 events, the first 7 scheduling decisions symbolic', witness=['mix', 'served', 'dropped']),
    # --- client and server joined by a wire
    'vp_e2e_one': dict(bounds='1 call of either kind with symbolic request and results, 5 events out of: bytes flow either way, the service produces or ends, the caller polls or drops; server queue 1-2', witness=['mix', 'served', 'dropped']),
    'vp_e2e_mix': dict(bounds='as vp_e2e_one with 2 calls and 3 events', witness=['mix', 'served', 'dropped']),
    'vp_e2e_mix_deep': dict(bounds='as vp_e2e_one with 2 calls and 4 events', witness=['mix', 'served', 'dropped'], limit=3000),
    'vp_e2e_loss': dict(bounds='0-2 calls of either kind at 4 stages, callers waiting or not, 5 causes on either end', witness=['ended', 'gone']),
    # --- the real codecs inside a connection
    'vp_wired_prost_in': dict(bounds='1-2 prost messages with a symbolic 64 bit id and 0-1 bytes, max_buffer_length exact or 1 more, max_queued 1-2, every split into reads', witness=['everything delivered']),
    'vp_wired_mp_in': dict(bounds='a messagepack message with a symbolic 64 bit id and 0-1 bytes, max_buffer_length exact or 1 more, max_queued 1-2, every split into reads, one WouldBlock', witness=['everything delivered']),
    'vp_wired_prost_long': dict(bounds='1-3 prost messages with a symbolic 64 bit id and 0, 1 or 130 bytes, max_buffer_length exact or 1 more, max_queued 1-2, reads of 1-9 bytes', witness=['everything delivered']),
    'vp_wired_mp_long': dict(bounds='1-3 messagepack messages with a symbolic 64 bit id and 0, 1 or 130 bytes, max_buffer_length exact or 1 more, max_queued 1-2, reads of 1-9 bytes', witness=['everything delivered']),
    'vp_wired_prost_out': dict(bounds='1-3 prost messages with a symbolic 64 bit id and 0-1 bytes, max_queued 1-2, writes of 1-5 bytes', witness=['everything written']),
    'vp_wired_mp_out': dict(bounds='1-3 messagepack messages with a symbolic 64 bit id and 0-1 bytes, max_queued 1-2, writes of 1-5 bytes', witness=['everything written']),
    'vp_wired_prost_limit': dict(bounds='a prost message with a symbolic 64 bit id and 0-8 bytes, max_buffer_length 3-16, reads of 1-4 bytes', witness=['fits', 'oversized']),
    'vp_wired_mp_limit': dict(bounds='a messagepack message with a symbolic 64 bit id and 0-8 bytes, max_buffer_length 3-16, reads of 1-4 bytes', witness=['fits', 'oversized']),
    'vp_wired_prost_hostile': dict(bounds='a prost message, then 1-3 arbitrary bytes, max_buffer_length 16, 20 or unlimited, max_queued 1-2, reads of 1, 3, exactly the message or all bytes', witness=['complete', 'unfinished', 'too long', 'unfinished length']),
    'vp_wired_prost_hostile_head': dict(bounds='a prost message, then a length of 7-10 arbitrary bytes, otherwise as vp_wired_prost_hostile', witness=['malformed length', 'too long']),
    'vp_wired_mp_hostile': dict(bounds='a messagepack message, then 1-3 arbitrary bytes, otherwise as vp_wired_prost_hostile', witness=['unfinished length']),
    'vp_wired_mp_hostile_head': dict(bounds='a messagepack message, then any length, otherwise as vp_wired_prost_hostile', witness=['complete', 'unfinished', 'too long']),
    # --- sustained load
    'vp_fair_in': dict(bounds='400 messages waiting to be received in reads of 1-8 bytes, max_buffer_length 4, 5, 8 or 2000, max_queued 1-3, 3 messages to send from any of the first 7 polls on', witness=['sent meanwhile']),
    'vp_fair_out': dict(bounds='400 messages to send as fast as the queue of 1-3 takes them, 3 messages received from any of the first 7 polls on', witness=['received meanwhile']),
    'vp_fair_server': dict(bounds='a stream with 300 items ready, queue 1-3, 3 ways the peer reads; another stream and a unary rpc from any of the first 13 polls on; then a cancellation', witness=['served meanwhile']),
    'vp_fair_requests': dict(bounds='400 requests answered at once, queue 1-3, peer reading 1, 2 or 4 responses at a time, a stream with 2 items from any of the first 13 polls on, an idle rpc waking the server in between', witness=['served meanwhile']),
    'vp_fair_client': dict(bounds='400 stream items waiting in reads of 1-16 bytes, the stream read or not, another rpc from any of the first 7 polls on', witness=['completed meanwhile']),
}

ASSUMPTIONS = [
    'bounds as listed per harness; nothing is claimed outside them',
    'tokio (net, sync, runtime), tokio-util, k-lock and log are replaced by models of their documented contracts (vp/shims); '
    'the kernel socket is a pair of byte queues with symbolic read/write lengths and faults',
    'the receive buffer grows in steps of 4 bytes instead of 2 MiB (cargo feature verif), so that growth and rotation happen within the bounds; harnesses marked @prod use the released step',
    'formatted text is not modelled; memory is sequentially consistent; another thread runs atomically at one synchronisation operation',
    'opt-level 1 code with overflow checks, x86-64; allocation does not fail',
]

PROPS = {
    'C01': dict(quick=['vp_conn_inbound', 'vp_conn_inbound_grow', 'vp_conn_inbound_skip', 'vp_conn_inbound_faults', 'vp_conn_duplex', 'vp_conn_bulk', 'vp_conn_inbound_two@prod', 'vp_conn_big@prod', 'vp_wired_prost_in', 'vp_wired_mp_in', 'vp_wired_prost_long', 'vp_wired_mp_long', 'vp_race_conn_deep', 'vp_conn_echo_deep', 'vp_wired_prost_hostile', 'vp_wired_prost_hostile_head', 'vp_wired_mp_hostile', 'vp_wired_mp_hostile_head', 'vp_conn_batches', 'vp_conn_bulk_close'], thorough=['vp_conn_inbound_deep', 'vp_conn_inbound_grow_deep', 'vp_conn_duplex_deep', 'vp_conn_bulk_deep']),
    'C02': dict(quick=['vp_conn_pressure', 'vp_conn_outbound', 'vp_conn_outbound_faults', 'vp_conn_duplex', 'vp_conn_bulk', 'vp_conn_mute', 'vp_wired_prost_out', 'vp_wired_mp_out', 'vp_race_conn_deep', 'vp_conn_echo_deep', 'vp_cross_conn_deep', 'vp_conn_bulk_close'], thorough=['vp_conn_outbound_deep', 'vp_conn_duplex_deep', 'vp_conn_bulk_deep']),
    'C03': dict(quick=['vp_conn_pressure', 'vp_conn_inbound', 'vp_conn_inbound_grow', 'vp_conn_inbound_skip', 'vp_conn_inbound_faults', 'vp_conn_outbound', 'vp_conn_outbound_faults', 'vp_conn_duplex', 'vp_conn_duplex_deep', 'vp_conn_bulk', 'vp_conn_limit_in', 'vp_conn_limit_skip', 'vp_conn_limit_out', 'vp_conn_backpressure', 'vp_conn_hold', 'vp_conn_end', 'vp_conn_close_in', 'vp_conn_close_out', 'vp_conn_mute', 'vp_conn_inbound_two@prod', 'vp_conn_limit_in@prod', 'vp_conn_big@prod', 'vp_wired_prost_limit', 'vp_wired_mp_limit', 'vp_srv_bulk_streams', 'vp_srv_bulk_pending', 'vp_cli_bulk', 'vp_race_conn_deep', 'vp_race_server_deep', 'vp_srv_sched', 'vp_conn_echo_deep', 'vp_conn_batches', 'vp_srv_pressure', 'vp_cross_conn_deep', 'vp_cross_server'], thorough=['vp_conn_inbound_deep', 'vp_conn_inbound_grow_deep', 'vp_conn_outbound_deep', 'vp_srv_sched_deep', 'vp_cross_server_deep', 'vp_conn_bulk_deep']),
    'C04': dict(quick=['vp_conn_limit_in', 'vp_conn_limit_skip', 'vp_conn_limit_out', 'vp_conn_limit_in@prod', 'vp_conn_big@prod', 'vp_wired_prost_limit', 'vp_wired_mp_limit', 'vp_wired_prost_in', 'vp_wired_mp_in', 'vp_wired_prost_hostile', 'vp_wired_prost_hostile_head', 'vp_wired_mp_hostile', 'vp_wired_mp_hostile_head', 'vp_conn_batches'], thorough=[]),
    'C05': dict(quick=['vp_conn_pressure', 'vp_conn_inbound_grow', 'vp_conn_backpressure', 'vp_conn_hold', 'vp_conn_inbound', 'vp_conn_bulk', 'vp_conn_limit_in', 'vp_conn_limit_skip', 'vp_srv_backpressure', 'vp_conn_limit_in@prod', 'vp_conn_hold@prod', 'vp_conn_batches', 'vp_cli_waiting'], thorough=['vp_conn_inbound_deep']),
    'C06': dict(quick=['vp_conn_pressure', 'vp_conn_end', 'vp_conn_end_driver', 'vp_conn_inbound', 'vp_conn_inbound_faults', 'vp_conn_outbound_faults', 'vp_conn_duplex', 'vp_conn_backpressure', 'vp_conn_close_in', 'vp_conn_close_out', 'vp_conn_mute', 'vp_cli_drop', 'vp_race_conn_deep', 'vp_conn_echo_deep', 'vp_cli_handles', 'vp_wired_prost_hostile', 'vp_wired_prost_hostile_head', 'vp_wired_mp_hostile', 'vp_wired_mp_hostile_head', 'vp_conn_batches', 'vp_cross_conn_deep', 'vp_conn_bulk_close'], thorough=['vp_conn_inbound_deep', 'vp_conn_outbound_deep', 'vp_conn_duplex_deep']),
    'C07': dict(quick=['vp_conn_pressure', 'vp_conn_close_in', 'vp_conn_close_out', 'vp_race_conn_deep', 'vp_cli_handles', 'vp_wired_prost_hostile', 'vp_wired_prost_hostile_head', 'vp_wired_mp_hostile', 'vp_wired_mp_hostile_head', 'vp_conn_batches', 'vp_cross_conn_deep', 'vp_conn_bulk_close'], thorough=[]),
    'C08': dict(quick=['vp_prost_round', 'vp_prost_large'], thorough=[]),
    'C09': dict(quick=['vp_mp_round', 'vp_mp_large'], thorough=[]),
    'C10': dict(quick=['vp_prost_hostile', 'vp_prost_hostile_head', 'vp_wired_prost_hostile', 'vp_wired_prost_hostile_head'], thorough=[]),
    'C11': dict(quick=['vp_mp_hostile', 'vp_mp_hostile_body', 'vp_wired_mp_hostile_head'], thorough=[]),
    'C12': dict(quick=['vp_control_code', 'vp_srv_unknown'], thorough=[]),
    'C13': dict(quick=['vp_cli_mix', 'vp_cli_mix_segments', 'vp_cli_race_response', 'vp_cli_race_reactor', 'vp_cli_race_poll', 'vp_cli_waiting', 'vp_cli_bulk', 'vp_e2e_one', 'vp_e2e_mix', 'vp_e2e_sched', 'vp_cli_handles', 'vp_cross_answers_deep', 'vp_cross_leak'], thorough=['vp_cli_mix_deep', 'vp_e2e_sched_deep', 'vp_cli_bulk_deep', 'vp_cross_e2e_deep']),
    'C14': dict(quick=['vp_cli_mix', 'vp_cli_mix_segments', 'vp_cli_long_stream', 'vp_cli_race_response', 'vp_cli_race_reactor', 'vp_cli_race_poll', 'vp_cli_bulk', 'vp_e2e_one', 'vp_e2e_mix', 'vp_e2e_sched', 'vp_cli_stream_rhythm', 'vp_cli_handles', 'vp_cross_answers_deep', 'vp_cli_bulk_items', 'vp_cross_leak'], thorough=['vp_cli_mix_deep', 'vp_e2e_sched_deep', 'vp_cli_bulk_deep', 'vp_cross_e2e_deep', 'vp_cli_bulk_items_deep']),
    'C15': dict(quick=['vp_cli_drop', 'vp_cli_mix_segments', 'vp_cli_race_reactor', 'vp_cli_bulk', 'vp_e2e_one', 'vp_e2e_mix', 'vp_e2e_sched', 'vp_cli_handles', 'vp_cross_answers_deep', 'vp_cross_reuse'], thorough=['vp_cli_mix_deep', 'vp_e2e_sched_deep', 'vp_cli_bulk_deep', 'vp_cross_e2e_deep', 'vp_cross_reuse_deep']),
    'C16': dict(quick=['vp_cli_loss', 'vp_cli_loss_race', 'vp_cli_race_poll', 'vp_cli_waiting', 'vp_cli_mix_segments', 'vp_cli_bulk', 'vp_leak_dead', 'vp_e2e_loss', 'vp_cross_down', 'vp_cross_answers', 'vp_cli_bulk_items'], thorough=['vp_cli_mix', 'vp_cross_down_deep', 'vp_cli_bulk_deep']),
    'C17': dict(quick=['vp_srv_mix', 'vp_srv_mix_cancel', 'vp_srv_bulk', 'vp_srv_isolation', 'vp_srv_unknown', 'vp_srv_bulk_pending', 'vp_race_server_deep', 'vp_srv_sched', 'vp_e2e_one', 'vp_e2e_mix', 'vp_srv_pressure', 'vp_cross_server_deep', 'vp_cross_teardown', 'vp_cross_srv_reuse', 'vp_srv_duplicate'], thorough=['vp_srv_mix_deep', 'vp_srv_sched_deep', 'vp_e2e_sched_deep', 'vp_srv_bulk_pending_deep', 'vp_srv_bulk_deep']),
    'C18': dict(quick=['vp_srv_mix', 'vp_srv_mix_cancel', 'vp_srv_mix_slow', 'vp_srv_backpressure', 'vp_srv_bulk_streams', 'vp_race_server_deep', 'vp_srv_sched', 'vp_e2e_one', 'vp_e2e_mix', 'vp_srv_pressure', 'vp_cross_server_deep'], thorough=['vp_srv_mix_deep', 'vp_srv_sched_deep', 'vp_e2e_sched_deep', 'vp_srv_bulk_pending_deep', 'vp_srv_bulk_streams_deep']),
    'C19': dict(quick=['vp_srv_cancel', 'vp_srv_mix_cancel', 'vp_srv_mix_slow', 'vp_srv_isolation', 'vp_srv_bulk_pending', 'vp_race_server_deep', 'vp_srv_sched', 'vp_e2e_one', 'vp_e2e_mix', 'vp_cross_server_deep', 'vp_cross_srv_reuse'], thorough=['vp_srv_mix_deep', 'vp_srv_sched_deep', 'vp_e2e_sched_deep', 'vp_srv_bulk_pending_deep', 'vp_cross_srv_reuse_deep']),
    'C20': dict(also=[3], quick=['vp_srv_backpressure', 'vp_srv_mix_slow', 'vp_srv_mix', 'vp_srv_cancel', 'vp_srv_bulk', 'vp_srv_bulk_streams', 'vp_srv_bulk_pending', 'vp_race_server_deep', 'vp_srv_sched', 'vp_srv_pressure', 'vp_cross_server_deep'], thorough=['vp_srv_mix_deep', 'vp_srv_sched_deep', 'vp_srv_bulk_pending_deep']),
    'C21': dict(quick=['vp_srv_teardown', 'vp_srv_mix', 'vp_acc_rpc', 'vp_acc_raw', 'vp_srv_bulk_streams', 'vp_srv_bulk_pending', 'vp_e2e_loss', 'vp_cross_teardown_deep', 'vp_acc_rpc_bulk', 'vp_acc_raw_bulk', 'vp_srv_duplicate'], thorough=['vp_srv_mix_deep', 'vp_acc_rpc_deep', 'vp_acc_raw_deep']),
    'C22': dict(quick=['vp_cli_reuse', 'vp_srv_reuse', 'vp_cross_reuse', 'vp_cross_srv_reuse'], thorough=['vp_cross_reuse_deep', 'vp_cross_srv_reuse_deep']),
    'C23': dict(quick=['vp_acc_rpc', 'vp_acc_raw', 'vp_acc_rpc_bulk', 'vp_acc_raw_bulk'], thorough=['vp_acc_rpc_deep', 'vp_acc_raw_deep', 'vp_acc_rpc_bulk_deep', 'vp_acc_raw_bulk_deep']),
    'C26': dict(quick=['vp_e2e_one', 'vp_e2e_mix', 'vp_e2e_loss', 'vp_e2e_sched', 'vp_cross_e2e'], thorough=['vp_e2e_mix_deep', 'vp_e2e_sched_deep', 'vp_cross_e2e_deep']),
    'C27': dict(quick=['vp_fair_in', 'vp_fair_out', 'vp_fair_server', 'vp_fair_requests', 'vp_fair_client'], thorough=[]),
    'C25': dict(quick=['vp_leak_client', 'vp_leak_server', 'vp_leak_connection', 'vp_leak_accepted', 'vp_leak_dead', 'vp_cross_leak'], thorough=['vp_cross_leak_deep']),
    'C24': dict(quick=['vp_acc_rpc_limits', 'vp_acc_raw_limits', 'vp_acc_registry', 'vp_acc_registry_address', 'vp_acc_connect', 'vp_acc_rpc', 'vp_acc_raw', 'vp_acc_rpc_bulk', 'vp_acc_raw_bulk'], thorough=[]),
}

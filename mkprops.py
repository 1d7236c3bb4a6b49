#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
CONN = 'protosocket-connection/src/connection.rs'
PROST = 'protosocket-prost/src/prost_serializer.rs'
MP = 'protosocket-messagepack/src/lib.rs'
RC = 'protosocket-rpc/src/client/rpc_client.rs'
RX = 'protosocket-rpc/src/client/reactor/completion_reactor.rs'
RG = 'protosocket-rpc/src/client/reactor/completion_registry.rs'
RS = 'protosocket-rpc/src/client/reactor/completion_streaming.rs'
RU = 'protosocket-rpc/src/client/reactor/completion_unary.rs'
SC = 'protosocket-rpc/src/server/connection_server.rs'
SA = 'protosocket-rpc/src/server/abortable.rs'
SS = 'protosocket-rpc/src/server/socket_server.rs'
SR = 'protosocket-rpc/src/server/rpc_submitter.rs'
PS = 'protosocket-server/src/connection_server.rs'
PR = 'protosocket-prost/src/prost_client_registry.rs'
CF = 'protosocket-rpc/src/client/configuration.rs'
MSG = 'protosocket-rpc/src/message.rs'

P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=False):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed='receive buffer growth step of 4 bytes (feature verif)' if hook else None)))

p('C01', 'Inbound messages are delivered exactly once, in order, for any segmentation',
  "However the peer's byte stream is cut into reads, the connection hands the reactor exactly the messages the deserializer finds in that stream: none lost, none repeated, none altered, in order, and messages the deserializer asks to skip are passed over without disturbing the ones around them. This holds for every buffer limit that admits the messages, every batch limit, and any mix of would-block, interrupted and spurious readiness between reads.",
  ['inputs', 'schedules', 'configurations'], 'all message contents and lengths, all splits of the stream into reads, all interleavings of readiness and faults, all limits',
  'a test fixes one segmentation and one buffer size; rotation, growth and batch boundaries only interact for particular combinations of the three',
  [CONN], [('read into a growing buffer', CONN + ': read_inbound, read_from_stream'), ('decode loop', CONN + ': read_inbound_messages_into_read_queue'), ('rotation of an unfinished message', CONN + ': make_room_for_message')],
  ['MessageReactor::on_inbound_messages'], True)
p('C02', 'Outbound bytes are exactly the encoded messages, in order, under partial writes',
  "The bytes a connection writes to its socket are the concatenated encodings of the messages taken from its outbound channel, in the order they were sent, with no byte lost, repeated or reordered. This holds however few bytes each write accepts, however often writes block or are interrupted, and also when some messages encode to nothing.",
  ['inputs', 'schedules', 'fault_sequences'], 'all message contents and lengths, all sequences of accepted byte counts, blocked and interrupted writes, all arrival times of messages',
  'partial writes almost never happen on loopback sockets, and never at every offset',
  [CONN], [('vectored write of at most 128 buffers', CONN + ': writev_buffers'), ('consume written bytes', CONN + ': rotate_send_buffers'), ('batch out of the channel', CONN + ': poll_serialize_outbound_messages')],
  ['bytes written to the TcpStream'])
p('C03', 'A connection never stalls on available work and never spins when idle',
  "Whenever unread bytes form a deliverable message, or the socket is writable and messages are queued, the connection eventually makes progress without any further outside event than the readiness notifications and channel wakes it registered for. When there is nothing to do it goes quiet: it does not wake itself forever.",
  ['schedules', 'inputs', 'configurations'], 'all schedules of readiness events, wakes and polls, all limits, all message sizes within the limit',
  'a lost wakeup needs one particular order of full buffers, readiness and polls, and then shows only as a hang',
  [CONN], [('waker bookkeeping', CONN + ': Future::poll, poll_receive, poll_deserialize, poll_serialize_outbound_messages, poll_outbound')],
  ['Connection::poll', 'MessageReactor::on_inbound_messages', 'bytes written'], True)
p('C04', 'Message size limits hold both ways, and nothing within them is refused',
  "A message whose frame fits the configured buffer length is always delivered or sent and never ends the connection. A longer inbound message (also one that would be skipped) either is handled completely or ends the connection, never leaving it waiting; a longer outbound message ends the connection and none of its bytes reach the wire.",
  ['inputs', 'configurations', 'schedules'], 'all frame lengths around all limits, all segmentations, both conventions for reporting the missing size',
  'the boundary interacts with what precedes the message in the buffer and how it is segmented',
  [CONN], [('inbound limit', CONN + ': make_room_for_message'), ('outbound limit', CONN + ': poll_serialize_outbound_messages')], ['MessageReactor::on_inbound_messages', 'bytes written', 'completion of the connection future'], True)
p('C05', 'Buffering is bounded by the configured limits in both directions',
  "A connection holds at most its configured buffer length (plus one growth step) of received bytes that it has not yet delivered, hands the reactor at most the configured number of messages at a time, and with a peer that does not read takes only a bounded number of messages - proportional to the configured queue - out of its channel. An rpc server whose peer does not read stops pulling results from streams once its queue is full.",
  ['schedules', 'configurations', 'inputs'], 'all limits, all traffic patterns, any moment',
  'a leak of the bound shows only under sustained pressure with specific timing',
  [CONN, SC], [('receive buffer growth', CONN + ': read_inbound'), ('send queue room', CONN + ': room_in_send_buffer'), ('reserve before polling rpcs', SC + ': poll_advance_streaming_rpcs')], ['reads issued', 'messages accepted by the channel'], True)
p('C06', 'A connection ends exactly when something ends it, and then lets go of everything',
  "A connection completes after end of stream, a read or write error, failed readiness, invalid bytes, a disconnect requested by the reactor, or the last outbound sender going away - and for nothing else: would-block, interruption, slow peers, idle time, empty encodings and dropped rpcs leave it running. Once ended, its socket is closed, its reactor is dropped and senders see a closed channel.",
  ['fault_sequences', 'schedules'], 'all causes at all points of ongoing traffic, all transient conditions',
  'each cause has to be injected at each stage of a transfer',
  [CONN], [('error and end handling', CONN + ': read_from_stream, writev_buffers, poll_receive, poll_react, poll_outbound')], ['completion of the connection future', 'drop of the stream and reactor'])
p('C07', 'Nothing that was received or accepted in full is lost when a connection closes',
  "Every complete message received before the end of the stream (orderly, reset, or invalid bytes) reaches the reactor before the connection ends, and an unfinished one does not. Every message accepted by the outbound channel before the last sender was dropped is written before the connection ends, as long as the peer keeps reading.",
  ['schedules', 'crash_points', 'inputs'], 'all numbers of messages, batch limits, segmentations and moments of closing',
  'needs the close to coincide with a partially processed batch',
  [CONN], [('receive_closed / outbound_closed draining', CONN + ': Future::poll, poll_receive, poll_serialize_outbound_messages')], ['MessageReactor::on_inbound_messages', 'bytes written'])
p('C08', 'Prost framing round-trips every message and calls every prefix incomplete',
  "Encoding any message and decoding the bytes yields an equal message and consumes exactly the bytes written, whatever follows them in the buffer. Decoding any proper prefix reports an incomplete buffer and asks for no more than the frame.",
  ['inputs'], 'all field values, all trailing bytes, all prefixes', 'varint boundaries and prefixes multiply; tests sample a few',
  [PROST], [('length-delimited encode / decode', PROST)], ['Serializer::encode', 'Deserializer::decode'])
p('C09', 'Messagepack framing round-trips every message across any partial decodes',
  "Encoding any message and decoding the bytes yields an equal message and consumes exactly the bytes written, whatever follows them and whichever prefixes the same deserializer was shown before; it then decodes the next message just as well. Proper prefixes report an incomplete buffer and ask for no more than the frame.",
  ['inputs', 'histories'], 'all field values, all trailing bytes, all prefixes shown before', 'the decoder keeps state between calls; tests decode whole messages',
  [MP], [('remembered message length', MP), ('fixed-width length prefix', MP)], ['Serializer::encode', 'Deserializer::decode'])
p('C10', 'Prost decoding is total on hostile bytes and never misjudges the frame',
  "For arbitrary bytes the decoder does not panic and answers by the frame alone: an unfinished length or body is incomplete, with a size that reveals the whole declared length so that limits apply; a length that can never become valid is rejected; a complete frame is decoded consuming exactly the frame, or rejected as invalid, but never called incomplete.",
  ['inputs'], 'all byte strings', 'hostile lengths and overlong varints are not produced by a well-behaved peer',
  [PROST], [('delimiter decoding and error mapping', PROST)], ['Deserializer::decode'])
p('C11', 'Messagepack decoding is total on hostile bytes and stays within its frame',
  "For arbitrary bytes, also shown piecemeal, the decoder does not panic or overflow and answers by the frame alone: an unfinished length or body is incomplete with a size that reveals the declared length; a malformed length is rejected; a complete frame is decoded consuming exactly the frame or rejected, never called incomplete, and never reads beyond it.",
  ['inputs', 'histories'], 'all byte strings, all ways to show them piecemeal', 'hostile lengths and bodies that end early are not produced by a well-behaved peer',
  [MP], [('length prefix decoding and error mapping', MP)], ['Deserializer::decode'])
p('C12', 'Control codes are total, stable on the wire and never mistaken',
  "Every byte is read as some control code; the normal, cancel and end codes are written as 0, 1 and 2 and read back as themselves; any unknown code is read as a cancellation. Only the normal code ever starts an rpc on a server.",
  ['inputs'], 'all code bytes', 'tests use the three known codes',
  [MSG, SC], [('from_u8 / as_u8', MSG), ('dispatch on control code', SC + ': handle_message_buffer')], ['ProtosocketControlCode', 'ConnectionService::new_rpc'])
p('C13', 'A unary caller gets exactly the response to its own request',
  "Each request reaches the wire exactly once; whatever order responses arrive in and however rpcs interleave across threads, each unary caller is completed exactly once, with the response that carries its id, or as cancelled if the peer ends or cancels it instead. Responses nobody waits for disturb no one, and a caller waiting for room in the queue proceeds when there is room. An rpc under way is still answered when every handle of the client has been dropped meanwhile.",
  ['schedules', 'inputs', 'histories'], 'all orders of responses, ends and cancellations for known and unknown ids, all interleavings of callers and connection', 'tests issue one rpc at a time on one thread',
  [RC, RX, RG, RU], [('register before sending', RC + ': send_unary'), ('completion registry', RG), ('dispatch', RX + ': on_inbound_messages')], ['UnaryCompletion', 'bytes written'])
p('C14', 'A streaming caller sees every item in order, then the end exactly once',
  "A streaming rpc yields exactly the items the peer sent for its id, in order, then one finished error once the peer ended or cancelled it, then nothing more ever. It is woken whenever something new arrives, for any number of items and any polling pattern.",
  ['schedules', 'inputs', 'histories'], 'all sequences of items and ends, all interleavings of polling and arrival, more items than any internal batch', 'depends on batch boundaries and on whether the consumer polls before, between or after arrivals',
  [RS, RG, RX], [('batched receive', RS), ('end of stream', RG)], ['StreamingCompletion'])
p('C15', 'Dropping a completion cancels its rpc exactly once, and only if it is unfinished',
  "If a caller drops the completion of an rpc that has not finished, exactly one cancellation for its id follows the request on the wire (given room in the outbound queue). No cancellation is sent for an rpc whose end the caller has seen, or that nobody dropped, and no other rpc is disturbed.",
  ['schedules', 'histories'], 'all points in the life of an rpc at which it is dropped, both kinds, racing with responses', 'the outcome depends on what arrived and what was observed at the moment of the drop',
  [RG, RU, RS], [('completion guard', RG + ': CompletionGuard::drop')], ['bytes written'])
p('C16', 'Losing the connection ends every rpc and is visible to every caller',
  "However a client connection goes away, every outstanding rpc ends: unary callers get a cancelled error, streams finish, callers waiting to send are refused - including rpcs submitted concurrently with the loss. Answers that had arrived before are still delivered; afterwards the client reports itself dead and every send fails with a connection-closed error.",
  ['crash_points', 'schedules', 'fault_sequences'], 'all causes of loss, at all stages of all rpcs, racing with new sends', 'a hang needs the loss to fall between submission and registration',
  [RX, RG, RC], [('drop of the reactor and in-flight submissions', RX), ('is_alive', RC)], ['UnaryCompletion', 'StreamingCompletion', 'RpcClient::send_unary', 'RpcClient::is_alive'])
p('C17', 'A server answers every unary request exactly once, with its own result',
  "Each normal message starts exactly one rpc with exactly the message sent, and each unary rpc that completes puts exactly its result on the wire of its own connection, once; its future is then dropped and never polled again. Requests the service does not know are not answered and harm nothing, for any number of concurrent requests.",
  ['schedules', 'inputs', 'histories'], 'all orders of completion, all payloads, more requests than any internal batch, several connections', 'tests complete a few requests in a fixed order',
  [SC, SA, SR], [('outstanding unary rpcs', SC + ': poll_advance_unary_rpcs'), ('inbound batches', SC + ': poll_receive_buffer, handle_message_buffer')], ['bytes written', 'ConnectionService::new_rpc'])
p('C18', 'A server streams all items in order, then exactly one end',
  "A streaming rpc puts exactly the items its stream produced on the wire, in order, followed by exactly one end message with its id once the stream finishes; then the stream is dropped. Streams and unary rpcs interleave without disturbing each other.",
  ['schedules', 'inputs', 'histories'], 'all interleavings of items, ends, other rpcs and a slow peer', 'tests use one ready-made stream at a time and fixed queue sizes',
  [SC, SA], [('outstanding streams', SC + ': poll_advance_streaming_rpcs'), ('end of stream', SA + ': Stream::poll_next')], ['bytes written'])
p('C19', 'A cancellation stops its rpc on the server, and nothing else',
  "After a cancellation for an rpc has been processed, the rpc's future or stream is dropped and nothing more is sent for it. Cancellations of finished, unknown or other connections' ids, repeated ones, and end messages change nothing for any other rpc, and the connection keeps serving.",
  ['schedules', 'histories', 'inputs'], 'all moments of cancellation, in the same batch as the request, between results, repeated, for unknown ids', 'tests cancel one hanging rpc',
  [SC, SA], [('abort handles', SC + ': handle_message_buffer'), ('abort states', SA)], ['bytes written', 'drop of the rpc future'])
p('C20', 'A server makes progress whenever its peer lets it',
  "Requests are taken in even while the peer does not read. Whenever there is room again - a lot or byte by byte - every available response and stream item is sent without any other event, nothing is left behind in a quiet server, and an idle server does not spin.",
  ['schedules', 'configurations'], 'all patterns of a slow peer, all queue sizes, all mixes of rpcs', 'a lost wakeup needs the queue to be full at the moment a result becomes ready',
  [SC], [('reserve then poll', SC + ': poll_advance_unary_rpcs, poll_advance_streaming_rpcs')], ['bytes written'])
p('C21', 'A server connection that ends takes exactly its own rpcs with it',
  "When a connection ends for whatever reason, its socket closes, its handler and all of its unfinished rpcs are dropped and its tasks complete, also when results are queued or the peer does not read. Other connections, their rpcs and the server are not affected, and a connection that nothing ended stays.",
  ['crash_points', 'schedules', 'fault_sequences'], 'all causes, at all stages of its rpcs', 'leaks are invisible to request/response tests',
  [SC, SR, CONN], [('inbound channel closes', SC + ': poll_receive_buffer'), ('submitter', SR)], ['drop of the service and rpc futures', 'task completion'])
p('C22', 'A message id can be used again as soon as its rpc is over',
  "Once an rpc is over - its caller saw it end or dropped it, or the server sent its end or processed its cancellation - a new rpc with the same id behaves like any other on client and server: it gets its own responses, can be cancelled, and is not cancelled, answered or killed by anything left over from the old one - even if the old completion is dropped later or the server has not yet retired the old rpc.",
  ['histories', 'schedules'], 'all ways the first rpc ends, all kinds, all orders of retiring the old and starting the new', 'tests never reuse an id',
  [SC, SA, RG], [('abort handle map', SC), ('completion map', RG)], ['bytes written', 'completions'])
p('C23', 'An accept loop never stops, whatever the connections do',
  "A server keeps accepting: failed accepts, connections that are already broken when accepted (their socket options cannot be set), and connections that end in any way do not end or block the server future, and every healthy connection that arrives gets exactly one handler and works.",
  ['fault_sequences', 'schedules'], 'all sequences of arrivals, accept errors, broken and ending connections, on both servers', 'accept errors are hard to provoke from a test',
  [SS, PS], [('accept loop', SS + ': Future::poll'), ('accept loop', PS + ': Future::poll')], ['server future', 'handlers created'])
p('C24', 'Configured limits and no-delay apply to each connection made afterwards',
  "Each connection accepted by either server or opened by either client has no-delay set and enforces the buffer length and queue length configured at that moment - inbound and outbound size limit, batch size, queue capacity - not those of an earlier or later setting. Failed connects and malformed addresses are reported as errors and leave nothing behind.",
  ['configurations', 'fault_sequences'], 'all combinations of limits, changed between connections', 'tests use the defaults',
  [SS, PS, PR, CF], [('limits handed to the connection', SS + ', ' + PS + ', ' + PR + ', ' + CF)], ['TcpStream options', 'sender capacity', 'accepted message sizes'], True)

p('C25', 'What is over leaves nothing behind: memory does not grow with history',
  "However many rpcs a connection has carried, a client and a server hold memory only for those still outstanding: an rpc that was answered, ended, cancelled by either side, dropped at any stage, refused as unknown or given up while waiting for room leaves nothing behind, and neither do messages for ids that belong to no rpc. A connection holds nothing for messages it has delivered, skipped or written, and a server nothing for connections that ended.",
  ['histories', 'schedules'], 'all ways an rpc, a message or a connection can be over, alternating in any combination of two, beside an rpc that lives on',
  'a leak of one table entry per rpc is invisible until a process has run for days',
  [RG, RX, SC, SA, CONN, SS], [('entries are removed when an rpc is over', RG + ': CompletionRegistry, CompletionGuard::drop'), ('abort handles are removed', SC + ': poll_advance_unary_rpcs, poll_advance_streaming_rpcs, handle_message_buffer'), ('buffers are recycled', CONN + ': rotate_send_buffers')], ['bytes allocated and not freed'])

p('C26', 'End to end: a call runs once and its caller sees what the service produced',
  "With a client and a server joined by a connection, every call reaches the service exactly once and unchanged, its caller sees exactly the results that the service produced for that call, in order, and the end of a stream once; a call that its caller drops stops in the server; when either end goes away, both ends let go of every call, no caller hangs, and answers that had arrived are still seen.",
  ['schedules', 'histories', 'fault_sequences'], 'all orders of bytes flowing either way, results, ends, polls and drops; all kinds and stages of calls when an end goes away',
  'client and server are only tested apart, each against a scripted other end, and only in fixed orders',
  [RC, RX, RG, SC, SA, CONN], [('request and response path', RC + ', ' + RX + ', ' + SC + ', ' + CONN)], ['requests the service gets', 'what completions yield', 'drop of rpc futures'])
p('C27', 'Sustained load in one place does not starve the rest of a connection',
  "While a peer never stops sending, messages of the application still go out; while the application never stops sending, messages of the peer still come in; while one stream always has another item or requests never stop arriving, other rpcs on the connection are still served and answered, can be started and can be cancelled. The wait is bounded by the configured queues, not by the length of the load.",
  ['schedules', 'histories'], 'all moments at which the other work arrives, all queue lengths and paces of reading within the bounds',
  'a test with a finite load passes even if everything else waits for its end',
  [CONN, SC, RX], [('one poll does a bounded amount of each kind of work', CONN + ': Future::poll'), ('unary and streaming rpcs share the outbound queue', SC + ': Future::poll')], ['bytes written', 'messages delivered', 'what completions yield'])

LEVEL_NOTE = ('bounded symbolic execution of the compiled Rust code: every path within the stated bounds is explored, feasibility and '
              'assertions decided by z3, counterexamples replayed natively before they count; bounds per harness are in the evidence. '
              'The tokio runtime, channels and sockets are contract models.')
NA = json.load(open(os.path.join(V, 'not_applicable.json'))) if os.path.exists(os.path.join(V, 'not_applicable.json')) else []

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['id']
            f.write(json.dumps(x) + '\n')
    hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep', '^hook:'], capture_output=True, text=True).stdout.split()
    m = dict(version=1, setup_cmd='bash setup.sh',
             hooks=dict(guard='cargo feature `verif` of protosocket-connection (crate protosocket)',
                        enable='vp/h/Cargo.toml depends on protosocket with features = ["verif"]: the receive buffer then grows by 4 bytes at a time instead of 2 MiB',
                        source_commits=hook),
             checks=[dict(property=x['id'], quick_cmd=f'python3 check.py {x["id"]} quick', thorough_cmd=f'python3 check.py {x["id"]} thorough',
                          technique='bounded symbolic execution of the LLVM IR of the real crates, z3 deciding, native replay of models',
                          level='model_checking', level_note=LEVEL_NOTE, evidence_file=f'evidence/{x["id"]}.json') for x in P],
             not_applicable=NA,
             notes='See DESIGN.md. Findings repaired in /repo are listed in known-findings.txt.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

NOT_YET = 'not built yet'
CF = ['src/client.rs', 'src/client_send.rs', 'src/client_receive.rs']
SF = ['src/server.rs', 'src/server_send.rs', 'src/server_receive.rs']
UNT = 'Only two unit tests build here (the numbering of 100x100 handles, and one configuration file), neither touches this; the integration tests sample a few dozen dialogues.'

# ------------------------------------------------------------------ client
P('C01', 'Client sends commands in enqueue order, each contiguous and exactly once',
  'The bytes a client asks to be written are the encodings of the enqueued commands, in the order in which they were enqueued, each exactly once and without bytes of anything else in between. '
  'Only authentication data and DONE may be written inside the AUTHENTICATE or IDLE exchange they belong to. '
  'No sequence of enqueueing, reading and server responses reorders, repeats, loses or interleaves bytes.',
  ['histories', 'inputs'], 'every interleaving of API calls, every command and every sequence of server messages, of any length',
  UNT, CF, [('command queue and send states', 'src/client_send.rs ClientSendState::next'), ('enqueue', 'src/client.rs Client::enqueue_command')],
  method=M_CLIENT, rule='Bytes of the marked command leave only after all earlier commands ended, are never repeated, and no bytes of another origin leave between its first byte and its end.',
  runs=CL, note='Sound for the abstracted queue (any length); the encoder is a model.')

P('C02', 'Synchronizing literals wait for the continuation request; fragments in order',
  'A client sends the fragments of a command in the order in which the encoder produced them, none missing and none twice. '
  'A literal announced as synchronizing is sent only after the server sent a continuation request while the client was waiting for it, and that continuation request leads to the literal being sent rather than to an event; a non-synchronizing literal is sent without waiting.',
  ['histories', 'inputs'], 'every command with any number and kinds of literals, and every timing and kind of server messages',
  UNT, CF, [('literal waiting', 'src/client_send.rs CommandState::push_to_buffer / literal_continue'), ('continuation dispatch', 'src/client.rs Client::progress_receive')],
  method=M_CLIENT, rule='The marked fragment is sent after all earlier and before all later fragments, once, and if it is a synchronizing literal only after a continuation request was consumed for it.',
  runs=CL, note='Sound for any number of fragments; the encoder is a model.')

P('C03', 'Client sends nothing before the greeting and reads exactly one greeting',
  'A client asks for no bytes to be written before it has received a greeting. '
  'The first message from the server is read as a greeting, and every later one as a response, never as a second greeting.',
  ['histories', 'inputs'], 'every history of API calls and server bytes',
  UNT, CF, [('greeting gate', 'src/client.rs Client::progress_send'), ('receive states', 'src/client_receive.rs ClientReceiveState::change_state')],
  method=M_CLIENT, rule='No output request in a state in which no greeting event has occurred; decoder in use is the greeting decoder exactly until the greeting is decoded.',
  runs=CL, note='Sound over all reachable abstract states.')

P('C04', 'Each command ends in exactly one final report, with its own handle and content',
  'For every enqueued command the client reports exactly one end (sent, rejected, authentication status, IDLE rejected or IDLE done sent), with the handle that was returned when it was enqueued and the command itself. '
  'No end is reported for a command that has not been sent as far as the report says, and none is reported with the handle or the content of another command; commands that have not ended stay in the queue.',
  ['histories', 'inputs'], 'every history of API calls and server messages, any number of queued commands',
  UNT, CF, [('termination', 'src/client_send.rs ClientSendState::maybe_terminate / next'), ('events', 'src/client.rs Event')],
  method=M_CLIENT, rule='Typestate of the marked command: enqueued, being sent, exchange, ended; every event that carries its handle or content is checked against it; dropping it before its end is a violation.',
  runs=CL, note='Sound over all reachable abstract states.')

P('C05', 'Only a tagged BAD for it ends a command that waits for its literal',
  'A command that waits for permission to send a literal is ended as rejected exactly when the server sends a tagged BAD status whose tag is that of the command. '
  'Untagged statuses, statuses for other tags and statuses of another kind never end it and are reported as plain statuses.',
  ['histories', 'inputs'], 'every status (kind and tag) in every state of the client',
  UNT, CF, [('matching', 'src/client_send.rs ClientSendState::maybe_terminate')],
  method=M_CLIENT, rule='Each status event is compared with the verdict the monitor derives from the state of the marked command, the tag comparison made on the path and the status kind.',
  runs=CL, note='Sound over all reachable abstract states; tag equality is an uninterpreted predicate.')

P('C06', 'AUTHENTICATE: data only when asked for, ended by its own status',
  'During an AUTHENTICATE exchange the client sends exactly the authentication data which the user provided, once, and only in answer to a continuation request; data offered at any other time is refused. '
  'A continuation request that arrives while the client waits for the server within the exchange is reported as a request for authentication data with the handle of the command, and a tagged status with its tag ends the exchange with the original command data.',
  ['histories', 'inputs'], 'every history of continuation requests, statuses, data, enqueueing and reads',
  UNT, CF, [('authenticate states', 'src/client_send.rs AuthenticateState'), ('set_authenticate_data', 'src/client.rs Client::set_authenticate_data')],
  method=M_CLIENT, rule='Typestate of the exchange (started, data requested, data set, data being sent, ended) checked on every output, event and user call.',
  runs=CL, note='Sound over all reachable abstract states.')

P('C07', 'IDLE: DONE only after acceptance, once, and before any later command',
  'After IDLE was sent, the client sends DONE only when the server accepted IDLE and the user asked for it, exactly once, and no other command is sent before IDLE was rejected or DONE was sent. '
  'The continuation request which accepts IDLE is reported as acceptance, a tagged NO or BAD for it before that as rejection, each with the handle of the IDLE command; asking for DONE at any other time is refused.',
  ['histories', 'inputs'], 'every history of continuation requests, statuses, user calls and reads',
  UNT, CF, [('idle states', 'src/client_send.rs IdleState'), ('set_idle_done', 'src/client.rs Client::set_idle_done')],
  method=M_CLIENT, rule='Typestate of the exchange (sent, accepted, done requested, done being sent, ended) checked on every output, event and user call.',
  runs=CL, note='Sound over all reachable abstract states.')

P('C08', 'Every message the client receives leads to exactly one event or error',
  'Each decoded greeting, data response, status and continuation request is reported by exactly one event of the matching kind, which carries that same message, except for a continuation request that permits a literal, which is consumed silently. '
  'Each message that cannot be decoded leads to exactly one error that says so. '
  'No event or error for a received message appears without one, and none is lost or reported twice.',
  ['histories', 'inputs'], 'every message kind in every state of the client',
  UNT, CF, [('dispatch', 'src/client.rs Client::progress_receive')],
  method=M_CLIENT, rule='Between decoding a message and returning from the call, exactly one event carries it; the kind of the event is compared with the state of the monitor. A failure of the decoder is followed by the return of one error before anything else is decoded.',
  runs=CL, note='Sound over all reachable abstract states; the decoder is a model.')

P('C09', 'A refused authentication-data or DONE call changes nothing',
  'When the client refuses authentication data it hands the same data back, and when it refuses authentication data or DONE, its later behaviour is the same as if the call had not been made.',
  ['histories', 'inputs'], 'every state of the client in which the call is refused',
  UNT, CF, [('set_authenticate_data / set_idle_done', 'src/client_send.rs')],
  method=M_CLIENT, rule='The whole abstract state before and after a refused call must be equal, and the returned data must be the argument.',
  runs=CL, note='Compares complete abstract states, so any write to the client on a refusal path is seen.')

P('C10', 'The client never waits for input while it has something to send or report',
  'The client asks for input only when it has nothing to send: no queued command that may be sent now, no permitted literal, no authentication data and no DONE waiting, and no finished sending to be reported. '
  'It never asks for an empty output.',
  ['histories', 'inputs'], 'every history of API calls and server messages',
  UNT, CF, [('drive loop', 'src/client.rs Client::next'), ('send states', 'src/client_send.rs')],
  method=M_CLIENT, rule='At every request for input the monitor state must be one in which sending is blocked on the server or the user; output requests must carry bytes.',
  runs=CL, note='Sound over all reachable abstract states.')

# ------------------------------------------------------------------ server
P('S01', 'Server sends greeting first and responses in order, each once and reported once',
  'The bytes a server asks to be written are the greeting followed by the responses in the order in which they were enqueued, each exactly once and contiguous. '
  'The sending of the greeting and of each response that the user enqueued is reported exactly once, in that order, only after all its bytes were handed out, with the handle that was returned for it and its own content; responses the server created itself are not reported.',
  ['histories', 'inputs'], 'every interleaving of API calls and client messages, any number of queued responses with any fragments',
  UNT, SF, [('send states', 'src/server_send.rs ServerSendState::next'), ('events', 'src/server.rs Server::progress_send')],
  method=M_SERVER, rule='Typestate of the greeting and of the marked response (queued, being sent, reported) checked on every output and event.',
  runs=SV, note='Sound for a queue of any length; the encoder is a model.')

P('S02', 'Server accepts literals up to the limit, rejects longer ones, and answers so',
  'A literal is accepted if and only if its announced length is at most the configured limit. '
  'Accepting a synchronizing literal sends exactly one continuation request with the configured text; rejecting one sends exactly one BAD status with the tag of the command and the configured text and reports that the literal was too long; non-synchronizing literals are never answered. '
  'A configured text is stored exactly if it is valid, otherwise it is handed back.',
  ['inputs', 'histories', 'configurations'], 'every announced length, literal mode, limit and configured text, in every state of the server',
  UNT, SF, [('literal policy', 'src/server.rs Server::progress_receive'), ('texts', 'src/server.rs Options')],
  method=M_SERVER, rule='On every path that handles an announced literal: the comparison made between length and limit, the mode, the enqueued response (kind, tag, text) and the result must agree with the policy table.',
  runs=SV, note='Lengths and limits are symbolic; the comparison itself is checked including the boundary. At most two unanswered literals outstanding at a time.')

P('S03', 'Server AUTHENTICATE: authentication data is read exactly within the exchange',
  'After the server reported an AUTHENTICATE command it reads client messages as authentication data until the user finishes the exchange, and as commands afterwards and at no other time. '
  'Continuing or finishing an exchange succeeds exactly while one is in progress and enqueues exactly the given response; otherwise it fails, hands the response back and changes nothing.',
  ['histories', 'inputs'], 'every history of user calls and client messages',
  UNT, SF, [('authenticate calls', 'src/server.rs Server::authenticate_continue / authenticate_finish'), ('state change', 'src/server_receive.rs')],
  method=M_SERVER, rule='The decoder in use is compared with the mode of the monitor at every decode; every user call is compared with the mode, and on refusal complete states are compared.',
  runs=SV, note='Sound over all reachable abstract states.')

P('S04', 'Server IDLE: nothing is read until accepted, then DONE, then commands',
  'After the server reported IDLE it reads no client message until the user accepts or rejects it; after acceptance the next message is read as DONE and after that, or after a rejection, messages are read as commands. '
  'Accepting or rejecting succeeds exactly while an IDLE waits for it and enqueues exactly the given response; otherwise it fails, hands the response back and changes nothing.',
  ['histories', 'inputs'], 'every history of user calls and client messages',
  UNT, SF, [('idle calls', 'src/server.rs Server::idle_accept / idle_reject'), ('state change', 'src/server_receive.rs')],
  method=M_SERVER, rule='As S03, for the IDLE modes.',
  runs=SV, note='Sound over all reachable abstract states.')

P('S06', 'Each message the server receives leads to one event or error with its content',
  'Each decoded command, authentication data and DONE is reported by exactly one event of the matching kind with the tag, mechanism, initial response, body or data of that message; AUTHENTICATE and IDLE are never reported as ordinary commands. '
  'Each message that cannot be decoded leads to exactly one error of the matching kind, and no event or error appears without a message.',
  ['histories', 'inputs'], 'every message and decoding failure in every state of the server',
  UNT, SF, [('dispatch', 'src/server.rs Server::progress_receive')],
  method=M_SERVER, rule='Between a decode and the return of the call, exactly one event or error belongs to it, and each of its parts is the corresponding part of the decoded message.',
  runs=SV, note='Sound over all reachable abstract states; the decoder is a model.')

P('S07', 'The server never waits for input while it has something to send or report',
  'The server asks for input only when the greeting was sent and reported, every enqueued response was sent and every sent response of the user was reported. It never asks for an empty output.',
  ['histories', 'inputs'], 'every history of API calls and client messages, including responses the server creates for literals',
  UNT, SF, [('drive loop', 'src/server.rs Server::next / progress_send')],
  method=M_SERVER, rule='At every request for input the queue and the marked response must be in a state in which nothing can be sent or reported.',
  runs=SV, note='Found a genuine defect (fixed): a response behind a literal reply was not sent until more input arrived.')

# ------------------------------------------------------------------ receiving
RF = ['src/receive.rs', 'src/client.rs', 'src/client_receive.rs', 'src/server.rs', 'src/server_receive.rs']
RR = [('imap-next', 'recv-client'), ('imap-next', 'recv-server')]
M_RECV = ('Abstract interpretation of the compiled crate (MIR) in the domain of convex polyhedra: the bytes of the peer are numbered, buffers and slices are intervals of these numbers, positions and lengths are symbols related by linear inequalities. '
          'All sequences of inputs of any size, steps and user calls are explored up to inclusion of polyhedra, without widening on the current tree; the decoder is a model that may succeed, ask for a literal of any length, or fail.')
T_RECV = 'abstract interpretation of MIR over convex polyhedra (byte positions), exact fixpoint'
UNT_R = 'No test that builds here feeds a byte; the integration tests feed whole messages or single bytes of a few dozen dialogues.'
P('R01', 'The decoder gets exactly the bytes of one message, each byte once',
  'The bytes given to the decoder are exactly those of one message: from the byte after the previous message to the line feed that ends it, with all its literals. '
  'No byte of the stream is skipped, decoded twice or attributed to two messages, no later byte is consumed with a message, and index arithmetic never goes out of range.',
  ['inputs', 'histories'], 'every stream of bytes, cut into reads of any sizes, with literals of any length below 2^32',
  UNT_R, RF, [('line search and split', 'src/receive.rs NextFragment / ReceiveState::next'), ('input', 'src/client.rs, src/server.rs enqueue_input')],
  method=M_RECV, rule='At every decode the interval of decoded bytes is provably [start of message, end of current line + 1), at every removal from the buffer exactly the bytes of the message leave, and every index and subtraction is in range.',
  runs=RR, technique=T_RECV, note='Covers the client with any greeting and responses, the server in all modes. Assumes a maximum message size of at least 1 and sizes below 2^32.')
P('R02', 'Line endings: CRLF always, LF alone exactly if relaxed, and an error otherwise',
  'A line that ends with CRLF is always accepted, and one that ends with LF alone exactly if line endings are relaxed. '
  'Otherwise the message is reported as badly ended, exactly once, with exactly its bytes, and never before its line feed was received.',
  ['inputs', 'configurations'], 'every stream of bytes, cut into reads of any sizes, with both settings',
  UNT_R, RF, [('line ends', 'src/receive.rs NextFragment / ReceiveState::next')],
  method=M_RECV, rule='On every path that decodes a line, CR before its LF or the relaxed setting is established; on every path that reports a wrong ending, LF without CR and the strict setting.',
  runs=RR, technique=T_RECV, note='The byte before LF is looked up in the current line only, so that a CR of a previous line or literal does not count.')
P('R03', 'A literal is exactly as long as announced and the message goes on after it',
  'After the announcement of a literal of n bytes was accepted, exactly the next n bytes belong to the literal, whatever they contain; line ends within them are not seen. '
  'The line that follows belongs to the same message, and the decoder is called again only when that line is complete.',
  ['inputs'], 'every announced length, content and fragmentation, including literals of zero bytes',
  UNT_R, RF, [('literals', 'src/receive.rs ReceiveState::start_literal / next')],
  method=M_RECV, rule='As R01, for every line that follows a literal: its start must be the announcing line end plus n, symbolically.',
  runs=RR, technique=T_RECV, note='Any number of literals per message.')
P('R04', 'After a message that is reported as bad, reading goes on right behind it',
  'A message which cannot be decoded, is badly ended, too long, or announces a rejected literal is discarded completely and alone: the bytes that are reported or dropped are exactly those received for it. '
  'The message behind it is read from its first byte as if the bad one had not been there.',
  ['inputs', 'histories'], 'every stream of good and bad messages in any order',
  UNT_R, RF, [('discarding', 'src/receive.rs ReceiveState::discard_message')],
  method=M_RECV, rule='As R01, for every message that follows discarded bytes; the discarded interval is compared with the interval of the bad message.',
  runs=RR, technique=T_RECV, note='A message over the size limit ends at the limit, an announcement of a rejected literal at its line end; what the peer sends afterwards is read as the next message.')
P('R05', 'How the bytes are cut into reads makes no difference',
  'Splitting or joining reads never changes which bytes form a message, and every read is appended unchanged behind those before it. '
  'More input is asked for only if the bytes at hand contain no complete line of the current message, and bytes that were searched before are not lost, searched from the wrong place, or mistaken for another message.',
  ['inputs', 'schedules'], 'every way to cut every stream into reads of one byte or more',
  UNT_R, RF, [('resuming the search', 'src/receive.rs ReceiveState::next')],
  method=M_RECV, rule='As R01, for every message that arrived in several reads; at every request for input, no line feed of the current line may have been received.',
  runs=RR, technique=T_RECV, note='')
P('R06', 'Bytes received before a change of mode are read under the new mode, none lost',
  'When the greeting is done, an authentication exchange begins or ends, or IDLE begins, is accepted, rejected or done, the bytes already received beyond the current message stay and are read by the next decoder from their first byte. '
  'Settings and limits are the same after the change as before.',
  ['histories', 'inputs'], 'every change of mode with any number of bytes already received',
  UNT_R, RF, [('changes of mode', 'src/client_receive.rs, src/server_receive.rs change_state, src/receive.rs ReceiveState::change_codec')],
  method=M_RECV, rule='As R01 and R02, for the first message of each mode.',
  runs=RR, technique=T_RECV, note='')
P('S05', 'The server never buffers a command beyond its limit, nor refuses a smaller one',
  'A command, authentication data or DONE, that is complete within the configured maximum size is never refused as too long, and one that exceeds it is never decoded. '
  'As soon as the maximum is reached without the end of the message, an error is reported instead of asking for more input.',
  ['inputs', 'configurations'], 'every limit, every message size and every fragmentation',
  UNT_R, RF, [('limit', 'src/receive.rs ReceiveState::next'), ('limits of the modes', 'src/server_receive.rs ServerReceiveState')],
  method=M_RECV, rule='At every decode, report and request for input the inequality between message size and limit that the path has established must imply the specified one.',
  runs=[('imap-next', 'recv-server')], technique=T_RECV, note='The limit is a symbol of at least 1.')

# ------------------------------------------------------------------ both
P('G01', 'Nothing the peer sends can make client or server panic or hang',
  'For every sequence of bytes from the peer, in every state, with every allowed use of the API, neither client nor server panics: no unreachable arm is reached, no unwrap fails, no index is out of range. '
  'Nor does any call enter a loop in which nothing changes any more, so that it never returns.',
  ['histories', 'inputs'], 'every peer input, however malformed, in every state',
  UNT, CF + SF + ['src/receive.rs'], [('unreachable arms and unwraps', 'src/client.rs, src/server.rs, src/*_send.rs, src/*_receive.rs')],
  method=M_CLIENT + ' ' + M_SERVER, rule='No path from a reachable abstract state ends in a panic, an unwinding call, or a failed assertion; no loop comes back to its head with all of memory equal and without anything in between that the state does not determine.',
  runs=CL + SV + RR, technique=T_ABS + '; byte positions over convex polyhedra', note='The codec, an external crate, is assumed not to panic. A maximum message size of zero is excluded. Loops that change something each time are not proved to end.')

P('G02', 'Client, server and stream do nothing by themselves behind the back of the user',
  'Creating and using a client or server touches no file, socket, standard stream or environment variable, starts no thread or task, never sleeps or waits, and depends on no clock or source of randomness: what it does follows from the calls alone, and what it wants is returned. '
  'The same holds for a stream, except that it reads, writes and waits on the connection it was made from. Events for the tracing library are the only side effect.',
  ['histories', 'inputs', 'configurations'], 'every function of the library, in every state and environment',
  'A test sees the calls that it makes, in its own environment; a sleep or a look at the environment on a rare path has no visible effect there.',
  ['src/lib.rs', 'src/client.rs', 'src/server.rs', 'src/stream.rs', 'src/receive.rs', 'src/handle.rs'], [('state machines', 'src/lib.rs State'), ('all functions', 'src/*.rs')],
  method='Effect analysis over the MIR: every call, and every function that is named as a value, in every function and closure of the library is classified by the effect of what it resolves to; anything that is neither known to be free of effects nor part of the library makes the result incomplete.',
  rule='No function of the library calls or names a function that uses files, network (other than the connection of a stream), processes, environment, threads, clocks, randomness or standard streams, or that waits; numbers, locks and cells in static or thread variables, which other instances change, decide nothing but what is logged.',
  runs=[('imap-next', 'effect')], technique='effect analysis over the calls of the type-checked program (MIR)',
  note='Release build. What the message types, the codec, bytes, tokio and rustls do inside is assumed. Locks are reported as undecided.')
P('G03', 'Users on several threads cannot misuse client, server, stream or handles',
  'Clients, servers, streams, their options, events, errors and handles can be sent to and shared with other threads, and so can pending calls of a stream, provided that the state can. '
  'Programs do not compile which duplicate a client, server or stream, run two operations on the same stream at once, make up a handle without enqueueing anything, or mix handles of clients and servers up. Handles can be copied and used as keys.',
  ['schedules'], 'every program that uses the library',
  'Whether something is allowed to move between threads is a fact about types, which no run can show; that a program must not compile, neither.',
  ['src/client.rs', 'src/server.rs', 'src/stream.rs', 'src/handle.rs', 'src/types.rs', 'src/lib.rs'], [('types', 'src/client.rs Client, CommandHandle; src/server.rs Server, ResponseHandle; src/stream.rs Stream, Stream::next'), ('visibility', 'src/lib.rs mod handle')],
  method='Type-level witnesses, compiled against the current sources: functions that type-check exactly if a type has, or lacks, a trait, also for the futures of the stream with an arbitrary state, and programs that must be rejected with the error of the rule they break.',
  rule='Every witness compiles, every program that must be rejected is rejected for its reason; an error that is not about the trait in question counts as undecided.',
  runs=[('imap-next', 'witness')], technique='type-level witnesses and compile-fail programs (decided by the type checker)',
  note='A handle could also be made up in ways which the listed programs do not try.')
P('L01', 'Traffic and secrets do not show in logs, errors and debug output',
  'In release builds, nothing that client, server, stream or proxy log, and nothing that printing their events, errors or themselves shows, contains received or outgoing bytes, discarded input, the content of a secret, or a private key; discarded input is handed out only in a wrapper that hides it. '
  'The only exception is the textual form of whole decoded messages, which hides secrets itself.',
  ['inputs', 'histories', 'configurations'], 'every place that logs or formats, every value that can flow there, every level of logging',
  'A test would have to capture the log on the path and with the input that leaks; error texts are not compared by any test.',
  ['src/client.rs', 'src/server.rs', 'src/receive.rs', 'src/stream.rs', 'src/client_send.rs', 'src/server_send.rs', 'proxy/src/proxy.rs', 'proxy/src/main.rs', 'proxy/src/util.rs'],
  [('discarded input', 'src/server.rs Error, src/client.rs Error'), ('debug formats', 'src/client.rs, src/server.rs impl Debug'), ('logs', 'proxy/src/proxy.rs, src/stream.rs')],
  method='Interprocedural information-flow (taint) analysis over the MIR, flow-insensitive with summaries per function, field of a local type and captured variable, to a fixed point: sources are byte buffers and opened secrets, sinks are the fields and messages of log events, printing, and the Debug and Display forms of the types that are handed out.',
  rule='No value derived from bytes or from an opened secret reaches a sink; lengths, numbers and the textual forms of message types are not derived from them.',
  runs=[('imap-next', 'leak'), ('proxy', 'leak')], technique='interprocedural information-flow (taint) analysis over MIR',
  note='Release builds; panics are left to G01 and X09. That the messages themselves hide their secrets is assumed (imap-types).')

# ------------------------------------------------------------------ handles
HF = ['src/handle.rs', 'src/client.rs', 'src/server.rs']
P('H01', 'Every handle ever given out is different from every other',
  'No two commands enqueued in any clients, and no two responses enqueued in any servers, of a process ever get equal handles, whatever the number of clients, servers, calls and threads. '
  'A handle consists of a number of its generator, which no other generator gets even if generators are created concurrently, and a number that never repeats within that generator.',
  ['schedules', 'histories'], 'every number of clients, servers and calls below 2^64, and every interleaving of threads that create them',
  'The unit test numbers 100x100 handles on one thread; a counter that wraps at 2^16 or loses a concurrent increment passes it.', HF,
  [('counters', 'src/handle.rs HandleGenerator::generate / HandleGeneratorGenerator::generate'), ('use', 'src/client.rs Client::enqueue_command, src/server.rs Server::enqueue_*')],
  method='Abstract interpretation of the compiled crate (MIR) of the constructors and of every operation in every reachable abstract state of client and server, with the generator as a symbol and atomic operations split into plain reads and read-modify-write steps.',
  rule='The number of a generator is the unmodified 64-bit result of one atomic read-modify-write step of a static counter that is never overwritten otherwise; each operation changes the next number only by adding a positive constant, and a returned handle contains both numbers unmodified, at one constant offset.',
  runs=CL + SV, note='Assumes that 64-bit counters do not wrap. Read-modify-write atomicity is that of the standard library.')
P('H02', 'Handles compare equal exactly if they are the same, and show what they are',
  'Two handles are equal if and only if both the number of their generator and their own number are equal; copies are equal to the original. '
  'The accessors return these two numbers uncut, and the debug representation of a handle contains both.',
  ['inputs'], 'every pair of 64-bit numbers',
  'The unit test never compares two handles.', HF,
  [('raw handle', 'src/handle.rs RawHandle'), ('wrappers', 'src/client.rs CommandHandle, src/server.rs ResponseHandle')],
  method='Abstract interpretation of the compiled (also derived) implementations with symbolic numbers.',
  rule='Every path of a comparison that answers equal must have established equality of each number (one comparison of words for two numbers is a violation by counting), every path that answers different must have established a difference; conversions and accessors are compared with the abstract input.',
  runs=[('imap-next', 'handle')], note='All paths of loop-free code, symbolic 64-bit numbers.')

# ------------------------------------------------------------------ proxy: configuration
XC = ['proxy/src/config.rs']
RC = [('proxy', 'config')]
T_CFG = 'symbolic evaluation of MIR (all paths of loop-free code) against a table of documents'
P('X07', 'Each configuration document means exactly what it says, or is rejected',
  'A service needs a name, a bind and a connect table; a bind or connect table needs a host and an encryption of "Insecure" or "Tls", and with TLS a bind table needs an identity of type "CertificateChainAndLeafKey" with the paths of chain and key. '
  'Each value reaches the setting of its own name unchanged; an absent port means 143 without and 993 with TLS, and a table in which anything else is missing, unknown or invalid is rejected rather than completed. '
  'Writing a configuration gives a document that reads back as the same configuration.',
  ['inputs'], 'every subset of the documented keys with every encryption or type (documented, unknown or none), in every order, with every value, valid or not',
  'The unit test reads one document in which every key is present.', XC,
  [('tables', 'proxy/src/config.rs Config, Service, Bind, Connect, Identity'), ('default ports', 'proxy/src/config.rs default_imap_port, default_imaps_port')],
  method='Symbolic evaluation of the compiled Deserialize and Serialize implementations (also the derived ones): the serde interfaces are models that offer the keys of a document in every order, with a symbol for each value, and may fail at every step.',
  rule='On every path the result is the documented variant with each field equal to the symbol of its key or the documented default, and an error exactly if a required key is missing, the tag is missing or unknown, or reading failed.',
  runs=RC, technique=T_CFG, note='Complete for the documented keys; the TOML parser itself is a model.')
P('X11', 'Addresses and descriptions contain exactly host, port and kind of encryption',
  'The address of a bind or connect setting is its host, a colon and its port in decimal. '
  'Its description is "imaps://host:port (TLS)" exactly if it is encrypted and "imap://host:port (insecure)" otherwise.',
  ['inputs'], 'every setting, every host and port',
  'No test looks at addresses or descriptions.', XC,
  [('addresses', 'proxy/src/config.rs Bind::addr_port, Connect::addr_port'), ('descriptions', 'proxy/src/config.rs Display for Bind and Connect')],
  method='Symbolic evaluation of the compiled functions with symbolic settings; strings are sequences of constants and displayed symbols, formatting templates are decoded.',
  rule='On every path the produced text, as a sequence of constants and symbols, equals the specified one for every variant that the path has not excluded.',
  runs=RC, technique='symbolic evaluation of MIR (all paths of loop-free code) with string templates', note='Complete.')
P('X12', 'A configuration file is loaded from its path completely, or an error returned',
  'Loading reads the file at the given path and no other, parses exactly its text, and returns the resulting configuration unchanged. '
  'If the file cannot be read or parsed, an error is returned; nothing panics and no other configuration takes its place.',
  ['inputs', 'faults'], 'every path, every content, and failure of reading or parsing',
  'The unit test does not call the function that loads files.', XC, [('loading', 'proxy/src/config.rs Config::load')],
  method='Symbolic evaluation of the compiled function; reading and parsing are models that may fail.',
  rule='Exactly the given path reaches the read, exactly the text that was read reaches the parser, success is returned exactly if both succeeded, with the parsed configuration.',
  runs=RC, technique=T_CFG, note='Complete for one call.')

# ---------------------------------------------------------------- the proxy
XP = ['proxy/src/main.rs', 'proxy/src/proxy.rs', 'proxy/src/util.rs']
RP = [('proxy', 'proxy')]
T_PROXY = 'abstract interpretation of MIR (all paths of the proxy\'s tasks, symbolic messages and configuration)'
M_PROXY = ('The compiled code of the proxy (main, a service, a session) is evaluated symbolically: every operation of its environment (binding, accepting, connecting, handshakes, files, what the two '
           'connections report) takes every outcome, select polls its branches in every order and drops the others, and each task is explored until no new abstract state is reached. ')
N_PROXY = 'Lists of capabilities are explored up to two entries (three in the thorough tier, without TLS) with every combination of kinds; everything else is symbolic. imap-next, tokio and rustls are the environment.'
P('X01', 'What a client sends through the proxy gets to the server once and unaltered',
  'Each command, authentication data or end of IDLE that is received from the client is given to the server\'s side of the proxy exactly once, with the same tag, body and data, before the next event is waited for. '
  'Nothing else is ever sent to the server, and nothing is sent to it because of what the server itself reports.',
  ['inputs', 'histories', 'schedules'], 'every sequence of events of both connections, every command, every order in which they become ready',
  'There is no test of the proxy.', XP,
  [('client events', 'proxy/src/proxy.rs handle_client_event'), ('loop', 'proxy/src/proxy.rs start_conversation')],
  method=M_PROXY + 'Calls on the client side of the library are recorded with their arguments.',
  rule='Whenever the session waits again, the operations since the last event are exactly the one that belongs to the event, with arguments equal to the parts of the event; after errors and other events there are none.',
  runs=RP, technique=T_PROXY, note=N_PROXY)
P('X02', 'The proxy never announces a capability that it cannot stand for',
  'Whatever the server sends, wherever it puts its capabilities (greeting, data, status of any kind, continuation request, answers to AUTHENTICATE and IDLE), the client only ever gets capabilities from the proxy\'s list of supported ones. '
  'In particular no STARTTLS, no LOGINDISABLED, no SASL mechanism bound to the connection and no unknown extension gets through.',
  ['inputs', 'histories'], 'every message of the server that can contain capabilities, every list of capabilities, every point of a session',
  'There is no test of the proxy; a message kind that is forgotten is not noticed until a client uses a capability that cannot work.', XP,
  [('filters', 'proxy/src/util.rs filter_capabilities, filter_capabilities_in_greeting, .._in_data, .._in_status, .._in_continuation'), ('server events', 'proxy/src/proxy.rs handle_server_event')],
  method=M_PROXY + 'Messages of the server are generated for every place that their types have for capabilities.',
  rule='Every capability in the arguments of an operation on the client\'s side is on the path known to be of a supported kind (and, for AUTH, a supported mechanism).',
  runs=RP, technique=T_PROXY, note=N_PROXY)
P('X03', 'The capabilities the proxy supports get to the client in their order',
  'Of a list of capabilities that the server sends, the client gets all that the proxy supports, as often and in the order in which the server sent them. '
  'If none is left, the client gets IMAP4rev1 alone, never an empty list.',
  ['inputs', 'histories'], 'every message of the server that can contain capabilities, every list',
  'There is no test of the proxy.', XP,
  [('filters', 'proxy/src/util.rs filter_capabilities')],
  method=M_PROXY, rule='The list of capabilities given to the client\'s side is the supported part of the one in the event, or just IMAP4rev1 if that is empty.',
  runs=RP, technique=T_PROXY, note=N_PROXY)
P('X04', 'The proxy listens and connects where it is told to, with TLS exactly if told so',
  'A service binds to the configured host and port, and each of its sessions connects to the configured server. '
  'Each side is encrypted with TLS if and only if its setting says so, and the two connections of a session are never mixed up.',
  ['configurations', 'histories'], 'every configuration of a service, every outcome of binding, accepting, connecting and handshakes',
  'There is no test of the proxy; using no TLS works as well, so nothing would be noticed.', XP,
  [('addresses', 'proxy/src/proxy.rs bind, connect_to_server'), ('TLS', 'proxy/src/proxy.rs secure_client, connect_to_server'), ('sessions', 'proxy/src/proxy.rs start_conversation')],
  method=M_PROXY, rule='The address of bind and connect is host, colon and port of the setting; the stream used with the server\'s state is made of the accepted connection, that with the client\'s state of the connected one, with TLS on exactly those paths where the setting is the TLS variant.',
  runs=RP, technique=T_PROXY, note='Complete for every configuration of a service.')
P('X05', 'A session of the proxy lasts until a connection is lost, and no longer',
  'When a connection is closed or fails, or a message cannot be passed on because the other side is not ready for it, the session ends and both connections are dropped, so that no message is silently left out. '
  'Messages that are discarded because they are malformed or too long do not end it, and neither does anything else that is regular traffic.',
  ['histories', 'faults'], 'every sequence of events and errors of both connections',
  'There is no test of the proxy.', XP,
  [('errors', 'proxy/src/proxy.rs handle_client_event, handle_server_event'), ('loop', 'proxy/src/proxy.rs start_conversation')],
  method=M_PROXY, rule='After an error of a socket or of TLS, the end of a connection or an operation the library refused, the session does not wait again; it returns only after such an error, a failed set-up, or an operation that the library refused.',
  runs=RP, technique=T_PROXY, note=N_PROXY)
P('X06', 'A command the server rejects is answered with BAD under its own tag, alerts kept',
  'When the server rejects a command early, the client gets exactly one tagged BAD with the tag of that command. '
  'If the server\'s status is an ALERT, code and text reach the client; otherwise the answer is not an alert.',
  ['inputs', 'histories'], 'every rejected command, every status', 'There is no test of the proxy.', XP,
  [('rejections', 'proxy/src/proxy.rs handle_server_event CommandRejected')],
  method=M_PROXY, rule='On the event that a command was rejected, the one operation is a status for the client that is tagged with the tag of the command in the event, of kind BAD, with ALERT and the server\'s text exactly if its code is ALERT.',
  runs=RP, technique=T_PROXY, note='Complete for every command and status.')
P('X08', 'Clients are shown exactly the configured certificates and key',
  'With TLS, the certificate chain consists of all certificates of the configured file in their order, and the private key is the only one in the configured key file. '
  'If a file cannot be read, contains something unreadable, or does not hold exactly one key, no session is started with it.',
  ['configurations', 'faults'], 'every configuration, files with up to two certificates and keys, unreadable entries anywhere', 'There is no test of the proxy.', XP,
  [('identity', 'proxy/src/util.rs load_certificate_chain_pem, load_leaf_key_pem; proxy/src/proxy.rs secure_client')],
  method=M_PROXY + 'The entries of a file are symbols that name the file and the position.',
  rule='Where the TLS configuration is made, the chain is the list of all entries of the configured chain file and the key the only entry of the configured key file, both without failures.',
  runs=RP, technique=T_PROXY, note='Files with more than two entries are not explored; reading the PEM format is a model.')
P('X09', 'Nothing a client, server or configuration does makes the proxy panic or hang',
  'No sequence of messages, errors and closed connections and no configuration, whether host names, files or keys, makes a service or a session panic or loop without end. '
  'What goes wrong is reported and ends at most the session it concerns.',
  ['inputs', 'histories', 'faults', 'configurations'], 'every event in every state of a session, every failure of an operation, every configuration', 'There is no test of the proxy.', XP,
  [('sessions', 'proxy/src/proxy.rs'), ('services', 'proxy/src/main.rs handle_service, handle_client')],
  method=M_PROXY, rule='No path of a service or session reaches a panic (unwrap and expect of a failure, indexing, arithmetic, assertions, explicit panics) in the code of the proxy or of the message types it uses; no loop comes back to its head with everything equal without waiting.',
  runs=RP, technique=T_PROXY, note=N_PROXY + ' The certificates of the operating system are assumed to be usable.')
P('X10', 'A service accepts and serves every client, whatever other clients do',
  'While a service runs, it waits for nothing but the next client: no handshake, connection or message of one client keeps another from being accepted. '
  'Every accepted client gets a session of its own, and a failure to accept one does not end the service.',
  ['schedules', 'faults', 'histories'], 'every sequence of accepted clients and failures, every client, however slow', 'There is no test of the proxy; a client that never speaks is enough.', XP,
  [('accepting', 'proxy/src/main.rs handle_service; proxy/src/proxy.rs accept_client')],
  method=M_PROXY, rule='Between the first call of accept and its end, the task of a service awaits only accept (or a timer), never with an accepted connection for which no task was started, and does not return.',
  runs=RP, technique=T_PROXY, note='Complete for every history of a service.')
P('X13', 'Every configured service is started once, and the proxy runs until all are done',
  'The proxy starts one task for each service of the configuration, each with its own settings, and none without a configuration. '
  'It ends only when all of them have ended, even if some fail, and reports an error if the configuration cannot be loaded.',
  ['configurations', 'faults', 'schedules'], 'configurations with up to two services, every order and outcome of their ends', 'There is no test of the proxy.', XP,
  [('start', 'proxy/src/main.rs main')],
  method=M_PROXY, rule='Whenever main waits, each configured service was spawned exactly once; it returns only after the set of tasks is empty, or with an error if loading failed.',
  runs=RP, technique=T_PROXY, note='Configurations with more than two services are not explored.')
P('X14', 'What a server sends through the proxy gets to the client once and unaltered',
  'Apart from its capabilities, each greeting, data, status, continuation request and answer to AUTHENTICATE or IDLE that is received from the server is given to the client\'s side of the proxy exactly once and unchanged, by the operation that fits it. '
  'The greeting is the first, nothing is sent before it, and nothing is sent to the client that the server did not send, except the answer to a rejected command.',
  ['inputs', 'histories', 'schedules'], 'every sequence of events of both connections, every message of the server', 'There is no test of the proxy.', XP,
  [('server events', 'proxy/src/proxy.rs handle_server_event'), ('greeting', 'proxy/src/proxy.rs start_conversation')],
  method=M_PROXY + 'Calls on the server side of the library are recorded with their arguments.',
  rule='Whenever the session waits again, the operations since the last event are exactly the one that belongs to the event, with arguments equal to the parts of the event up to lists of capabilities; after errors and other events there are none.',
  runs=RP, technique=T_PROXY, note=N_PROXY)
P('X15', 'With TLS, the server has to prove that it is the configured host',
  'A session with an encrypted server only starts after a handshake in which the server\'s certificate was verified for the configured host name. '
  'The certificates that are trusted are those of the operating system, all of them and no others, and verification is never disabled.',
  ['configurations', 'faults'], 'every configuration, every set of system certificates up to two', 'There is no test of the proxy; a server with a valid certificate works either way.', XP,
  [('verification', 'proxy/src/proxy.rs connect_to_server, ROOT_CERT_STORE')],
  method=M_PROXY + 'The initialiser of the certificate store is evaluated, too.',
  rule='The name given to the handshake is the host of the connect setting; the configuration of TLS is built with the store of root certificates and without a custom verifier; the store contains each system certificate.',
  runs=RP, technique=T_PROXY, note='Complete up to the number of certificates; rustls is the environment.')
P('X16', 'A session always listens to both of its sides',
  'After the greeting, a session that waits does so for the client and for the server at once, so that whatever one of them sends is handled even if the other is silent. '
  'It never waits for anything else.',
  ['schedules', 'histories'], 'every point of every session, every order in which the two sides become ready', 'There is no test of the proxy.', XP,
  [('loop', 'proxy/src/proxy.rs start_conversation')],
  method=M_PROXY, rule='On every path on which a session stays pending after the greeting, both the stream of the client and that of the server were polled.',
  runs=RP, technique=T_PROXY, note='Complete.')
P('X17', 'TLS is negotiated for IMAP and nothing else, and its secrets stay secret',
  'In every handshake, with clients and with the server, the proxy names exactly the protocol imap, so that no service of another kind can be mistaken for it. '
  'Session secrets are never written to a log or handed out, and no early data is accepted that could be replayed.',
  ['configurations'], 'every configuration in which TLS is used on either side, every path to a handshake', 'There is no test of the proxy; a handshake works without any of this.', XP,
  [('configuration of TLS', 'proxy/src/proxy.rs accept_client, connect_to_server')],
  method=M_PROXY, rule='The value of the TLS configuration that reaches a handshake has exactly one protocol in its list, imap, and the fields for key logs, extraction of secrets and early data as the library sets them.',
  runs=RP, technique=T_PROXY, note='Complete; rustls is the environment.')


# ------------------------------------------------------------------ tags
TG = ['tag-generator/src/lib.rs']
T_TAG = 'symbolic evaluation of MIR with atomic steps and string templates'
P('H03', 'No two tags are ever equal, and each is a valid tag',
  'No two tags that are generated in a process are equal, whatever the number of generators, tags and threads. '
  'Each contains the number of its generator, which no other generator gets even if they are created concurrently, and a number that never repeats within the generator, written so that both can be read from it; it has only characters that a tag may have.',
  ['schedules', 'histories'], 'every number of generators and tags below 2^64, every interleaving of threads, in debug and in release builds',
  'The unit test generates 1000 x 5 tags and runs in debug builds only.', TG,
  [('generators', 'tag-generator/src/lib.rs TagGenerator::new'), ('tags', 'tag-generator/src/lib.rs TagGenerator::generate')],
  method='Symbolic evaluation of the compiled functions (with and without debug assertions) with a symbolic generator; atomic operations are split into plain reads and read-modify-write steps, tags are sequences of constants, displayed numbers and random strings.',
  rule='The number of a generator is the uncut 64-bit result of one atomic read-modify-write step of a static counter; each tag advances the counter by a positive constant and contains both numbers, each followed by a constant that cannot be part of it or in a place where its end is known.',
  runs=[('tag-generator', 'tags'), ('tag-generator:dbg', 'tags')], technique=T_TAG,
  note='Complete for the two functions. Assumes that 64-bit counters do not wrap and that the standard library\'s atomics are atomic.')
P('H04', 'Each tag of a release build has at least eight unpredictable characters',
  'In builds without debug assertions every tag contains at least eight characters that are drawn for this tag alone from the random generator of the thread or the system, and never from one with a fixed or small seed.',
  ['histories'], 'every tag',
  'Tests run in debug builds, in which tags contain nothing random; randomness cannot be seen in samples.', TG,
  [('token', 'tag-generator/src/lib.rs TagGenerator::generate')],
  method='Symbolic evaluation of the compiled function without debug assertions; random strings are symbols that carry their source, alphabet and length.',
  rule='On every path the tag contains a random string of at least eight alphanumeric characters that was drawn on this path from a strong source.',
  runs=[('tag-generator', 'tags')], technique=T_TAG,
  note='Decides where the characters come from and how many there are; that the source is unguessable is assumed of the crate rand.')


# ------------------------------------------------------------------ options
P('O01', 'Options start out strict and consistent and change only as asked',
  'By default neither client nor server accepts lines that do not end in CRLF, the limit for literals is below the one for commands, and the texts about literals are valid. '
  'Setting such a text takes it exactly if it is valid, so that it and nothing else changes, and otherwise hands it back and changes nothing; it never panics.',
  ['inputs', 'histories', 'configurations'], 'every text, every order of up to three changes of the texts',
  'The tests of this repository set no options; a test would sample a few texts.', ['src/client.rs', 'src/server.rs'],
  [('options', 'src/client.rs Options, src/server.rs Options')],
  method='Abstract interpretation of the default constructors and of the functions that set and read texts, with symbolic texts and the validity of a text as an uninterpreted predicate.',
  rule='Defaults are compared with the policy; after each call both texts are read back and all other fields are compared with those before the call.',
  runs=[('imap-next', 'options')], technique=T_ABS, note='Complete for sequences of three calls; which texts are valid is decided by the external crate for message types.')


# ------------------------------------------------------------------ stream
TF = ['src/stream.rs']
RT = [('imap-next', 'stream'), ('imap-next:dbg', 'stream')]
T_STR = 'abstract interpretation of the async functions MIR over convex polyhedra, with a model of tokio and rustls'
M_STR = ('Abstract interpretation of the compiled Stream (constructors, next, flush and all they call, coroutines included) to a fixed point of calls in every reachable state, '
         'with the bytes of every buffer as positions in the streams of input and output bounded by convex polyhedra; the state machine, the TCP stream, the TLS engine and the select macro are models that may give every result allowed by their documentation, and every future may be dropped wherever it waits.')
N_STR = 'Assumes that a state never gives empty output, and tokio and rustls as documented. Any byte counts, unbounded.'
P('T01', 'Every byte passes the stream exactly once, unchanged and in order',
  'Without TLS, the bytes that the socket accepts are exactly the concatenated outputs of the state, and the bytes that the state gets are exactly those read from the socket: none is lost, repeated, changed or reordered, however reads and writes are split, and also if the state is given by reference.',
  ['inputs', 'histories', 'faults'], 'every sequence of outputs, reads and partial writes of every length, every sequence of calls',
  'No test of the repository runs a stream in this sandbox, and a partial write does not occur with small messages.', TF,
  [('loop', 'src/stream.rs Stream::next'), ('transfer', 'src/stream.rs read, write')],
  method=M_STR, rule='A write takes the buffer exactly from the first byte the socket has not accepted; the buffer loses exactly the accepted bytes and gains exactly outputs at its end; the state is given exactly the bytes read since it was last given any; a reference to a state passes on its input exactly once.',
  runs=RT, technique=T_STR, note=N_STR)
P('T02', 'No byte is lost or repeated if a call is dropped while it waits on the stream',
  'If a call of next or flush is cancelled at any point at which it waits, or one of its two directions of transfer is abandoned because the other finished first, then the following calls continue exactly where it stopped: every byte read, accepted or still to be sent is accounted for exactly once.',
  ['schedules', 'histories'], 'every await point at which a future can be dropped, in every reachable state, followed by every further call',
  'A test cancels a future at a few points of time; a byte is lost only if the drop falls between an incomplete transfer and its accounting.', TF,
  [('next, flush', 'src/stream.rs Stream::next, Stream::flush'), ('transfer', 'src/stream.rs read, write')],
  method=M_STR, rule='The accounting of bytes (as for all transfers) also holds on each path on which a future was dropped before.',
  runs=RT, technique=T_STR, note=N_STR)
P('T03', 'End of stream and failures are reported as what they are, and nothing spins',
  'If the peer has closed the stream or the socket accepts no more bytes, the pending call returns that the stream is closed; if the socket or TLS fails, it returns exactly this error of this kind. '
  'Neither happens otherwise, nothing is done with the socket in between, no call runs forever without waiting for the socket or asking the state, and none panics.',
  ['faults', 'histories'], 'failure, end of stream or refusal at every operation on the socket or TLS, in every reachable state',
  'Tests do not inject faults, and a loop that never ends appears only after a certain kind of close.', TF,
  [('errors', 'src/stream.rs Error and its conversions'), ('transfer', 'src/stream.rs read, write, encrypt, decrypt')],
  method=M_STR, rule='On each path the last failure is followed by the return of the variant of its kind with the same value and by no operation; no such variant is returned without failure; no cycle of states is without an operation that may wait or progress of the input; no loop comes back to its head with all of memory equal.',
  runs=RT, technique=T_STR, note=N_STR)
P('T04', 'While it waits the stream reads, writes what is left, and never waits in vain',
  'Whenever next waits it is prepared to read, so that peers which both send a lot cannot block each other; it also writes if any output is left. '
  'It waits for input only if the state was asked last and wanted more input or nothing else can be done until the pending output is written.',
  ['schedules', 'histories'], 'every reachable state at every await point',
  'A deadlock of two peers needs full socket buffers on both sides, which small test messages do not cause.', TF,
  [('transfer', 'src/stream.rs Stream::next')],
  method=M_STR, rule='At every await point of next the set of operations that are waited for contains a read, contains a write if the abstract buffers may hold output that was not accepted, and the state has been asked after the last input.',
  runs=RT, technique=T_STR, note=N_STR)
P('T05', 'Received bytes reach the state before it is asked, its events the caller at once',
  'All bytes that have been received, and all that TLS can decrypt from them, are given to the state before it is asked again and before anything waits. '
  'An event or error of the state is returned unchanged by the same call, without any operation on the socket in between, and what the state wants to send is never dropped.',
  ['histories', 'schedules'], 'every event, error and output of the state and every received chunk, in every reachable state',
  'Bytes left in a buffer are noticed only if the peer then waits for an answer.', TF,
  [('loop', 'src/stream.rs Stream::next'), ('decryption', 'src/stream.rs decrypt')],
  method=M_STR, rule='When the state is asked, or a wait begins, no received or decryptable byte is outside the state; the value returned is the symbol of the last event or error, with no operation in between; a reference to a state returns the result of exactly one call.',
  runs=RT, technique=T_STR, note=N_STR)
P('T06', 'With TLS nothing is sent or accepted in plain text and nothing gets stuck',
  'A stream made from a TLS connection, as client or as server, sends only what the TLS connection encrypted and gives the state only what it decrypted; messages of every size pass, and so does what was received along with the handshake. '
  'Everything TLS wants to send is sent before next waits only for input, and a closed connection is reported.',
  ['inputs', 'histories', 'faults'], 'messages of every size, every state of the TLS connection, close by the peer at every point',
  'There is no test with TLS. Limits of the internal buffers of TLS show with large messages only.', TF,
  [('constructor', 'src/stream.rs Stream::tls'), ('encryption', 'src/stream.rs encrypt, decrypt')],
  method=M_STR, rule='On all paths with TLS the bytes in the output buffer are those taken from the TLS connection, output of the state enters only its plain text side, completely and in order, and the accounting, failure and waiting rules of the plain stream hold.',
  runs=RT, technique=T_STR, note=N_STR)
P('T07', 'A successful flush has handed everything over',
  'When flush succeeds, every byte that the state has given to the stream before, encrypted if there is TLS, was accepted by the socket, which was not left with unflushed data. It reads nothing, and it fails only if the socket or TLS does.',
  ['histories', 'faults'], 'every reachable state of the stream, every split into partial writes',
  'Without a full socket buffer nothing is left to flush.', TF,
  [('flush', 'src/stream.rs Stream::flush')],
  method=M_STR, rule='On every path on which flush returns success, no output that was not accepted by the socket remains in a buffer or in the TLS connection, and no byte was read.',
  runs=RT, technique=T_STR, note=N_STR)

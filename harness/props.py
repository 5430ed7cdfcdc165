"""The properties: text (properties.jsonl) and claim (MANIFEST.json).
lib/gen.py writes both files from this table."""
P = {}
NA = {}


def p(pid, title, statement, over, text, why, files, mech, tech=None, note=None, observe=None):
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None))
    P[pid]['_note'] = note or ''


C = 'milter/core/'
p('C01', 'Received command frames are decoded exactly or rejected with an error',
  'For every byte string received as one frame of the MTA-to-milter protocol, a well-formed frame is reported exactly once, as the command it carries and with exactly the values it carries. '
  'A malformed frame (unknown command, wrong size, missing terminator, empty required name, unknown socket family, unusable address) is reported as an error with no command reported. '
  'No byte outside the frame is read or written and decoding never crashes; bytes after a complete terminated value are left open.',
  ['inputs'], 'all contents of a single frame of every command letter (and of unknown letters) up to the stated lengths, every byte free',
  'the decoder tests send some dozen hand-written frames; truncations, embedded NULs and missing terminators at every offset are not enumerated and an over-read of a few bytes does not fail a unit test',
  [C + 'milter-decoder.c', C + 'milter-command-decoder.c', C + 'milter-option.c'],
  [('frame length handling', C + 'milter-decoder.c: milter_decoder_decode'), ('per command parsers', C + 'milter-command-decoder.c: decode_*')],
  observe=['signals of the command decoder', 'return value and GError of milter_decoder_decode'],
  note='Exhaustive over all byte values for the frame lengths listed in DESIGN.md (content 1..14 bytes depending on the command); longer frames are outside.')

p('C02', 'Received reply frames are decoded exactly or rejected with an error',
  'For every byte string received as one frame of the milter-to-MTA protocol, a well-formed frame is reported exactly once, as the reply it carries and with exactly the values it carries: header name, value and index, address and its parameters, body bytes and their count, reply code and text, the negotiated version, actions, steps and requested macros. '
  'A malformed frame (unknown reply, wrong size, missing terminator, empty required name, reply code outside 4xx/5xx, unknown macro stage) is reported as an error with no reply reported. '
  'No byte outside the frame is read or written and decoding never crashes; bytes after a complete terminated value and an empty symbol list are left open.',
  ['inputs'], 'all contents of a single frame of every reply letter (and of unknown letters) up to the stated lengths, every byte free',
  'the decoder tests send hand-written frames for each reply; embedded NULs, missing terminators at each offset and over-reads of a few bytes are not sampled',
  [C + 'milter-decoder.c', C + 'milter-reply-decoder.c', C + 'milter-option.c', C + 'milter-macros-requests.c'],
  [('per reply parsers', C + 'milter-reply-decoder.c: decode_*'), ('macros requests', C + 'milter-reply-decoder.c: decode_macros_requests')],
  observe=['signals of the reply decoder', 'return value and GError of milter_decoder_decode'],
  note='Exhaustive over all byte values for the frame lengths listed in DESIGN.md (content 1..20 bytes depending on the reply); longer frames are outside.')

p('C03', 'Commands survive the wire: encoded in the protocol\'s layout and decoded as the same command with the same values',
  'For every milter command and all values of its arguments, the command encoder produces exactly one frame in the layout of the milter protocol (4 byte big-endian length, command letter, arguments; macro names sorted and each pair once; NUL-terminated strings; family letter and network-order port of an address; body chunks cut at the chunk size with the packed size reported), also when the encoder was used before. '
  'Giving that packet to the command decoder reports exactly that command with exactly those values.',
  ['inputs'], 'all argument values: texts of up to 6 bytes, up to 2 macros, body chunks up to 6 bytes (chunk limit reduced to 4 in the limit configurations), all IPv4/IPv6 addresses and ports, UNIX paths up to 4 bytes',
  'the encoder tests compare a handful of fixed packets; an encoder and decoder that agree on a wrong layout, or differ only for some values (high bytes, empty values, order of macros, chunk limit), pass them',
  [C + 'milter-encoder.c', C + 'milter-command-encoder.c', C + 'milter-decoder.c', C + 'milter-command-decoder.c'],
  [('command packing', C + 'milter-command-encoder.c: milter_command_encoder_encode_*'), ('frame header', C + 'milter-encoder.c: milter_encoder_pack')],
  observe=['packet and size returned by the encoder', 'signals of the command decoder'],
  note='Exhaustive over all byte values within the text lengths in DESIGN.md; longer texts and more macros are outside.')

p('C04', 'Replies survive the wire: encoded in the protocol\'s layout and decoded as the same reply with the same values',
  'For every milter reply and all values of its arguments, the reply encoder produces exactly one frame in the layout of the milter protocol, also when the encoder was used before; body chunks are cut at the chunk size with the packed size reported. '
  'Giving that packet to the reply decoder reports exactly that reply with exactly those values: header name, value and index, address and parameters, reply code, extended code and text, negotiated version, actions, steps and the requested macros of each stage.',
  ['inputs'], 'all argument values: texts of up to 5 bytes (reply codes up to 14), body chunks up to 6 bytes (chunk limit reduced to 4 in the limit configurations), one or two requested macros for each stage',
  'the encoder tests compare a handful of fixed packets; values that encoder and decoder treat differently (empty parameters, reply text that looks like an extended code, index extremes) are not sampled',
  [C + 'milter-encoder.c', C + 'milter-reply-encoder.c', C + 'milter-reply-decoder.c', C + 'milter-macros-requests.c'],
  [('reply packing', C + 'milter-reply-encoder.c: milter_reply_encoder_encode_*'), ('macros requests', C + 'milter-reply-encoder.c: milter_reply_encoder_encode_negotiate')],
  observe=['packet and size returned by the encoder', 'signals of the reply decoder'],
  note='Exhaustive over all byte values within the text lengths in DESIGN.md; longer texts and more symbols are outside.')

p('C05', 'A stream is decoded the same however it is cut into pieces',
  'A byte stream of valid frames gives the same reports in the same order however it is cut into reads: each frame is reported once, as soon as its last byte has arrived, with exactly its bytes, and not before; nothing outside the given reads is read. '
  'A length of zero or above 2^31-1 is refused as soon as the length is complete; once a frame was refused nothing more is reported. '
  'The end of the stream is accepted exactly between two frames, and is an error within one or after a refused frame.',
  ['inputs', 'histories'], 'streams of two frames of 1 to 6 bytes with free contents, cut at every one place (and at every two places for short frames) and byte by byte; every frame length word',
  'the decoder tests feed whole frames and a few fixed splits; each cut position in the length word, at frame borders and within contents, and ends of the stream at each place are not enumerated',
  [C + 'milter-decoder.c', C + 'milter-command-decoder.c', C + 'milter-reply-decoder.c'],
  [('state machine', C + 'milter-decoder.c: milter_decoder_decode, milter_decoder_end_decode')],
  observe=['signals of the decoders', 'return value and GError of milter_decoder_decode and milter_decoder_end_decode'],
  note='Cuts are enumerated by configurations, contents and length words are free; more than two frames and frames above 6 bytes are outside.')

p('C08', 'A macro is seen with the value of the latest protocol step that defined it',
  'An agent sees a macro, in the context of a protocol step, with the value given by the latest step in the order connect, helo, mail, rcpt, data, header, end of header, body, end of message up to and including that step, and does not see macros of later steps. '
  'Defining a macro again replaces it, a NULL value removes it, a hash table replaces all macros of its step, clearing a step or the message-related steps removes exactly theirs, and each of these is visible at once, also after an earlier look. '
  'A macro can be asked for by its name in braces; the macros of the current step alone are those given for it.',
  ['inputs', 'histories'], 'sequences of up to 4 operations (set, set several, replace all, remove, clear, change of context, look) with all names and values of one byte (or a braced one)',
  'the tests define fixed macros in a few contexts; every pair of steps with equal or different names, looks between definitions (a stale cache) and clears between messages are not combined',
  [C + 'milter-protocol-agent.c', C + 'milter-utils.c'],
  [('search order and cache', C + 'milter-protocol-agent.c: milter_protocol_agent_get_available_macros'), ('message related macros', C + 'milter-protocol-agent.c: milter_protocol_agent_clear_message_related_macros')],
  observe=['milter_protocol_agent_get_macro, milter_protocol_agent_get_macros'],
  note='Names and values are free bytes, the sequences of operations are enumerated by configurations.')

p('C13', 'The manager\'s control and launch protocols carry exactly what was sent',
  'A control command, a control reply or a launch request encoded by the manager is one frame in its documented layout and is decoded as that message with exactly its bytes (a configuration may hold any byte). '
  'Of the frames received, exactly the well-formed ones (known word, ended by a NUL, no content where none belongs, a command line) are reported, once, with their own content and nothing of the bytes after the frame; others are refused with an error and not reported.',
  ['inputs'], 'frames of up to 8 free bytes, each known word followed by up to 4 free bytes, truncated words followed by 3 free bytes; configurations, messages, command lines and user names of up to 5 bytes',
  'the tests decode one fixed packet per message; contents with NUL bytes, content after words that take none and bytes of a following frame are not sampled',
  ['milter/manager/milter-manager-control-command-decoder.c', 'milter/manager/milter-manager-control-reply-decoder.c', 'milter/manager/milter-manager-reply-decoder.c', 'milter/manager/milter-manager-launch-command-decoder.c',
   'milter/manager/milter-manager-control-command-encoder.c', 'milter/manager/milter-manager-control-reply-encoder.c', 'milter/manager/milter-manager-reply-encoder.c', 'milter/manager/milter-manager-launch-command-encoder.c'],
  [('decoders', 'milter/manager/milter-manager-*-decoder.c: decode'), ('encoders', 'milter/manager/milter-manager-*-encoder.c')],
  observe=['signals of the decoders', 'encoded packets'],
  note='Exhaustive over all byte values within the stated lengths.')

p('C06', 'The header list behaves as the ordered list of headers the milter protocol describes',
  'After any sequence of append, add, insert, change, delete and remove operations the header list holds exactly the headers, in exactly the order, that carrying out the operations one by one on an ordered list gives. '
  'Add puts a header before the first one of its name, else at the end; insert at a position, else at the end; change and delete count headers of the same name without regard to case; change of a missing header adds it; operations report whether the header was there. '
  'Looking up by position, by name, by name and value, and the index among headers of the same name agree with that list, and a copy is independent.',
  ['inputs', 'histories'], 'lists of 1 to 3 headers followed by sequences of 1 to 3 operations, names of 1 or 2 and values of 1 free byte, every 32 bit index',
  'the tests try each operation on one list; interactions of sequences with duplicate names, equal headers, names differing in case and indexes out of range are not sampled',
  [C + 'milter-headers.c', C + 'milter-utils.c'],
  [('header operations', C + 'milter-headers.c: milter_headers_{add,append,insert,change,delete}_header, milter_headers_remove'), ('index by name', C + 'milter-headers.c: milter_headers_index_in_same_header_name')],
  observe=['milter_headers_get_list and lookups'],
  note='All operation sequences listed in DESIGN.md over symbolic headers; longer lists and sequences are outside.')

p('C07', 'Negotiated options are combined without granting what a side did not offer',
  'Combining options with the other side yields the lower version, the actions both know and the steps both know, and is refused, changing nothing, when the other side is newer. '
  'Merging the options of two milters keeps an event- or reply-suppressing step only when both ask for it, and an action or an extra-service step when one asks for it, is symmetric in the steps, and is refused, changing nothing, when the other option is newer. Adding, removing, copying and comparing flags act on exactly the named bits.',
  ['inputs'], 'all versions (32 bit), all action and step flag sets of both sides',
  'the tests combine a few fixed flag sets; the rule has to hold for each of the 2^30 pairs of flag sets',
  [C + 'milter-option.c'],
  [('combine and merge', C + 'milter-option.c: milter_option_combine, milter_option_merge, milter_step_flags_merge')],
  observe=['version, action and step of the option'],
  note='Complete for all 32 bit versions and all defined flags; no loop bound is involved.')

p('C09', 'Merged macros requests are the union of what the milters asked for',
  'Merging a macros request into another gives, for each command, the symbols of the first in their order followed by those of the second that were not there yet, each once; commands only one side asked for keep its symbols; the merged-in request is unchanged and the result owns its symbols. Setting symbols for a command replaces earlier ones.',
  ['inputs'], 'two requests with up to 2 symbols each (all byte values, also not UTF-8) for any pair of commands',
  'the tests merge one pair of fixed requests; duplicate, equal and byte-valued symbols and every pair of commands are not sampled',
  [C + 'milter-macros-requests.c'],
  [('merge', C + 'milter-macros-requests.c: milter_macros_requests_merge'), ('set', C + 'milter-macros-requests.c: milter_macros_requests_set_symbols_*')],
  observe=['milter_macros_requests_get_symbols, milter_macros_requests_foreach'],
  note='All symbol values of one byte, up to 2 symbols per request; more symbols are outside.')

p('C10', 'Connection specs are accepted exactly when well-formed and mean the address they say',
  'A connection spec (unix:PATH, local:PATH, inet:PORT[@[ADDRESS]], inet6:PORT[@[ADDRESS]]) is accepted with exactly the family, port, path or numeric address it says; anything else (unknown protocol, empty or too long path, a port that is not a decimal number up to 65535, a malformed bracketed address) is refused with an error and no address. '
  'Formatting an IPv4 or IPv6 address gives the spec that says exactly that address and port. Host names that need a lookup and empty ports are left open.',
  ['inputs'], 'specs of up to 8 free bytes, or a known protocol followed by up to 11 free bytes; UNIX paths up to the size limit of the socket address; all IPv4/IPv6 addresses and ports when formatting',
  'the tests parse some ten valid and a few invalid specs; port overflow, path lengths around the limit and garbage after an address are not sampled',
  [C + 'milter-connection.c'],
  [('parsers', C + 'milter-connection.c: parse_inet, parse_inet6, parse_unix'), ('formatting', C + 'milter-connection.c: milter_connection_address_to_spec')],
  observe=['return value, address and GError of milter_connection_parse_spec'],
  note='Exhaustive over all byte values within the stated lengths; name lookup is not encoded.')

p('C11', 'SMTP path arguments are split into path and parameters exactly, malformed ones are refused',
  'MAIL FROM and RCPT TO arguments that follow the SMTP grammar (null path, mailbox with dot-string local part, source route, Postmaster) are accepted and give exactly the path up to its closing bracket and exactly the ESMTP parameters that follow, each name with its value or none, the last one winning; anything that follows the path but is not such a list is refused. '
  'A refused argument gives an error, no path and no parameters; nothing is read past the terminator and given parameters are kept.',
  ['inputs'], 'arguments of up to 6 free bytes, and templates with up to 5 free bytes in the path, domain, route, literal, quoted local part and parameters',
  'the tests parse fixed well-formed and broken arguments; an over-read behind an unterminated literal and the boundary characters of each production are not sampled',
  [C + 'milter-esmtp.c'],
  [('path', C + 'milter-esmtp.c: milter_esmtp_parse_mail_from_argument, milter_esmtp_parse_rcpt_to_argument'), ('parameters', C + 'milter-esmtp.c: parse_esmtp_params')],
  observe=['path, parameters and GError of the parse functions'],
  note='Exhaustive over all byte values within the stated lengths; longer arguments are outside.')

p('C12', 'A reply code is accepted only when well-formed and is sent as code, extended code and text',
  'A milter\'s reply code is accepted exactly when the code is 4xx or 5xx and the extended code, if given, is a class of 2, 4 or 5 equal to the code\'s first digit, a subject and a detail of one to three digits each, divided by dots; otherwise an error is given and the reply code set before stays. '
  'A reply code is formatted as one line for each line of its text, divided by CR LF, each with the code, the extended code if given and the text line without its trailing CR; without text it is a single line.',
  ['inputs'], 'every 32 bit code, extended codes of 0 to 11 free bytes, texts of up to 3 free bytes with line breaks anywhere',
  'the tests set a dozen reply codes; boundary codes, digits beyond three, missing parts and every placement of CR and LF are not sampled',
  ['milter/client/milter-client-context.c', C + 'milter-utils.c'],
  [('acceptance', 'milter/client/milter-client-context.c: milter_client_context_set_reply, extended_code_parse'), ('format', C + 'milter-utils.c: milter_utils_format_reply_code')],
  observe=['milter_client_context_set_reply, milter_client_context_format_reply, milter_utils_format_reply_code'],
  note='Exhaustive over all codes and byte values within the stated lengths; longer texts are outside. A line that is only a CR is left open.')

p('C14', 'Configuration values are read as what they say, unknown ones are refused',
  'A file mode text (empty, up to three octal digits, or targets of u, g, o, a then = then permissions of r, w, x) gives exactly its mode, anything else is refused with a message and leaves the mode. '
  'A log level text of names divided by bars, a sign in front of the whole or of one name, gives exactly the named flags over the base flags, and an error when a name is unknown. A status name gives its status, an unknown one an error. '
  'Macro stages and commands correspond one to one; merging string tables lets the merged-in values win and leaves their table; comparison of optional texts is by bytes with none first; reply statuses are ordered discard, reject, temporary failure, continue, skip, accept.',
  ['inputs'], 'file modes of up to 7 free bytes, flag texts of up to 5 free bytes and templates with two or three names, names of up to 7 free bytes, all 32 bit commands, stages and statuses',
  'the tests try a few names and modes; four digit modes, missing parts, signs in every place and unknown commands are not sampled',
  [C + 'milter-utils.c', C + 'milter-protocol.c'],
  [('file mode', C + 'milter-utils.c: milter_utils_parse_file_mode'), ('flags', C + 'milter-utils.c: milter_utils_flags_from_string'), ('stages', C + 'milter-utils.c: milter_utils_command_to_macro_stage'),
   ('order of statuses', C + 'milter-protocol.c: milter_status_compare')],
  observe=['return values and errors of the helpers'],
  note='Exhaustive over all byte values within the stated lengths; longer texts are outside.')

p('C15', 'What is written goes out, and what comes in is reported, unchanged, in order and once',
  'The bytes given to a writer go to its channel unchanged, in order and each once, however much the channel takes each time; while bytes wait the channel is watched, and they are offered whole. '
  'Each flush is answered by a flushed report when the bytes written before it are out and not before (one report answers all flushes whose bytes are out), also when it was asked for with nothing waiting or from within a flushed report; nothing else is reported as flushed. '
  'A reader reports the bytes of its channel unchanged, in order and once. An error of the channel is reported, the end is reported once, a request to one that does not run is refused, and after a shutdown nothing stays watched and the remaining bytes were handed to the channel.',
  ['inputs', 'schedules', 'faults'], 'all bytes and all amounts the channel takes at each turn; sequences of up to 8 writes, flushes, channel turns, errors and shutdowns',
  'the tests use a channel that takes everything at once or has a fixed limit; a partial write at each place, a flush during one, or an error between the two is not sampled',
  [C + 'milter-writer.c', C + 'milter-reader.c'],
  [('queue and flush point', C + 'milter-writer.c: write_to_io_channel, milter_writer_flush'), ('reading', C + 'milter-reader.c: read_from_io_channel')],
  observe=['what the channel is given', 'signals flushed, flow, error, finished', 'the watches of the event loop'],
  note='Chunks of up to 3 bytes, up to 8 requests and events; event loop and channel are those of the harness.')

S_ = 'milter/server/milter-server-context.c'
p('C16', 'A milter is told each command it wants, and each of its replies is reported once as what it is',
  'For each command of an MTA: a step the milter does not want is answered with continue at once (a body with skip) and nothing is sent; a command that is stopped is reported as stopped and nothing is sent; any other command is sent as exactly one frame, after a frame with the macros of that command the milter asked for. '
  'While a command is under way (being sent, or its reply awaited) another one is refused with an error and nothing is sent, except quit and abort, and except a further chunk or the end after a chunk of the body that is sent. A timeout is set exactly while sending or waiting (not after a command that needs no reply) and fires as a writing, reading or end of message timeout; progress renews it. '
  'Each reply is reported once, as that reply and with its values; changes, progress and quarantine only at the end of a message and skip only in a body, otherwise as an error. After quit no reply is reported. '
  'A message is reported as processed once, when the milter has decided, at its end, when it is stopped or when it is aborted, with its recipients under what was replied to each, its body size, quarantine and the status of the milter; nothing of one message is left in the next.',
  ['inputs', 'schedules', 'histories'], 'each command with each step flag, each reply to each command, and the listed sequences of commands, replies, timeouts, quit and abort before and after the command is written; body bytes and header indexes free',
  'the tests try single commands with one reply each; a reply in another state, after quit, a second command before the flush, a timeout in the middle, the second message of a connection are not crossed with each other',
  [S_],
  [('sending', S_ + ': write_packet, prepend_macro, process_next_state'), ('replies', S_ + ': cb_decoder_*'), ('reply needed', S_ + ': milter_server_context_need_reply'), ('result', S_ + ': emit_message_processed_signal')],
  observe=['bytes written to the milter', 'signals of the context', 'milter_server_context_is_processing', 'the MilterMessageResult of message-processed'],
  note='Sequences of up to 18 commands and replies as listed in specs.py; texts are single letters (their encoding is C03 and C02); event loop and channel are those of the harness. A reply nobody waits for is left open.')

K_ = 'milter/client/milter-client-context.c'
p('C17', 'Each command of the MTA is answered with exactly the reply its handlers decided on',
  'Each command received from the MTA is given to its handlers with what was received, one after the other until one decides, each once, and is answered with exactly one reply of the kind decided on, at once, or when a deferred answer is given, and nothing before. '
  'A reply code set by the handler is sent in place of a rejection or temporary failure exactly when it is of that class, and only for that command. '
  'Changes of headers, recipients, sender and body are taken exactly at the end of a message and when the action was negotiated, otherwise refused with an error; those taken are sent in order before the reply, and a quarantine after them. '
  'After a reply the MTA is waited for with a timeout, none is set while the milter works. A message is reported as processed once.',
  ['inputs', 'histories'], 'each command with each status, statuses of two handlers, deferred answers, reply codes, each change with each kind of negotiation, and the listed sequences of commands; body bytes and header indexes free',
  'the tests try one answer for each command; the crossing of statuses, several handlers, deferred answers, reply codes of another class and changes that were not negotiated is not sampled',
  [K_],
  [('replies', K_ + ': create_reply_packet, reply_on_end_of_message'), ('handlers', K_ + ': status_accumulator, cb_decoder_*'), ('changes', K_ + ': validate_state, validate_action, write_packet_on_end_of_message')],
  observe=['bytes written to the MTA', 'calls of the handlers', 'return values and errors of the change functions'],
  note='Sequences of up to 7 commands as listed in specs.py; texts are single letters (their encoding is C04 and C01); event loop and channel are those of the harness.')

M_ = 'milter/manager/'
p('C18', 'Several milters behave as one towards the MTA',
  'The manager gives each command to its milters one after the other and answers the MTA with the strictest of their replies; the changes a milter makes are seen by the milters after it and all of them are sent to the MTA once.',
  ['inputs', 'schedules', 'histories'], 'all replies of several milters in every order', 'the tests script a few pairs of milters',
  [M_ + 'milter-manager-children.c'], [('aggregation', M_ + 'milter-manager-children.c')])
NA['C18'] = 'milter-manager-children.c works on child processes, sockets, temporary files and glib sources of several contexts at once; one context alone takes 100 to 250 thousand steps of symbolic execution, and several of them with their negotiation could not be encoded within the time of a check. The parts it is built on are decided: the order of statuses (C14), merged options and macros (C07, C08, C09), header changes (C06), each context (C16, C17).'
p('C19', 'The Ruby configuration sets what it says',
  'Each setting of milter-manager.conf takes effect as documented and a wrong one is reported with its place.', ['inputs'], 'all configuration files', 'the tests load sample files',
  ['binding/ruby/lib/milter/manager/configuration.rb', M_ + 'milter-manager-configuration.c'], [('loader', 'binding/ruby/lib/milter/manager/configuration.rb')])
NA['C19'] = 'the configuration is evaluated by the Ruby interpreter; no symbolic execution of Ruby is available here, and encoding the interpreter is out of reach.'
p('C20', 'The event loops deliver each event to the one who asked for it until it is removed',
  'A watch, timeout or idle callback is called while it is registered and its event is there, not after it was removed, on both the GLib and the libev back end.', ['schedules'], 'all orders of registration, events and removal', 'the tests run a few orders',
  [C + 'milter-glib-event-loop.c', C + 'milter-libev-event-loop.c'], [('back ends', C + 'milter-libev-event-loop.c')])
NA['C20'] = 'what the back ends guarantee is mainly code of GLib and libev, which are not in the repository and whose behaviour would have to be assumed, which is the property itself.'
p('C21', 'Worker processes serve all connections and are replaced when they end',
  'With several worker processes each connection is served by one of them, and a shutdown or reload reaches all of them.', ['schedules', 'faults'], 'all orders of process events', 'the tests start few processes',
  [M_ + 'milter-manager-main.c', M_ + 'milter-manager-process-launcher.c'], [('launcher', M_ + 'milter-manager-process-launcher.c')])
NA['C21'] = 'the property is about fork, exec, signals and sockets of the operating system; symbolic execution of the code would only restate the assumed behaviour of those calls.'

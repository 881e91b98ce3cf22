#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable in review)."""
import json, os
B = 'src/smtpclientbase.cpp'; S = 'src/securesmtpclientbase.cpp'; O = 'src/opportunisticsecuresmtpclient.cpp'
F = 'src/forcedsecuresmtpclient.cpp'; P = 'src/smtpclient.cpp'
def m(*pairs): return [{'name': a, 'where': b} for a, b in pairs]
L = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    L.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': mech}})
NOSESS = 'No existing test ever opens a session: they cover constructors, getters and pure helpers only, so nothing about this is exercised, let alone for all server answers.'

prop('C01', 'A send reports success exactly when the server accepted that message',
 'A send call returns 0 only if, during that call, the server answered 250 to the end of data of a transaction that carried this message, after answering 250 to the sender and to every recipient. '
 'Conversely, when the server answers every step positively and nothing fails, the call returns 0 and exactly one copy was accepted.',
 ['inputs', 'fault_sequences', 'configurations'],
 'every client kind, message shape and batch setting; every combination of up to k deviating server answers (other codes, malformed, missing, cut connection) or failing writes over all steps of a session',
 NOSESS, [B, P, S, O, F], m(('sending sequence', B+':sendMail'), ('end of data', B+':setMailBody'), ('reply codes', B+':extractReturnCode')))
prop('C02', 'A failed send returns a nonzero code naming the failing step',
 'When a send call fails, it returns the code of the server\'s reply when a reply refused the step (AUTH LOGIN may instead report its authentication error), the step\'s documented timeout code when no complete reply came, or the step\'s documented error code when the connection, the write or the TLS negotiation failed. '
 'The result is never 0, and never the code of a different step.',
 ['inputs', 'fault_sequences', 'configurations'],
 'every step of a session (name lookup, connection, greeting, EHLO, STARTTLS, TLS, AUTH, MAIL, RCPT, DATA, headers, body, end of data, QUIT) as the first one to fail, every kind of failure, every client kind',
 NOSESS, [B, S, O, F, 'src/smtpclienterrors.h', 'src/socketerrors.h', 'src/sslerrors.h'],
 m(('connection set-up errors', B+':initializeSessionPOSIX'), ('command errors', B+':sendRawCommand'), ('TLS errors', S+':startTLSNegotiation')))
prop('C03', 'The envelope is exactly the message\'s sender and recipients',
 'In every transaction the server is given the message\'s sender address as the sender, and as recipients exactly the addresses of the To, Cc and Bcc lists, each one once per listed occurrence and in that order. '
 'A sender refused with 501 is offered again only in the documented alternative spellings of the same sender.',
 ['inputs', 'configurations', 'fault_sequences'],
 'all sizes of the To/Cc/Bcc lists up to a bound, duplicates, unusual but accepted addresses, with and without display names, both APIs, and every pattern of 501 answers to the sender',
 'Tests compare getters with constructor arguments; they never look at the commands a server receives.',
 [B, 'src/message.cpp', 'src/cpp/message.cpp'], m(('envelope', B+':setMailRecipients'), ('recipients', B+':addMailRecipients')))
prop('C04', 'No message data unless the sender and every recipient were accepted',
 'The client begins transmitting message data only in a transaction whose sender and every recipient the server accepted with 250, and only after the server answered 354. '
 'After the first refusal or missing answer, nothing of that message (headers, body, attachments) reaches the server.',
 ['fault_sequences', 'configurations'],
 'every subset of recipients refused with every kind of refusal, every refused sender and DATA answer, every client kind and batch setting',
 NOSESS, [B], m(('envelope', B+':setMailRecipients'), ('data', B+':setMailHeaders')))
prop('C05', 'The body arrives unaltered and never ends the message early',
 'For every body text, the text part that the server decodes from the accepted message equals the body as supplied, byte for byte; no body content can end the message data early, be lost, duplicated or reordered, or be taken as a command. '
 'This holds for every body length and for every position of dots and line breaks.',
 ['inputs', 'configurations'],
 'all bodies over a small alphabet (dot, CR, LF, letter, high byte, boundary-like lines) up to a length bound; bodies of every length around internal chunk sizes with dots and line breaks at every offset of the chunk edges; all client kinds',
 'Body fidelity is a statement over all strings; the tests only read the body back from the message object.',
 [B], m(('body chunking and end of data', B+':setMailBody')))
prop('C06', 'Attachments arrive complete, in order, with their name and type',
 'Every attachment of an accepted message appears as a separate part, in order, whose decoded content equals the bytes of the file, with its name, its media type by extension and, when one was set, its content identifier. '
 'The part structure never depends on what the body or the attachments contain. This holds for whatever readable file the path names, however the system hands over its bytes; for one that cannot be read (to its end) nothing is made up, and the other parts are not affected.',
 ['inputs', 'configurations'],
 'all combinations of up to three attachments over file contents (all byte values, empty, sizes around base64, line-wrap and chunk edges), names, extensions and content ids, with bodies that resemble part delimiters; links, special files, directories, short and failing reads',
 'The tests check the base64 text of one small file and never a transmitted message.',
 [B, 'src/attachment.cpp', 'src/base64.cpp'], m(('parts', B+':createAttachmentsText'), ('file encoding', 'src/attachment.cpp:getBase64EncodedFile'), ('wrapping', 'src/base64.cpp:Encode')))
prop('C07', 'Headers carry exactly the message\'s fields and never reveal Bcc',
 'The transmitted message has exactly one From, at most one To and one Cc (present exactly when that list is non-empty, addresses in list order with their display names) and one Subject header, with the values of the message, and announces the media type of its kind (plain or HTML) for its text part. '
 'A Bcc address occurs nowhere in the transmitted message data unless the user also put it in another field.',
 ['inputs', 'configurations'],
 'all combinations of list sizes up to a bound, with and without display names, empty and long subjects, both message kinds, both APIs, all client kinds',
 'Tests check the header helper on isolated lists only.', [B, 'src/plaintextmessage.cpp', 'src/htmlmessage.cpp'],
 m(('headers', B+':setMailHeaders'), ('address lists', B+':generateHeaderAddressValues')))
prop('C08', 'No message field can inject SMTP commands or message headers',
 'Whatever the subject, display names, attachment names and content identifiers contain, including line breaks, the server sees exactly the commands the message calls for and exactly the headers and parts the message calls for. '
 'Every command reaches the server as one CRLF-terminated line.',
 ['inputs'],
 'every field in turn (and pairs) set to all strings up to a length bound over an alphabet with CR, LF, dot, colon and letters, plus attack strings, under every accepted/501 sender pattern',
 'Injection needs particular bytes in particular fields; the tests use plain words.',
 [B, 'src/message.cpp', 'src/attachment.cpp'], m(('headers', B+':addMailHeader'), ('sender spellings', B+':setMailRecipients'), ('parts', B+':createAttachmentsText')))
prop('C09', 'Replies are understood however the network splits them',
 'The outcome of a send, the commands the server sees and the accepted message are the same however the server\'s replies are divided into network segments or TLS records, however long they are, and whether they are single-line or multi-line. '
 'A reply is acted upon only once it is complete, and each command is matched with its own reply.',
 ['schedules', 'inputs'],
 'every single split position of every reply of a session (and pairs of splits), delivered back to back or after delays shorter than the command timeout, reply lengths around internal buffer sizes, multi-line replies of up to a bounded number of lines, all client kinds',
 NOSESS, [B, S, O, F, 'src/serveroptionsanalyzer.cpp'],
 m(('plain replies', B+':getRawCommandReply'), ('TLS replies', S+':getServerReply'), ('greeting', B+':checkServerGreetings'), ('option lists', B+':sendServerIdentification')))
prop('C10', 'Every send returns within a bound set by the command timeout',
 'If the server falls silent at any point, or never completes the connection, a reply or the TLS negotiation, the send call and the destructor still return, no later than a small multiple of the command timeout after the server\'s last activity; a reply that is never completed is given up within such a bound even if more of it keeps arriving. '
 'A reply that arrives at least one second (plus one polling second) before the command timeout elapses is honoured.',
 ['fault_sequences', 'schedules', 'configurations'],
 'silence starting at every step and inside every reply, closed and half-open connections, every client kind, timeouts from 2 to 60 seconds; replies at every delay on a grid up to and past the timeout, at every step',
 'Time-outs need a server that misbehaves at a chosen point and a controlled clock; tests have neither.',
 [B, S, F], m(('connect wait', B+':initializeSessionPOSIX'), ('reply wait', B+':getRawCommandReply'), ('TLS reply wait', S+':getServerReply')))
prop('C11', 'No server behaviour crashes or kills the client process',
 'Whatever bytes the server sends, in whatever amounts, and whenever it closes or resets the connection, the client performs no invalid memory access, throws nothing to its caller, and does not terminate the process (no unhandled signal on writing to a closed connection).',
 ['inputs', 'fault_sequences'],
 'at every step: arbitrary replies from a menu (empty lines, NUL and high bytes, no line end, lengths around buffer sizes, absurd codes, option lists of unusual shape), early close and reset before or after the reply, all client kinds, under address and undefined-behaviour instrumentation',
 NOSESS, [B, S, F, 'src/serveroptionsanalyzer.cpp'],
 m(('plain replies', B+':getRawCommandReply'), ('TLS replies', S+':getServerReply'), ('writes', B+':sendRawCommand'), ('options parser', B+':extractAuthenticationOptions')))
prop('C12', 'Sessions leak nothing and touch only their own descriptors',
 'After any history of sends, successful or failing at any step, and destruction of the client, every socket it opened has been closed exactly once and every byte it allocated has been released. '
 'A client never reads, writes or closes a descriptor it does not own, and never uses a descriptor after closing it.',
 ['fault_sequences', 'histories'],
 'histories of one to three sends with every failing system call, refused reply, cut connection or TLS failure at every step, batch and non-batch, all client kinds and both APIs',
 'Needs a fault at every call site plus descriptor and allocation accounting.',
 [B, P, S, O, F, 'src/cpp/smtpclient.cpp'], m(('cleanup', P+':cleanup'), ('TLS cleanup', S+':cleanup'), ('failure paths', B+':sendMail')))
prop('C13', 'Batch mode reuses one connection; otherwise one connection per message',
 'Without batch mode each send uses its own connection, and an accepted message is followed by QUIT and close before the call returns. '
 'In batch mode, successive successful sends share a single connection with a single greeting and authentication, every accepted message is a separate complete transaction, and QUIT is sent once, when the client is destroyed or batch mode has been left, also if it was switched off with the session still open.',
 ['histories', 'configurations'],
 'all histories up to a depth bound over sends of different messages, toggling batch mode and destruction, for all client kinds, with and without credentials',
 NOSESS, [B, P, S], m(('session reuse', B+':sendMail'), ('close', P+':cleanup'), ('TLS close', S+':cleanup')))
prop('C14', 'A failed send does not affect later sends',
 'After a send has failed for any reason, a later send with the same client behaves towards the server, and returns, exactly as a freshly constructed client with the same settings would; it never continues a half-finished transaction or reuses a broken connection.',
 ['histories', 'fault_sequences'],
 'every failure at every step of a first (or second) send, followed by one or two sends under every server answer pattern, batch and non-batch, all client kinds; compared with a fresh client step by step',
 NOSESS, [B, P, S, O], m(('failure paths', B+':sendMail'), ('state reset', P+':cleanup'), ('TLS state reset', S+':cleanup'), ('fallback flag', B+':setKeepUsingBaseSendCommands')))
prop('C15', 'Encryption is used whenever the server offers it',
 'The opportunistic client starts TLS whenever the server\'s option list offers STARTTLS, in any letter case and at any place of the list (including the last line), however the list is segmented; if TLS then cannot be established the send fails and nothing further of the mail is transmitted. '
 'Only when STARTTLS is not offered does it continue unencrypted, and the communication log then says so.',
 ['inputs', 'fault_sequences', 'schedules'],
 'all option lists up to a bound (orders, letter cases, look-alike options), all segmentations of them, every STARTTLS answer and TLS failure',
 'Tests check a substring helper on a few literals; they never run the negotiation.',
 [O, B, 'src/serveroptionsanalyzer.cpp'], m(('offer detection', O+':isStartTLSSupported'), ('upgrade', O+':upgradeToSecureConnection'), ('option list', B+':sendServerIdentification')))
prop('C16', 'Secure clients never put credentials or protected mail on the wire in clear',
 'The forced-TLS client never sends a single unencrypted application byte, and the opportunistic client, once TLS is up in a session, sends everything encrypted; its credentials are never transmitted outside TLS under any history. '
 'This holds for every sequence of sessions of one client, whatever earlier sessions negotiated or how they failed.',
 ['histories', 'fault_sequences', 'configurations'],
 'all histories up to a depth bound of sessions against servers that do or do not offer STARTTLS, fail TLS, or drop the connection at any step, including reuse, batch mode, and copied or moved clients',
 NOSESS, [S, O, F, B], m(('channel choice', B+':setKeepUsingBaseSendCommands'), ('TLS commands', S+':sendCommandWithFeedback')))
prop('C17', 'TLS is accepted only with a trusted certificate for the named server',
 'A secure client sends mail or credentials only over a TLS session whose server certificate chains to a trusted root, is within its validity period and matches the configured server name. '
 'The single exception is a self-signed server certificate after the user has opted in; the opt-in admits nothing else, and a refused certificate makes the send fail with a certificate error.',
 ['configurations', 'histories'],
 'all certificate kinds (valid, self-signed, unknown issuer, untrusted chain, expired, not yet valid, other host) times opt-in setting times client kind times API, alone and after every other session kind',
 'Tests only read the opt-in flag back.', [S], m(('verification', S+':startTLSNegotiation')))
prop('C18', 'Authentication uses an offered, permitted mechanism with the right payload',
 'With credentials set, the client authenticates once per session using the first of PLAIN, LOGIN, XOAUTH2 that the server offers and the recommended method permits, with a payload that decodes to exactly the user name and secret; when no such mechanism exists it fails as unsupported without sending any credential. '
 'Without credentials it never authenticates, and no mail is sent after a failed authentication.',
 ['configurations', 'inputs', 'fault_sequences'],
 'all subsets and orders of offered mechanisms (including unsupported ones and none) times all recommended methods times client kinds and APIs, all answers to each authentication step, credentials of every length residue and byte class',
 NOSESS, [B, P, O, F, 'src/credential.cpp', 'src/cpp/smtpclient.cpp'],
 m(('choice', B+':authenticateClient'), ('PLAIN', B+':authenticateWithMethodPlain'), ('LOGIN', B+':authenticateWithMethodLogin'), ('XOAUTH2', B+':authenticatedWithMethodXOauth2')))
prop('C19', 'The communication log never contains credentials',
 'The communication log never contains the password or token, nor any encoding of it that was sent to the server, for every authentication mechanism, every answer of the server and every outcome of the send.',
 ['inputs', 'fault_sequences', 'configurations'],
 'all mechanisms, client kinds, answers and failures at each authentication step, one to three sends',
 NOSESS, [B], m(('log', B+':addCommunicationLogItem'), ('authentication', B+':authenticateClient')))
prop('C20', 'The communication log is a complete transcript of the last session',
 'The communication log contains, in order, every command line the client sent in the current session (authentication secrets masked and attachment data omitted) and every reply text received from the server, with client and server entries marked as such. '
 'It is complete for sessions and entries of any length, and a new session starts a new log.',
 ['inputs', 'histories', 'configurations'],
 'all client kinds, message sizes and numbers of recipients that push the log past each of its growth steps (every length around them), failing and successful sessions, histories of sends',
 'Tests only check that the log of a new client is empty.', [B], m(('log growth', B+':addCommunicationLogItem'), ('new session', B+':initializeSession')))
prop('C21', 'Messages, addresses, attachments and credentials are independent values',
 'Copies made by construction or assignment are equal to their source in every field and independent of it afterwards; moves transfer every field; every object can be destroyed or assigned again at any time; nothing is leaked, released twice or left dangling. '
 'This holds for any sequence of such operations, self-assignment included, and for objects with empty, missing or multiple recipients and attachments.',
 ['histories', 'inputs'],
 'all sequences up to a depth bound of construct, copy, move, assign, set and destroy over two or three objects with every relevant shape, compared with a reference model',
 'Tests check a handful of single copies and moves, never sequences nor shape pairs, and run without memory checking.',
 ['src/message.cpp', 'src/messageaddress.cpp', 'src/attachment.cpp', 'src/credential.cpp', 'src/cpp/message.cpp', 'src/cpp/attachment.cpp', 'src/cpp/credential.cpp'],
 m(('message copies', 'src/message.cpp:operator='), ('attachment content id', 'src/attachment.cpp:setContentId'), ('credential copies', 'src/credential.cpp:operator=')))
prop('C22', 'Copied and moved clients keep their settings and never share a connection',
 'A copied client has the same settings as its source and no connection; a moved-to client takes over settings and open connection; assigning to a client closes the connection it had. '
 'Any sequence of sends, copies, moves and destructions over several clients delivers every message as if the clients were independent, and leaks or double-closes nothing.',
 ['histories', 'configurations'],
 'all operation sequences up to a depth bound over two clients (send, copy, move, assign, change settings, destroy) in batch and non-batch mode for all client kinds and both APIs',
 'Tests copy or move fresh clients once and compare getters.',
 [B, S, P, 'src/cpp/smtpclient.hpp', 'src/cpp/opportunisticsecuresmtpclient.hpp', 'src/cpp/forcedsecuresmtpclient.hpp'],
 m(('copies', B+':operator='), ('TLS state', S+':operator=')))
prop('C23', 'The C++ interface behaves exactly as the C interface',
 'For every client kind, settings, message and server behaviour, the same operations performed through the C++ interface and through the C interface produce the same bytes on the wire, the same results, the same log and the same getter values.',
 ['configurations', 'inputs', 'fault_sequences'],
 'all client kinds, both message kinds, all recommended authentication methods, list sizes up to a bound, attachments, batch histories, server deviations up to a bound',
 'Tests repeat getter checks for both interfaces but never compare what is sent.',
 ['src/cpp/smtpclient.cpp', 'src/cpp/opportunisticsecuresmtpclient.cpp', 'src/cpp/forcedsecuresmtpclient.cpp', 'src/cpp/message.cpp', 'src/cpp/plaintextmessage.cpp', 'src/cpp/htmlmessage.cpp'],
 m(('credentials', 'src/cpp/smtpclient.cpp:setCredentials'), ('conversion', 'src/cpp/plaintextmessage.cpp:operator jed_utils::PlaintextMessage')))
prop('C24', 'Clients used in different threads do not affect each other',
 'When several threads each use their own client at the same time, every send behaves, towards its server and its caller, exactly as it would alone, under every interleaving; no data is shared without synchronisation.',
 ['schedules'],
 'two (thorough: three) threads with one client each, all client kinds, against different servers and host names, all interleavings of their system interactions up to a preemption bound',
 'All tests are single-threaded.', [B, S], m(('name lookup', B+':initializeSessionPOSIX'), ('TLS initialisation', S+':initializeSSLContext')))
prop('C25', 'Every result code has a definite message, safely delivered',
 'For every result code, the message text obtained through each form of the error-message API is the same non-empty text (empty only for success), distinct for each documented error code. '
 'The caller-buffer form never writes outside the given size, always terminates the text, and reports truncation by the number of characters copied.',
 ['inputs'], 'every code from well below the lowest documented error to above the highest reply code, times every buffer size from 0 past the longest message, both interfaces',
 'Tests sample a few codes and two buffer sizes.', ['src/errorresolver.cpp', B, 'src/cpp/smtpclient.cpp'],
 m(('texts', 'src/errorresolver.cpp'), ('buffer form', B+':getErrorMessage_r')))
prop('C26', 'Base64 encoding is correct and reversible for all inputs',
 'Encoding yields the standard base64 text of the input, broken only at the documented line length, and decoding the unbroken text returns the original bytes, for every input length and byte value.',
 ['inputs'], 'all inputs of up to three bytes, all byte values at every position of longer inputs, all lengths through several blocks and around each line-break point',
 'There is no test of the encoder other than one file.', ['src/base64.cpp'], m(('encoder', 'src/base64.cpp:Encode'), ('decoder', 'src/base64.cpp:Decode')))
prop('C27', 'Address validation decides the documented form, for any input, promptly',
 'An address is accepted or refused solely according to its documented form (empty or blank ones are refused), never contains a line break when accepted, and the decision takes time at most polynomial in the length and never crashes, whatever the text.',
 ['inputs'], 'all strings up to a length bound over a representative alphabet against a reference acceptor; long repetitive texts up to tens of thousands of characters',
 'Tests sample a dozen addresses; none is long or adversarial.', ['src/messageaddress.cpp'], m(('pattern', 'src/messageaddress.cpp:isEmailAddressValid')))
prop('C28', 'Rejected arguments leave objects unchanged; accepted ones are read back',
 'Every setter and constructor accepts exactly the documented values (no null, empty or blank server names and user names; no null or empty passwords; no blank file names; no empty recipient list in the C++ interface) and otherwise throws the documented error, leaving the object exactly as it was. '
 'Accepted values are returned unchanged by the getters and are what later sends use.',
 ['inputs', 'histories'], 'all sequences up to a depth bound of valid and invalid setter calls on each class and interface, compared with a reference record after every call, then a send against the simulated server',
 'Tests call each setter once on a fresh object.', [B, 'src/credential.cpp', 'src/attachment.cpp', 'src/messageaddress.cpp', 'src/cpp/message.cpp'],
 m(('server name', B+':setServerName'), ('credential setters', 'src/credential.cpp:setUsername')))
prop('C29', 'Reply codes and option lists are interpreted exactly',
 'A reply\'s code is its first three characters when they are a number from 100 to 999, and invalid otherwise. '
 'The authentication mechanisms taken from an option list are exactly those named on its authentication line, the list is considered complete exactly when its last line is final, and STARTTLS is recognised exactly when a line of the list names it.',
 ['inputs'], 'all strings up to a length bound over a representative alphabet as reply codes; all option lists up to a bounded number of lines over a menu of lines, terminators and mechanism subsets, against reference parsers',
 'Tests sample about two dozen literals.', [B, O, 'src/serveroptionsanalyzer.cpp'],
 m(('code', B+':extractReturnCode'), ('mechanisms', B+':extractAuthenticationOptions'), ('completeness', 'src/serveroptionsanalyzer.cpp:containsAllOptions'), ('STARTTLS', O+':isStartTLSSupported')))
prop('C30', 'An attachment\'s media type depends only on its extension, as documented',
 'The media type of an attachment is the documented one for its file extension in any letter case, and empty for every other extension, whatever the rest of the path contains; it is unaffected by the display name.',
 ['inputs'], 'all extensions of up to four letters or digits (upper and lower case variants of the documented ones), with paths containing dots, spaces and directories',
 'Tests check each documented extension once and one unknown extension.', ['src/attachment.cpp'], m(('table', 'src/attachment.cpp:getMimeType')))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in L: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(L), 'properties')

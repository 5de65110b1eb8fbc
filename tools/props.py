# The properties, from which gen_meta.py writes properties.jsonl and
# MANIFEST.json.

def mech(*pairs):
    return [{'name': n, 'where': w} for n, w in pairs]

PROPS = [
 dict(
  id='P01', title='Values survive the HBCI wire format',
  statement='Every valid value of every data element and group the library can both encode and decode comes back equal, whatever characters it contains: syntax characters, umlauts, line breaks, digits and binary content included. The encoding reads the same to an independent reader of the HBCI syntax and never changes what its neighbours in a segment decode to. Only values inside the documented sets of codes are reported as valid.',
  over=['inputs'], for_all='all values in the domain of each of the data elements and groups, alone and next to each other in groups and segments',
  why='The tests encode and decode a handful of plain literals per element; escaping, charset conversion, number formats and group nesting must be right for every value.',
  anchors=dict(files=['element/data_element.go', 'element/group_data_element_group.go', 'element/element_extractor.go', 'charset/convert.go', 'token/lexer.go'],
   mechanism=mech(('escaping and unescaping of syntax characters', 'element/data_element.go'), ('ISO 8859-1 conversion', 'charset/convert.go'), ('group decoding', 'element/group_data_element_group.go'))),
  technique='round-trip and reference-reader monitors over generated values',
  note='Held on the generated values of about 40 element kinds (quick ~70 000, thorough ~50x); trusts the independent reader and writer in harness/wire. Values an existing test pins as lexer errors are a known finding.'),
 dict(
  id='P02', title='Every message sent is a well-formed HBCI message',
  statement='Every message the library sends parses as strict HBCI syntax whose header states exactly the number of bytes sent, whose header and end carry the same message number, and whose segments are numbered consecutively from 1, with the signature and encryption segments at their fixed places. This holds for every configuration, credential, account, date and text given, none of which can change the structure of the message or appear in another element than its own.',
  over=['inputs', 'configurations'], for_all='all client and dialog operations with arbitrary text in every credential, account and reference, in HBCI 2.2 and FinTS 3.0, and all client segments marshaled on their own',
  why='The tests compare a few messages with fixed literals; a size, number or escaping error only shows for texts of other lengths or with syntax characters.',
  anchors=dict(files=['message/message.go', 'message/encryption.go', 'segment/message_header.go', 'segment/segment.go', 'dialog/dialog.go'],
   mechanism=mech(('SetSize', 'message/message.go'), ('SetSegmentPositions', 'message/message.go'), ('PIN/TAN encryption envelope', 'message/encryption.go'))),
  technique='online trace monitor in a simulated bank, strict independent parser',
  note='Judges every request a simulated bank receives while client and dialog operations run with hostile texts; trusts harness/wire.'),
 dict(
  id='P03', title='Splitting messages into their parts loses nothing or fails',
  statement='For every byte sequence, splitting a message into segments, a segment of it into data elements and a group into its elements either fails or yields parts that concatenate, with their delimiters, to exactly the input. Whatever strict HBCI syntax an independent reader accepts is split into the same parts, with delimiters inside binary data or behind an escape character never taken for structure. Splitting is repeatable and leaves the input untouched; only an empty element at the very end of a segment may be left out.',
  over=['inputs'], for_all='all byte sequences: well-formed messages with any binary and escaped content, and their mutations and truncations',
  why='The tests split fewer than a dozen literal messages; the lexer is a state machine whose behaviour must be right for every byte at every position.',
  anchors=dict(files=['token/lexer.go', 'token/token.go', 'message/segment_extractor.go', 'segment/element_extractor.go', 'element/element_extractor.go'],
   mechanism=mech(('lexing', 'token/lexer.go'), ('segment extraction', 'message/segment_extractor.go'), ('element extraction', 'element/element_extractor.go'))),
  technique='conservation monitor and differential oracle over generated and mutated byte streams',
  note='Held on the generated and mutated inputs; the reference splitter in harness/wire is trusted. Decimals with a leading zero are excluded (known finding of P01).'),
 dict(
  id='P04', title='Finding segments is exact, complete and in order',
  statement='Looking up segments of a message by ID yields exactly the segments with that very ID, all of them, in the order of the message, and nothing when there are none, both as bytes and as decoded segments; the position reported for an ID is that of the first one. A decoded segment found this way is the one at that place of the message, in the version the bank sent, and segments of unknown kind or version neither fail the message nor hide others.',
  over=['inputs'], for_all='all messages made of known and unknown segments, including IDs that are prefixes of or contained in the content of others, repeated and reordered',
  why='The tests look up one or two segments in one message.',
  anchors=dict(files=['message/segment_extractor.go', 'message/unmarshaler.go', 'message/decryption.go', 'transport/transport.go', 'segment/segment_index.go'],
   mechanism=mech(('FindSegment and FindSegments', 'message/segment_extractor.go'), ('registry of known segments', 'segment/segment_index.go'))),
  technique='reference-model monitor over generated messages',
  note='Held on generated messages of up to 40 segments against the independent reader.'),
 dict(
  id='P05', title='No input from the bank makes the client panic or hang',
  statement='Whatever bytes a bank, or someone in its place, returns for any request at any point of a dialog, every client operation returns with a result or an error: it never panics, never loops forever and never needs time or memory out of proportion to the input. The same holds for every public decoder of bank data given arbitrary bytes.',
  over=['inputs', 'fault_sequences'], for_all='all responses to each request of each operation: random bytes, truncations, mutations and structurally valid messages with segments or elements missing, empty, repeated or of the wrong kind; all public decoders',
  why='The tests never feed malformed responses to a dialog; crashes depend on one particular element missing in one particular segment.',
  anchors=dict(files=['dialog/dialog.go', 'client/client.go', 'message/unmarshaler.go', 'swift/mt940.go', 'token/lexer.go', 'transport/transport.go'],
   mechanism=mech(('request', 'dialog/dialog.go'), ('Unmarshal', 'message/unmarshaler.go'), ('MT940 decoding', 'swift/mt940.go'))),
  technique='structure-aware fault injection from a simulated bank with a crash and progress monitor',
  note='Held on the injected faults; panics, fatal errors, deadlocks and runaway CPU or memory of the worker process are observed by its supervisor.'),
 dict(
  id='P06', title='Dialogs follow the protocol under every response and fault',
  statement='Each dialog opens with dialog ID 0 and message number 1, continues with the dialog ID the bank assigned and consecutive message numbers, and never mixes two dialogs. A dialog the bank accepted is ended exactly once by the operation that opened it, after everything else was sent, also when a later answer is an error, can not be understood or gets lost, and the job of an operation is sent at most once and only after the bank accepted the dialog. An answer missing the client system ID never makes a synchronisation report success, and after any failed operation the next one runs in a new dialog as if nothing had happened.',
  over=['histories', 'fault_sequences'], for_all='all sequences of client and dialog operations with every kind of fault (transport error, error acknowledgement, garbage, missing segments) at every request',
  why='The tests script one or two happy dialogs with fixed answers and look at results, not at the history of requests after faults.',
  anchors=dict(files=['dialog/dialog.go', 'dialog/pin_tan_dialog.go', 'client/client.go', 'message/dialog.go'],
   mechanism=mech(('init, SendMessage, end, SyncClientSystemID', 'dialog/dialog.go')),
   state=[dict(name='dialogID, messageCount, ClientSystemID', meaning='identity and position of the open dialog')]),
  technique='online trace monitor (dialog automaton) in a simulated bank with fault enumeration',
  note='Every (operation, request index, fault kind) of single faults is enumerated, pairs and histories are sampled; the automaton in harness/simbank is the oracle.'),
 dict(
  id='P07', title='The PIN goes only where it belongs and nothing sensitive is logged',
  statement='The PIN occurs in a request only in the one element of the signature meant for it, equal to the PIN set last, and never in anonymous requests, returned errors or results; while no PIN is set nothing that needs one is sent. Unless debugging is enabled neither requests, responses nor the PIN are written to the log or the standard streams (what AccountInformation prints is its result). The security function, client system ID, bank and user stated in the security segments of a message agree with each other and with what the bank assigned last.',
  over=['inputs', 'histories'], for_all='all PINs including ones with syntax characters, all operations, faults and histories of PIN, security function and client system ID changes',
  why='The tests check a single literal PIN in a single signature, never the log or all requests of an operation.',
  anchors=dict(files=['message/signature.go', 'message/encryption.go', 'dialog/pin_tan_dialog.go', 'internal/logger.go', 'transport/middleware/logging.go'],
   mechanism=mech(('PIN/TAN signature', 'message/signature.go'), ('logging and masking', 'transport/middleware/logging.go'))),
  technique='taint-style output monitor on requests, logs, streams and errors',
  note='Unique PINs per case are searched in everything the process emits, raw, escaped, base64 and quoted.'),
 dict(
  id='P08', title='Bank errors always surface, warnings and successes never fail',
  statement='Whenever a bank answers a job, a dialog initialisation or a synchronisation with an error acknowledgement (code 9000 and above), for the message or for a segment, alone or among any others, the operation returns an error that contains its code and text, and no results. Acknowledgements of success, information and warning never make an operation fail and never lose its results.',
  over=['inputs', 'histories'], for_all='all operations, all positions in the dialog, all mixes of acknowledgement codes, texts, references and parameters',
  why='The tests use single acknowledgements with fixed codes.',
  anchors=dict(files=['dialog/dialog.go', 'domain/acknowledgement.go', 'element/acknowledgement.go', 'segment/acknowledgement.go', 'message/decryption.go'],
   mechanism=mech(('IsError, IsWarning, IsSuccess', 'domain/acknowledgement.go'), ('Acknowledgements', 'message/decryption.go'))),
  technique='outcome monitor over scripted acknowledgements of a simulated bank',
  note='Held on the generated mixes; expectation computed from the script.'),
 dict(
  id='P09', title='Paged results are complete, in order and fetched exactly once',
  statement='When a bank splits its answer into pages, transactions, balances, status entries and the account information printed come back complete, each exactly once and in the order sent, for any number of pages and any split. Every follow-up request repeats the original request and carries exactly the continuation reference of the page before, whatever characters it has, and paging ends with the page without a reference; a failing page fails the operation instead of returning a part.',
  over=['inputs', 'histories'], for_all='all splits into 1 to 12 pages, several segments per page, empty pages, hostile references, faults at any page, account and timeframe arguments',
  why='The tests have one continuation with a plain reference.',
  anchors=dict(files=['client/client.go', 'segment/account_transaction.go', 'segment/account_balance.go', 'segment/status_protocol.go', 'swift/mt940.go'],
   mechanism=mech(('accountTransactions, SepaAccountBalances, Status', 'client/client.go'), ('merging of pages', 'swift/mt940.go'))),
  technique='exactly-once and ordering checker over uniquely tagged entries of a simulated bank',
  note='Each entry is unique, so loss, duplication and reordering are told apart.'),
 dict(
  id='P10', title='Balances are reported with the value, sign, currency and time sent',
  statement='For every balance segment a bank sends, in each supported version, the client reports the account, product name, currency, booked and earmarked balance, credit limit, available and used amounts and booking time that the segment states. A debit is reported with a negative amount, a credit with a positive one, amounts keep every digit, and what the bank left out is reported as absent and not as something else.',
  over=['inputs'], for_all='all amounts, signs, currencies, dates, times and combinations of optional elements, in HISAL versions 5 to 8',
  why='The tests decode two literal segments.',
  anchors=dict(files=['segment/account_balance.go', 'segment/account_balance_unmarshaler.go', 'element/group_data_element_group.go', 'domain/account_balance.go', 'element/data_element.go'],
   mechanism=mech(('AccountBalance and SepaAccountBalance', 'segment/account_balance.go'), ('BalanceDataElement', 'element/group_data_element_group.go'))),
  technique='reference-model monitor over balances sent by a simulated bank',
  note='Expected values are computed from the script in integer cents.'),
 dict(
  id='P11', title='MT940 account statements are decoded faithfully',
  statement='Every transaction of an MT940 statement is reported once, in order, with its account, signed amount, currency, booking and valuta date, references, booking text and, from the structured details, transaction code, primanota number, purpose, remitter name and bank data as sent; balances keep amount, sign, currency and date. Booking dates get the year closest to the valuta date, so statements around New Year and leap days come out right. A statement that is malformed or cut off is an error and never fewer or different transactions.',
  over=['inputs'], for_all='all statements: debits, credits and reversals, any amounts, dates, references, multi-line details in any order, any number of transactions and statements, and truncations at every byte',
  why='The tests decode five fixed statements.',
  anchors=dict(files=['swift/mt940.go', 'swift/element.go', 'token/swift_lexer.go', 'swift/tag_extractor.go'],
   mechanism=mech(('Unmarshal of tags', 'swift/mt940.go'), ('lexing of MT940', 'token/swift_lexer.go'))),
  technique='reference-writer monitor over generated statements, truncation faults',
  note='Held on statements written by an independent MT940 writer.'),
 dict(
  id='P12', title='Requests use the highest version client and bank both support',
  statement='Balances, transactions and status entries are asked for in the highest version that the bank announced and the library implements, whatever the order and number of announcements, and in no other version. If there is no common version the operation fails before any job is sent and says so.',
  over=['configurations', 'inputs'], for_all='all sets, orders and repetitions of announced parameter segments and versions, for each of these jobs',
  why='The tests try single version lists.',
  anchors=dict(files=['segment/segment.go', 'segment/account_balance.go', 'segment/account_transaction.go', 'segment/status_protocol.go', 'segment/hbci_version.go', 'message/decryption.go'],
   mechanism=mech(('Builder', 'segment/segment.go'), ('SupportedSegments', 'message/decryption.go'))),
  technique='model monitor on announced versus requested versions, exhaustive over small version sets',
  note='All subsets of versions 1 to 9 in several orders per job via the builders, sampled ones end to end.'),
 dict(
  id='P13', title='Parameter data and accounts mirror the last answer of the bank',
  statement='After an operation the accounts, user parameter data, bank parameter data, PIN/TAN transactions, supported segments and client system ID known to the client are those of the last answer that contained them, each account once and with every detail the bank stated. Answers without them leave the known ones in place, the versions stated in the next dialog are the ones last received, and accounts returned earlier do not change.',
  over=['histories', 'inputs'], for_all='all sequences of synchronisations and dialogs with changing, partial and absent parameter data, in every supported segment version',
  why='The tests receive parameter data once, with two accounts at most.',
  anchors=dict(files=['dialog/dialog.go', 'segment/basic_account_information.go', 'segment/common_bank_parameter_data.go', 'segment/user_parameter_data.go', 'element/user_parameter_data.go', 'client/client.go'],
   mechanism=mech(('parseBankParameterData, parseUserParameterData', 'dialog/dialog.go')),
   state=[dict(name='Accounts, BankParameterData, UserParameterData, ClientSystemID', meaning='what the client knows about bank and user')]),
  technique='history monitor against an executable model of the client state',
  note='Held on generated histories.'),
 dict(
  id='P14', title='IBANs are computed and validated by the standard',
  statement='An IBAN is valid exactly if it consists of a country, two check digits and letters and digits, has the length the registry fixes for its country (34 at most for unlisted ones) and its check digits are those of ISO 7064 mod 97-10, in upper or lower case. The IBAN made from a German bank ID and account number holds both at their fixed places, zero padded, and is valid; malformed parts are refused without a panic. Its parts, its upper case form and its print in groups of four give back what it was made of.',
  over=['inputs'], for_all='all German bank IDs and account numbers, valid IBANs of the known countries and every single-character substitution, transposition and truncation of them',
  why='The tests check a few literal IBANs.',
  anchors=dict(files=['iban/iban.go'], mechanism=mech(('check digit computation', 'iban/iban.go'))),
  technique='differential oracle with big-integer arithmetic over generated IBANs and mutations',
  note='Held on generated IBANs; the oracle is an independent implementation.'),
 dict(
  id='P15', title='Concurrent clients do not race and do not see each other',
  statement='Clients and dialogs used concurrently, one per goroutine, work without data races and each behaves as if it was alone: its requests carry only its own credentials, dialog and account, and its results are those of its own bank. Package level functions and the debug switch may be used from any number of goroutines.',
  over=['schedules'], for_all='all interleavings of independent clients in one process, sampled under the race detector with injected delays',
  why='No test runs two clients at the same time, let alone under the race detector.',
  anchors=dict(files=['segment/segment_index.go', 'segment/hbci_version.go', 'internal/logger.go', 'token/lexer.go', 'swift/mt940.go', 'client/client.go'],
   mechanism=mech(('package level state', 'segment/segment_index.go'), ('log switch', 'internal/logger.go'))),
  technique='Go race detector plus cross-talk monitor with tagged clients and delays',
  note='Held on the schedules that occurred; race reports and foreign tags are violations.'),
 dict(
  id='P16', title='Transports and middleware deliver messages unchanged',
  statement='The bytes a bank receives are the Base64 text of exactly the message sent to the configured URL, sent once, and the message read is exactly what the bank encoded, for any content, size and chunking; malformed Base64 and cut answers are errors instead of something else. Middleware runs in the order given, changes neither request nor response unless it is meant to, and passes errors of the transport and of reading on unchanged. Every answer is closed once it was read or given up, so that no connection leaks.',
  over=['inputs', 'fault_sequences'], for_all='all message contents and sizes, chunked and failing readers, HTTP answers, chains of middleware',
  why='The tests use one short body and a reader that never fails or splits.',
  anchors=dict(files=['transport/https/https.go', 'transport/middleware/encoding.go', 'transport/middleware/logging.go', 'transport/transport.go'],
   mechanism=mech(('Base64 middleware', 'transport/middleware/encoding.go'), ('logging middleware', 'transport/middleware/logging.go'))),
  technique='end-to-end byte monitor on a loopback HTTP server and in-memory transports with fault injection',
  note='Held on the generated bodies and faults; uses the loopback network.'),
 dict(
  id='P17', title='The bank directory finds the right bank and is read faithfully',
  statement='Looking up a bank ID returns the entry of exactly that bank ID, or an empty one if there is none, and never changes the directory. Reading a directory file yields one entry per record with every column in its field, whatever the order of the columns, the text or the line endings, in the order of the file, and a malformed or unreadable file is an error. What the tool writes from it compiles to the same directory, and a client that states no URL or version uses those of its bank.',
  over=['inputs'], for_all='all bank IDs of the directory, their neighbours and arbitrary strings; all generated directory files',
  why='The tests look up one bank and parse two records.',
  anchors=dict(files=['bankinfo/bank_info.go', 'bankinfo/parser.go', 'bankinfo/data.go'],
   mechanism=mech(('FindByBankID', 'bankinfo/bank_info.go'), ('Parse', 'bankinfo/parser.go'))),
  technique='exhaustive differential lookup and reference-writer monitor over generated files',
  note='Every entry of the directory is looked up.'),
 dict(
  id='P18', title='Dates, timeframes and printed results keep their meaning in text form',
  statement='Dates and timeframes written as text, query or JSON and read back, by value or by pointer, alone, as keys or inside other values, are the same calendar days, whatever time zone they were made in; texts that are no date are rejected, also in queries. The printed tables of accounts, balances and transactions have one row per value, in order, whose columns, below their headings, show the texts, dates and amounts with sign, cents and currency, apart from each other.',
  over=['inputs'], for_all='all calendar dates of years 1 to 9999, all timeframes, arbitrary strings, all times and zones, lists of results with any texts and amounts',
  why='The tests use three literal dates and print nothing.',
  anchors=dict(files=['domain/time.go', 'domain/account_transaction.go', 'domain/account_balance.go', 'domain/account_information.go'],
   mechanism=mech(('ShortDate and Timeframe', 'domain/time.go'), ('printed transactions', 'domain/account_transaction.go'))),
  technique='round-trip monitor over all dates and generated timeframes, row and column monitor of printed tables',
  note='Every day of years 1 to 9999 in thorough, of 300 years and samples in quick; a timeframe open at one end is written as none (pinned by tests).'),
 dict(
  id='P19', title='Every field of a bank segment is decoded to its own place',
  statement='For every segment of a bank the library knows, in each version, decoding what the bank sent puts each data element into the field of that name and position, for every combination of present and absent optional elements and whatever text they contain. Elements left out stay absent, and the header keeps ID, version, position and reference.',
  over=['inputs'], for_all='all known bank segments and versions with every subset of present optional elements sampled and hostile texts',
  why='The tests decode one literal per segment; a swapped index shows only when neighbouring elements differ.',
  anchors=dict(files=['segment/segment_index.go', 'segment/common_bank_parameter_data_unmarshaler.go', 'segment/basic_account_information_unmarshaler.go', 'segment/user_parameter_data_unmarshaler.go', 'segment/tan_unmarshaler.go', 'segment/sync_unmarshaler.go'],
   mechanism=mech(('UnmarshalHBCI of the segments', 'segment/*_unmarshaler.go'))),
  technique='reference-writer monitor over generated segments of every known kind',
  note='Field expectations are written down per segment in the harness, from the specification.'),
 dict(
  id='P20', title='Generated segment decoders do what the declaration says',
  statement='For every segment declaration the generator accepts, with versions or without, the code it generates compiles, registers the segment and decodes the i-th data element of a segment into the i-th field its elements method lists, leaving fields of absent elements empty and refusing malformed elements, headers and unknown versions. A declaration it has no code for is refused with an error, by the command with a failure status and without writing a file.',
  over=['inputs'], for_all='all declarations (names, orders, layouts, unlisted fields, interfaces, versions) and all segments for them',
  why='The tests compare the output for four small declarations, without running it.',
  anchors=dict(files=['generator/segment_unmarshaler.go', 'generator/segment_field_visitor.go', 'cmd/unmarshaler/unmarshaler_generator.go'],
   mechanism=mech(('Generate', 'generator/segment_unmarshaler.go'), ('elementVisitor', 'generator/segment_field_visitor.go'))),
  technique='compiling and running generated decoders for random declarations against element-wise decoding',
  note='Held on generated declarations and segments.'),
 dict(
  id='P21', title='Signatures and key operations are correct and cover what is sent',
  statement='The signature of a message is made over exactly the bytes of the signature header and the segments that are then sent, and the encrypted data contains exactly those bytes and the signature end. Signature and encryption headers carry every mandatory element with the references, identities, keys and functions they were made for. RSA signing and verifying, ISO 9796 encoding and decoding and key conversions are inverse for every key and message in their domain, and verification fails when message, signature or key is changed.',
  over=['inputs'], for_all='all messages, providers and keys of several sizes, mutations of message and signature',
  why='The tests use one key and one message and mock providers.',
  anchors=dict(files=['message/message.go', 'message/signature.go', 'message/encryption.go', 'crypto/rsa.go', 'crypto/iso9796_encoding.go', 'domain/key.go'],
   mechanism=mech(('Sign and Encrypt', 'message/message.go'), ('RSA core and ISO 9796', 'crypto/rsa.go'))),
  technique='recording providers, round-trip and mutation monitors',
  note='Held on the generated keys and messages; math/big is trusted.'),
 dict(
  id='P22', title='Acknowledgements and status entries keep what the bank said',
  statement='Every acknowledgement of a message, for the message or for a segment, is reported exactly once and in order, with its code, text, parameters, type and the message, segment and element it refers to. Status entries report in addition the time they were transmitted, and each classification of a code (success, warning, error) is the one of its first digit.',
  over=['inputs'], for_all='all codes, texts, references, parameters and mixes of message and segment acknowledgements, HIPRO versions 3 and 4',
  why='The tests decode single acknowledgements.',
  anchors=dict(files=['element/acknowledgement.go', 'segment/acknowledgement.go', 'segment/status_protocol.go', 'domain/acknowledgement.go', 'message/decryption.go'],
   mechanism=mech(('AcknowledgementDataElement', 'element/acknowledgement.go'), ('Status', 'segment/status_protocol.go'))),
  technique='reference-writer monitor over generated acknowledgements and status entries',
  note='Held on generated messages.'),
 dict(
  id='P23', title='The banking command asks for and prints exactly what was wanted',
  statement='The banking command, given a user, bank and PIN by flags, environment, settings file or the settings saved by an earlier run (in this order of precedence), asks the bank for exactly the account and days of its flags and prints every account, balance or transaction the bank returned, each once, in the order sent and in one row with its values, and nothing else, and exits with 0. It exits with 1, says so, with the code and text of the bank, and does not crash whenever the bank rejects a request or the connection fails, and sends nothing at all with a setting missing, an account number that has no IBAN or a usage error. It never overwrites an existing settings file and never writes the PIN to a file or, unless debugging, to its output.',
  over=['inputs', 'configurations', 'fault_sequences'], for_all='all commands, flags, sources of settings, users and banks of the directory, time zones, answers, splits into pages and single faults at every request',
  why='The command has no tests at all; what it sends and prints depends on flags, files, environment and the bank together.',
  anchors=dict(files=['cmd/banking/root.go', 'cmd/banking/accounts.go', 'cmd/banking/balances.go', 'cmd/banking/transactions.go', 'client/client.go', 'transport/https/https.go'],
   mechanism=mech(('initConfig and initClient', 'cmd/banking/root.go'), ('commands', 'cmd/banking/transactions.go'))),
  technique='end-to-end monitor of the real command against a simulated bank over loopback HTTP with faults',
  note='Held on the generated runs of the built command; trusts the bank directory (P17) for BICs and dialects, uses the loopback network.'),
 dict(
  id='P24', title='Logging tells what the bank said and changes nothing',
  statement='With the information log on, as it is unless switched off, every warning (code 3xxx) in an answer to a synchronisation, the opening of a dialog or a job is written to it once with its code and text, and so is every announcement (HIKIM) that comes with the opening of a dialog with its subject and text; with debug logging on every request and answer appears in the log decrypted, segment by segment and in the order exchanged; with both off the log stays empty. That a dialog could not be ended is always reported, in the error of the operation or on standard error, whatever is switched off. The requests sent and the results and errors returned are the same with every setting of the logs, also when the log can not be written.',
  over=['inputs', 'configurations', 'fault_sequences', 'histories'], for_all='all operations, versions, warnings, announcements, rejections and failures in any answer, settings of the two logs, failing log writers',
  why='What is logged depends on the setting, the answer and the fault together, and the logging sits in the path of every request; the tests look at neither.',
  anchors=dict(files=['internal/logger.go', 'transport/middleware/logging.go', 'dialog/dialog.go', 'client/client.go'],
   mechanism=mech(('Logging', 'transport/middleware/logging.go'), ('conditional loggers', 'internal/logger.go'), ('warnings and announcements', 'dialog/dialog.go'))),
  technique='differential monitor: the same history run with every setting of the logs, with the output captured and checked against what the simulated bank said',
  note='Held on generated histories; the layout of the log is not judged, security headers are not compared.'),
]

# Which property a repair in /repo belongs to, by words of its commit subject.
_FIX = [
    ('log every message of the bank', 'P24'),
    ('account information of all accounts on all pages', 'P09'),
    ('keep the days of an open timeframe', 'P09'),
    ('position of a segment is not found', 'P04'),
    ('marshaled as one group', 'P01'),
    ('lacks its reference number', 'P21'),
    ('marshaled segments found in a client message', 'P04'),
    ('overwrites settings', 'P23'),
    ('a segment asked for by version', 'P04'),
    ('regenerating the unmarshalers', 'P20'),
    ('segments without elements do not compile', 'P20'), ('elements methods it does not understand', 'P20'), ('unknown versioned segments', 'P20'), ('sources it can not parse', 'P20'),
    ('status entries about a whole message', 'P22'), ('moduli of certain lengths', 'P21'),
    ('more than one communication access', 'P19'),
    ('such as NaN', 'P19'),
    ('challenge of a TAN response', 'P19'),
    ('columns of printed', 'P18'),
    ('dates as keys of JSON', 'P18'),
    ('response bodies are never closed', 'P16'), ('UTF8Encoding drops', 'P16'), ('branch without HBCI access', 'P17'),
    ('bank data with quotes', 'P17'), ('client without URL', 'P17'),
    ('transactions without booking date', 'P11'),
    ('cut off after the name of a tag', 'P11'),
    ('unstructured details in MT940', 'P11'), ('undated balance before', 'P11'),
    ('malformed amounts and currencies in MT940', 'P11'),
    ('account balances version 6 to 8', 'P10'),
 ('custom signature panics', 'P07'), ('starting with a slash', 'P05'), ('NUL byte as end', 'P03'), ('binary length that exceeds', 'P05'), ('FindSegment returns', 'P04'),
 ('cut off at the end of a message', 'P03'), ('extracting segments twice', 'P03'), ('element extraction overwrites', 'P03'),
 ('decoding a segment without elements', 'P05'), ('value ending in a delimiter', 'P01'), ('bank texts', 'P01'), ('texts of TAN', 'P01'), ('codes outside', 'P01'),
 ('PIN without TAN', 'P01'), ('zero padded or panic', 'P01'), ('security profiles', 'P01'), ('groups without a decoder', 'P01'),
 ('bank identifications', 'P01'), ('decimal with leading', 'P01'), ('reading an element the bank left out', 'P05'),
 ('cut short panic, syntax', 'P05'), ('spaces or ampersands', 'P01'), ('reference of a segment', 'P05'),
 ('optional segments left out', 'P04'), ('changed after it was marshaled', 'P02'), ('segments without content', 'P05'),
 ('debug rendering', 'P21'), ('continues the numbers', 'P06'), ('stays open', 'P06'), ('accounts are duplicated', 'P13'),
 ('changing the PIN', 'P07'), ('chosen at random', 'P07'), ('without details panic', 'P05'), ('user name and extensions', 'P13'),
 ('printed to standard output', 'P07'), ('without client system ID is accepted', 'P06'), ('other version than the bank', 'P12'),
 ('SEPA account transaction requests', 'P12'), ('status protocol requests are never', 'P12'), ('random time', 'P22'),
 ('booking time of balances', 'P10'), ('merging MT940', 'P09'), ('without account or balance', 'P11'), ('sign of MT940', 'P11'),
 ('around New Year', 'P11'), ('JSON format', 'P18'), ('transaction details panic', 'P11'), ('multi-line MT940', 'P11'),
 ('cut off right after a tag', 'P11'), ('continuation references which are missing', 'P05'), ('behind a continuation reference', 'P09'),
 ('error is lost when fetching', 'P08'), ('logging middleware', 'P16'), ('log mode', 'P15'), ('IBAN', 'P14'), ('ISO 9796', 'P21'),
 ('encryption keys lose', 'P21'), ('languages', 'P01'), ('reorder the caller', 'P12'), ('key revocations', 'P01'),
 ('allowed business transaction', 'P13'), ('optional lengths', 'P19'),
]

def FIX_OF(subject):
    for words, prop in _FIX:
        if words in subject:
            return prop
    raise SystemExit('no property for fix: ' + subject)

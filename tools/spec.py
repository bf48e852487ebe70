"""Single source of properties.jsonl and MANIFEST.json.

`python3 tools/spec.py` rewrites both.  A property without a check module is
listed under not_applicable.
"""
import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent

B = 'golem_messages/message/base.py'
T = 'golem_messages/message/tasks.py'
C = 'golem_messages/message/concents.py'
P = 'golem_messages/message/p2p.py'
CR = 'golem_messages/cryptography.py'
DS = 'golem_messages/datastructures/__init__.py'
DT = 'golem_messages/datastructures/tasks.py'
DP = 'golem_messages/datastructures/p2p.py'
PN = 'golem_messages/datastructures/promissory.py'
MA = 'golem_messages/datastructures/masking.py'
ST = 'golem_messages/datastructures/stats.py'
V = 'golem_messages/validators.py'
SH = 'golem_messages/shortcuts.py'
SE = 'golem_messages/serializer.py'
RE = 'golem_messages/register.py'
ID = 'golem_messages/idgenerator.py'
HE = 'golem_messages/helpers.py'
CO = 'golem_messages/constants.py'
UT = 'golem_messages/utils.py'
SG = 'golem_messages/settings.py'

PROPS = []


def prop(id_, title, statement, over, quant, why, files, mechanism, level_note,
         technique='exhaustive bounded choice-tree exploration of the real '
                   'code against a reference model'):
    assert len(title) <= 80, title
    PROPS.append({
        'id': id_, 'title': title, 'statement': ' '.join(statement.split()),
        'over': over, 'quant': ' '.join(quant.split()),
        'why': ' '.join(why.split()), 'files': files,
        'mechanism': mechanism, 'technique': technique,
        'level_note': ' '.join(level_note.split()),
    })


prop('C01', 'Messages survive the wire unchanged',
     '''A message of any kind which is dumped and then loaded comes back as the
     same kind of message with the same timestamp, signature and content
     (every field, of the same type, including nested messages and structured
     fields), and it compares equal to the original. This holds whether or not
     the message is signed and whether or not it is encrypted. Dumping the
     loaded message again gives the same bytes as dumping the original.''',
     ['inputs', 'configurations'],
     '''all 63 message kinds, every field, every mode (signed or not, encrypted
     or not), valid field values''',
     '''The unit tests round-trip one factory-made instance of some of the
     kinds, mostly unencrypted; a field lost, reordered or retyped only for
     some value or mode goes unnoticed.''',
     [B, T, C, P, SE, SH, DS, DP, DT, ST, PN],
     [('serialize/deserialize', B), ('slot serializers of each class', T)],
     '''All 63 kinds, every field over an alphabet of values, at most 1 (quick)
     or 2 (thorough) fields away from a base message; every combination of
     signed and encrypted.''')

prop('C02', 'The wire format is the one every peer speaks',
     '''Every message kind keeps its wire number and its list of fields in
     their order, and a dumped message is exactly: number, timestamp and
     encryption flag (2+8+1 bytes, big-endian), 65 bytes of signature (zeros
     if unsigned), the CBOR encoding of the list of field name and
     value pairs (encrypted if and only if a recipient's key is given and the
     kind is an encryptable one, which the flag tells) and, for the handshake greeting
     only, 32 bytes of version. A signature signs the SHA-1 of the
     CBOR-encoded number and timestamp followed by the plaintext payload (for
     the greeting, followed by its version). Messages encoded independently
     according to these rules load with the content they carry.''',
     ['inputs', 'configurations'],
     'all message kinds, fields, timestamps and modes',
     '''Tests dump and load with the same code, so both sides may drift
     together and stop talking to every deployed peer.''',
     [B, T, C, P, SE, RE, 'golem_messages/message/resources.py'],
     [('header, payload and signature layout', B)],
     '''Compares the bytes against an independently written encoder and a
     hand-reviewed protocol table (mc/golden.py), both directions.''')

prop('C03', 'Nothing but what the sender signed is accepted',
     '''When a message which carries signatures is loaded with the public key
     of an expected sender, it is accepted only if it was signed with the
     matching private key and its kind, timestamp and payload (and version,
     for the greeting) are what was signed. Any other kind, timestamp, content,
     signature or key is rejected with a message error, whatever the message
     kind and however many bytes of it were changed. The signature is one of
     the payload's bytes as they were sent: a message signed by its sender is
     not refused because its payload orders the fields in another way or has
     additional fields which the receiver does not know, and a payload which
     merely decodes to the same fields does not do in place of the signed one.
     Verifying a message whose content was modified after signing raises
     InvalidSignature.''',
     ['inputs', 'histories'],
     '''all signed message kinds, signer and verifier keys, single byte changes
     at every offset, truncations, splices of one message's parts into
     another''',
     '''Tests try one wrong key or one modified field of one message kind.''',
     [B, CR, T, SH],
     [('verification of the signature against received bytes', B)],
     '''Every byte of a message of every signed kind is tampered with; all
     splices of header, signature and payload between two messages. The
     encryption flag byte and padding behind the version are not signed and
     not claimed.''')

prop('C04', 'Encryption is authenticated and only for the recipient',
     '''Data encrypted for a public key decrypts to exactly the same data with
     the matching private key and the same shared MAC data, for every length,
     and the ciphertext is 113 bytes longer than the data, with a fresh
     initialization vector each time. Decryption raises
     an error for any modification, truncation or extension of the
     ciphertext, any other private key, or other shared MAC data. The format
     is the ECIES of devp2p (secp256k1, AES-128-CTR, HMAC-SHA256, NIST
     concatenation KDF): an independent implementation decrypts it, and the
     other way round.''',
     ['inputs'],
     'data lengths and contents, keys, MAC data, every single-bit tampering',
     '''Tests encrypt a few strings and never tamper with the ciphertext
     systematically.''',
     [CR, SH],
     [('ECIES.encrypt and ECIES.decrypt', CR)],
     '''All lengths up to a bound, every bit of the ciphertext flipped, against
     an independent ECIES written on coincurve and pycryptodome.''')

prop('C05', 'Ephemeral encryption keys are rotated and never shared',
     '''Ciphertexts are made with an ephemeral key that is at most as old as
     the key manager's timeout, no matter how often and in what order keys of
     recipients are asked for or how time moves forward. Different recipients, and
     different key managers, never get the same ephemeral key. Whatever the history, each ciphertext
     decrypts with its recipient's private key.''',
     ['histories', 'schedules'],
     '''all sequences of encryptions for several recipients and time steps, up
     to a bound, with one or two key managers''',
     '''Tests only check that a cached key is reused and that one jump of the
     clock replaces it.''',
     [CR],
     [('ECIESKeyManager.get_ephem_key', CR)],
     '''All sequences over 2-3 recipients, clock steps around the timeout and
     managers up to the stated depth, clock controlled by the harness.''',
     technique='exhaustive exploration of operation and clock histories of '
               'the real code')

prop('C06', 'Hostile bytes end in a message or a message error',
     '''Loading any byte string, from anybody, either returns a message of a
     registered kind or raises a message error; nothing else ever escapes,
     whatever values the fields, nested messages and structured fields carry
     and whatever the decryption does.''',
     ['inputs', 'fault_sequences'],
     '''truncations, byte substitutions, unknown kinds, every kind with junk of
     every type in every field, in nested messages and structured fields at
     every level, failing decryption''',
     '''Tests feed a handful of malformed messages.''',
     [B, T, C, P, SE, DS, DP, DT, ST, V],
     [('error wrapping in deserialize and load_slots', B)],
     '''Structure-aware exhaustive junk at one (quick) or two (thorough)
     places; all one-byte substitutions of several messages.''')

prop('C07', 'Only fresh messages are accepted',
     '''A message is accepted by a time-checking load if and only if its
     timestamp is at most 10 minutes in the past and at most 5 minutes in the
     future (to the precision of a second); older ones raise MessageTooOldError and later ones
     MessageFromFutureError. Timestamps which are not after 2010-01-01 and
     before 3010-01-01 UTC are always rejected, even if the time is not
     checked. Otherwise, without the time check, age does not matter.''',
     ['inputs', 'histories'],
     'all timestamps around each limit, clocks with and without microseconds, '
     'message kinds',
     '''Tests sample a couple of timestamps far from the limits.''',
     [B, SG],
     [('verify_time and deserialize_header', B)],
     '''All message kinds at each side of each limit; timestamps around the
     limits exhaustively for several clocks.''')

prop('C08', 'Greetings are accepted from compatible versions only',
     '''A greeting (Hello) is loaded only if it carries a version with the same
     major and minor number as ours, which is a release or a development build (and is not a prerelease of the first
     patch version of that series); any other or unreadable version raises
     VersionMismatchError, before anything else of its body is looked at. A
     loaded greeting carries, signs and dumps the version its sender wrote,
     and a new one carries ours.''',
     ['inputs', 'configurations'],
     'our and their versions over all small major, minor, patch and '
     'prerelease combinations; malformed versions; truncated suffixes',
     '''Tests try a few versions against the current one.''',
     [B, 'golem_messages/__init__.py'],
     [('verify_version and Hello', B)],
     'Full product of a small alphabet of our and their versions.')

prop('C09', 'Signatures of nested messages survive relaying',
     '''When a signed message is nested in another one, at any depth, and that
     is dumped, encrypted, loaded and relayed any number of times by other
     parties, the nested message can be extracted with its signature still
     valid for its author only, and its content untouched. Signing or dumping
     the outer message never changes a nested one.''',
     ['histories', 'configurations'],
     'all nesting places of all kinds, chains of relays, modes of transport',
     '''Tests check a single nesting in a single hop.''',
     [B, T, C],
     [('serialize_message_single, get_short_hash', B)],
     'Every nested slot of every class, up to 2 (quick) or 3 (thorough) hops '
     'with all modes; every field of a nested message with every value of its '
     'alphabet, dictionaries in several orders.')

prop('C10', 'Task chains are owned by who they claim',
     '''Verifying the owners of a task message succeeds if and only if the
     message and each nested task message, at every level, are signed by
     one of the parties who may issue them (the provider, the requestor or the
     Concent, with keys taken from the task assignment inside that message)
     and the task header in each assignment is signed by the requestor; the
     Concent's place is verified with the Concent key given to the
     verification, and the offer's own signature is not covered. If an
     expected provider or requestor key is given, it has to be the one in the
     assignment, else OwnershipMismatch is raised. A signature of anyone else
     on any message of the chain raises InvalidSignature.''',
     ['inputs', 'configurations'],
     '''all task message kinds, every assignment of signers (requestor,
     provider, Concent, stranger, nobody) to the messages of a chain, expected
     keys''',
     '''Tests check one or two wrong signers for some kinds.''',
     [T, C],
     [('validate_ownership_chain, verify_owners', T)],
     '''All assignments of signers with at most 2 deviations for every kind,
     the full product for short chains. The offer inside an assignment is not
     covered by this verification, as designed.''')

prop('C11', 'Every task message leads to its task',
     '''From any task message, the task id, subtask id, provider id, requestor
     id and task assignment read are those of the task assignment
     it carries, however deeply nested and through whichever of the
     alternative nested messages is present (when several are, they carry the
     same assignment); if there is none, they are all
     None. They are the same after the message is dumped and loaded.''',
     ['configurations', 'inputs'],
     'all task message kinds, all subsets of optional nested messages',
     '''Tests look at one instance of each kind.''',
     [T, C],
     [('TASK_ID_PROVIDERS', T)],
     'All kinds with all subsets of optional nested messages present.')

prop('C12', 'Semantic rules of task messages are enforced on arrival',
     '''A results acceptance is valid only if its payment timestamp is not
     later than, nor more than 15 minutes before, the message's own. A
     results rejection is valid only with a reason, any attached retrieval
     failure has to be of the same task and subtask, and one must be attached
     if it is the reason; from a requestor, only a negative verification or,
     with Concent, that failure, or, without Concent, missing resources, is
     allowed. A verdict is valid only if both its branches carry the same task
     assignment. Violations raise ValidationError when the rule is asked for and
     when such a message arrives (by itself, not nested).''',
     ['inputs', 'configurations'],
     'timestamps around the limits; all reasons, Concent modes, attached '
     'failures and differences of branches',
     '''Tests check single values and never the boundaries of all rules.''',
     [T, C, SG],
     [('is_valid, is_valid_for_requestor', T)],
     'Full decision tables of the rules.')

prop('C13', 'Task assignments are accepted only with proven identity',
     '''A task assignment (arriving by itself, not nested) is loaded only if the
     nested offer is signed with the
     key of the requestor's Ethereum account it names, its task and subtask ids
     both belong to the requestor it names, and its price and size are
     integers; otherwise loading raises a message error, even if the assignment
     is properly signed by the requestor.''',
     ['inputs', 'configurations'],
     'all assignments of Ethereum signers, ids and types',
     '''Tests check one failing instance of each condition.''',
     [T, ID, V],
     [('deserialize_with_header of TaskToCompute', T)],
     'Products of signers, offers, id owners and values, deviation bound 2.')

prop('C14', 'Generated ids belong to their seed',
     '''An id generated from a seed, or from another id of that seed, is a
     valid, new uuid1 that is recognised as belonging to that seed. An id is
     recognised as belonging to a seed if and only if its node is the first 48
     bits of the seed; a string which is not a uuid is not
     recognised. Hex seeds work exactly like raw ones.''',
     ['inputs', 'histories'],
     'seeds, every single bit of seed and id, malformed ids',
     '''Tests use random keys, and hence do not see single bits or leading
     zeros.''',
     [ID],
     [('seed_to_node', ID)],
     'All single bit differences of seed and id; all derivation sequences up '
     'to a depth.')

prop('C15', 'Promissory notes commit to all their terms',
     '''A promissory note's signature is valid if and only if it was made with
     the private key of the payer's address, for the same contract, payer,
     payee, amount and subtask; a missing or malformed signature is never
     valid, and other spellings of a valid signature are not judged. The notes of
     a task assignment name the requestor's Ethereum account as payer, the
     provider's account or the deposit contract as payee, the assignment's
     price and subtask; the note of a verification request names the
     provider's account as payer and the contract as payee. What is signed is
     the Ethereum signed-message hash of contract, payer, payee, 32 byte
     amount and zero-padded subtask id, and this holds after the carrying
     message was dumped and loaded too.''',
     ['inputs', 'configurations'],
     'all single differences of every term, signers, cases of addresses, '
     'carriers, transports',
     '''Tests compare with a recorded signature and one wrong address.''',
     [PN, T, C, UT],
     [('PromissoryNote.hexmsg, sig_valid', PN)],
     '''Each term deviates in each byte; against an independently computed
     hash and recovery.''')

prop('C16', 'Task headers are sealed by their owner',
     '''A task header's signature verifies if and only if it was made with the
     private key matching the given public key over all the other fields of
     the header, exactly as they are (absent fields and their defaults
     included); otherwise, or if there is none, InvalidSignature is raised.
     The signature survives converting the header to a dictionary and back and
     travelling in messages, and mutating any field afterwards invalidates
     it.''',
     ['inputs', 'histories'],
     'all header fields, values, keys',
     '''Tests modify one field.''',
     [DT, DS, CR],
     [('TaskHeader.get_hash, sign, verify', DT)],
     'Every field and value of the alphabets, every key; digests compared '
     'with an independent encoder.')

prop('C17', 'Structured fields keep to their declared shape',
     '''A node, task header or stats record is built only from known
     fields, with all the required ones given, and otherwise raises FieldError;
     an optional field which is absent gets its documented default (a
     fresh one for each record) or None, and one given as None stays None. Converting a record to a dictionary
     and building a record from that gives an equal dictionary again.''',
     ['inputs', 'histories'],
     'all subsets of fields (bounded number absent), unknown fields, None',
     '''Tests leave out one or two fields.''',
     [DS, DP, DT, ST],
     [('Container.load_slots', DS)],
     'All subsets of missing fields up to the bound, for every record type.')

prop('C18', 'Field rules accept exactly the valid values',
     '''The fields of nodes, peers, task headers, file descriptions, task
     definitions, offers and assignments which are restricted accept every
     valid value and reject every other with FieldError: ports are integers
     from 1 to 65535 (those of hyperdrive any integers), addresses IPv4 or IPv6 literals in text form, names and ids strings of
     at most 128 characters (node names of any length), counts positive
     integers, timeouts and CPU usage non-negative integers, flags booleans,
     versions semantic versions, integers never booleans. The rules of
     records are applied both when a value is given to a constructor or stored
     later in a dictionary-like record, and when it arrives from the wire;
     those of offers and assignments when they arrive. Peers and tasks arrive
     in lists of records, and nothing else is accepted. The error names the
     refused field and its value.''',
     ['inputs'],
     'boundary values and wrong types for every restricted field, by every '
     'way a value may get in',
     '''Tests try a few values directly on the validators.''',
     [V, DP, DT, T, C, DS],
     [('validators and their wiring', V)],
     '''Every restricted field with an alphabet of about 60 values and all the
     ports; every way in. Text addresses only (integers and packed bytes as
     addresses are not claimed).''')

prop('C19', 'Closed dictionaries never hold unknown or invalid items',
     '''A dictionary-like record (task definition, file description, peer)
     never holds an item it does not know or one that its rules reject, no
     matter by which mapping operation the item comes; such an operation
     raises (KeyError for unknown items, FieldError for invalid ones) and leaves
     that item as it was. Items never set read as their default, and changing
     a default obtained this way never changes the default of other records.
     Attributes cannot be set.''',
     ['histories', 'inputs'],
     'all sequences of mapping operations up to a depth',
     '''Tests try single assignments.''',
     [DS, T, C, DP],
     [('FrozenDict, ValidatingDict, SetItemDict', DS)],
     'All operation sequences up to a depth against a plain model; deletion '
     'operations are not claimed.',
     technique='exhaustive exploration of operation histories of the real '
               'code against a reference model')

prop('C20', 'Masks select the fraction of nodes they promise',
     '''A mask's set bits, number of bits, integer, binary and byte forms always
     describe the same set; raising or lowering it by n adds or
     removes exactly n bits (as far as there are any) without touching the
     others, and negative amounts are an error. A mask matches a
     node exactly if the node's SHA-256 has a zero at every set bit. The mask
     for a task has the fewest bits that leave no more than the desired number
     of the potential workers, at least none and at most 256 (for at least
     one desired worker and worker counts up to 2^40).''',
     ['histories', 'inputs'],
     'all sequences of operations and sizes, workers wanted and available',
     '''Tests check single operations on sample masks.''',
     [MA],
     [('Mask', MA)],
     '''All operation sequences to a depth from several masks, with the random
     choice of bits controlled by the harness; all worker counts up to a
     bound.''',
     technique='exhaustive exploration of operation histories of the real '
               'code against a reference model')

prop('C21', 'Provider statistics are understood or refused',
     '''A provider statistics record accepts every combination of its sections
     given as dictionaries or record objects, gives back what it was given
     (an empty section reads as None, CPU usage and throttling data are
     completed with zeros), survives the wire in a report, and refuses unknown
     sections, unknown entries of a section or of the CPU data, and values of a
     wrong type with FieldError or a message error. The content of block I/O
     and memory entries is not restricted.''',
     ['inputs', 'configurations'],
     'all subsets of sections, every entry replaced by values of wrong types '
     'or missing',
     '''Tests use a single full record.''',
     [ST, DS, T],
     [('stats containers', ST)],
     'All subsets of sections; every leaf with an alphabet of values.')

prop('C22', 'Public contact data of a node is completed, not replaced',
     '''Updating a node's public info sets each of its unknown public address
     and ports to its private counterpart and never changes a known one;
     doing it again changes nothing. A node is a super node exactly if its
     public address is known and equal to its private one. Nodes are equal
     exactly if all their fields are; comparing with something else raises
     TypeError.''',
     ['inputs', 'histories'],
     'all combinations of known and unknown addresses and ports',
     '''Tests check a few combinations.''',
     [DP],
     [('Node', DP)],
     'Full product of known/unknown/equal contact fields.')

prop('C23', 'Each wire number means one kind of message',
     '''The registry maps every registered number to one message class and back
     consistently; registering a number again raises RuntimeError and leaves
     the registry as it was, and an unknown number or class raises
     KeyError.''',
     ['histories'],
     'all sequences of registrations up to a depth',
     '''Tests register one duplicate.''',
     [RE, B, T, C, P],
     [('MessageRegister.register', RE)],
     'All registration sequences up to a depth against a dictionary model.',
     technique='explicit-state exploration of operation histories of the real '
               'code against a reference model')

prop('C24', 'A signature is never silently replaced',
     '''In any sequence of signing, dumping and copying, a signature which a
     message already has (even the empty one of an unsigned dump) is never
     replaced by dumping: dumping it with a private key raises
     SignatureAlreadyExists, and dumping without one keeps it. Getting a signed
     copy of an unsigned message leaves the original unsigned; an
     already signed message is returned itself. Unsigned kinds of messages are
     never signed by dumping.''',
     ['histories'],
     'all sequences of sign, clear, dump and copy operations up to a depth',
     '''Tests check one such sequence each.''',
     [B, UT],
     [('serialize, sign_message, copy_and_sign', B)],
     'Explicit-state search over operation sequences for every message kind.',
     technique='explicit-state exploration of operation histories of the real '
               'code against a reference model')

prop('C25', 'Nested messages are of the declared kind',
     '''A message cannot be dumped with, nor loaded from bytes carrying, a
     nested message field which holds anything but a message of the declared
     kind (a list of these where a list is declared), or None where that is
     allowed; this raises a message error. Where None is allowed, it is
     accepted and comes back as None.''',
     ['inputs', 'configurations'],
     'all nested fields, all message kinds and junk in them',
     '''Tests try one wrong class.''',
     [B, T, C, P],
     [('serialize_message, deserialize_message', B)],
     '''Every nested field with all 63 kinds and junk; from the wire, every
     malformed shape. A nested message whose header names another kind is not
     claimed.''')

prop('C26', 'Enumerated fields hold only declared values',
     '''A field with a fixed set of values (reasons, operations, origins, actor,
     market types and file categories) accepts from the wire exactly the
     declared values of that message kind, and any other value (including
     values of other kinds and other letter cases) raises FieldError; the
     accepted value is read as a member of that set and sent as the same wire
     value.''',
     ['inputs'],
     'all enumerated fields with all values of all kinds and junk',
     '''Tests check a few values.''',
     [B, T, C, DT],
     [('ENUM_SLOTS', B)],
     'Every enumerated field with the union of all declared values, case '
     'variants and junk.')

prop('C27', 'Concurrent use does not corrupt messages or keys',
     '''When several threads at once dump, load, sign, verify, encrypt and
     decrypt messages through one shared key manager, each gets the result
     it would get alone: no message, signature or key of one thread appears in
     another's result, nothing raises, and encrypted data decrypts with
     its own recipient's key, in any interleaving and also while cached keys
     expire.''',
     ['schedules'],
     'all interleavings of 2 threads (line granularity) up to a preemption '
     'bound, over combinations of operations',
     '''The tests are single-threaded.''',
     [CR, SH, B, RE],
     [('lru caches of ECIESKeyManager', CR)],
     '''Cooperative scheduler, switching at any source line of the package, all
     schedules with at most 1 (quick) or 2 (thorough) preemptions.''',
     technique='stateless exploration of thread interleavings of the real '
               'code under a controlled scheduler, preemption-bounded')

prop('C28', 'Time limits and deposits follow the protocol formulas',
     '''The time allowed to verify a subtask is 4 times the Concent messaging
     time (4 minutes), plus 3 times the maximum download time of the
     reported result size, plus half the time between the assignment's
     timestamp and the subtask deadline. The maximum download time is 1 minute
     plus the size over the rate (48 KiB/s by default) rounded up to whole
     seconds. A requestor's required and suggested deposits are 2 and 4 times
     the total price, a provider's 1 and 4 times the subtask price, and
     only a forced report is delayed before sending, by 2 minutes 25
     seconds. The protocol's times are: transport 5 s, clock difference 10 s,
     action 2 min 15 s, ping interval 1 min, forced acceptance 16 min,
     additional verification 28 min, payment due 12 h.''',
     ['inputs'],
     'sizes around each multiple of the rate, rates, deadlines, prices, all '
     'message kinds',
     '''Tests compute single values.''',
     [HE, CO],
     [('helpers', HE)],
     'All sizes around multiples of the rate against exact rational '
     'arithmetic.')

prop('C29', 'File transfer tokens say what they authorise',
     '''A file transfer token is an upload token or a download token exactly as
     its operation says, never both; looking up a file by category returns the
     first file with that category or None; a file's category is results
     unless it says otherwise, and anything else than the declared
     categories is refused with a FieldError. All of this is the same after the
     token, alone or nested, is dumped and loaded, with files in their
     order.''',
     ['inputs', 'configurations'],
     'all file lists up to a length, all categories and operations',
     '''Tests check a single list of files.''',
     [C],
     [('FileTransferToken', C)],
     'All file lists up to length 3 (quick) or 4 (thorough), transports, '
     'carriers.')

prop('C30', 'Encodings of keys, ids and addresses are exact inverses',
     '''Hex encoding of bytes or text is lowercase and decodes back to the same
     bytes (for every length, zero too), and anything else is a TypeError. The
     32-byte form of a uuid is its 16 bytes and 16 zeros and converts back. The
     address of a public key is the EIP-55 form of the last 20 bytes of its
     Keccak-256, for keys given in hex (with or without the prefix) or
     bytes.''',
     ['inputs'],
     'all byte values and lengths up to a bound, uuids, keys',
     '''Tests check a few values.''',
     [UT],
     [('utils', UT)],
     'Exhaustive small domains against an independent implementation.')

prop('C31', 'Factories make valid messages only',
     '''For every combination of factory options (signing keys given or not,
     at each level), a message factory makes a message which loads again
     unchanged, is semantically valid, carries the parts and the reason which
     the called variant is named after, has an owner chain verifying for the
     given keys if and only if all of the chain was signed, with all parts of
     the chain about one task; messages made by separate calls share nothing
     changeable; a cloned message differs in exactly what was asked for, and timestamp overriding only changes the timestamp.''',
     ['configurations'],
     'all factories and options',
     '''Tests use factories but never check them as a whole.''',
     ['golem_messages/factories/tasks.py',
      'golem_messages/factories/concents.py',
      'golem_messages/factories/helpers.py',
      'golem_messages/factories/p2p.py'],
     [('factories', 'golem_messages/factories/helpers.py')],
     'All factories with all subsets of their options.')

prop('C32', 'Messages are equal exactly if they say the same',
     '''Two messages are equal if and only if they are of the same kind, with
     the same timestamp, signature and content (for greetings, version too);
     the encryption flag makes no difference. Equality is symmetric, and a
     message is never equal to something which is not a message.''',
     ['inputs'],
     'all pairs of messages which differ in one respect',
     '''Tests compare a few pairs.''',
     [B],
     [('Message.__eq__', B)],
     'All pairs of variants of every kind.')

prop('C33', 'Key pairs are consistent and signatures bind key and data',
     '''A key pair made from a private key has the matching 64-byte public
     key, and a generated one is always valid with a 32-byte private key,
     whatever the generator returns first. A signature is 65 bytes and verifies
     if and only if key and data are the signer's (other encodings of the same
     signature aside); any other key, data or tampered signature raises
     InvalidSignature, and making a key pair from a private key of a wrong
     length or verifying with a public key of a wrong length raises
     InvalidKeys. The hash functions give the standard SHA3-256 and
     Keccak-256 digests.''',
     ['inputs', 'fault_sequences'],
     'keys, data, every bit of a signature, sequences of generator answers',
     '''Tests sample random keys and data.''',
     [CR],
     [('ECCx, ecdsa_sign, ecdsa_verify', CR)],
     'Every single-bit change of a signature; generator answers up to a '
     'bound.')

prop('C34', 'Serialization is canonical and fails only one way',
     '''Serializing a value made of None, booleans, integers of any size,
     floats, bytes, text, lists and string-keyed dictionaries gives its
     canonical-length CBOR encoding and deserializing gives the value back,
     with the same types. Values that cannot be serialized and bytes which
     cannot be deserialized raise SerializationError and nothing else.''',
     ['inputs'],
     'all values up to a size over an alphabet of leaves; all short byte '
     'strings',
     '''Tests check that one value fails.''',
     [SE],
     [('wrap_error', SE)],
     'All nested values up to a size, all byte strings up to 2 (quick) or 3 '
     '(thorough) bytes, against an independent codec.')

prop('C35', 'Absent fields get defaults and unknown fields are refused',
     '''A message constructed or loaded without some of its fields has None in
     these, or the documented default (one subtask in an offer, the
     computation error reason in a failure, Concent disabled, an empty list
     of peers, tasks or gossip), and in the other fields what was given; fields which are not known to the receiver
     are ignored when loading, wherever they stand in the list, and the order
     of the received fields does not matter. Constructing a message with an
     unknown field raises AttributeError.''',
     ['inputs', 'configurations'],
     'all message kinds with every subset of fields (bounded) left out, '
     'reordered or extended',
     '''Tests always use complete messages.''',
     [B, T, C, P],
     [('load_slots', B)],
     'Every field of every kind absent, alone and in pairs; permutations.')

prop('C36', 'Messages share no state and reading does not change them',
     '''Messages and the structures in them which were obtained apart from
     each other (loaded, even from the same bytes; relayed; built from separate
     values or from defaults; copied deeply or unpickled) share nothing
     changeable: whatever is changed in one of them, its nested messages and
     structured fields included, the other ones, and those which are made
     later, keep their content. A copy (shallow, deep or by pickling) is of
     the same type as its original and equal to it in every field, header and
     signature, and its signature still verifies; the fields of a shallow
     copy itself can be set without changing the original. Reading a message
     (showing, comparing, hashing, dumping, copying or verifying it, asking
     for its task, ids, parties, prices and file information) does not change
     it.''',
     ['inputs', 'histories'],
     '''all message kinds and structures, every way of obtaining two of them,
     every place inside which can be changed, every reading method and
     property''',
     '''Tests look at one message at a time and never change what they
     received.''',
     [B, T, C, P, DS, DP, DT, ST, MA],
     [('nested and structured field deserialization', B),
      ('defaults of structured fields', DS)],
     '''All kinds; every changeable place inside of one of two messages is
     changed, one after another, and the other one compared each time; copies
     with every field content of the alphabets; every reader (thorough: every
     pair of readers).''')


prop('C37', 'Honest exchanges are accepted at every step',
     '''When requestor, provider and Concent keep to the protocol (offer,
     assignment, report, acknowledgement, acceptance or rejection, payment,
     and every way of involving the Concent), each message that is due can be
     made from the ones the party received before, is accepted by its receiver
     exactly as it was sent and by nobody else, is owned by the parties of the
     task and belongs to the very assignment and ids agreed on, and the
     signatures of its sender and of every message inside, the Ethereum
     signature and the promissory notes still verify there. This holds
     however messages are sent (encrypted or not, signed at once or ahead),
     delayed within the limits and kept in between (as objects, as bytes, or
     pickled), and however long ago the messages inside them were made.''',
     ['histories', 'inputs'],
     '''all maximal exchanges of the protocol for one task with and without
     Concent, one deviation in sending, delay, keeping or pausing at any
     step (thorough: every value of each)''',
     '''Tests load single messages with mocked neighbours; no test hands a
     message on through more than one party.''',
     [B, T, C, SH],
     [('loading and nested messages', B), ('chains', T)],
     '''Every path of the story graph from the offer to a message after which
     nothing is due, with real keys; at every hop the message is loaded by its
     receiver at the receiver's clock; deviations: plain or queued sending,
     delays 0, 59, 600 and -300 s, kept as bytes, encrypted bytes, pickle or
     copy, pauses of 0, 1 h and 3 years.''')


LEVEL = {}

SETUP = 'bash bin/setup'


def has_check(id_):
    return any(
        p.stem.split('_')[0] == id_.lower()
        for p in (VERIF / 'mc' / 'checks').glob('c*.py'))


def replace(text, name, new):
    start = text.index('<!-- {}: '.format(name))
    start = text.index('\n', start) + 1
    end = text.index('<!-- end -->', start)
    return text[:start] + new + text[end:]


def design():
    path = VERIF / 'DESIGN.md'
    text = path.read_text()
    text = replace(text, 'properties', ''.join(
        '* **{id} {title}.** {level_note} Explored: {quant}.\n'.format(**p)
        for p in PROPS))
    rows = []
    for meta in (VERIF / 'seeded').glob('*/meta.json'):
        data = json.loads(meta.read_text())
        rows.append('| {} | {} | {} |\n'.format(
            data['property'], meta.parent.name,
            data['needs'].replace('|', '/')))
    text = replace(
        text, 'seeded', '\n| caught by | change | needs |\n|---|---|---|\n'
        + ''.join(sorted(rows)) + '\n')
    found = json.loads((VERIF / 'known_findings.json').read_text())
    text = replace(text, 'findings', ''.join(
        '* {property} ({status}{commit}): {what}\n'.format(**dict(
            f, commit=' ' + f['commit'] if f.get('commit') else ''))
        for f in found['findings']))
    path.write_text(text)


def main():
    design()
    with open(VERIF / 'properties.jsonl', 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [
                        {'name': n, 'where': w} for n, w in p['mechanism']],
                    'hook_needed': None,
                },
            }, ensure_ascii=False) + '\n')
    checks, missing = [], []
    for p in PROPS:
        if not has_check(p['id']):
            missing.append({
                'property': p['id'],
                'reason': 'the check is not built yet',
            })
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': 'bash bin/check {} --tier quick'.format(p['id']),
            'thorough_cmd': 'bash bin/check {} --tier thorough'.format(
                p['id']),
            'evidence_file': 'evidence/{}.json'.format(p['id']),
            'technique': p['technique'],
            'level': LEVEL.get(p['id'], 'model_checking'),
            'level_note': p['level_note'] + ' Trusts the stand-in for '
            'pyelliptic in /verif/shims, which cannot be installed here.',
        })
    manifest = {
        'version': 1,
        'setup_cmd': SETUP,
        'checks': checks,
        'not_applicable': missing,
        'notes': 'Every check copies golem_messages from /repo, imports it '
                 'and explores it; see DESIGN.md. No hooks in /repo.',
    }
    (VERIF / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""Single source of the property texts; writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)

# id: (title, statement, quantifier kinds, quantifier text, why tests can't, files, mechanisms [(name, where)], technique, level note)
P = {}


def prop(pid, title, stmt, over, qtext, why, files, mech, technique, note):
    P[pid] = dict(title=title, stmt=stmt, over=over.split(), qtext=qtext, why=why, files=files.split(), mech=mech,
                  technique=technique, note=note)


ABS = 'path-sensitive must-fact dataflow over rustc MIR with disjunctive function summaries'

prop('C01', 'Read-only sessions never change token objects',
     'No call made through a read-only session creates, copies into, modifies or destroys a token (persistent) object, whatever template, '
     'mechanism or mechanism parameter is used; such calls fail with an error. Objects of the session kind stay allowed, and the persistent '
     'counter of an HOTP operation is the only exception.',
     'inputs histories', 'all session functions, templates, mechanism parameters and object kinds',
     'the tests try three creating functions with one template each; keys also reach the store through copying, key pairs, unwrapping and '
     'several derivations with templates of their own',
     'src/fns/objmgmt.rs src/fns/keymgmt.rs src/token.rs src/session.rs src/misc.rs',
     [('template check in read-only sessions', 'src/misc.rs fail_if_cka_token_true'), ('session state predicate', 'src/session.rs is_writable')],
     ABS, 'every path from every C_ function to a write of the storage back end in the analysed build; object templates are tracked to the check by data flow; '
     'trusts that factories take CKA_TOKEN from the template only')
prop('C02', 'Token objects are only created or modified by a logged in user',
     'A token object can be created (created, generated, copied, unwrapped, derived) or have attributes changed only while a user or the SO is logged in to the '
     'token; otherwise the call fails and storage is unchanged. Built-in objects the library adds at token initialization and the persistent counter of a public HOTP key, moved by its own '
     'operations, are the only exceptions.',
     'inputs histories', 'all object creating and modifying calls and all login states',
     'the tests call two of the functions without login',
     'src/token.rs src/fns/objmgmt.rs src/fns/keymgmt.rs',
     [('login check at object insertion', 'src/token.rs insert_object/create_object/set_object_attrs')],
     ABS, 'all paths from every C_ function to Storage::store/update; the login predicate itself is decided separately')
prop('C03', 'Private token objects are invisible and unusable without login',
     'While nobody is logged in, a private token object can not be found by a search, and its handle can not be used to read, size, copy, modify, destroy or use the '
     'object as a key in any operation. The same call works again once the user logs in.',
     'inputs histories', 'all functions that take an object handle, all search templates, all login states',
     'handles reach the object store through some twenty functions; the tests try a few of them logged out',
     'src/token.rs src/fns/objmgmt.rs src/storage/format.rs src/storage/nssdb/mod.rs',
     [('private check after fetching', 'src/token.rs get_object_by_handle'), ('CKA_PRIVATE=false added to searches', 'src/token.rs search_objects')],
     ABS, 'every path on which a fetched stored object is used needs a positive login check or a negative private check on that object')
prop('C04', 'Sensitive or unextractable key values are never revealed',
     'Reading attributes of a key that is sensitive or not extractable never returns the value of a secret attribute (key value, private exponents and CRT '
     'components), and searching can not be used to guess such a value. Every secret component of every private, secret and OTP key type is treated as secret.',
     'inputs', 'all key types, attributes, templates and storage back ends',
     'tests read one or two attributes of two key types',
     'src/object/mod.rs src/object/factory.rs src/object/key.rs src/token.rs src/storage/format.rs src/ossl/rsa.rs',
     [('sensitive attribute checks', 'src/object/factory.rs get_object_attributes/check_sensitive')],
     ABS + '; attribute flag tables extracted from the factory constructors', 'copy of attribute bytes to the caller guarded on every path; flags of every secret attribute')
prop('C05', 'Keys are wrapped only if extractable and the wrapping key is permitted',
     'A key can be wrapped only if it is extractable, the wrapping key allows wrapping, and, if the key demands a trusted wrapping key, the wrapping key is '
     'trusted; any other wrap request fails without revealing key material. This holds for every wrapping mechanism.',
     'inputs', 'all wrapping mechanisms, wrapping keys and target keys',
     'the tests exercise one refused combination',
     'src/fns/keymgmt.rs src/object/key.rs src/ossl/aes.rs src/ossl/rsa.rs',
     [('wrap checks', 'src/fns/keymgmt.rs wrap_key, mechanisms\' wrap_key')],
     ABS, 'each wrap implementation and the API function need the three checks on every path to the export of the key')
prop('C06', 'Keys are used only for the operations their attributes permit',
     'An operation (encrypt, decrypt, sign, verify, derive, wrap, unwrap, encapsulate, decapsulate) can be started with a key only if the corresponding '
     'usage attribute of the key is true; otherwise it fails with an error before any output is produced.',
     'inputs', 'all mechanisms, key types and operation kinds',
     'the check is repeated in every mechanism; tests cover few of the mechanism and usage combinations',
     'src/object/mod.rs src/ossl src/native src/fns',
     [('check_key_ops', 'src/object/mod.rs')],
     ABS, 'every implementation of the mechanism interface that starts an operation, per usage attribute')
prop('C07', 'CKA_ALLOWED_MECHANISMS is enforced wherever a key is used',
     'When a key carries a list of allowed mechanisms, every function that starts an operation, wraps, unwraps, derives, encapsulates or decapsulates with that key refuses a mechanism not '
     'in the list. A key without the list is not restricted.',
     'inputs', 'all key using functions, keys and mechanisms',
     'tests cover a single init function',
     'src/lib.rs src/fns', [('check_allowed_mechs', 'src/lib.rs')],
     ABS, 'on every path from a C_ function to a key using mechanism call a successful allowed-mechanism check on the same key and mechanism')
prop('C08', 'Functions accept only mechanisms that advertise the function',
     'A function accepts a mechanism only if the information returned for that mechanism carries the flag of that function, and mechanisms removed by the '
     'allow or deny list of the slot configuration are neither listed nor usable. Any other mechanism is refused with an error.',
     'inputs configurations', 'all mechanisms, functions and configurations',
     'tests use supported combinations', 'src/mechanism.rs src/fns src/token.rs src/config.rs',
     [('flag tests before mechanism calls', 'src/fns/*.rs'), ('Mechanisms::get', 'src/mechanism.rs')],
     ABS, 'flag test dominating every mechanism interface call, per function')
prop('C09', 'Always-authenticate keys need a fresh context specific login',
     'A signing or decryption operation started with a key that demands authentication for each use produces no result until a context specific login succeeded after that operation was '
     'started; a login never satisfies an operation started later, and logins in other sessions do not count.',
     'inputs histories', 'all private key operations and orders of calls',
     'one signing sequence is tested', 'src/session.rs src/fns',
     [('login requirement kept with the operation', 'src/session.rs')],
     ABS, 'operations stored with their requirement; use of each operation dominated by the requirement check')
prop('C10', 'Logout or closing the last session ends all access to private data',
     'After a logout, or after the last session of the token is closed, nobody is logged in, private session objects are gone and the keys protecting private '
     'data are dropped from memory. Sessions that are closed take their session objects and operations with them.',
     'histories', 'all orders of login, logout and session closing',
     'tests log out in one order', 'src/lib.rs src/token.rs src/slot.rs src/fns/sessmgmt.rs',
     [('Token::logout', 'src/token.rs'), ('State::drop_session', 'src/lib.rs')],
     ABS + ', must-pass-through rules', 'state resets on every success path of logout, close and finalize')
prop('C11', 'PIN and token administration need the right role',
     'The user PIN is initialized only while the SO is logged in, a PIN is changed only by proving the current one through a writable session, and a token is re-initialized only '
     'with the SO PIN and with no session open. Only the SO or the user role can log in and only with a verified PIN.',
     'inputs histories', 'all administrative calls, roles and session states',
     'tests cover the main refusals only', 'src/fns/stmgmt.rs src/fns/sessmgmt.rs src/token.rs',
     [('role checks', 'src/fns/stmgmt.rs'), ('PIN verification', 'src/token.rs')],
     ABS, 'every path to a PIN write, token wipe or login state change')
prop('C12', 'Object permissions and one-way attributes are honoured',
     'Objects that are not modifiable, copyable or destroyable refuse the respective call, and attributes that are read-only after creation never change. '
     'Sensitive can only change to true, extractable only to false, wrap-with-trusted only to true, for every class of object.',
     'inputs', 'all object classes, attributes and templates',
     'tests change a few attributes of one class', 'src/token.rs src/object/factory.rs src/object/key.rs',
     [('check_set_attributes', 'src/object/factory.rs'), ('is_modifiable/is_copyable/is_destroyable', 'src/object/mod.rs')],
     ABS + '; attribute flag tables extracted from the factory constructors', 'guards on every path and the flags of every one-way attribute')
prop('C13', 'Key provenance attributes can not be forged',
     'Only keys generated on the token are marked local; a key is marked always-sensitive or never-extractable only if it was created so on the token and, for '
     'derived keys, the base key was too. Applications can not set these attributes in any template.',
     'inputs', 'all ways to create a key', 'tests look at one generated key',
     'src/object/factory.rs src/object/key.rs src/ossl src/native',
     [('internal defaults on create/generate/unwrap/derive', 'src/object/factory.rs')],
     ABS + '; attribute flag tables', 'writes of the three attributes and their guards in every factory path')
prop('C14', 'Attributes the token owns can not be set by applications',
     'A template that sets an attribute reserved to the token (unique id, local, key generation mechanism, always-sensitive, never-extractable and the like) is refused by '
     'every function that takes a template. A template with an attribute unknown to the object type is refused too.',
     'inputs', 'all functions taking templates, all object types', 'tests try one function and few attributes',
     'src/object/factory.rs src/object/mod.rs', [('internal_object_create/derive and copy checks', 'src/object/factory.rs')],
     ABS, 'flag tests dominating the acceptance of every template attribute')
prop('C15', 'No function works before initialization or after finalization',
     'Every function except the ones that start the library or list its interfaces fails with CKR_CRYPTOKI_NOT_INITIALIZED before initialization and after '
     'finalization, and every session function fails for a closed or unknown session handle. Initializing twice is refused.',
     'histories inputs', 'all functions in all three interface versions, all handles', 'tests try three functions',
     'src/lib.rs src/fns', [('GlobalState::rlock/wlock', 'src/lib.rs')],
     ABS, 'each entry of each function table must obtain the state through the initialization check before any success return')
prop('C16', 'Function tables expose the function they name',
     'In each interface version returned to applications, each entry of the function list is present and behaves as the function of that name. The entries common '
     'to several versions are the same function.',
     'programs', 'all entries of all function lists', 'tests go through one list and a part of its entries',
     'src/lib.rs src/pkcs11 src/fns', [('static function lists', 'src/lib.rs')],
     'structural check of function-list statics against the reachable implementation of each entry', 'the static initialisers in MIR; each entry resolved to the function with the matching behaviour name')
prop('C17', 'Null pointers from the application are rejected, not dereferenced',
     'Passing a null pointer for any pointer argument of any function never makes the library read or write through it: the call returns an error, a length, or '
     'works without that argument. This includes pointers to structures, templates, mechanisms, data and output locations.',
     'inputs', 'all functions and pointer arguments', 'tests pass null for a few arguments',
     'src/fns src/lib.rs src/misc.rs', [('is_null checks', 'src/fns/*.rs')],
     ABS, 'every dereference and every slice built from a caller pointer needs a non-null (or zero length) fact on its path')
prop('C18', 'Output never exceeds the buffer length given by the application',
     'No function writes more bytes or elements to a buffer of the application than the length stated for it, whether the buffer is an argument, the value of a template attribute or '
     'part of a mechanism parameter. If the result does not fit, nothing is written there and an error is returned instead.',
     'inputs', 'all functions with output buffers, all stated lengths', 'tests use large enough buffers mostly',
     'src/fns src/object/factory.rs ossl/src', [('slices built from the stated length', 'src/fns/*.rs'), ('bounds before calls of the crypto library', 'ossl/src/*.rs')],
     ABS, 'every slice, raw write and copy over a buffer of the application has the stated length, or one a dominating comparison bounds by it; each library function that writes is told the length of the '
     'buffer or the length was compared with the bound on its output; lengths in parameter blocks are taken together with the pointer')
prop('C19', 'At most one operation per kind, and ended operations are gone',
     'A session refuses to start an operation of a kind that is already active, and an update or final call without a matching active operation fails. An '
     'operation that ended, by success or by an error other than a too small buffer or a call out of sequence, is no longer active. Restoring a saved state replaces the operation.',
     'histories', 'all sequences of operation calls', 'tests run the well formed sequences',
     'src/session.rs src/fns', [('check_no_op/get_operation/set_operation', 'src/session.rs')],
     ABS, 'operation slot typestate on every path of the init, update, final and one-shot functions')
prop('C20', 'Concurrent calls can not deadlock on library locks',
     'Threads calling any mix of functions never deadlock: the locks of the library are always taken in one global order, and no thread waits for a lock it already holds.',
     'schedules', 'all interleavings of all function pairs', 'the tests are single threaded',
     'src/lib.rs src/slot.rs src/fns src/token.rs', [('RwLock on state, token and sessions', 'src/lib.rs src/slot.rs')],
     'lock-order analysis: guard lifetimes from MIR drops, acquisitions collected through the call graph, order graph checked for cycles',
     'every acquisition site reachable from every function; guard lifetime by MIR drop')
prop('C21', 'Storage failures are reported, never swallowed',
     'When the storage back end fails to read, write, remove or commit, the call that caused it reports failure to the application. No function returns success after a persistent change it '
     'promised was not made.',
     'fault_sequences', 'all storage back ends and all failing storage calls', 'tests inject no storage faults',
     'src/token.rs src/storage', [('Result propagation', 'src/token.rs src/storage/*.rs')],
     ABS, 'every call of a storage interface method or of the database library whose result is discarded, with confirmed exceptions listed by reason')
prop('C22', 'Multi-statement storage changes are atomic',
     'Every persistent change that needs more than one statement happens inside one database transaction that is committed before success is reported and otherwise rolled back. '
     'An object is never left half written by a failure in between.',
     'crash_points fault_sequences', 'all writing functions of the database back ends', 'no crash or fault tests exist',
     'src/storage/sqlite.rs src/storage/nssdb/mod.rs', [('transactions', 'src/storage/sqlite.rs')],
     ABS, 'typestate begin/commit on each writing path of both back ends')
prop('C23', 'Secrets are encrypted at rest',
     'The value of a secret attribute of a private or sensitive object is written to persistent storage only in encrypted form, and attributes that must not be stored never are. '
     'Secret values read back are decrypted with the key unlocked by the PIN only.',
     'inputs', 'all object types and storage back ends', 'tests do not look at the stored bytes',
     'src/storage/format.rs src/storage/aci.rs src/storage/nssdb', [('encrypt before store', 'src/storage/format.rs')],
     ABS + '; attribute flag tables', 'every path to the raw store calls passes the encryption of the attributes flagged sensitive')
prop('C24', 'Stored data is authenticated before it is used',
     'Encrypted or integrity protected data read from storage is used only after its authentication tag verified; a verification failure is reported as an error. '
     'Protected content that was modified in the database is never silently returned. (Attributes the format stores in the clear and without a signature are not covered.)',
     'inputs fault_sequences', 'all protected attributes and records', 'tests do not tamper with the database',
     'src/storage/aci.rs src/storage/nssdb src/encryption.rs', [('AES-GCM with AAD; NSS signatures', 'src/storage/aci.rs src/storage/nssdb/ci.rs')],
     ABS, 'each success return of the decrypt routines depends on the verification result')
prop('C25', 'Wrong PINs are counted, lock the PIN and are stored',
     'Each failed PIN verification increases a persistent counter before the failure is reported, a correct PIN resets it, and after the maximum number of failures the PIN is locked '
     'and even the correct PIN is refused. A failure to store the counter is an error.',
     'histories fault_sequences', 'all sequences of PIN checks', 'one lockout sequence is tested',
     'src/storage/aci.rs src/storage/format.rs src/token.rs', [('authenticate/auth_user', 'src/storage/aci.rs src/storage/format.rs')],
     ABS, 'counter updates and storage on every path of the verification functions')
prop('C26', 'Cached storage keys are dropped when the protecting PIN changes or on logout',
     'Keys derived from a PIN and cached in memory are dropped on logout and whenever the PIN key changes, and a failed PIN check of someone else does not drop the keys of the logged in user. '
     'No stale key decrypts or encrypts stored data.',
     'histories', 'all orders of PIN change, login and logout', 'no test changes PINs with a warm cache',
     'src/storage/nssdb/ci.rs src/storage/aci.rs src/storage/nssdb/mod.rs', [('cache clearing', 'src/storage/nssdb/ci.rs')],
     ABS, 'writes of the key fields followed by cache invalidation on every path')
prop('C27', 'Keys that contain bytes of a base key stay as protected as the base key',
     'Derivations that put bytes of an existing key into the new key (concatenation, XOR with data, extraction) give a key that is sensitive if a base key is sensitive and unextractable if a base '
     'key is unextractable, whatever the template asks for. The always-sensitive and never-extractable marks survive only if every base key has them.',
     'inputs', 'all such derivation mechanisms, base keys and templates', 'tests use one base key per mechanism',
     'src/native/simplekdf.rs', [('SimpleKDFOperation::derive', 'src/native/simplekdf.rs')],
     ABS, 'every path on which key bytes reach the new key')
prop('C28', 'Secrets are erased from memory when released',
     'Memory that held key material, PINs or decrypted secrets is overwritten when it is released: sensitive objects, key schedules of operations, derived keys and PIN keys. '
     'This happens on success and on error alike.',
     'programs', 'all types that own secret bytes', 'not observable by tests',
     'src/object/mod.rs src/storage/aci.rs src/native src/ossl', [('Drop implementations that zeroize', 'src')],
     'structural analysis of Drop implementations and of the fields they erase, on MIR', 'every type in the table of secret owners erases its secret fields on every path of its Drop')
prop('C29', 'Keys, nonces and random output come only from the cryptographic generator',
     'Every generated key and key pair, every salt, nonce and IV the token chooses at random and every byte C_GenerateRandom returns comes from the cryptographic random generator of the '
     'library, which fills the whole buffer; a failure of the generator is an error; no constant, partly filled or later overwritten buffer is used in its place; and a cipher that is to choose '
     'its IV has chosen it before it is set up. (IVs counted on request of the application, and keys derived from a password, are outside.)',
     'fault_sequences inputs', 'all random consumers', 'randomness can not be tested by samples',
     'src/rng.rs src/ossl/drbg.rs ossl/src/rand.rs src/lib.rs src/object/key.rs src/storage/aci.rs src/storage/nssdb/ci.rs src/ossl/aes.rs src/encryption.rs', [('CSPRNG wrapper', 'src/rng.rs'), ('EvpRandCtx::generate', 'ossl/src/rand.rs')],
     ABS, 'each function that fills keys, salts or IVs must reach the generator and propagate its failure')
prop('C30', 'Verification succeeds only for matching signatures, in constant time',
     'A signature, MAC or authentication tag verification reports success only if the comparison with the expected value of full length succeeded, and secret values are compared in constant time. '
     'Empty or truncated values never verify.',
     'inputs', 'all verification mechanisms', 'tests use a handful of bad signatures',
     'src/native/hmac.rs src/ossl src/hotp.rs', [('constant_time_eq; OpenSSL verify results', 'src')],
     ABS, 'each success return of each verification implementation depends on a positive comparison')
prop('C31', 'Failures of the crypto library are never ignored',
     'Whenever a call into the underlying crypto library reports an error, the operation reports an error and returns no output. No result of an unsuccessful call is used.',
     'fault_sequences', 'all calls into the crypto library', 'such failures can not be provoked by tests',
     'ossl/src src/ossl', [('return code checks', 'ossl/src/*.rs')],
     ABS, 'every FFI call returning a status or a pointer has its result tested on every path before success is returned')
prop('C32', 'Crypto library resources are released exactly once',
     'Every object allocated from the underlying crypto library is released exactly once, on success and on error paths, for any sequence of operations. No released object is used, '
     'and no address handed to the library outlives what it points to.',
     'fault_sequences histories', 'all allocations', 'leaks and double frees are not visible to the tests',
     'ossl/src', [('owning wrappers with Drop', 'ossl/src/*.rs')],
     'path-sensitive ownership analysis on MIR', 'each allocation is followed path by path until it is in a value whose destructor releases it, released, or handed to the caller; destructors, reference '
     'counts and releases outside destructors are checked; addresses of locals that end are not left in longer lived values')
prop('C33', 'An HOTP value is released only after its counter advanced',
     'A one-time password computed from the counter of the key is handed out, and a verified one accepted, only once the advanced counter was stored; no operation uses a counter value that another one used before it, moves the counter backwards or lets it wrap.',
     'histories crash_points', 'all sign operations with a stored counter', 'tests check two consecutive values',
     'src/hotp.rs src/fns/signing.rs', [('updates_object', 'src/hotp.rs src/fns/signing.rs')],
     ABS, 'success of the API function requires the counter update; the update is stored only when it is greater than the stored counter; overflow guarded. Setting CKA_OTP_COUNTER with C_SetAttributeValue is not an operation in this sense')
prop('C34', 'Saved operation states are authenticated and restricted',
     'A saved operation state leaves the library only encrypted and authenticated under a key and label of its own, and its content is used on restore only after decryption with that key and label succeeded and the version was checked; any failure on the way is reported, and no operation is set up from a state that failed.',
     'inputs', 'all byte strings passed as saved state', 'tests flip few bytes',
     'src/fns/sessmgmt.rs src/session.rs src/hash.rs src/native/hmac.rs', [('state encoding', 'src/session.rs')],
     ABS, 'each success return of the restore path depends on the verification')
prop('C37', 'Advertised mechanisms are implemented',
     'For every mechanism listed by the token, each function its information flags advertise is implemented and accepts that mechanism, down to the one-step functions of the operation it sets up; applications reach no function of a mechanism that it does not advertise; and the reported key size range is well formed.',
     'inputs', 'all registered mechanisms', 'tests exercise a part of the mechanisms',
     'src/mechanism.rs src/ossl src/native', [('mechanism registration', 'src/ossl/*.rs src/native/*.rs')],
     'agreement check between registered mechanism flags and the trait methods their type implements, on MIR',
     'every registration whose flags are constants')
prop('C38', 'Session states follow the login state',
     'A session reports and acts in the state given by its read-write flag and the login state of its token: opening, logging in and logging out move every session of the slot to the right state. '
     'The SO can not log in while a read-only session exists, and no read-only session opens while the SO is logged in.',
     'histories', 'all orders of opening sessions, login and logout', 'tests follow one order',
     'src/session.rs src/slot.rs src/fns/sessmgmt.rs src/lib.rs', [('change_session_states', 'src/slot.rs')],
     ABS, 'exhaustive evaluation of the state functions over the finite state set')
prop('C48', 'Caller data never becomes part of a database statement',
     'The text of every database statement is assembled from constants and internally generated column names only; names, attribute values and handles given by applications or read from the database are passed as bound parameters.',
     'inputs', 'all storage functions and attribute values', 'tests use benign values',
     'src/storage', [('bound parameters', 'src/storage/sqlite.rs src/storage/nssdb/mod.rs')],
     ABS + ' (taint of statement text)', 'the text argument of every statement preparing call')
prop('C50', 'Too small buffers are reported with the required length and no side effects',
     'A call whose output buffer is too small returns CKR_BUFFER_TOO_SMALL and stores in the length variable the length the buffer was compared with, or the one the operation reports as required; '
     'a call with a null output buffer stores the length, succeeds and processes no data. An encryption or decryption that reports a too small buffer has not consumed input or changed its state before, '
     'so that it can be repeated with a larger buffer.',
     'inputs histories', 'every length of every output buffer, in every mode and step of an operation', 'tests query the lengths of few functions, and retry with a larger buffer in even fewer',
     'src/fns src/ossl/aes.rs', [('length handling', 'src/fns/*.rs'), ('AesOperation', 'src/ossl/aes.rs')],
     ABS, 'every CKR_BUFFER_TOO_SMALL return of every function with a (buffer, length) pair, every method with an output slice of the encryption traits')

prop('C51', 'Secrets never appear in log messages, error texts or files',
     'PINs, key values, secret attribute values and other data given by applications or decrypted from storage never become part of a log message, the text of an error, '
     'a panic message, an environment variable or a file other than the token database, whatever the log level.',
     'inputs programs', 'every message the library can write, at every log level and on every path', 'tests run without a log and look at return codes only',
     'src/log.rs src/error.rs src/fns src/storage src/object src/native src/ossl ossl/src', [('log and error macros', 'src/lib.rs, src/error.rs'), ('Debug implementations of types that hold secrets', 'src')],
     'static analysis: type-directed check of every formatting argument in MIR (through the Debug/Display implementations that would print it), taint of byte-to-text conversions, effect query for writers',
     'every formatting argument, assertion and unwrapped error of the three library crates; integers computed from secrets are not followed')

NA = {
    'N01': ('Cryptographic results are numerically correct', 'Ciphertexts, digests, signatures, MACs and derived keys equal the values the standards define for the given inputs.',
            'a numerical result; no static argument over the source decides it (the algorithms are OpenSSL\'s)'),
    'N02': ('Round trips restore the original data', 'Decrypting what was encrypted, unwrapping what was wrapped and reading back what was stored return the original bytes for every input.',
            'round-trip equality quantifies over runtime values of two code paths and OpenSSL\'s behaviour'),
    'N03': ('Concurrent calls are linearizable', 'The results of concurrent calls equal those of some sequential order of the calls.',
            'quantifies over histories of results; the lock-order and lock-held clauses are decided in C20, the rest is out of reach of a sound static argument here'),
    'N04': ('A crash at any point leaves a usable database', 'After a crash at any point the database opens and holds the state before or after the interrupted call.',
            'depends on SQLite\'s journal and the file system; the structural part (one transaction per change) is decided in C22'),
    'N06': ('No input makes the library panic', 'No call, whatever its arguments and the content of the token, makes the library panic, abort or overflow its stack.',
            'absence of panics needs bounds on indices, lengths and arithmetic over runtime values at several thousand sites (and in dependencies); no sound static argument in reach bounds them without alarms'),
    'N05': ('Secret dependent timing', 'Run time does not depend on secret values.', 'timing is not visible in MIR; the comparison clause is decided in C30'),
}

_WHY = 'the tests sample a few values'


def write():
    import registry
    lines = []
    for pid in sorted(P):
        p = P[pid]
        lines.append(json.dumps({
            'id': pid, 'title': p['title'], 'statement': p['stmt'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': ['C_* entry points'], 'hook_needed': None}}))
    for pid in sorted(NA):
        t, s, r = NA[pid]
        lines.append(json.dumps({
            'id': pid, 'title': t, 'statement': s,
            'quantifier': {'over': ['schedules'] if pid == 'N03' else ['crash_points'] if pid == 'N04' else ['inputs'], 'text': 'all inputs, schedules or crash points of the calls named'},
            'why_tests_cant': _WHY, 'anchors': {'files': ['src'], 'mechanism': [{'name': 'n/a', 'where': 'src'}]}}))
    open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    checks = []
    na = [{'property': k, 'reason': v[2]} for k, v in sorted(NA.items())]
    for pid in sorted(P):
        p = P[pid]
        if pid in registry.RULES and pid not in registry.OFF:
            checks.append({
                'property': pid, 'quick_cmd': './check.sh ' + pid, 'thorough_cmd': './check.sh %s --thorough' % pid,
                'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']})
        else:
            na.append({'property': pid, 'reason': registry.OFF.get(pid, 'no static rule of this set decides it soundly yet')})
    man = {'version': 1, 'setup_cmd': 'bash analysis/extract.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks read MIR facts that a rustc_private driver extracts from /repo\'s current tree on every change of its content; nothing of /repo is run.'}
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    bad = [k for k in P if len(P[k]['title']) > 80]
    assert not bad, bad


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(HERE, 'rules'))
    write()
    print('ok')

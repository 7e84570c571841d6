#!/usr/bin/env python3
"""Writes properties.jsonl (the hand-written statements live here, one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))
M, O2, OC = 'src/oidcmsg/message.py', 'src/oidcmsg/oauth2/__init__.py', 'src/oidcmsg/oidc/__init__.py'
SE, IA, DA = 'src/oidcmsg/oidc/session.py', 'src/oidcmsg/oidc/identity_assurance.py', 'src/oidcmsg/oauth2/device_authorization.py'
AF, EX, SQ, IN = ('src/oidcmsg/storage/' + x for x in ('abfile.py', 'extension.py', 'absqlalchemy.py', 'init.py'))
CT, TU, PK = 'src/oidcmsg/context.py', 'src/oidcmsg/time_util.py', 'src/oidcmsg/__init__.py'

prop('C01', 'JSON serialisation of every message type is lossless',
 'For every shipped message type, a message built from values of the declared parameter types, from any extra parameters and from language-tagged parameters (name#tag) is recovered unchanged - same type, same parameters, same values, nested messages included - by serialising it to JSON (or to a dict) and deserialising the result into the same type. Parameters declared as space-separated lists appear in the JSON as one string, plain lists as arrays, nested messages as objects.',
 ['inputs'], 'every message type x every parameter kind x every combination of present parameters and values of those kinds',
 'The tests round-trip a few hand-picked messages of a handful of the 70+ types; the guarantee ranges over all types, kinds and value combinations.',
 [M, OC, IA], [('Message.to_json/to_dict/from_json/from_dict and the per-kind (de)serialisers', M), ('claims/address/link/JSON (de)serialisers', OC), ('time stamp and nested document (de)serialisers', IA)],
 observe=['Message.to_json', 'Message.from_json', 'Message.to_dict', 'Message.from_dict'])

prop('C02', 'URL encoding of every message type is lossless',
 'For every shipped message type, a message whose declared parameters are strings, integers, (space separated) string lists, JSON dictionaries or claims requests, and whose extra or language-tagged parameters are strings or lists of two or more strings, is recovered unchanged by to_urlencoded followed by from_urlencoded, whatever characters the values contain. A second value for a single-valued declared parameter on the wire is refused, and building a request URL appends exactly that encoding to the given location (with ?, & or #) without altering the location.',
 ['inputs'], 'every message type x parameter kind x values including reserved, non-ASCII and whitespace characters',
 'Tests encode a handful of fixed messages with plain ASCII values and mostly compare substrings.',
 [M, OC], [('Message.to_urlencoded/from_urlencoded/request', M), ('per-kind (de)serialisers', OC)],
 observe=['Message.to_urlencoded', 'Message.from_urlencoded', 'Message.request'])

prop('C03', 'Packing a message in a signed or encrypted JWT and unpacking it is lossless',
 'A message put in a signed JWT (any supported algorithm, including none) or encrypted JWT and read back with the right key is the same message, and after reading a signed JWT the message exposes the JWT header that was actually used. Reading an encrypted JWT with the wrong key fails; nothing is loaded. An ID Token that is packed never carries the raw access token or code, only their hashes, an issued-at equal to the packing time and, when a lifetime is given, an expiry exactly that much later.',
 ['inputs', 'configurations'], 'all message contents x signing algorithms x encryption algorithms x key sets x lifetimes',
 'Tests cover one or two algorithm/key combinations with fixed payloads and never a wrong decryption key together with the content check.',
 [M, OC], [('Message.to_jwt/from_jwt/to_jwe/from_jwe', M), ('IdToken.pack/pack_init/val_hash/to_jwt', OC)],
 observe=['Message.to_jwt', 'Message.from_jwt', 'Message.to_jwe', 'Message.from_jwe'])

prop('C04', 'A declared parameter never holds a value of the wrong type',
 'Whatever value is supplied for a declared parameter - on construction, by from_dict, from JSON, from a URL-encoded string or by item assignment - the message afterwards either holds a value of that parameter\'s declared type (or null, for a single-valued parameter or where its declaration allows null), or holds nothing new for it because the value was blank or an empty list, or the operation raised an error. A boolean is never accepted where a string, number or structure is declared, numeric strings given for integer parameters become integers and non-numeric ones are refused, of texts only the words true and false in a URL-encoded message stand for a boolean, and a string given for a space-separated list is split on spaces.',
 ['inputs'], 'every (message type, parameter, supplied value, intake route) combination',
 'Tests feed wrong types for perhaps ten parameter/value pairs; there are about 550 declared parameters, 21 kinds and many value shapes and routes.',
 [M, OC, IA], [('Message._add_value / from_dict / __setitem__ / from_urlencoded', M)],
 observe=['Message(**kw)', 'Message.from_dict', 'Message.from_json', 'Message.from_urlencoded', 'Message.__setitem__'])

prop('C05', 'verify() accepts only complete messages with permitted values',
 'For every message type, verify() raises a missing-attribute error when a parameter the type requires is absent or has an empty value (a boolean False counts as a value), raises a not-allowed-value error when a string, integer or list parameter with an enumerated value set holds anything outside the set, and otherwise - when no rule specific to that type applies - returns True. A device access token request with a device code must also name the client (null names nobody). Extra parameters never make it fail, and one message type\'s enumerations and requirements are those of its own specification, unaffected by which other types are loaded or used.',
 ['inputs'], 'every message type x every subset of missing/empty required parameters x in-set/out-of-set values x extras',
 'Tests check one or two missing parameters for some types; completeness over all types and subsets, and the absence of leakage between types, is not sampled.',
 [M, O2, OC, SE, IA, DA], [('Message.verify / _type_check', M), ('c_param and c_allowed_values tables', O2), ('c_param and c_allowed_values tables', OC)],
 observe=['<MessageType>.verify', '<MessageType>.required_parameters'])

prop('C06', 'An incomplete message is not URL-encoded and unset values never hit the wire',
 'to_urlencoded refuses a message that lacks a parameter its type requires unless the message is marked lax, and when it succeeds the wire form contains every parameter that has a non-null value - including declared, extra and language-tagged ones - and no parameter whose value is null where null is not allowed. Blank values in an incoming dict or URL-encoded string never create a parameter.',
 ['inputs'], 'every message type x subsets of present/absent/null parameters x lax flag',
 'Only two or three tests touch missing or null parameters on serialisation.',
 [M], [('Message.to_urlencoded / from_urlencoded / from_dict', M)],
 observe=['Message.to_urlencoded', 'Message.from_dict'])

prop('C07', 'A message is an isolated mutable mapping with per-type defaults',
 'Under any sequence of get, set, delete, update, copy, weed, rm_blanks, set_defaults, iteration and length operations a message behaves as a mapping from parameter name to value: defaults of its type are present on creation (unless switched off) and only fill absent parameters, weed removes exactly the undeclared ones, rm_blanks exactly the empty-valued ones, equality holds exactly for same type and same content. Nothing done to one message - including mutating a default value or a value of a deep copy in place - changes another message or what a later new message starts with; values the caller itself puts in two messages are the caller\'s matter.',
 ['histories', 'inputs'], 'all operation sequences over several live messages of several types',
 'Tests exercise single operations on single instances; aliasing between instances only shows over multi-step histories.',
 [M], [('Message mapping methods, set_defaults, weed, rm_blanks, copy, update, __eq__', M), ('c_default tables', OC)],
 state=[('_dict', 'parameter name to value', M), ('c_default', 'per-type default values shared by the class', M)],
 observe=['Message mapping API'])

prop('C08', 'Content of a signed JWT is loaded only if its signature checks out',
 'When a message is read from a signed JWT with verification on, the content is loaded only if the signature verifies, over exactly the received header and payload, under a signing key that the key jar holds for the issuer named in the payload (or for the receiver itself, for symmetric keys or when no issuer is named), of the type the algorithm calls for and matching the key id when one is given; an unknown issuer, missing or foreign key, altered payload, header or signature, unsupported algorithm, or an algorithm other than the one the caller demanded is an error and leaves the message without the JWT\'s claims. Only the exact algorithm name "none" is exempt.',
 ['inputs', 'configurations'], 'all combinations of signer, algorithm, key id, key-jar content, tampering and caller demands',
 'Tests use correctly signed tokens plus one or two failures; the guarantee is about every combination of key jar and token.',
 [M], [('Message.from_jwt', M)], observe=['Message.from_jwt'])

prop('C09', 'An ID Token verifies exactly when its claims fit the expectations',
 'Verifying an ID Token with required claims present succeeds exactly when: issuer equals the expected issuer if one is given; the expected client id, if given, is in the audience; a multi-valued audience comes with an azp that is one of the audience values; an azp equals the expected client id if one is given; the expiry is not earlier than now minus the allowed skew; the issue time plus the nonce storage time is not earlier than now minus the skew; and a nonce in the token equals the expected nonce if one is given. In every other case it raises an error.',
 ['inputs'], 'all combinations of claim values around the boundaries x expectations x skew',
 'Tests try each rule once, away from the boundaries and never in combination.',
 [OC], [('IdToken.verify', OC)], observe=['IdToken.verify'])

prop('C10', 'Messages carrying an ID Token enforce the signing policy',
 'A token response, authorization response, session message or end-session request that carries an ID Token (or hint) verifies only if the token is a JWS that is properly signed by an issuer in the supplied key jar with the algorithm the caller allows, and whose claims verify against the same expectations; an unsigned (alg none) token is refused unless the caller explicitly allowed it, and a token that is not a JWS is always refused.',
 ['inputs', 'configurations'], 'carrier type x token algorithm x policy arguments x signer x claim validity',
 'Tests cover a few carrier/policy pairs; the cross product of carriers, policies and token defects is never enumerated.',
 [OC, SE], [('verify_id_token', OC), ('AccessTokenResponse/AuthorizationResponse/MessageWithIdToken.verify', OC), ('EndSessionRequest.verify', SE)],
 observe=['AccessTokenResponse.verify', 'AuthorizationResponse.verify', 'MessageWithIdToken.verify', 'EndSessionRequest.verify'])

prop('C11', 'Authorization responses are bound to their ID Token by hashes',
 'An OpenID Connect authorization response with a signed ID Token verifies only if, when it carries an access token, the ID Token contains the matching at_hash, and when it carries a code, the matching c_hash; the hashes produced when an issuer packs an ID Token together with a code or access token, for any algorithm, are exactly the ones that verify, so no other code or token can be substituted.',
 ['inputs'], 'all presence/match/mismatch combinations of code, access token, at_hash, c_hash, algorithm',
 'Tests check one missing and one matching hash for one algorithm.',
 [OC], [('verify_id_token hash checks', OC), ('IdToken.val_hash', OC)], observe=['AuthorizationResponse.verify', 'IdToken.to_jwt'])

prop('C12', 'Verified-claim entries only ever come from verification',
 'After a successful verify() of a message type that verifies an embedded token or request object (ID Token, ID Token hint, logout token, request), the entry under the verified name of that embedded claim is present exactly when the embedded value was present and is the content of that verified value; an entry of that name supplied by the sender - as a parameter, or smuggled inside a request object - never survives.',
 ['inputs', 'histories'], 'carrier type x injected entries (wire, request object) x presence of the genuine embedded value x repeated verification',
 'No test injects such an entry; an attacker-supplied one is only visible for specific carrier/absence combinations.',
 [OC, O2, SE, PK], [('verified_claim_name', PK), ('clear_verified_claims and verify methods', OC), ('JAR/PAR verify', O2), ('EndSessionRequest/BackChannelLogoutRequest.verify', SE)],
 observe=['<MessageType>.verify'])

prop('C13', 'Logout messages are accepted only under the logout rules',
 'A logout token verifies exactly when its required claims are present, it has no nonce, its events object has exactly the back-channel-logout member with an empty object, it has a sub or a sid that is not null, expected audience and issuer (if given) match, and it was not issued in the future beyond the skew, and its algorithm is the allowed one if one is given; a back-channel logout request is accepted only if its logout token is in addition a JWT signed by the issuer\'s key (unsigned tokens only when explicitly allowed). An end-session request with a post-logout redirect URI but no ID Token hint is not accepted.',
 ['inputs'], 'all combinations of claim presence/values, expectations, skew, signature state',
 'Tests try each rule once with the default expectations; unsigned tokens and combinations are not tried.',
 [SE], [('LogoutToken/BackChannelLogoutRequest/EndSessionRequest.verify', SE)], observe=['LogoutToken.verify', 'BackChannelLogoutRequest.verify', 'EndSessionRequest.verify'])

prop('C14', 'A bearer JWT is valid only inside its time window and for its audience',
 'A generic JSON Web Token (and a client authentication token) verifies exactly when its required claims are present, its expiry is not earlier than now minus the skew, its issue time and its not-before are not later than now plus the skew, the expected audience (if given) is among its audiences, and its issuer equals the expected one if both are given; enlarging the skew never turns an accepted token into a refused one.',
 ['inputs'], 'all placements of exp/iat/nbf around now +/- skew x audience x issuer expectations',
 'Tests check values far from the boundary, and never with a skew on nbf.',
 [OC], [('JsonWebToken.verify', OC)], observe=['JsonWebToken.verify', 'AuthnToken.verify'])

prop('C15', 'A request object overrides the plain authorization request parameters',
 'When an OpenID Connect authorization request or a JWT-secured authorization request with a request object verifies, the effective parameters are exactly those of the request object (plus the verified copy): values that were also or only outside it are gone; for a pushed authorization request, outside-only parameters are kept but the object\'s values win; the effective request still has every parameter its type requires. A signed request object whose signature is not valid under the keys of its issuer, or whose stated issuer is neither the client nor the named opponent, makes verification fail, and merging in strict, lax or whitelist mode follows the same override rule; whether to take unsigned request objects is the caller\'s matter.',
 ['inputs'], 'all overlaps of inside/outside parameters x merge mode x whitelist x signature validity',
 'Tests cover one request object per mode; no test quantifies over overlaps or checks that nothing leaks from outside.',
 [OC, O2], [('AuthorizationRequest.verify', OC), ('AuthorizationRequest.merge, JAR/PAR verify', O2)], observe=['AuthorizationRequest.verify', 'AuthorizationRequest.merge', 'JWTSecuredAuthorizationRequest.verify', 'PushedAuthorizationRequest.verify'])

prop('C16', 'OpenID Connect authorization request rules are enforced',
 'An OpenID Connect authorization request verifies only if its scope includes openid, it has a nonce (null is none) whenever an id_token is requested (equal to the expected nonce if one is given), offline_access is only asked together with the consent prompt, prompt none is not combined with another prompt, and display and prompt values are defined ones; a request satisfying all of these and having all required parameters is accepted.',
 ['inputs'], 'all combinations of response types, scopes, prompts, nonce, expectations',
 'Tests hit each rule once; rule interactions are unexplored.',
 [OC], [('AuthorizationRequest.verify', OC)], observe=['AuthorizationRequest.verify'])

prop('C17', 'Responses from the wrong server, for the wrong client or malformed are refused',
 'An authorization response whose issuer or client id parameter differs from the value the caller expects is refused, as is (OpenID Connect) one whose audience does not contain the expected client; with no expectation, or no such parameter, these rules do not apply. An error description is accepted exactly when all its characters are in the set RFC 6749 allows (printable ASCII without double quote and backslash), a message counts as an error message exactly when it has an error parameter, and client-registration metadata in a response has its configuration URI and access token both or neither (null counts as absent).',
 ['inputs'], 'all presence/match combinations of iss, client_id, aud and expectations; all characters in descriptions',
 'Tests cover single mismatches and three descriptions.',
 [O2, OC], [('ResponseMessage/AuthorizationResponse.verify, is_error_message', O2), ('AuthorizationResponse/RegistrationResponse.verify', OC)], observe=['AuthorizationResponse.verify', 'ResponseMessage.verify', 'is_error_message', 'RegistrationResponse.verify'])

prop('C18', 'Client and provider metadata verify exactly under the metadata rules',
 'Provider metadata verifies only if the issuer is an https URL (http only when allowed by the caller) without query or fragment, RS256 is among the ID Token signing algorithms, advertised scopes include openid and contain only legal scope characters, and a token endpoint (not null) exists whenever a response type that includes code is supported. A client registration request verifies only if an initiate-login URI is https, the token endpoint signing algorithm is not none, and an encryption method never comes without its algorithm (null counts as absent throughout); a missing encryption method is filled with A128CBC-HS256 next to a given algorithm; userinfo and ID Token claims need a birthdate in a legal format.',
 ['inputs'], 'all combinations of the metadata members each rule mentions',
 'Tests use a few published metadata documents; the rules are combinations over many optional members.',
 [OC], [('ProviderConfigurationResponse/RegistrationRequest/OpenIDSchema.verify', OC)], observe=['ProviderConfigurationResponse.verify', 'RegistrationRequest.verify', 'OpenIDSchema.verify'])

prop('C19', 'Claims requests and identity evidence are matched and checked correctly',
 'A value matches an individual claim request exactly when the request is null or only says essential, or the value equals the requested value or is one of the requested values. A verified-claims request verifies only if every requested string/integer/boolean claim is null or has a legal essential flag, value and values of the claim\'s type and a purpose of 3 to 300 legal characters, at every nesting level whose structure is declared; evidence verifies only if it is complete for its stated (or unambiguously inferred) type, and a claims builder refuses values of the wrong type and reproduces exactly what was put in. A successful check returns True.',
 ['inputs'], 'all shapes of claim specifications, values, nesting and evidence types',
 'Tests replay the specification\'s examples, nearly all of them positive.',
 [OC, IA, DA], [('claims_match', OC), ('verify_claims_request, Evidence.verify, ClaimsConstructor', IA)], observe=['claims_match', 'VerifiedClaimsRequest.verify', 'IDAClaimsRequest.verify', 'Evidence.verify', 'ClaimsConstructor'])

prop('C20', 'A relying party using the messages accepts only what the provider issued to it',
 'In any interleaving of protocol runs between two providers and two clients in which an attacker can replay, redirect, mix, strip, unsign, re-sign with its own key or delay messages, a client that verifies each authorization, token, refresh or logout message with its expected issuer, client id, nonce and key jar accepts an ID Token or logout token only if that (honest) provider issued it to that client, for that run as far as the token names a nonce, and the ID Token has not expired; a code or access token that comes with a signed ID Token in an authorization response only if it was issued together with that token; and an iss or client_id in an authorization response only if it is the expected one. What is held as verified afterwards is the content of that token and nothing else. A provider accepts an ID Token as a hint only if it issued it to that client. An unmodified, timely message from the expected provider is accepted.',
 ['histories', 'schedules'], 'all bounded interleavings of honest steps and attacker steps over 2 providers, 2 clients and 2 runs',
 'Tests verify isolated messages; agreement is a property of whole runs with an adversary.',
 [OC, O2, SE, M], [('verify methods of authorization/token responses, ID Token, logout token', OC), ('from_jwt', M)], observe=['AuthorizationResponse.verify', 'AccessTokenResponse.verify', 'BackChannelLogoutRequest.verify'])

prop('C21', 'The file store is a persistent map shared by all its instances',
 'Any sequence of set, get, delete, update, clear, membership, length, keys, items and reopen operations issued through any number of file-store instances on the same directory behaves like one map: every instance sees the latest value of every key, deleted keys are gone for every instance, keys come back exactly as given whatever characters they contain, keys, items, length and membership agree, and everything survives reopening. Reading or testing an absent key reports absence and deleting an absent key changes nothing.',
 ['histories', 'inputs'], 'all operation sequences over several instances, keys with reserved characters, values and converters',
 'The only storage tests build a context; none performs a sequence of store operations.',
 [AF, 'src/oidcmsg/storage/converter.py'], [('AbstractFileSystem', AF), ('QPKey, JSON, PassThru', 'src/oidcmsg/storage/converter.py')],
 state=[('storage', 'per-instance cache of file name to value', AF), ('fmtime', 'modification time at which the cached value was read', AF), ('directory', 'one file per key', AF)],
 observe=['AbstractFileSystem mapping API', 'directory content'])

prop('C22', 'Concurrent users of the file store never lose or invent values',
 'When two instances on the same directory (threads or processes) run set, get, delete and listing operations concurrently, every operation takes effect at one point between its call and its return: a read (and each entry of a listing) returns a value that was current at some moment during the operation, never a mixture, an empty remnant or a value that was already overwritten before the operation began, and once all operations have finished every instance reads the same latest value.',
 ['schedules'], 'all interleavings of the file-system steps of two concurrent operations, followed by sequential reads',
 'No test runs two instances; races need particular interleavings of file-system calls.',
 [AF], [('file locks around write and read, modification time check', AF)],
 state=[('lock file', 'per-key advisory lock', AF)], observe=['results of concurrent operations', 'later reads'])

prop('C23', 'A failed or interrupted write never damages stored values',
 'If storing a value fails - the value cannot be converted, or the process dies or the file system reports an error at any point of the write - the key afterwards reads as its old value (or absent, if it had none) or as the complete new value, through every instance, old or new, and all other keys are untouched and the store can be used as before; a read that fails or is interrupted in the same way leaves every instance reading what is stored; a store opened on a directory containing unreadable or foreign content still serves the readable entries.',
 ['crash_points', 'fault_sequences'], 'every point at which the write can be cut off or fail, x old value present/absent x converter',
 'No test injects a fault or a crash.',
 [AF], [('AbstractFileSystem.__setitem__, synch', AF)], observe=['content of the directory after the fault', 'reads through a new instance'])

prop('C24', 'Storage is isolated by label and by issuer, and chosen by configuration',
 'Entries written under one label or by a context configured for one issuer (when the configured directory names the {issuer}) are never visible to, changed by or removed through another label or issuer sharing the same configuration, and are all visible with their original keys and values to users of the same label and issuer; labelled file and in-memory stores answer get, set, delete, update, membership, key listing and iteration alike, and reading a missing key gives nothing. A context uses the store configured for the requested purpose, else the default one, else memory, and its key jar knows its own keys also under its own entity id.',
 ['histories', 'configurations'], 'all operation sequences over several labels/issuers; all presence combinations of configuration sections',
 'Three context tests look at key counts only; isolation needs histories over two labels or issuers.',
 [AF, EX, IN, CT], [('key_label, LabeledDict', EX), ('LabeledAbstractFileSystem', AF), ('get_storage_conf, storage_factory, init_storage', IN), ('add_issuer, OidcContext', CT)],
 observe=['LabeledAbstractFileSystem', 'LabeledDict', 'OidcContext'])

prop('C25', 'The SQL store is a persistent map shared by all its connections',
 'Any sequence of set, get, update, delete, membership and iteration operations through any number of SQL-store instances on the same database behaves like one map from owner to data: each completed operation is visible to and does not block the others, at most one entry per key exists, update changes only existing keys, delete reports how many entries it removed, membership is about keys, an operation that fails changes nothing, and everything survives reopening.',
 ['histories'], 'all operation sequences over two instances and several keys/values, with reopen',
 'No test touches the SQL store.',
 [SQ, 'src/oidcmsg/storage/db_setup.py'], [('AbstractStorageSQLAlchemy', SQ)], state=[('thing table', 'rows owner/data', 'src/oidcmsg/storage/db_setup.py')],
 observe=['AbstractStorageSQLAlchemy API', 'database rows'])

prop('C26', 'Time values compare, convert and shift consistently',
 'A point in time given as text, number or struct is valid (still in the future) exactly when it lies after now in whole seconds, and the negated and aliased predicates always agree with that; text, with or without fractional seconds, converts to the instant it denotes and back; comparing two points in any mix of representations (whole numbers, text, structs) agrees with their numeric order; now plus or minus an offset in any units is the exact instant; durations are parsed into exactly the fields they state and malformed ones are refused; identity-assurance time stamps and dates convert to text and back to the same instant in any time zone.',
 ['inputs', 'configurations'], 'all instants around now and calendar boundaries x representations x offsets x time zones',
 'Tests compare far-apart times and one duration in UTC only.',
 [TU, IA], [('str_to_time, before, after, later_than, in_a_while, parse_duration', TU), ('to_iso8601_2004, from_iso8601_2004', IA)],
 observe=['time_util functions', 'to_iso8601_2004_time', 'from_iso8601_2004_time'])

prop('C27', 'Encrypted JWTs are read only by their addressee, as demanded, and still verified',
 'An encrypted JWT - read on its own or taken as the request object of an authorization request (OpenID Connect, JWT-secured or pushed) - is read exactly when it is unaltered, was encrypted to one of the reader\'s own decryption keys, uses the key management and content encryption algorithms the reader demanded (if any), and what is inside is plain JSON or a signed JWT that would be accepted without the encryption: its signature is checked as strictly as if it had arrived bare, including a demanded signature algorithm and, for a request object, that it was issued by the client. When anything fails, nothing of it is loaded and the request keeps its plain parameters.',
 ['inputs', 'configurations'], 'algorithms x keys held x demanded algorithms x what is inside (signed properly or not, unsigned, nested, not a JWT) x alterations x route',
 'One test decrypts one message; wrong addressees, demanded algorithms and bad signatures under an encryption layer are never tried.',
 [M, O2, OC], [('Message.from_jwt / from_jwe', M), ('AuthorizationRequest.verify', OC), ('JWTSecuredAuthorizationRequest.verify, PushedAuthorizationRequest.verify', O2)],
 observe=['Message.from_jwt', 'Message.deserialize', 'oidc.AuthorizationRequest.verify', 'oauth2.JWTSecuredAuthorizationRequest.verify', 'oauth2.PushedAuthorizationRequest.verify'])

prop('C28', 'A request object made for a request carries exactly that request',
 'make_openid_request produces a request object, signed with the demanded algorithm by one of the client\'s own keys (or fails when it has none that fits), whose content is every parameter of the given authorization request unchanged plus who issues it, when, for whom (when a receiver is named), until when (issue time plus lifetime, when one is given) and a new identifier in each (when asked for) - and nothing else; the given request is left as it was. A provider that knows the client\'s keys and receives it in an authorization request of any kind accepts it if the request itself obeys the rules, and works with exactly the requested parameters whatever stands next to the object; a provider for which the signing key is somebody else\'s refuses it.',
 ['inputs', 'configurations', 'histories'], 'requests x signing algorithms x key sets of client and provider x receiver, lifetime and identifier options x plain parameters next to the object',
 'One test makes one request object with one algorithm and looks at it; making and taking are never put together over algorithms, options and keys.',
 [OC, O2, M], [('make_openid_request', OC), ('AuthorizationRequest.verify', OC), ('JWTSecuredAuthorizationRequest.verify, PushedAuthorizationRequest.verify', O2)],
 observe=['oidc.make_openid_request', 'oidc.AuthorizationRequest.verify'])

prop('C29', 'Message types and what they declare can be found by name',
 'The factory of the OAuth2 messages makes a message of exactly the OAuth2 type named; the factory of the OpenID Connect messages prefers the OpenID Connect type of that name and falls back to the OAuth2 one; either passes on every given value, fills in the defaults of the type, and gives nothing for an unknown name. A message type reports exactly the parameters it declares, its own name, and for each parameter the type its values have (nothing for an unknown one); restricting values to a type keeps exactly the declared ones; and adding the non-standard parameters of one message to another adds exactly those that neither type declares - replacing ones of the same name - and changes nothing else in either message.',
 ['inputs'], 'all names x all values x pairs of message types',
 'Tests make a handful of types by name; the helpers are never tried on overlapping declarations.',
 [O2, OC, M], [('factory', O2), ('factory', OC), ('by_schema, add_non_standard, parameters, value_type, type', M)],
 observe=['oauth2.factory', 'oidc.factory', 'message.by_schema', 'message.add_non_standard', 'Message.parameters', 'Message.value_type', 'Message.type'])

prop('C30', 'Configured paths and import names mean what they say',
 'proper_path gives a path of the form ./.../ below the working directory that names the same place, and leaves a path that already has that form alone; adding a base path to a configuration puts the base in front of exactly the non-empty relative paths at the named places, at any depth, leaves absolute paths, other entries and missing places alone, adding a slash between base and path when the base does not end in one. A name of the form module.attribute or module:attribute imports exactly that object, the qualified name of a class imports that class, and a malformed or unknown name is an error.',
 ['inputs', 'configurations'], 'all short paths and names, configurations x named places x bases',
 'Four paths are tested; base paths and imports by name are not tested at all.',
 ['src/oidcmsg/__init__.py', 'src/oidcmsg/storage/utils.py'], [('proper_path, add_base_path', 'src/oidcmsg/__init__.py'), ('modsplit, importer, qualified_name', 'src/oidcmsg/storage/utils.py')],
 observe=['oidcmsg.proper_path', 'oidcmsg.add_base_path', 'oidcmsg.storage.utils.importer'])

with open(OUT, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))

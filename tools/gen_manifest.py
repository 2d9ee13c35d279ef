import json
P=[]
def add(id,title,st,over,text,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    P.append({'id':id,'title':title,'statement':st,
     'quantifier':{'over':over,'text':text},'why_tests_cant':why,
     'anchors':{'files':['webauthn_rp/'+f for f in files],
       'mechanism':[{'name':n,'where':'webauthn_rp/'+w} for n,w in mech],
       'observe_at':obs}})
B='backends.py'
H='CredentialsBackend.handle_credential_attestation / handle_credential_assertion'
hs=['result or exception of the two ceremony handlers','calls made to the registrar']
add('C01','Only client data of the right ceremony type is accepted',
 'A registration succeeds only if the type in the client data is exactly "webauthn.create", an authentication only if it is exactly "webauthn.get"; any other text, of any length, is refused with ClientDataTypeError and nothing is registered.',
 ['inputs','configurations'],'every type text of the bounded lengths, in every combination of the other ceremony options',
 'tests try one wrong type; a comparison that ignores case, prefixes or ceremony passes them',
 [B],[('type comparison in both handlers',B)],hs)
add('C02','Only the expected challenge is accepted',
 'A ceremony succeeds only if the base64url decoding of the challenge in the client data is exactly the expected challenge. A different, longer or shorter challenge is refused with ChallengeError, one that cannot be decoded with DecodingError or ChallengeError, and nothing is registered.',
 ['inputs','configurations'],'every challenge text and every expected challenge within the bounded lengths',
 'tests use a handful of challenges; off-by-one, prefix and encoding confusions need particular bytes',
 [B,'utils.py'],[('challenge decoding and comparison',B),('url_base64_decode','utils.py')],hs)
add('C03','Only an expected origin is accepted',
 'A ceremony succeeds only if the origin in the client data equals, as scheme, host and port with default ports filled in, an expected origin (or one of several); every other origin is refused with OriginError and nothing is registered.',
 ['inputs','configurations'],'symbolic characters in every part of presented and expected origins; single origins and collections of up to three',
 'tests use a few fixed origins; look-alike hosts, ports, case and positions in the list are endless',
 [B,'parsers.py'],[('origin membership test',B),('parse_origin','parsers.py')],hs)
add('C04','Origins are parsed into scheme, host and port, or refused',
 'An origin text is accepted exactly if it is an http or https URL with a non-empty host, a usable port if any, and no path, parameters, query or fragment; the result holds the scheme, the lower-cased host part and the explicit or default port. Everything else is refused with OriginError.',
 ['inputs'],'every text of the bounded lengths after http:// and https://, and free texts',
 'tests list a few URLs; ports, brackets, user info and case need particular characters',
 ['parsers.py'],[('parse_origin','parsers.py')],['result of parse_origin'])
add('C05','Token binding must match the expectation',
 'A ceremony succeeds only if the token binding in the client data has the status and the id that the relying party expects, or both have none. A well-formed token binding that is missing, unexpected or different is refused with TokenBindingError and nothing is registered.',
 ['inputs','configurations'],'every pairing of expected and presented status, ids of symbolic text',
 'tests cover a few pairings; the rest of the product, and near-equal ids, stay untried',
 [B],[('token binding comparison in both handlers',B)],hs)
add('C06','Only the hash of the RP ID is accepted',
 'A ceremony succeeds only if the first 32 bytes of the authenticator data are the SHA-256 digest of the UTF-8 text of the relying party id in force; otherwise it is refused with RPIDHashError and nothing is registered.',
 ['inputs','configurations'],'all 2^256 presented hashes, symbolic relying party ids',
 'tests flip a byte or use another id; a comparison of fewer bytes passes them',
 [B],[('RP ID hash comparison',B)],hs)
add('C07','User presence and required user verification are enforced',
 'A ceremony succeeds only if the user-present flag is set and, when verification is required, the user-verified flag is set; otherwise it is refused with UserPresenceError or UserVerificationError, whatever the other flag bits.',
 ['inputs','configurations'],'all 256 flag bytes with and without required verification',
 'tests try single flag values; masks that confuse bits survive them',
 [B,'types.py'],[('flag checks',B),('AuthenticatorDataFlag','types.py')],hs)
add('C08','Every expected extension must have an output',
 'When the relying party expects extensions, a ceremony succeeds only if each of them has an output in the authenticator data, whatever its value (false, zero and empty outputs count). A missing or null output of an expected extension is refused with ExtensionError and nothing is registered, while outputs of further known extensions do no harm.',
 ['inputs','configurations'],'every subset of outputs against every kind of expectation within the bounds, including falsy outputs',
 'tests use single extensions; subsets, falsy outputs and null outputs are not tried',
 [B,'types.py'],[('extension check in both handlers',B),('ExtensionIdentifier.key','types.py')],hs)
add('C09','Only allowed credentials can authenticate',
 'When a list of allowed credentials is given, an authentication succeeds only if the raw id of the credential is the id of one of them (an empty list allows none). Otherwise it is refused with CredentialNotAllowedError.',
 ['inputs','configurations'],'lists of up to three descriptors with symbolic ids of equal and different lengths',
 'tests use one list; prefixes, positions and near-equal ids are not tried',
 [B],[('allow_credentials check',B)],hs)
add('C10','A credential authenticates only its own user',
 'An authentication succeeds only if the given user, if any, is the one the credential is registered to (else UserIDError), and the user handle, if sent, is the id of that user (else UserHandleError). Without a given user the handle is required.',
 ['inputs','configurations'],'symbolic ids for the given user, the registered user and the handle, each present or absent',
 'tests sample few equal/unequal combinations of the three ids',
 [B],[('user and handle checks',B)],hs)
add('C11','The relying party in force is the given one or the registered one',
 'An authentication checks the RP ID hash against the given relying party, or the registered one if none is given. Lack of both is refused with RPNotFoundError and a disagreement of their ids with RPIDError.',
 ['inputs','configurations'],'symbolic relying party ids, given and registered, each present or absent',
 'tests sample few equal/unequal/absent combinations',
 [B],[('relying party resolution',B)],hs)
add('C12','Only a valid signature over the received bytes authenticates',
 "An authentication succeeds only if the signature verifies under the registered public key, with the hash of that key's algorithm, over exactly the received authenticator data followed by the SHA-256 of the received client data. Otherwise it is refused with VerificationError (PublicKeyConversionError if the key is no point of its curve) and nothing is registered.",
 ['inputs','configurations'],'all signatures, authenticator data and keys of the five supported kinds; validity is an arbitrary relation',
 'tests sign with fixed keys; reordered, truncated or re-serialised data under other inputs is not reached',
 [B,'verifiers.py'],[('signature check',B),('verify','verifiers.py')],hs)
add('C13','A signature counter that does not grow is refused',
 'When a counter is stored for the credential, an authentication succeeds only if the received counter is greater than it, or both are zero, or the relying party ignores clones. Otherwise it is refused with SignatureCountError and nothing is registered.',
 ['inputs','configurations'],'all pairs of 32-bit counters, unknown counters, both settings',
 'tests use a few pairs; boundaries and signedness need particular values',
 [B],[('counter check',B)],hs)
add('C14','The registrar is told what was verified, once, and only then',
 'The registrar is told of a ceremony exactly once, after every check has passed, with the credential, user, relying party, attestation or authenticator data of this very ceremony, and never when the ceremony fails. A registrar that raises or refuses makes the ceremony fail with RegistrationError, and one that knows no such credential with CredentialDataError.',
 ['inputs','histories','configurations'],'every ceremony option row, symbolic contents, registrars that return or raise anything; sequences of two ceremonies',
 'tests use a mock registrar and look at few arguments; swapped or stale arguments under other options go unseen',
 [B,'registrars.py'],[('registrar calls of both handlers',B)],['calls recorded by a registrar'])
add('C15','Ceremonies fail only with documented errors',
 "Whatever the credential contains and whatever the registrar does, a ceremony given arguments of the documented types succeeds or raises an error of the library's own hierarchy. After an error nothing has been registered.",
 ['inputs','fault_sequences'],'malformed documents of every kind at every place, truncations, registrars that raise, odd types',
 'tests contain a few malformed inputs; the exceptions of decoders and crypto need particular bytes',
 [B],[('exception containment around both handlers',B)],hs)
add('C16','Honest ceremonies succeed',
 'A ceremony in which the credential agrees with everything the relying party expects is accepted, for all supported key kinds, attestation formats and option settings.',
 ['inputs','configurations'],'symbolic ids, hashes, counters, signatures and texts in every pair (thorough: triple) of options',
 'tests contain a few honest ceremonies with defaults; option combinations are not covered',
 [B,'attesters.py','parsers.py'],[('both handlers',B),('attest','attesters.py')],hs)
add('C17','Authenticator data is read from its specified layout',
 'Hash, flags, counter, attested credential data and extensions are each read from the place the specification gives them, all bytes are accounted for, and data that is cut short, has bytes left over or contradicts its flags is refused.',
 ['inputs'],'all flag bytes and counters, ids of many lengths, every cut, free trailing and free whole buffers',
 'tests use a few buffers; boundaries of lengths and flag combinations are not reached',
 ['parsers.py'],[('parse_authenticator_data','parsers.py')],['result of parse_authenticator_data'])
add('C18','COSE keys are accepted exactly if well formed',
 'A COSE key is accepted exactly if key type, algorithm, curve and key operations are registered ones, optional members have their type, and the coordinates are byte strings of the length of the curve; its members arrive unchanged. Everything else is refused with a parser error, and a decoding error if it is not CBOR.',
 ['inputs'],'symbolic integers and texts for kty, alg, crv and key_ops, coordinates of every nearby length, odd types for every pair of members',
 'tests try a few malformed keys; the product of members, types and curves is not covered',
 ['parsers.py','types.py'],[('parse_cose_key','parsers.py'),('parse_ec2_public_key, parse_okp_public_key','parsers.py')],['result of parse_cose_key'])
add('C19','COSE keys survive encoding and parsing',
 'Encoding a credential public key as COSE and parsing the result gives a key with the same members, whichever optional members it has.',
 ['inputs'],'all coordinates, ids, operations and base IVs within bounds, every subset of optional members',
 'tests round-trip a few keys with fixed optional members',
 ['converters.py','parsers.py'],[('cose_key','converters.py'),('parse_cose_key','parsers.py')],['results of cose_key and parse_cose_key'])
add('C20','Credential JSON is parsed faithfully and strictly',
 'A credential in JSON is accepted exactly if it has the members of an attestation or an assertion response, and no others, with texts that are base64 where bytes are carried; the bytes arrive as they were encoded. Everything else is refused with a parser error, and credentials converted to JSON parse back to themselves.',
 ['inputs'],'symbolic bytes of many lengths in every binary member, odd types for every member, symbolic extra keys',
 'tests parse a few fixed credentials',
 ['parsers.py'],[('parse_public_key_credential','parsers.py')],['result of parse_public_key_credential'])
add('C21','Attestation objects are dispatched by format and strictly parsed',
 'The format named in an attestation object alone decides how its statement is read, and a statement is accepted exactly if it has the members of its format, and no others, with their types; they arrive unchanged. Everything else is refused with a parser error.',
 ['inputs'],'symbolic format names, every member absent, null or of another type, symbolic extra members, symbolic algorithms',
 'tests parse a few statements per format',
 ['parsers.py'],[('parse_attestation_object','parsers.py'),('statement parsers','parsers.py')],['result of parse_attestation_object'])
add('C22','Extension outputs are typed, known and kept',
 'Extension outputs are accepted exactly if each is of a registered extension and has the type that extension demands, and each accepted output arrives unchanged under its own name.',
 ['inputs'],'all nine extensions together, with symbolic values, pairs of odd types, symbolic unknown keys',
 'tests look at one extension at a time with fixed values',
 ['parsers.py'],[('parse_extensions','parsers.py')],['result of parse_extensions and parse_authenticator_data'])
add('C23','Client data is parsed faithfully and strictly',
 'Client data is accepted exactly if it is a UTF-8 JSON object with textual type, challenge and origin and a well-formed token binding if any; the values arrive unchanged and everything else is refused with a parser error.',
 ['inputs'],'symbolic texts of any code points, odd types for every pair of members, symbolic token binding statuses',
 'tests parse a few fixed objects',
 ['parsers.py'],[('parse_client_data','parsers.py')],['result of parse_client_data'])
add('C24','FIDO U2F attestation binds key, id, RP and client data',
 'A FIDO U2F attestation is accepted exactly if it has one certificate over a P-256 key whose signature covers the specified concatenation of RP ID hash, client data hash, credential id and the attested P-256 point; everything else is refused with AttestationError.',
 ['inputs','configurations'],'symbolic hashes, ids, coordinates and signatures; certificate keys of all kinds; unreadable certificates',
 'tests attest a few fixed objects; a reordered or partly covered message passes when contents coincide',
 ['attesters.py'],[('attest_fido_u2f','attesters.py')],['result of attest','registration through the handler'])
add('C25','Android key attestation enforces certificate and key description',
 'An Android key attestation is accepted exactly if the first certificate is over the credential key, the signature under it covers authenticator data and client data hash, and its key description has the client data hash as challenge, is not for all applications, and has the generated origin and the signing purpose in its hardware-enforced list. Everything else is refused with AttestationError (PublicKeyConversionError for an impossible credential key), and nothing is registered.',
 ['inputs','configurations'],'symbolic challenges, origins, purposes, lists, keys and signatures; chains and unreadable certificates',
 'tests use a few fixed certificates; each condition has boundaries they do not reach',
 ['attesters.py','asn1.py'],[('attest_android_key','attesters.py'),('KeyDescription','asn1.py')],['result of attest','registration through the handler'])
add('C26','Unsupported attestation formats are never accepted',
 'A registration with an attestation format whose verification is not implemented (packed, TPM, SafetyNet) fails with UnimplementedError whatever its statement, and registers nothing. The none format registers with attestation type NONE and no trusted path, provided its statement is empty and there is attested credential data.',
 ['inputs','configurations'],'all statements of the packed, TPM and SafetyNet formats within bounds, through the handler and directly',
 'tests try few statements per unsupported format',
 ['attesters.py',B],[('attest','attesters.py'),('registration handler',B)],hs)
add('C27','Signature verification uses the key, hash and data it is given',
 "Verifying succeeds exactly if the signature is valid for the given data under the given key, with the hash that the key's algorithm names. Otherwise it raises VerificationError, or PublicKeyConversionError for a key that is no point of its curve.",
 ['inputs'],'symbolic keys, data and signatures of all five kinds and all algorithm/curve pairs',
 'tests verify a few signatures; the hash of rarely used algorithms is not crossed with curves',
 ['verifiers.py','utils.py'],[('verify','verifiers.py'),('ec2_hash_algorithm','utils.py')],['result of verify'])
add('C28','Credential keys convert to the same public key',
 'Converting a credential public key gives a public key on the same curve with the same coordinates, and a key that is not a point of its curve is refused with PublicKeyConversionError.',
 ['inputs'],'all coordinates on all five curves',
 'tests convert a few keys',
 ['converters.py'],[('cryptography_public_key','converters.py')],['result of cryptography_public_key'])
add('C29','Key validation accepts exactly the supported combinations',
 'A key is valid exactly if it is an EC2 key on P-256, P-384 or P-521 with ES256, ES384 or ES512, or an OKP key on Ed25519 or Ed448 with EdDSA; otherwise it is a ValidationError. Authenticator data with an invalid key is refused, so no ceremony ever registers one.',
 ['inputs'],'every combination of key type, algorithm, curve and operations, as names and values',
 'tests cover a few combinations',
 ['validators.py'],[('validate','validators.py')],['result of validate'])
add('C30','Options become the JSON that WebAuthn calls for',
 'Converting options to JSON keeps every value that is present under its camel-case (or given) name, with bytes as base64 and enumerations as their values, adds nothing, and leaves absent members out; unsupported values and keys are refused with a converter error.',
 ['inputs','configurations'],'creation and request options with symbolic contents and presence, nested trees, every enumeration member',
 'tests convert a few fixed options; subsets of members, falsy values and deep nesting are not covered',
 ['converters.py','utils.py'],[('jsonify','converters.py'),('snake_to_camel_case','utils.py')],['result of jsonify'])
add('C31','Builders deliver what they were given and never change',
 'Options built from a builder hold the last value set for each member in that builder\'s own history, defaults elsewhere, and the given user and challenge; setters and builds leave every existing builder as it was, and a missing required member is a BuilderError.',
 ['histories','inputs'],'all histories of up to three (four) setter calls over a tree of builders, with symbolic values',
 'tests walk one chain of setters; branching histories and sharing between builders are not covered',
 ['builders.py'],[('both builder classes','builders.py')],['options returned by build'])
add('C32','base64url and name conversions are exact and reversible',
 'base64url encoding is that of RFC 4648 with padding, and decoding inverts it with or without padding. Converting a snake-case name to camel case joins its capitalised parts, converting back restores it, and every extension identifier leads to its own member.',
 ['inputs'],'all bytes, texts and names of the bounded lengths',
 'tests convert a few samples; residues of length and particular characters are not covered',
 ['utils.py','types.py'],[('url_base64_encode/decode, snake_to_camel_case, camel_to_snake_case','utils.py')],['results of the functions'])
add('C33','The Android key description schema is exact',
 'In both authorization lists of an Android key description every tag of the published schema, and no other, leads to its own field with its value; a value of another type, an unknown tag or malformed DER is refused.',
 ['inputs'],'all 37 tags with right and wrong types, symbolic presence and values, neighbours of every tag number',
 'tests decode descriptions with few fields; a wrong tag number or type on another field changes nothing they see',
 ['asn1.py'],[('KeyDescription and AuthorizationList','asn1.py')],['decoding with the schema'])
add('C34','Parsers raise only their documented errors',
 'Whatever value is found at whatever place of an input, a parser returns a result or raises ParserError (OriginError for origins), never another exception.',
 ['inputs'],'every member and key with values of every JSON and CBOR type, big integers, deep nesting, undecodable documents, free bytes and texts',
 'tests contain few odd values; decoders and formatting raise for particular inputs only',
 ['parsers.py'],[('all parse_ functions','parsers.py')],['exceptions of the parsers'])
add('C35','Calls leave their arguments as they were',
 'Parsing, validating, verifying, converting, building and both ceremonies leave every object handed to them unchanged - messages, options, keys, collections of expected origins and extensions, stored credential data - whether they succeed or fail.',
 ['inputs','configurations'],'all ceremonies, credentials, documents, keys and options of the other properties within their bounds, looking at everything reachable from the arguments',
 'tests compare results, not arguments; a consumed or normalised argument shows only when the caller uses it again',
 ['backends.py','parsers.py','converters.py','validators.py','verifiers.py','attesters.py','builders.py','utils.py','registrars.py'],[('all public functions','backends.py')],['the arguments after the call'])
add('C36','Earlier calls do not influence later ones',
 'What a call answers depends on its arguments (and the registrar) only: after any earlier successful or failed calls to any part of the library, it behaves as its own property demands.',
 ['histories','inputs'],'histories of one and two earlier calls of 37 scenes over all parts, each with symbolic inputs',
 'tests run one call each; state kept in modules, defaults or caches shows only in particular histories',
 ['backends.py','parsers.py','converters.py','validators.py','verifiers.py','attesters.py','builders.py','utils.py','registrars.py','types.py'],[('all public functions','backends.py')],['results and exceptions of later calls'])
add('C37','Registered names and numbers are exact',
 'The numbers and names of COSE algorithms, key types, operations, curves and their parameters, of credential types, transports, attachments, user verification, attestation conveyance, flags and formats are those of the registries, name and number of an entry belong together, and any other number or text is refused.',
 ['inputs'],'every integer from -2^40 to 2^40 and every text of the lengths of the registered names and around',
 'tests use symbolic names on both sides, so a wrong number agrees with itself',
 ['types.py'],[('the enumerations','types.py')],['values and lookups of the enumerations'])
add('C38','Data model objects hold what they are given',
 'Constructing an object of the data model keeps every given member unchanged under its documented name, gives an omitted optional member its documented default, and refuses to do without a required one, for every choice of members and every value, empty and zero ones included.',
 ['inputs','configurations'],'every class with all, none, each one and all but one of its optional members; symbolic values including empty and zero',
 'tests construct objects with typical values; defaults that replace false values, or swapped members, need particular ones',
 ['types.py','registrars.py'],[('the constructors','types.py')],['members of constructed objects'])
add('C39','A registered credential, and only it, authenticates',
 'Options from the builders, sent as JSON, answered by an authenticator and parsed from JSON: an honest registration is accepted and reported once, and with what was reported stored, authentications are accepted exactly when the signature is valid under the registered key, the counter is acceptable and the credential is the registered one - also the second time.',
 ['histories','inputs','configurations'],'one registration (every format, kind of key and option) followed by two authentications with free signature, counter or id',
 'tests exercise each step alone; a disagreement between steps shows only in a whole history with particular data',
 ['backends.py','builders.py','converters.py','parsers.py','verifiers.py','registrars.py','utils.py'],[('builders, jsonify, parse_public_key_credential, both handlers','backends.py')],['results of the ceremonies of one history','calls made to the registrar'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import importlib,sys
sys.path.insert(0,'/verif')
sys.dont_write_bytecode=True
EXTRA=open('/verif/tools/notes.json').read()
NOTES=json.loads(EXTRA)
TECH='symbolic execution of the real code with z3 (bit-vectors), models replayed on the real code'
def note(i):
    m=importlib.import_module('props.'+i.lower())
    t='Holds for every input within: '+m.BOUNDS+'.'
    if m.ASSUMPTIONS: t+=' Assuming: '+'; '.join(m.ASSUMPTIONS)+'.'
    if NOTES.get(i): t+=' '+NOTES[i]
    return t
checks=[]
for p in P:
    i=p['id']
    checks.append({'property':i,'quick_cmd':'./check.sh %s quick'%i,'thorough_cmd':'./check.sh %s thorough'%i,
     'evidence_file':'evidence/%s.json'%i,'technique':TECH,'level':'model_checking',
     'level_note':note(i)})
json.dump({'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':[]},open('/verif/MANIFEST.json','w'),indent=1)

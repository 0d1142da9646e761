"""The properties: their text, their anchors, their harness entries and bounds. gen.py turns this into
properties.jsonl and MANIFEST.json; check.py runs it."""
AR = "src/core/authorization_request/mod.rs"
VM = "src/core/authorization_request/verification/mod.rs"
PR = "src/core/authorization_request/parameters.rs"


def S(name, meaning):
    return {"name": name, "meaning": meaning}


def E(*cover, **kw):
    return dict(cover=list(cover), **kw)


PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


METHODS = ["decentralized_identifier", "openid_federation", "redirect_uri", "verifier_attestation", "x509_san_dns", "x509_hash", "preregistered", "other", "origin"]

prop("C01",
     title="A request is decided by exactly the verifier of its client identifier prefix",
     statement="When a wallet validates an authorization request, whatever its client identifier, exactly one of the wallet's verification methods runs, the one belonging to the text before the identifier's first colon (the pre-registered one if there is no colon or no identifier, the extension one with that very text if the prefix is unknown), and never one for the reserved prefix 'origin', which is always rejected. "
               "That method is given the request object's parameters exactly as received and the exact token received (none for an unwrapped request), and its verdict alone decides between acceptance of that same request object and rejection. "
               "A method the wallet does not implement rejects.",
     over=["inputs", "configurations"],
     text="every client identifier text up to 30 characters over the identifier alphabet, by value, by reference or unwrapped, outer identifier present or not, verifier accepting or refusing",
     why="identifiers are unbounded text; tests try one or two per prefix and a mis-routed, truncated or re-cased prefix, or a lost verdict, shows only on particular identifiers",
     files=[VM, AR, PR], mechanism=["AuthorizationRequest::validate", "verify_request", "ClientId::resolve_prefix"],
     state=[S("client_id", "the identifier whose prefix selects the method"), S("request JWT", "what the method has to verify")],
     observe="a recording wallet's verification methods and the result of validate",
     bounds='histories of 3 calls of different outcomes; identifiers of n arbitrary characters (A) with n in {0,1,6,9,10,12..14,17,18,20,21,24..26} (quick) or 0..30 (thorough); known prefixes with any one character replaced or added (N); identifiers of 60..1030 characters with 2 arbitrary ones; 5 shapes of request, header and signature [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='other texts of more than 30 characters; JSON escapes in identifiers',
     entries={"c01_dispatch_value": E(*METHODS, "accepted", "rejected"), "c01_dispatch_reference": E(*METHODS, "accepted", "rejected"),
              "c01_dispatch_direct": E(*METHODS, "accepted", "rejected"), "c01_unimplemented": E("unimplemented"), "c01_wide": E(*METHODS), "c01_again": E("again", "accepted", "rejected"), "c01_absent": E("absent"), "c01_context": E(*METHODS, "accepted", "rejected")})

prop("C02",
     title="Only client identifier prefixes the wallet advertises are served",
     statement="A request whose client identifier has a prefix is accepted, and its verifier consulted, only if the wallet's list of supported client identifier prefixes contains exactly that prefix; a wallet without a list supports exactly 'pre-registered', and a wallet whose list cannot be read supports none. "
               "Client identifiers without a colon need no entry in the list.",
     over=["inputs", "configurations"],
     text="every prefix text and every list of up to 3 prefix texts within the length bounds",
     why="membership is decided on free text against free text: prefix, suffix, case or emptiness confusions appear only for particular pairs",
     files=[VM, "src/core/metadata/parameters/wallet.rs"], mechanism=["validate_request_against_metadata", "ClientIdPrefixesSupported"],
     state=[S("client_id_prefixes_supported", "the wallet's list")],
     observe="result of validate and the calls the wallet's verifiers received",
     bounds="histories of 3 calls of different outcomes; in one place at a time, any text of 0..24 (thorough 0..40) characters (A); prefixes of 0, 2, 9, 12 (thorough also 1, 3, 13) characters over a-z X D O 0-9 _ - . ; lists of up to 2 (thorough 3) entries of the prefix's length or one more or less; lists of 9 fixed entries and one near the prefix (N) anywhere; prefixes of up to 300 characters with 2 arbitrary ones; unprefixed identifiers up to 5 (15) characters (A) [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]",
     outside='lists with more than 3 arbitrary entries',
     entries={"c02_list": E("advertised", "not advertised"), "c02_near": E("advertised", "not advertised"), "c02_others": E("advertised", "not advertised"), "c02_long": E("advertised", "not advertised"), "c02_default": E("advertised", "not advertised"), "c02_any": E("advertised", "not advertised"), "c02_again": E("advertised", "not advertised"), "c02_unprefixed": E("unprefixed"), "c02_malformed": E("malformed")})

prop("C03",
     title="The outer request and the request object must name the same client",
     statement="Validation accepts a request carried in a token only if the request object's client identifier is exactly the one the outer authorization request names, when the outer request names one; a request object that lacks the identifier, or whose identifier is not text, is rejected in that case. "
               "The accepted request object then reports that identifier, and for an unwrapped request it reports the outer identifier in place of any other.",
     over=["inputs"],
     text="every pair of outer and inner client identifier within the bounds, present, absent or of another JSON type, by value and by reference",
     why="the two identifiers are independent attacker-chosen texts; tests use equal ones or one obviously different pair",
     files=[AR], mechanism=["AuthorizationRequest::validate", "AuthorizationRequest::resolve_request"],
     state=[S("client_id (outer)", "identifier in the authorization request"), S("client_id (inner)", "identifier in the request object")],
     observe="result of validate",
     bounds='histories of 3 calls of different outcomes; in one place at a time, any text of 0..24 (thorough 0..40) characters (A); identifiers of up to 5 (thorough 11) arbitrary characters (A) with or without the prefixes x509_hash:, redirect_uri:; lengths equal or differing by one; fixed identifiers of 6..1110 characters differing in one character (N) at the ends, in the middle or by one more or less [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='other pairs of long identifiers; JSON escapes',
     entries={"c03_agree": E("accepted", "rejected"), "c03_near": E("accepted", "rejected"), "c03_beside": E("accepted", "rejected"), "c03_any": E("accepted", "rejected"), "c03_again": E("accepted", "rejected"), "c03_outer_absent": E("outer absent"), "c03_inner_absent": E("inner absent"), "c03_inner_not_text": E("inner not text"), "c03_direct": E("direct")})

prop("C04",
     title="A request object is processed only if its token is typed as one",
     statement="A token is taken as a request object, by value or by reference, only if its header's type is exactly 'oauth-authz-req+jwt'; a token with another, a missing or a non-text type is rejected before any verifier is consulted. "
               "The single exception is an outer client identifier starting with 'redirect_uri:', and no request is accepted through it for any other client. Tokens that are not well-formed are rejected.",
     over=["inputs"],
     text="every type text within the bounds, every client identifier text around the exception, header member orders, malformed tokens",
     why="the exception is keyed on a text prefix and the type is free text; tests try one good and one bad value",
     files=[AR], mechanism=["validate_request_object_typ", "AuthorizationRequest::resolve_request"],
     state=[S("typ", "the token header's type"), S("client_id (outer)", "grants the exception")],
     observe="results of resolve_request and validate, calls to the wallet's verifiers",
     bounds="histories of 3 calls of different outcomes; in one place at a time, any text of 0..24 (thorough 0..40) characters (A); typ of 3, 18, 19, 20 (thorough also 0, 17, 21, 24) characters over 'oauthzreq+jw-JWTAO .', or near the right one (N), or with application/ or another media prefix; client identifiers of 12..14 (0, 12..15) characters over 'redict_u:x' and near redirect_uri: (N) [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]",
     outside='other types of other lengths; JSON escapes in the header',
     entries={"c04_typ": E("accepted", "rejected"), "c04_untyped": E("rejected"), "c04_near": E("accepted", "rejected"), "c04_beside": E("accepted", "rejected"), "c04_any": E("accepted", "rejected"), "c04_again": E("accepted", "rejected"), "c04_relaxed": E("accepted", "rejected", "relaxed"),
              "c04_relaxed_needs_agreement": E("untyped accepted", "untyped rejected"), "c04_malformed": E("malformed")})

prop("C05",
     title="Encrypted responses are accepted only if both parties share the means",
     statement="A request with an encrypted response mode is accepted exactly when the verifier's metadata contains at least one key marked for encryption that names an algorithm, at least one such key's algorithm is in the wallet's list of encryption algorithms (if the wallet has one), and at least one of the verifier's content encryption algorithms (A128GCM if it gives no list) is in the wallet's list (if it has one). "
               "Lists and keys that cannot be read are refused, and response modes without encryption are not subject to any of this.",
     over=["inputs", "configurations"],
     text="every set of keys with present/absent use and alg, every pair of algorithm lists within the bounds, for both encrypted modes",
     why="the decision is an intersection over two lists and a filtered key set; tests try a handful of fixed combinations",
     files=[VM, "src/core/metadata/parameters/verifier.rs", "src/core/metadata/parameters/wallet.rs"], mechanism=["validate_request_against_metadata"],
     state=[S("jwks", "the verifier's keys"), S("authorization_encryption_{alg,enc}_values_supported", "the wallet's lists"), S("encrypted_response_enc_values_supported", "the verifier's content encryption algorithms")],
     observe="result of validate and the calls to the wallet's verifiers",
     bounds="histories of 3 calls of different outcomes; in one place at a time, any text of 0..24 (thorough 0..40) characters (A); up to 2 (thorough 3) keys, lists of up to 2 (3) entries, algorithm names of 1-2 (1-3) characters over 'aAb-' (6-8 over 'A128GCM59HSB-' for the default); key use absent or 3-4 characters; lists of several fixed entries with the shared one, or one near it (N), anywhere; 20 (80) keys and list entries with one shared or not; empty lists [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]",
     outside='longer lists of arbitrary names',
     entries={"c05_keys": E("served", "refused"), "c05_algs": E("served", "refused"), "c05_encs": E("served", "refused"), "c05_default_enc": E("served", "refused"),
              "c05_both": E("served", "refused"), "c05_missing": E("served", "refused"), "c05_unrestricted": E("served"), "c05_unreadable": E("refused"), "c05_near": E("served", "refused"), "c05_beside": E("served", "refused"), "c05_any": E("served", "refused"), "c05_again": E("served", "refused"), "c05_many": E("served", "refused"), "c05_empty_enc": E("refused")})

prop("C06",
     title="Request objects are read exactly: well-formedness, target and content",
     statement="A request object is accepted exactly if it has a text nonce, a text response type, a supported response mode (direct_post when absent) and the response target that mode requires: a valid response_uri and no redirect_uri for the direct_post modes, neither for the dc_api modes. "
               "The accepted object reports exactly the nonce, mode, type, state, client identifier, target, credential query, verifier metadata and formats sent, and writing it out yields exactly the parameters read.",
     over=["inputs"],
     text="every combination of absent, valid, invalid and non-text targets with every mode; every response mode, type, nonce and state text within the bounds",
     why="a matrix of 80 structural cases times free text; tests cover a few rows",
     files=[AR, PR], mechanism=["AuthorizationRequestObject::try_from", "ResponseMode", "ResponseType"],
     state=[S("response_mode", "decides which target is required"), S("return_uri", "where the response goes")],
     observe="result of parsing and the accessors of the object",
     bounds='in one place at a time, any text of 0..24 (thorough 0..40) characters (A); mode texts of 0, 6, 10, 11, 15 (thorough 0, 1, 5..12, 14..16) arbitrary characters (A); types of 0, 8, 17 (A); nonce up to 3 (7), URI paths of 3 (8), state 3 (6) characters; 54 forms of URI with an arbitrary character; texts with escapes, control characters, non-ASCII characters and 600 characters [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside="other URIs (their grammar is the url crate's)",
     entries={"c06_targets": E("well-formed", "ill-formed"), "c06_mode": E("supported", "unsupported"), "c06_any": E("kept"), "c06_mode_not_text": E("not text"), "c06_not_text": E("not text"), "c06_fields": E("complete", "incomplete"), "c06_parts": E("parts"), "c06_lossless": E("kept"), "c06_uri": E("a target", "no target"), "c06_text": E("kept"), "c06_every": E("everything beside")})

DIDV = "src/core/authorization_request/verification/did.rs"
XS = "src/core/authorization_request/verification/x509_san.rs"
XH = "src/core/authorization_request/verification/x509_hash.rs"
VF = "src/core/authorization_request/verification/verifier.rs"
UT = "src/core/util/mod.rs"
RS = "src/core/response/mod.rs"
RP = "src/core/response/parameters.rs"
RB = "src/verifier/request_builder.rs"
AW = ["accepted", "rejected"]

prop("C07",
     title="A DID client is accepted only by a signature of a key of that very DID",
     statement="The default verification of a decentralized_identifier client accepts a request exactly if the token's algorithm is in the wallet's list of request object signing algorithms, the token's key identifier is the client's DID (the client identifier without the decentralized_identifier: prefix) followed by '#' and a fragment, the DID is in the list of trusted DIDs when one is given, and the signature over the token verifies with the key resolved for exactly that key identifier. "
               "No key of another or an untrusted DID is resolved. An unsigned token (algorithm 'none') is accepted only if the wallet lists exactly 'none'. Headers, algorithm lists and requests in which any of this is missing or unreadable are rejected.",
     over=["inputs", "configurations"],
     text="every client identifier, key identifier, trusted list and algorithm list within the bounds; signatures changed in any of several positions, swapped keys and payloads",
     why="client DID, key identifier and lists are free text chosen by the other party; prefix and fragment confusions appear only for particular texts",
     files=[DIDV], mechanism=["verify_with_resolver"],
     state=[S("client_id", "the DID the request claims"), S("kid", "the key the token names"), S("trusted_dids", "whom the wallet trusts")],
     observe="result of verify_with_resolver and what the resolver was asked",
     bounds="histories of 3 calls of different outcomes; in one place at a time, any text of 0..24 (thorough 0..40) characters (A); client DIDs of 0, 9..11 (thorough 0, 3, 9..13) symbolic characters over 'did:exabcABC#k1/?' after 4 prefixes; key identifiers of 0, 10..13 (0, 1, 10..14); up to 2 (3) trusted DIDs and algorithms; client, key identifier, trusted DID or algorithm near the right one (N), also of 300 characters and in lists of 8; ES256 signatures: changed bytes at 4 (64) positions, truncated, zero, other key, other payload, other header [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]",
     outside='other signature algorithms; forgery of ECDSA itself (the curve arithmetic runs concretely)',
     assumptions=["signature checking itself (ssi) is executed on concrete tokens"],
     entries={"c07_client": E(*AW), "c07_near": E(*AW), "c07_any": E(*AW), "c07_again": E(*AW), "c07_trusted": E(*AW), "c07_algs": E(*AW), "c07_signature": E(*AW), "c07_kid": E("resolved", "not resolved"), "c07_unsigned": E("unsigned accepted", "unsigned rejected"), "c07_malformed": E("malformed")})

prop("C08",
     title="An x509_san_dns client is accepted only under a DNS name of its leaf certificate",
     statement="The default verification of an x509_san_dns client accepts a request exactly if the token's algorithm is in the wallet's list, the client identifier (without its prefix) is byte for byte one of the DNS names in the subject alternative name of the first certificate of the token's chain, and the signature over exactly the token's header and payload verifies with that certificate's public key and that algorithm. "
               "Other kinds of names and other certificates in the chain do not count. Missing, empty or unreadable chains, certificates, algorithms, lists, clients or signatures are rejected without any signature check, and the built-in P-256 verifier serves ES256 only.",
     over=["inputs", "configurations"],
     text="every client identifier and every pair of DNS names within the bounds, every chain order, algorithm list, signature bytes",
     why="name comparison is over attacker-chosen text; wildcard, suffix, case and chain order confusions need particular names",
     files=[XS, VF], mechanism=["x509_san::validate", "P256Verifier"],
     state=[S("client_id", "the DNS name the request claims"), S("x5c", "the certificate chain")],
     observe="result of validate and what a recording signature verifier was given",
     bounds='histories of 3 calls of different outcomes; in one place at a time, any text of 0..24 (thorough 0..40) characters (A); client names of 0, 7..9 (thorough 0, 1, 7..10) arbitrary characters (A) plus names of other kinds; DNS names with 2 (4) symbolic characters each; certificates with 6 names, a long name, a wildcard, a common name only, a critical extension, and clients near those names (N); names that hold that of the client and more; chains of up to 3; algorithm lists of up to 2 (3); signatures of up to 4 symbolic bytes with a recording verifier, changed at 4 (64) positions with the real one [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='certificates of other shapes; trust anchors (the code does not check any)',
     entries={"c08_client": E(*AW), "c08_names": E(*AW), "c08_many": E(*AW), "c08_empty": E(*AW), "c08_any": E(*AW), "c08_again": E(*AW), "c08_within": E(*AW), "c08_no_names": E("rejected"), "c08_verifier": E(*AW), "c08_chain": E(*AW), "c08_algs": E(*AW), "c08_malformed": E("malformed"), "c08_p256": E(*AW), "c08_p256_alg": E("ES256", "another algorithm")})

prop("C09",
     title="An x509_hash client is accepted only with the certificate it is the hash of",
     statement="The default verification of an x509_hash client accepts a request exactly if the token's algorithm is in the wallet's list, the client identifier (without its prefix) is exactly the unpadded base64url SHA-256 hash of the DER bytes of the first certificate of the token's chain, and the signature over exactly the token's header and payload verifies with that certificate's public key and that algorithm. "
               "Missing, empty or unreadable chains, certificates, algorithms, lists, clients or signatures are rejected without any signature check.",
     over=["inputs", "configurations"],
     text="every hash text within the bounds, changed certificates, chain orders, algorithm lists, signature bytes",
     why="the identifier is free text; truncated, padded or re-encoded hashes, or a hash taken over another certificate, need particular texts",
     files=[XH, VF], mechanism=["x509_hash::validate", "P256Verifier"],
     state=[S("client_id", "the hash the request claims"), S("x5c", "the certificate chain")],
     observe="result of validate and what a recording signature verifier was given",
     bounds='histories of 3 calls of different outcomes; in one place at a time, any text of 0..24 (thorough 0..40) characters (A); hash texts of 0, 1, 22, 42..45 (thorough 0..47) arbitrary characters (A), near the right one (N), truncated at any place, padded or repeated; chains of up to 3; algorithm lists of up to 2 (3); as C08 otherwise [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='collisions of SHA-256 (executed concretely); other certificates',
     entries={"c09_client": E(*AW), "c09_near": E(*AW), "c09_any": E(*AW), "c09_again": E(*AW), "c09_certificate": E(*AW), "c09_verifier": E(*AW), "c09_chain": E(*AW), "c09_algs": E(*AW), "c09_malformed": E("malformed"), "c09_p256": E(*AW), "c09_p256_alg": E("ES256", "another algorithm")})

prop("C10",
     title="A wallet's response goes once, intact, to the response URI and nowhere else",
     statement="Submitting a response to an accepted request sends exactly one POST of exactly that response, as a form, to exactly the request's response_uri, carrying the protocol version preference, if the kind of response fits the response mode (plain for direct_post, token for direct_post.jwt); a response that does not fit is an error and is not sent, and for the dc_api modes nothing is sent. "
               "It is reported as delivered only for a 2xx answer whose body is blank or readable JSON, and the reported redirect is exactly the answer's redirect_uri.",
     over=["inputs", "configurations", "fault_sequences"],
     text="every response URI, value and state text within the bounds, every HTTP status, every shape of answer, and no answer at all",
     why="statuses, answers and URIs come from the other party; tests do not exercise submission with failing answers",
     files=["src/wallet.rs", RS, UT], mechanism=["Wallet::submit_response", "base_request"],
     state=[S("response_uri", "where the response must go"), S("response_mode", "which kind is expected")],
     observe="the requests a recording HTTP client received and the result of submit_response",
     bounds='histories of 3 calls of different outcomes; paths of up to 3 (thorough 8), values of 4 (10) and states of 3 (8) characters over unreserved characters; further fixed forms of URI, values that need encoding, of 9000 characters or non-ASCII, nested and several presentations; every status 100..999; 11 shapes of answer bodies with up to 3 (6) symbolic characters',
     outside='transport below the HTTP client trait',
     entries={"c10_sent": E("plain sent", "token sent"), "c10_again": E("again sent", "again refused"), "c10_shapes": E("plain sent", "token sent"), "c10_kind": E("left to the platform", "fits", "does not fit"), "c10_status": E("success", "failure"), "c10_answer": E("unreadable", "no redirect", "redirect"), "c10_no_answer": E("no answer")})

prop("C11",
     title="Authorization responses survive form encoding",
     statement="Whatever presentations, query identifiers, state or token a response contains, encoding it as a form and reading the form back yields the same response: the same queries with the same presentations in the same order, the same state or none, or the same token. The form contains exactly vp_token and state, or exactly response. "
               "A response that arrives as an object is read exactly as well. Forms and objects that carry neither a token nor a readable vp_token are rejected.",
     over=["inputs"],
     text="every text within the bounds out of all ASCII character classes and two-byte characters, in presentations (text or object), states and tokens",
     why="two nested encodings (JSON in a form) over arbitrary text: tests use letters, the failures are in the escapes",
     files=[RS, RP], mechanism=["AuthorizationResponse::from_x_www_form_urlencoded", "UnencodedAuthorizationResponse", "JwtAuthorizationResponse", "VpToken"],
     state=[S("vp_token", "presentations by query"), S("state", "the verifier's state")],
     observe="the form text and the response read back",
     bounds='texts of 2 (thorough 3) characters over 46 representative ASCII characters, or one arbitrary two-byte character among others; up to 2 (3) queries, 2 presentations each; 8 queries of 12 presentations, texts of up to 6000 characters, three- and four-byte characters, repeated and empty values',
     outside='other long texts',
     entries={"c11_unencoded": E("unencoded"), "c11_state": E("state"), "c11_queries": E("queries"), "c11_long": E("long"), "c11_long_token": E("token"), "c11_token": E("token"), "c11_object": E("readable", "unreadable"), "c11_malformed": E("readable", "unreadable")})

prop("C12",
     title="Authorization requests survive their URL, and only the endpoint is served",
     statement="Turning an authorization request into a URL for a wallet endpoint yields that endpoint with a query holding exactly the client identifier and the request, its reference or its parameters, and reading that URL back yields the same request, whatever characters occur; the order of parameters does not matter. "
               "A URL whose authority or path differs from the wallet's endpoint, or that has no query, is not a request: the wallet neither fetches nor verifies anything for it.",
     over=["inputs", "configurations"],
     text="every identifier, token, reference and parameter text within the bounds, five kinds of endpoints, every pair of endpoint and URL path within the bounds",
     why="percent-encoding of arbitrary text and comparison of arbitrary authorities and paths; tests use one URL",
     files=[AR, "src/wallet.rs"], mechanism=["AuthorizationRequest::to_url", "AuthorizationRequest::from_url", "AuthorizationRequest::from_query_params", "Wallet::validate_request"],
     state=[S("authorization_endpoint", "where requests are accepted")],
     observe="the URL, the request read back, and what the wallet did",
     bounds="texts of 1 (thorough 2) characters over 46 representative ASCII characters or one two-byte character among others; texts of up to some thousand characters with 1 arbitrary or non-ASCII one; up to 6 direct parameters; reference tails of 2 (3) characters over URL syntax; paths of up to 2 (4) characters; 9 authorities; endpoints with fragments, and near the wallet's (any one letter of authority or path replaced, added or dropped)",
     outside='endpoints that carry a query of their own (the code replaces it), the URL scheme (the code does not compare it)',
     entries={"c12_value": E("by value"), "c12_client": E("client"), "c12_reference": E("by reference"), "c12_direct": E("direct"), "c12_order": E("order"), "c12_names": E("another name"), "c12_endpoint": E("the wallet's endpoint", "another place"), "c12_wallet": E("served", "not served"), "c12_empty": E("no query"), "c12_fragment": E("fragment"), "c12_long": E("long"), "c12_many": E("many"), "c12_near": E("the wallet's endpoint", "another place")})

prop("C13",
     title="A request by reference is exactly what one successful fetch of it yields",
     statement="A request passed by reference is fetched exactly once per resolution, by GET, from exactly its request_uri, with the protocol version preference; the token and parameters then processed are exactly those fetched. "
               "Without an answer, with a non-2xx answer, or with an answer that is not a readable request object, the request is rejected and no verifier is consulted. A request that is not by reference causes no fetch, whatever parameters it has.",
     over=["inputs", "fault_sequences"],
     text="every reference text and fetched content within the bounds, every HTTP status, several kinds of unreadable answers, no answer",
     why="the answer is under the other party's control and failures are rare in tests",
     files=[AR, UT], mechanism=["AuthorizationRequest::resolve_request", "AuthorizationRequest::validate"],
     state=[S("request_uri", "the reference"), S("fetched token", "what is verified")],
     observe="requests seen by the HTTP client, result of resolve_request and validate, calls to verifiers",
     bounds='histories of 3 calls of different outcomes; reference paths of 3 (thorough 8) characters, state texts of 3 (6), signature texts of 4 characters; every status 100..999; 6 families of unreadable answers; answers with any one character or white space around or inside (N); references with all URL parts and answers of several thousand characters [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='transport below the HTTP client trait',
     entries={"c13_fetched": E("fetched"), "c13_again": E("fetched", "refused"), "c13_status": E("success", "failure"), "c13_unreadable": E("unreadable"), "c13_no_answer": E("no answer"), "c13_no_fetch": E("no fetch"), "c13_around": E("around"), "c13_long": E("long")})

prop("C14",
     title="Built requests say what was configured, and exactly what was stored",
     statement="A verifier builds a request exactly if it has a query, a nonce, a response type, a supported response mode with no response target that contradicts it, endpoints a session identifier can be appended to, and, when a wallet's metadata is given, a client whose prefix the wallet lists; signing and storing must succeed. Otherwise nothing is handed out and no session is stored. "
               "The signed request contains exactly the configured parameters (the caller's over the defaults), the verifier's own client identifier and a response_uri made of the submission endpoint and this session's identifier, whatever the caller put there. "
               "The URL goes to the wallet's endpoint and carries that client identifier and that signed request or the session's reference; exactly one session is stored, under the returned identifier, with that request, that token, that query and the status that matches how it was passed.",
     over=["inputs", "configurations", "fault_sequences"],
     text="every session identifier, client, state and nonce text within the bounds, every combination of given and missing settings, defaults and overrides, wallet prefix lists, failing signer and store",
     why="a product of a dozen settings with arbitrary identifiers; tests build one or two requests",
     files=[RB, "src/verifier/mod.rs", "src/verifier/by_reference.rs"], mechanism=["RequestBuilder::build", "RequestBuilder::build_with_session_id", "RequestBuilder::build_dc_api", "VerifierBuilder::build"],
     state=[S("session", "what is stored for the request")],
     observe="the URL or token returned, what the client was asked to sign, what the store was given",
     bounds="session identifiers: 16 bytes over 4 values each (through build_with_session_id), texts of 2 (thorough 5) characters, 5 submission and 2 reference endpoints, every response mode for both kinds of request, wallet lists of up to 2 (3) prefixes and of 9 with one near the client's (N); two requests from one verifier [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]",
     outside='randomness of generated identifiers',
     entries={"c14_texts": E("built"), "c14_any_parameter": E("as given"), "c14_request": E("by value", "by reference"), "c14_prefix": E("supported", "unsupported"), "c14_required": E("complete", "incomplete"), "c14_failures": E("works", "fails"), "c14_base": E("usable", "unusable"), "c14_builder": E("complete", "incomplete"), "c14_dc_api": E("not stored", "built"), "c14_modes": E("built"), "c14_twice": E("twice"), "c14_again": E("again"), "c14_contradiction": E("built", "not built"), "c14_prefix_near": E("supported", "unsupported"), "c14_prefix_default": E("supported", "unsupported")})

SM = "src/verifier/mod.rs"
SE = "src/verifier/session.rs"
FE = "openid4vp-frontend/src/lib.rs"
DQ = "src/core/dcql_query.rs"

prop("C15",
     title="A session advances only as its own requests and responses make it advance",
     statement="Whatever requests, responses and polls arrive, in whatever order and however interleaved: retrieving a request by its reference yields exactly that session's signed request and moves the session from sent-by-reference to sent (and changes no other status); "
               "a response is judged exactly once, in the session it was sent to, with that session's data, and the judgement becomes the session's completed status; polling reports exactly the current status and changes nothing. "
               "Without such a session, or when the store fails, the operation fails, nothing is handed out or recorded, and no other session changes. An operation abandoned half way leaves the session as before or as after the operation. A recorded outcome is replaced only by a later outcome.",
     over=["histories", "schedules", "crash_points", "fault_sequences", "inputs"],
     text="every sequence of operations on two sessions and an unknown one within the bound, every interleaving of the atomic store steps of 2 (3) concurrent operations, every abandonment point, every failing read or write, every pair of distinct identifiers within the bound",
     why="tests drive one session through one order of events; races, abandonment and store failures need particular orders",
     files=[SM, SE, FE], mechanism=["Verifier::poll_status", "Verifier::retrieve_authorization_request", "Verifier::verify_response", "MemoryStore"],
     state=[S("Session.status", "how far the session got")],
     observe="results of the operations, what the validator is given, and the store's content",
     bounds="in one place at a time, any text of 0..24 (thorough 0..40) printable ASCII characters but quote and backslash; 2 (thorough 3) operations in sequence from 6 initial statuses; 2 (3) concurrent operations over a store whose operations are atomic and suspend once; abandonment after 0..4 polls; identifiers differing in 4 (16) arbitrary bytes",
     outside="preemption inside a store operation (the store's own concern); time",
     entries={"c15_outcomes": E("recorded"), "c15_history": E("polled", "retrieved", "answered", "unknown"), "c15_identity": E("one of two"), "c15_schedule": E("answered", "not answered"), "c15_abandoned": E("finished", "abandoned"), "c15_failures": E("up", "down")})

prop("C16",
     title="The in-memory session store behaves as a map from identifiers to sessions",
     statement="After any sequence of operations the in-memory store holds, for each identifier, exactly the session last initiated under it with the status last set for it, and nothing for identifiers never initiated or since removed; updating, reading or removing an identifier it does not hold fails and changes nothing. Clones of the store share one content.",
     over=["histories", "inputs"],
     text="every sequence of initiate, update, get and remove within the bound, through the store or a clone, on arbitrary identifiers",
     why="the store is only ever tested with one session; confusion between identifiers and stale status need particular sequences",
     files=[SE], mechanism=["MemoryStore"],
     state=[S("MemoryStore.store", "sessions by identifier")],
     observe="results of the operations and of reading every identifier afterwards",
     bounds='3 (thorough 4) operations over 3 identifiers; 2 operations (thorough 3) over identifiers with 2 (16) arbitrary bytes; 1100 (5000) sessions at once; every status after every other',
     outside='operations from several threads at the same instant: the store reports a failure then instead of waiting',
     entries={"c16_identifiers": E("stored", "replaced", "updated", "removed", "found", "absent"), "c16_history": E("stored", "replaced", "updated", "removed", "found", "absent"), "c16_many": E("many"), "c16_statuses": E("changed")})

prop("C17",
     title="Session statuses are ordered as a session's life and survive the wire",
     statement="Statuses are totally ordered sent-by-reference < sent < response received < complete, completed ones error < failure < success, whatever their details, and comparison, equality and all derived relations agree. "
               "Every status, whatever the text or JSON in its outcome, has the documented JSON form and is read back from it unchanged; JSON that is no status is not read as one.",
     over=["inputs"],
     text="every pair of statuses with outcome texts within the bound, every outcome text including those that need escapes",
     why="the relation must be an order for all pairs and the round trip must hold for all texts; tests compare a few constants",
     files=[FE], mechanism=["Status", "Outcome", "PartialOrd for Status", "PartialOrd for Outcome"],
     state=[S("Status", "what a verifier backend tells its frontend")],
     observe="comparison results, JSON texts and the values read back",
     bounds='in one place at a time, any text of 0..24 (thorough 0..40) characters (A); texts of up to 2 characters in comparisons, 3 (thorough 8) plain or 2 (3) escaped characters on the wire; 5 forms of structured details; names near each status and outcome (N) [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='longer texts; other JSON details',
     entries={"c17_order": E("same", "different"), "c17_outcome": E("same", "different"), "c17_wire": E("written"), "c17_escapes": E("escaped"), "c17_info": E("info"), "c17_foreign": E("read", "not read"), "c17_info_wire": E("info"), "c17_near": E("read", "not read")})

prop("C18",
     title="A credential query means exactly what its JSON says, both ways",
     statement="Reading a DCQL query gives exactly the identifiers, formats, metadata, claims, paths, values, claim sets, credential sets and trusted authorities its JSON has, with the specification's defaults for absent members (holder binding required, a single credential, sets required); writing it gives that JSON again, without inventing or dropping members, and so does building the same query by its setters. "
               "JSON that lacks a required member, has one of the wrong type, or has an empty list where none may be, is no query. A non-empty list is never empty, however it is made or changed.",
     over=["inputs", "programs"],
     text="every combination of present and absent members with arbitrary texts, path elements, values, authority types and set sizes within the bounds; every sequence of list edits within the bound",
     why="a product of optional members with arbitrary contents; tests parse a handful of fixed documents",
     files=[DQ, "src/utils.rs", "src/core/credential_format/mod.rs"], mechanism=["DcqlQuery", "DcqlCredentialQuery", "DcqlCredentialClaimsQuery", "DcqlCredentialSetQuery", "TrustedAuthoritiesQuery", "NonEmptyVec"],
     state=[S("dcql_query", "what the verifier asks for")],
     observe="accessors of the query read and the JSON written from it",
     bounds='in one place at a time, any text of 0..24 (thorough 0..40) characters (A); texts of 1..4 characters, any one character (A), non-ASCII, escapes, empty and of 300 characters; paths of up to 3 (thorough 4) elements of 6 kinds, integers at the limits of every width, up to 2 (3) values of 6 kinds, up to 2 claims and 2 sets; one query with every member; 38 families of ill-formed queries; known authority types with any one character replaced; unknown and misspelt members [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='duplicate identifiers and references between members (the code does not check them)',
     entries={"c18_credential": E("read"), "c18_path": E("read"), "c18_values": E("read"), "c18_sets": E("read"), "c18_authorities": E("read"), "c18_setters": E("built"), "c18_replaced": E("replaced"), "c18_nonempty": E("some", "none"), "c18_required": E("ill-formed"), "c18_full": E("read"), "c18_names": E("another name"), "c18_texts": E("read")})

ISO = "src/core/iso_18013_7/mod.rs"
JWE = "src/core/jwe.rs"
SHA = "SHA-256 is treated as a function that maps different inputs to different outputs"

prop("C19",
     title="Handovers and session transcripts are exactly the prescribed CBOR bytes",
     statement="For every client identifier, nonce, key thumbprint (or none) and response URI, the handover is the CBOR array of its type name and the SHA-256 hash of the CBOR array of exactly those values in the prescribed order and types (null without thumbprint), for redirects and for the Digital Credentials API; the session transcript is [null, null, handover]; and encoding, serialization, reading back and equality all agree on those bytes. "
               "Two presentations share a handover only if they agree in all of these values. A handover or transcript of another type is not read as one.",
     over=["inputs"],
     text="every text of the boundary lengths, every thumbprint, every pair of parameter sets and every near-miss type name within the bounds",
     why="device authentication fails or, worse, can be replayed if one byte differs for some input; tests compare the specification's one example",
     files=[ISO], mechanism=["Handover", "DcApiHandover", "SessionTranscript"],
     state=[S("handover_info_hash", "what binds a presentation to its request")],
     observe="the hash, the bytes and the values read back, against an independent CBOR encoder",
     bounds='in one place at a time, any text of 0..24 (thorough 0..40) characters (A); texts of 0, 23, 24, 256 (thorough 0, 1, 22..25, 254..257) arbitrary characters of 90, texts with any character at either end (N) or of several thousand characters, one with a two-byte character; thumbprints of 0, 20 and 32 arbitrary bytes; pairs of texts of up to 1 (3) characters; malformed CBOR of 10 families [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='other texts over 257 characters', assumptions=[SHA],
     entries={"c19_handover": E("plain", "encrypted"), "c19_sizes": E("sizes"), "c19_dc_api": E("plain", "encrypted"), "c19_distinct": E("two sessions"), "c19_read": E("read", "not read"), "c19_equal": E("equal", "different"), "c19_as_given": E("as given"), "c19_malformed": E("malformed")})

prop("C20",
     title="JWK thumbprints are those of RFC 7638, and distinct keys have distinct ones",
     statement="For every elliptic-curve or RSA key, whatever its member values, their order and whatever further members it has, the thumbprint is the SHA-256 hash of the RFC 7638 canonical JSON of exactly the required members (properly escaped). A key of another type, or lacking a required member, or with one that is no string, has none.",
     over=["inputs"],
     text="every member value within the bounds, member orders, further members, key types and missing members",
     why="the value is compared bit by bit by another party and must not collide for different keys; tests use one key",
     files=[ISO], mechanism=["compute_jwk_thumbprint"],
     state=[S("JWK", "the verifier's encryption key")],
     observe="the thumbprint, against an independent canonicalisation",
     bounds='histories of 3 calls of different outcomes; in one place at a time, any text of 0..24 (thorough 0..40) characters (A); coordinates of 1 or 43 (thorough 0..88) and moduli of 1 or 86 (342) base64url characters, values of 2 (3) characters that need escapes, values with any character at either end (N), key types of 2 and 3 letters, members hidden in further objects [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='longer values', assumptions=[SHA],
     entries={"c20_ec": E("thumbprint"), "c20_again": E("thumbprint"), "c20_rsa": E("thumbprint"), "c20_escapes": E("escaped"), "c20_kind": E("known", "unknown"), "c20_missing": E("incomplete"), "c20_as_given": E("as given"), "c20_nested": E("nested")})

prop("C21",
     title="The handover binds the very key the response is encrypted to",
     statement="Whenever the verifier's metadata has a key to which a response can be encrypted, the thumbprint bound into the handover is that of the key the encryption selects. Otherwise it is none or that of a key offered in the metadata and not reserved for signatures; without readable keys in the metadata there is none.",
     over=["inputs", "configurations"],
     text="every list of keys of the modelled kinds, uses and algorithms within the bounds",
     why="two selections made in two places must agree for every list of keys; tests have lists of one key",
     files=[ISO, JWE], mechanism=["get_encryption_jwk_thumbprint", "find_encryption_jwk"],
     state=[S("client_metadata.jwks", "the verifier's keys")],
     observe="the thumbprint and the key selected",
     bounds='in one place at a time, any text of 0..24 (thorough 0..40) characters (A); up to 2 (thorough 3) keys of 3 (4) kinds, 3 uses, 3 algorithms and arbitrary coordinates of 2 characters; two keys of which one is near a usable one (N); 9 (40) keys with the usable one anywhere; 8 forms of metadata without keys [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='other longer lists; keys josekit itself rejects', assumptions=[SHA, "josekit is replaced by a stand-in that reads keys and records encryptions"],
     entries={"c21_agree": E("encrypted", "no usable key"), "c21_none": E("none"), "c21_near": E("encrypted"), "c21_many": E("many")})

prop("C24",
     title="An encrypted response holds the presentation, for the verifier's key only",
     statement="An encrypted response consists of exactly the given presentation and, if given, state, encrypted once, to the first key of the verifier's metadata that is for ECDH-ES on P-256 and not reserved for another use, under a header with that key's algorithm and identifier (if it has one) and the verifier's first content encryption (A128GCM by default). "
               "Without such a key, with unreadable metadata, or when encryption fails, there is no response and nothing is encrypted to any other key. The builder encrypts exactly what it was given, and nothing unless payload, key and a supported algorithm were given.",
     over=["inputs", "configurations", "fault_sequences"],
     text="every list of keys of the modelled kinds, arbitrary identifiers, states, presentations and content encryptions within the bounds, failing encryption",
     why="a response encrypted to the wrong key or under the wrong header is either unreadable or readable by somebody else; the code has no test that runs here",
     files=[JWE, PR], mechanism=["build_encrypted_response", "find_encryption_jwk", "JweBuilder"],
     state=[S("client_metadata", "keys and content encryptions of the verifier")],
     observe="what the encryption library is given and what the response then is",
     bounds='in one place at a time, any text of 0..24 (thorough 0..40) characters (A); up to 2 (thorough 3) keys of 7 kinds, texts of 2 or 3 characters, algorithm, curve and use names of the same length or near (N); one full response of 4 queries with arbitrary, empty, long and non-ASCII texts; 9 (40) keys with the usable one anywhere; payloads with null members [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='josekit itself (replaced by a stand-in that records); cryptography', assumptions=["josekit is replaced by a stand-in that reads keys and records encryptions"],
     entries={"c24_response": E("encrypted", "encryption fails", "no usable key"), "c24_find": E("found", "none"), "c24_near": E("found", "none"), "c24_unreadable": E("unreadable"), "c24_builder": E("built", "not built"), "c24_again": E("given again"), "c24_full": E("full"), "c24_many": E("many")})

prop("C22",
     title="Parameters keep their wire names and forms, and objects hold what was stored",
     statement="Every typed request, response and metadata parameter is read from and written to exactly its registered name and JSON form, for every value, without affecting other members; names with a meaning have it and others are kept as they are; a value of the wrong form is an error, not absent and not a value; a default stands in only for an absent parameter. "
               "Storing, reading and taking out parameters in any order gives what was stored last. A random nonce has the length asked for, only letters and digits, and is made of the randomness given.",
     over=["inputs", "histories"],
     text="every parameter type, every value within the bounds, near-miss names, every wrong JSON type, every sequence of stores and removals within the bound",
     why="a wrong name or form for one value breaks interoperation silently; tests read a few examples",
     files=[PR, "src/core/object/mod.rs", "src/core/metadata/parameters/verifier.rs", "src/core/metadata/parameters/wallet.rs", RP, DQ], mechanism=["TypedParameter", "UntypedObject", "ParsingErrorContext", "Nonce::random"],
     state=[S("UntypedObject", "the JSON object of a request, response or metadata")],
     observe="values read, JSON written, and the whole object after each operation",
     bounds='in one place at a time, any text of 0..24 (thorough 0..40) characters (A); texts of 2 (thorough 3) of 14 characters including those needing escapes, any one character at either end (N), lists of up to 2 (3) texts of up to 2, names with any one character replaced or appended, misspelt member names, 3 (5) operations on 3 parameters, nonces of up to 3 (4) arbitrary characters and of 9 [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside='other longer texts; the quality of the randomness',
     entries={"c22_texts": E("read"), "c22_lists": E("read"), "c22_names": E("read", "not read"), "c22_urls": E("read", "not read"), "c22_structures": E("read"), "c22_wrong": E("not read"), "c22_default": E("present", "absent"), "c22_history": E("stored", "taken"), "c22_nonce": E("nonce"), "c22_as_given": E("read"), "c22_other_names": E("another name"), "c22_client_metadata": E("absent", "present")})

CL = "src/verifier/client.rs"
SG = "src/verifier/request_signer.rs"
MD = "src/core/metadata/mod.rs"
CF = "src/core/credential_format/mod.rs"

prop("C23",
     title="A verifier's clients are who their keys say, and wallets accept their tokens",
     statement="A DID client exists exactly for a verification method that resolves to the signer's own key, and its identifier is decentralized_identifier: and the DID of that method; a DNS client's identifier is x509_san_dns: and a DNS name of its leaf certificate, a hash client's is x509_hash: and the hash of it, and neither exists without such a certificate. "
               "Every token they make has exactly their algorithm, their key identifier or complete chain in order, and the request object type as its header, the given request object as its payload, and the signer's signature over exactly those; a signer without algorithm yields no token. The wallet's default verifications accept these tokens, and the request a wallet accepts is the one the verifier made. The bundled P-256 signer signs exactly what it is given with its own key, whichever of its interfaces is used, and names that key and its algorithm.",
     over=["inputs", "configurations"],
     text="every verification method, DNS name, algorithm, signature and request content within the bounds, all chains of the modelled certificates, matching and other keys",
     why="two sides of a protocol must agree for every name and request; tests sign one request with one client each",
     files=[CL, SG, RB, DIDV, XS, XH], mechanism=["DIDClient", "X509SanDnsClient", "X509HashClient", "P256Signer", "make_jwt"],
     state=[S("Client", "who the verifier claims to be")],
     observe="identifiers, tokens, what is signed, and the verdict of the wallet's verifications",
     bounds='histories of 3 calls of different outcomes; in one place at a time, any text of 0..24 (thorough 0..40) printable ASCII characters but quote and backslash; verification methods of up to 3 (thorough 5) arbitrary characters or with 2 + 0..2 arbitrary ones, DNS names with 2 (6) arbitrary characters, algorithms with 2, signatures of up to 2 arbitrary bytes, chains of up to 3 of 6 certificates, one of 5; two P-256 keys and their variations (missing, different or additional members)',
     outside="verification methods with more than one '#' (no DID URL); other keys",
     entries={"c23_did": E("client", "no client", "signed", "cannot sign"), "c23_any": E("client"), "c23_again": E("again"), "c23_san": E("client", "no client", "signed", "cannot sign"), "c23_hash": E("client", "no client", "signed", "cannot sign"), "c23_p256": E("token"), "c23_jws": E("signed"), "c23_leaf": E("leaf"), "c23_flow": E("accepted"), "c23_chain": E("chain"), "c23_keys": E("the signer's key", "another key")})

prop("C25",
     title="Wallet metadata says the same however it is made, read, extended or written",
     statement="Wallet metadata, whether made, read or converted, reports and writes exactly the endpoint, formats and further members it was given, and the required ones given explicitly win over others. Adding a signing algorithm or client identifier prefixes appends them to the list there is (to the default, if there is none) and changes nothing else; an unreadable list is an error and stays as it is. "
               "The static metadata is the documented one. Without a readable endpoint and formats there is no metadata.",
     over=["inputs", "histories"],
     text="every combination of members, arbitrary texts, every sequence of additions within the bound, every modelled malformed member",
     why="what the wallet announces decides which requests it accepts; a lost or replaced entry shows only for particular histories",
     files=[MD, "src/core/metadata/parameters/wallet.rs", "src/core/object/mod.rs"], mechanism=["WalletMetadata"],
     state=[S("WalletMetadata", "what the wallet announces")],
     observe="accessors and JSON written",
     bounds='in one place at a time, any text of 0..24 (thorough 0..40) characters (A); texts of 2 (thorough 4) characters, any one or two characters (A), non-ASCII, empty, of 300 (3000) characters; every algorithm; 3 endpoints, 2 formats, lists of up to 2 initial entries and 2 (3) additions of up to 2 entries; one document with every member; 14 malformed documents [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside="changing the required members through the untyped object behind the metadata's back",
     entries={"c25_made": E("made", "read", "changed"), "c25_add": E("algorithm", "prefixes"), "c25_unreadable": E("unreadable"), "c25_required": E("no metadata"), "c25_static": E("static", "escapes"), "c25_wide": E("algorithm", "prefixes"), "c25_full": E("full")})

prop("C26",
     title="Credential formats, their methods and presentations are kept as named",
     statement="Every format name, in every conversion, stands for exactly its format, known names for the known ones and all others for themselves, and comes out as it went in. What a format supports and which format a claim has are read, reported and written exactly; a security method is supported exactly if it is listed for that format, and adding one adds it to its own kind of list only. "
               "A presentation is a text or an object and nothing else, and a token holds for each query exactly the presentations last given for it.",
     over=["inputs", "histories"],
     text="every format name within the bounds including near misses of the known ones, every list of methods, every presentation and sequence of insertions within the bounds",
     why="formats decide what is presented and accepted; the conversions must agree for all names",
     files=[CF, "src/core/metadata/parameters/verifier.rs", "src/core/metadata/parameters/wallet.rs", RP], mechanism=["ClaimFormatDesignation", "ClaimFormatPayload", "ClaimFormat", "VpFormats::supports_security_method", "VpFormatsSupported::is_claim_format_supported", "VpToken", "VpTokenItem"],
     state=[S("vp_formats_supported", "formats and methods"), S("vp_token", "presentations by query")],
     observe="values converted, read, reported and written",
     bounds='in one place at a time, any text of 0..24 (thorough 0..40) characters (A); known names with any one character replaced or appended, other names of up to 2 (thorough 4) characters, lists of up to 2 (3) methods of up to 2 characters or near a listed one (N), every subset of 5 formats asked for 40 similar names, presentations of 2 (3) characters including escapes, 2 (3) insertions under 3 query identifiers [A: any printable ASCII character but quote and backslash; N: one character at an end added or any one replaced, by A, any of 64 two-byte or 5 wider characters]',
     outside="other content of ssi's presentation types than one text in three places",
     entries={"c26_names": E("known format", "another format"), "c26_payload": E("added", "not added"), "c26_claim": E("read"), "c26_security": E("supported", "not supported"), "c26_items": E("text", "object"), "c26_ssi": E("ssi"), "c26_token": E("token"), "c26_asked": E("asked"), "c26_methods": E("methods")})

prop("C27",
     title="A whole exchange agrees: what is asked is read, what is answered is judged",
     statement="For a verifier and a wallet that share the means, a request the verifier builds, passed by value or by reference, is accepted by the wallet and read with exactly the verifier's client identifier, nonce, state, query, response mode and that session's response URI; the response the wallet submits reaches the verifier's validator exactly once, intact, with the session it answers; that session ends with the validator's outcome, and the wallet is sent where the verifier says. "
               "No other session is touched at any step, and a reference to a session the verifier does not know is not accepted.",
     over=["inputs", "histories"],
     text="every client identifier, nonce, state and presentation within the bounds, either way of passing the request, each of several outstanding sessions answered, retrieved once or twice, plain or encrypted responses, every outcome",
     why="the guarantee spans the builder, the URL, the fetch, the validation, the submission and the session store; each may be right alone and the whole still disagree",
     files=["src/verifier/mod.rs", "src/verifier/request_builder.rs", "src/verifier/session.rs", AR, "src/wallet.rs", "src/core/response/mod.rs"], mechanism=["Verifier", "RequestBuilder", "AuthorizationRequest", "Wallet", "AuthorizationResponse", "MemoryStore"],
     state=[S("Session", "request, query and status of each session")],
     observe="the request object the wallet validates, the session and response given to the validator, polled statuses, the URL returned, the messages exchanged",
     bounds="client identifiers of 1 (thorough 3) symbolic characters after the prefix, nonces of 2 (3), states of 2 or none, presentations of 2 (4), encrypted responses of 3 (6) characters (letters, digits, - _ .); 1 or 3 outstanding sessions, one answered; 3 outcomes; answers with and without redirect; 3 kinds of unknown reference; for one of client identifier, nonce, state, presentation and encrypted response at a time: texts of 28 characters with both ends symbolic, of 300 (3000), and with characters that need escapes or end in padding, spaces and line ends; 6 further endpoints; a query with credential and claim sets",
     outside="real signatures (the client signs with a fixed text and the wallet's verifier accepts any signed request: C07-C09 and C23 decide those), concurrent steps (C15)",
     entries={"c27_exchange": E("by value", "by reference"), "c27_several": E("once", "twice"), "c27_encrypted": E("sent on", "done"), "c27_unknown": E("unknown"), "c27_wide": E("state", "nonce", "client", "endpoint", "query", "presentation", "encrypted")})

prop("C28",
     title="Nothing a peer sends makes the library panic or run without end",
     statement="Whatever a verifier, a wallet, a link or a fetched document contains (requests, request objects and every parameter of them, token headers, certificates, client metadata and keys, queries, wallet metadata, responses, answers), reading, checking and using it returns: it is accepted or rejected with an error, without panic, overflow, abort or endless loop.",
     over=["inputs"],
     text="every public operation that takes data of a peer, with every parameter in turn replaced by every modelled unexpected text or JSON value",
     why="a panic needs one particular length, character width or shape in one particular place; a wallet or verifier that dies on it is a denial of service",
     files=[AR, "src/core/authorization_request/parameters.rs", "src/core/authorization_request/verification/mod.rs", "src/core/authorization_request/verification/did.rs", "src/core/authorization_request/verification/x509_san.rs", "src/core/authorization_request/verification/x509_hash.rs", "src/core/response/mod.rs", "src/core/dcql_query.rs", "src/core/iso_18013_7/mod.rs", "src/core/jwe.rs", MD, "src/wallet.rs"], mechanism=["AuthorizationRequest", "AuthorizationRequestObject", "verify_request", "AuthorizationResponse", "DcqlQuery", "WalletMetadata", "Wallet::submit_response"],
     state=[],
     observe="that the operation returns",
     bounds="one place at a time, in each place: any one printable character, 20 separators and fragments, runs of 1100 two-byte and 20 four-byte characters at even and odd offsets, 6 DNS clients, 8 URLs, 2000 characters; 19 JSON values of other types, lists and objects of these, nesting of 100; bodies and answers of 2 arbitrary bytes; certificates cut or changed at 28 (thorough: all) offsets; links of 2 (3) and forms of 2 (3) delimiter characters; 150 million instructions per path",
     outside="unexpected values in several places at once; memory use; the panics of a caller's own verifier, store or HTTP client",
     entries={"c28_object": E("object"), "c28_metadata": E("metadata"), "c28_token": E("token"), "c28_bytes": E("bytes"), "c28_header": E("header"), "c28_certificate": E("certificate"), "c28_url": E("url"), "c28_answer": E("answer"), "c28_fetched": E("fetched"), "c28_parts": E("parts"), "c28_response": E("response"), "c28_wallet": E("wallet"), "c28_query": E("query"), "c28_values": E("values")})

prop("C29",
     title="The bundled HTTP client passes request and answer on unchanged",
     statement="The HTTP client that comes with the library (ReqwestClient) sends each request it is given exactly once, to that address, with that method, protocol version, headers (repeated ones included) and body, over a client that checks the server's certificate; a request without an absolute address is an error and nothing is sent. "
               "What it returns is exactly the answer: its status whatever it is, protocol version, headers (repeated ones included, in order), extensions and every byte of the body. An exchange that fails, or whose body cannot be read to the end, is an error and never a shortened or empty answer; a client that cannot be built is an error.",
     over=["inputs", "fault_sequences"],
     text="every status, version, header set and body within the bounds, bodies in pieces, breaking off after any of them, failing exchanges",
     why="every retrieval of a request and every delivery of a response goes through it, yet no test can talk to a server here; a lost repeated header, an error status turned into an error, or a truncated body goes unseen",
     files=["src/core/util/mod.rs"], mechanism=["ReqwestClient::new", "ReqwestClient::execute"],
     state=[],
     observe="what reqwest's client was asked to send, and the response returned",
     bounds="methods: 9 common and any of 2 (thorough 4) characters; 5 protocol versions; status 100 to 999; up to 3 header fields over 4 (12) names, repeated or not, values of 0-2 characters over visible, blank and opaque bytes; bodies of up to 2 (3) pieces of up to 2 (3) bytes out of 8 values (thorough: any), and of 9000 (70000) bytes; addresses with 2 (3) delimiter characters in path or query",
     outside="reqwest, TLS and the network themselves (a recording stand-in with reqwest's interface takes their place); redirections, timeouts and proxies, which are reqwest's",
     assumptions=["the stand-in for reqwest behaves as reqwest documents it: a request keeps its method, address, headers, version and body; reading a body gives its bytes in order or an error"],
     entries={"c29_request": E("sent"), "c29_headers": E("sent"), "c29_url": E("sent"), "c29_nowhere": E("nowhere"), "c29_status": E("status", "redirection", "error status", "answered"), "c29_fields": E("answered", "repeated"), "c29_body": E("answered", "broken off"), "c29_long": E("answered", "broken off"), "c29_failure": E("failed"), "c29_client": E("cannot be built", "used again")})

NOT_APPLICABLE = []

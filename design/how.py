"""Per property: what the harness makes symbolic and what it compares the code against (for DESIGN.md)."""
HOW = {
"C01": "A recording wallet implements every verification method (it notes method, prefix argument, request object and token, and answers a chosen verdict). `AuthorizationRequest::validate` runs on a request whose client identifier is symbolic text, by value, by reference (scripted HTTP client) or unwrapped. Oracle: a five-line restatement of 'text before the first colon' over the same symbolic text; the recorded call list has to be exactly the one prescribed, the recorded object and token have to equal the inputs, and the result has to be the verdict. `c01_unimplemented` does the same with a wallet that implements nothing.",
"C02": "Same wallet, with a symbolic `client_id_prefixes_supported` list in its metadata (number, lengths and characters of entries symbolic) and a symbolic prefix. Oracle: exact list membership as one formula. Accepted and consulted must both equal it. Absent and unreadable lists have their own entries.",
"C03": "Outer and inner client identifiers are independent symbolic texts (equal length or not). Oracle: acceptance iff byte equality, as one formula; the accepted object's identifier and the recorded calls are compared as well. Inner identifier absent / not text: must be rejected with nobody consulted.",
"C04": "The token's `typ` header is symbolic text; the outer client identifier is symbolic around `redirect_uri:`. Oracle: accepted iff typ is the registered text or (relaxed) the identifier starts with that prefix and the request object names the same client; nobody consulted otherwise. Malformed tokens by enumeration of families with symbolic parts.",
"C05": "Verifier keys (use, alg), both parties' algorithm and encryption lists are symbolic texts with symbolic presence. Oracle: the statement written as a quantifier-free formula over those texts.",
"C06": "The members of a request object (mode, type, nonce, targets, state, …) are present/absent/ill-typed by choice and symbolic text otherwise. Oracle: the mode × target matrix and equality of every getter, of serialization and of conversion with the input text.",
"C07": "`verify_with_resolver` runs with symbolic client, `kid`, trusted list, algorithm list; a recording resolver returns a key or fails. Oracle: the conjunction in the statement, and the resolver's log has to contain exactly the one key identifier. The signature part uses real ES256 keys with concrete bytes changed at chosen positions.",
"C08": "Certificates are DER templates into which symbolic DNS names are spliced (x509-parser code runs symbolically on them); a recording signature verifier notes key, algorithm, payload and signature it is given, with a chosen verdict. Oracle: membership of the client text in the leaf's DNS names ∧ algorithm listed ∧ verdict, and the recorded arguments equal the inputs. `c08_p256*` use the library's real P-256 verifier.",
"C09": "As C08 with the SHA-256/base64url hash of the leaf as the only acceptable client text.",
"C10": "A scripted HTTP client records requests; response URI, presentation, state, answer status (all of 100..999 as one symbolic number) and answer body are symbolic. Oracle: exactly one POST with exactly that URI, headers and a form that decodes (own decoder) to the response; result as a function of status and body.",
"C11": "Presentations, query ids, state and token are symbolic text over characters that form- and JSON-encoding treat differently. The wire form is decoded by an own decoder and by the library; both have to give back the inputs.",
"C12": "As C11 for `to_url`/`from_url`; endpoint comparison with symbolic authorities and paths, and the wallet's HTTP log has to stay empty for foreign URLs.",
"C13": "Scripted HTTP client; URI, answer token, status symbolic; answers near a readable one (any character around or inside). Oracle: exactly one GET of exactly the reference; object and token equal to what was served; nothing consulted on failure.",
"C14": "`RequestBuilder` with a recording signer/client and a recording, possibly failing store; configuration symbolic. Oracle: the signed JSON (decoded by an own decoder) has exactly the expected members; the URL, the stored session and the signed token agree; on any failure the store's log is empty and no URL is returned.",
"C15": "`Verifier` over a store stand-in whose operations suspend; the harness polls the futures itself. Sequence of operations, interleaving (which future is polled next), abandonment point and failing access are symbolic choices; so are session identifiers. Oracle: a reference model of the session map that is stepped with the same operations.",
"C16": "`MemoryStore` driven by a symbolic operation sequence over symbolic identifiers; oracle: an association list.",
"C17": "Statuses with symbolic contents are compared in all relations and written/read. Oracle: rank table and expected JSON text.",
"C18": "Queries assembled as JSON text with symbolic texts and chosen structure, read and written by the library and built by its setters. Oracle: expected JSON and getter values; ill-formed families must be refused.",
"C19": "Handovers over symbolic texts and thumbprints; oracle: an own CBOR encoder plus SHA-256 as the same (uninterpreted, injective) function on symbolic bytes, so equality of hashes is equality of the CBOR input.",
"C20": "Keys with symbolic members, order and additional members; oracle: own canonical JSON of the required members hashed by the same function.",
"C21": "`jwe.rs` (compiled against the josekit stand-in) selects a key; `get_encryption_jwk_thumbprint` on the same request. Oracle: the two have to agree.",
"C22": "Every typed parameter: symbolic value in, `get`/`insert`/`remove`/conversion out, compared with the JSON text; wrong forms by families; histories of operations by symbolic choice.",
"C23": "The clients with a recording signer and resolver; verification methods, DNS names, algorithms, signatures symbolic; tokens decoded by an own decoder; `c23_flow` feeds a produced token to the wallet side.",
"C24": "`jwe.rs` with the recording josekit stand-in: header, payload and key of each encryption are compared with the request's metadata and the given presentation.",
"C25": "Metadata made, read and extended with symbolic texts; oracle: expected JSON text and getters.",
"C26": "Format names, payloads, claims, presentations and tokens with symbolic text; oracle: the registered names and expected JSON.",
"C27": "A real `Verifier` with `MemoryStore` and a wallet, joined by a stand-in network that routes GET to `retrieve_authorization_request` and POST to `verify_response`; client, nonce, state, presentation symbolic. Oracle: the values configured, the presentation given, the status table.",
"C28": "Every operation on peer data is run with each parameter in turn replaced by an unexpected text (symbolic characters, multi-byte runs at every offset, long) or JSON value. Oracle: reaching a panic, abort, out-of-bounds access or (natively confirmed) endless run is the violation; anything returned is right.",
"C29": "src/core/util is compiled, unchanged, against a stand-in with reqwest's interface that records what would be sent and answers as told; status, header values, bodies and addresses are symbolic, the pieces of a body and the place where it breaks off chosen. Oracle: what was sent and what came back equal what was given, field by field; a broken exchange or body is an error.",
}

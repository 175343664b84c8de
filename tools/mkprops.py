import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],state=state or [],hook_needed=None)))
p("C01","Every signature the signer produces is accepted by the verifier",
 "For every message and every supported signing configuration for which signing succeeds, putting the produced header field in front of the unmodified message and validating it with the matching public key succeeds: the body hash matches, and the header signature verifies. This holds for LF and CRLF messages, empty and missing bodies, folded and repeated header fields, all canonicalization combinations, both key types, body length limits, oversigned fields, identities, timestamps and DKIM as well as ARC signatures, for every message whose From field is among the signed fields (a signature that does not cover From is never acceptable) and which starts with a header field.",
 ["inputs","configurations"],"all messages x all signing options accepted by the signer",
 "SignatoryTest signs two fixed messages with one header field and default canonicalization; agreement of two separately written code paths (signing and verification) on every message shape is a relation over all inputs.",
 ["src/Signatory.cpp","src/Validatory.cpp","src/Signature.cpp","src/Canonicalization.cpp","src/MailParser.cpp"],
 [("CreateSignature","src/Signatory.cpp"),("CheckBodyHash/CheckSignature","src/Validatory.cpp"),("Parse","src/Signature.cpp")],["CreateSignature return value","GetSignature/CheckSignature return or throw"])
p("C02","A changed body, header field or signature tag never verifies",
 "If the canonicalized body (within l=), any header field occurrence selected by h=, or the signature header field itself apart from its b= value differs from what was signed, validation does not succeed: it fails with an authentication result of fail or permerror. In particular adding a field listed in h= more often than it occurs, or removing, altering or swapping a signed occurrence, is always detected.",
 ["inputs","fault_sequences"],"all messages x all single- and multi-byte modifications, insertions and removals of signed content",
 "No existing test verifies a modified message at all; rejection of every tampered variant is a universal statement over pairs of messages.",
 ["src/Validatory.cpp","src/Canonicalization.cpp","src/Signature.cpp"],
 [("body hash comparison","src/Validatory.cpp CheckBodyHash"),("header hash and signature verification","src/Validatory.cpp CheckSignature")])
p("C03","Verification hashes exactly the header input RFC 6376 prescribes",
 "The header signature is verified over exactly: for each name in h= in order (case-insensitively) the last not yet used field of that name in its canonical form plus CRLF, names with no field left contributing nothing, followed by the signature field itself in canonical form with the b= value and the white space surrounding it removed and no trailing CRLF. A signature made by any conforming signer over that input is accepted whatever the position and folding of b=, and a signature over any other input is rejected.",
 ["inputs"],"all messages, h= lists, tag orders and foldings of the signature field",
 "The test-suite only verifies signatures made by this library's own signer, where b= is always last and never surrounded by white space; the definition quantifies over every layout a foreign signer may choose.",
 ["src/Validatory.cpp","src/TagList.cpp","src/Canonicalization.cpp"],
 [("header selection from the bottom","src/Validatory.cpp CheckSignature"),("b= removal","src/Validatory.cpp CheckSignature"),("value offset","src/TagList.cpp")])
p("C04","Body canonicalization yields exactly the RFC 6376 simple/relaxed form",
 "For every body, canonicalization emits: lines terminated by LF or CRLF re-terminated with CRLF (carriage returns are never content), trailing empty lines reduced so that the output ends in exactly one CRLF; in simple mode nothing else is changed and an empty body becomes CRLF; in relaxed mode every run of spaces and tabs inside a line becomes one space, white space at line ends is dropped, and a body with no remaining content becomes empty. The result does not depend on how the input falls into read buffers or on the position of the body in the message.",
 ["inputs"],"all byte strings as body, all body offsets, both modes",
 "CanonicalizationTest samples three bodies far smaller than the 8096 byte read buffer; state carried across buffers and every order of CR, LF, space, tab and text cannot be sampled.",
 ["src/Canonicalization.cpp"],[("CanonicalizationBody","src/Canonicalization.cpp")],["bytes passed to the output callback"])
p("C05","The body length limit hashes exactly the first l= canonical octets",
 "With a body length limit of n, canonicalization emits exactly the first min(n, total) octets of the unlimited canonical body, and reports whether at least n octets were available. Signing with a limit greater than the canonical body length is refused; otherwise l= in the signature equals the requested limit and content appended beyond it does not affect validation, while any change within it does.",
 ["inputs"],"all bodies, all limits, both modes, limits inside any read buffer",
 "SignTest only uses limit 0; the limit interacts with pending blank lines, pending white space, the final CRLF and buffer boundaries.",
 ["src/Canonicalization.cpp","src/Signatory.cpp","src/Validatory.cpp"],[("bodyLimit handling","src/Canonicalization.cpp CanonicalizationBody"),("limit refusal","src/Signatory.cpp CreateSignature")])
p("C06","Header canonicalization yields exactly the RFC 6376 simple/relaxed form",
 "Simple header canonicalization returns every field unchanged. Relaxed canonicalization lower-cases the name (and nothing else), removes folding line breaks, replaces every run of white space by one space, drops white space at the end of the value and around the colon, and keeps all other octets; it is idempotent and fails with a permanent error only for a missing colon or a carriage return without line feed.",
 ["inputs"],"all header fields (name, colon, value with any folding)",
 "CanonicalizationTest samples six headers; every interleaving of CR, LF, WSP, colon and text must be right.",
 ["src/Canonicalization.cpp","src/Tokenizer.cpp"],[("FilterHeader","src/Canonicalization.cpp"),("ReadWhiteSpace","src/Tokenizer.cpp")])
p("C07","Messages are split into header fields and body without loss",
 "For every byte stream the parser yields the header fields in order, each being its lines joined by CRLF (one line-end CR removed per line, white-space-led lines continuing the previous field), with name equal to the text before the first colon stripped of surrounding spaces and tabs and value offset just past that colon, and reports the body as starting right after the first empty line, or as absent when there is none. LF and CRLF line ends give the same fields.",
 ["inputs"],"all byte streams",
 "MailParserTest samples five messages; mixes of CR, LF, colon and white space at every position including end of stream are unsampled.",
 ["src/MailParser.cpp"],[("Message::ParseLine","src/MailParser.cpp"),("Header::ParseLine","src/MailParser.cpp")],["GetHeaders","GetName","GetValueOffset","GetBodyOffset"])
p("C08","Tag lists are accepted, rejected and decoded exactly by the grammar",
 "A tag=value list is accepted exactly when it is a semicolon separated list of [FWS] name [FWS] = [FWS] value [FWS] with alphanumeric/underscore names, values of printable ASCII other than semicolon with inner white space, and no duplicate name; otherwise a permanent error is raised. Each accepted tag reports its value without surrounding white space and with inner white space intact, and the offset at which that value starts in the input; names that do not occur are reported as absent.",
 ["inputs"],"all byte strings",
 "TagListTest has ten strings and never checks offsets or duplicates.",
 ["src/TagList.cpp"],[("TagList::Parse","src/TagList.cpp"),("TagList::GetTag","src/TagList.cpp")])
p("C09","A signature field is accepted only with valid mandatory tags",
 "Parsing a signature field succeeds only if d, a, b (non-empty), bh, h and s are present, v is exactly 1 (DKIM only), a is rsa-sha1, rsa-sha256 or ed25519-sha256, c names known canonicalizations (body defaulting to simple), h lists From, i (DKIM) is an address within d or one of its sub-domains, i (ARC) is an instance from 1 to 50, q if present lists dns/txt (unrecognized query methods are ignored) and x if present has not passed; the accessors then report exactly the values of those tags. Everything else is rejected with a permanent error.",
 ["inputs"],"all signature fields, all clock values",
 "No test parses a signature field other than the signer's own output; acceptance conditions are over every combination of present, absent, malformed and borderline tags.",
 ["src/Signature.cpp"],[("Signature::Parse","src/Signature.cpp")],["Signature accessors","exception"])
p("C10","Numeric signature tags are exact decimals, independent of process state",
 "The body length tag l= is accepted only as 1 to 76 decimal digits whose value fits, and then limits the body to exactly that value; anything else (empty, signed, trailing text, out of range) is a permanent error. The ARC instance i= and the expiration x= likewise are decimal digits only, with exactly that value. The outcome of parsing a signature field depends only on the field and the clock, never on errno or on earlier calls.",
 ["inputs","histories"],"all l= values up to and beyond 76 characters, all prior errno values",
 "No test uses l= with anything but 0, and errno is 0 in a fresh test process.",
 ["src/Signature.cpp"],[("strtoul and errno handling","src/Signature.cpp Parse")])
p("C11","Public key records are accepted exactly when usable, with exact contents",
 "A key record is accepted only if v, when present, is DKIM1, k is rsa (default) or ed25519, p is present, non-empty and decodes to a key of that type (RSA SubjectPublicKeyInfo, or exactly 32 octets), and h and s, when present, name at least one supported hash respectively the e-mail service or *. The accessors report exactly the hash algorithms, key type, flags and testing mode the record states, and unknown tags, hashes and services are ignored.",
 ["inputs"],"all key records",
 "The only record tests parse is one fixed RSA record; no test has h=, k=, s=, an empty p= or an ed25519 key.",
 ["src/PublicKey.cpp","src/PublicKey.hpp"],[("PublicKey::Parse","src/PublicKey.cpp")])
p("C12","A key is used only for the algorithms and identities it permits",
 "Validation fails with a permanent error, without accepting any signature, when the key record restricts hash algorithms and the signature's hash is not among them, when the key type differs from the signature algorithm, or when the record has flag s and the signature identity's domain is not exactly d (DKIM signatures only). Otherwise the outcome is decided by the signature primitive alone.",
 ["inputs","configurations"],"all combinations of key record restrictions, signature algorithms, identities and signature kinds",
 "Tests use a single key with a single matching algorithm and t=s with equal domains.",
 ["src/Validatory.cpp"],[("sanity checks in CheckSignature","src/Validatory.cpp")])
p("C13","Key lookup asks the right name and maps each DNS outcome correctly",
 "Fetching the key queries exactly <selector>._domainkey.<domain> once through the configured resolver (custom if set, system otherwise) with the user's data pointer; a resolver failure raises a temporary error, an empty answer a permanent error, and any other answer is parsed as a key record. No key is ever reported when the lookup failed.",
 ["inputs","fault_sequences"],"all selectors, domains, resolver outcomes and answers",
 "No test performs a key lookup.",
 ["src/Validatory.cpp","src/Resolver.cpp"],[("GetPublicKey","src/Validatory.cpp")])
p("C14","DNS answers are decoded exactly and never read out of bounds",
 "For every resolver response of any length and content, decoding terminates, reads nothing outside the response, and either reports failure or returns exactly the concatenated character strings of the TXT answer records (skipping others such as CNAME); 'no such name', 'no data' and non-recoverable answers report success with an empty result, and only transient failures report failure.",
 ["inputs","fault_sequences"],"all response buffers, lengths and resolver error codes",
 "The resolver is not covered by any test; it parses attacker-controlled binary data.",
 ["src/Resolver.cpp"],[("Resolver::GetTXT","src/Resolver.cpp")])
p("C15","Quoted-printable round-trips and rejects everything malformed",
 "Encoding any octet string gives only printable ASCII without space, '=' (other than as escape) and ';', and decoding it gives back the original. Decoding accepts exactly literal printable characters, =XX with upper-case hex, ignorable folding white space and, in encoded-word mode, '_' for space; anything else is a permanent error.",
 ["inputs"],"all octet strings, both decoding modes",
 "QuotedPrintableTest decodes ten strings and never calls the encoder.",
 ["src/QuotedPrintable.cpp"],[("QuotedPrintable::Encode/Decode","src/QuotedPrintable.cpp")])
p("C16","Base64 conversion is complete and loss-free at every length",
 "Encoding yields the full RFC 4648 encoding on one line and decoding it returns the original octets, for data of any length, including lengths beyond the internal read buffers and data containing NUL or newline octets; nothing is dropped, duplicated or inserted where internal buffers end.",
 ["inputs"],"all octet strings, all splits into internal reads",
 "Base64Test stays below one read buffer (256/1024 octets).",
 ["src/Base64.cpp"],[("Base64_Encode/Base64_Decode read loops","src/Base64.cpp")])
p("C17","Encoded words are decoded per RFC 2047, other text is preserved",
 "Decoding a header value replaces each well-formed encoded word with encoding q or b that is followed by white space or the end by its decoded octets, removes line breaks, leading and trailing white space and the white space in front of an encoded word, and keeps everything else verbatim, malformed encoded words included (text that begins like an encoded word is kept up to where it turns out not to be one). It fails only for a carriage return without line feed.",
 ["inputs"],"all header values",
 "EncodedWordTest has 18 strings; malformed and truncated words at every position are unsampled.",
 ["src/EncodedWord.cpp"],[("EncodedWord::Decode","src/EncodedWord.cpp")])
p("C18","Address lists never yield an address hidden in quotes or comments",
 "Parsing an address list returns for each 'display-name <addr>' exactly addr with comments and folding white space removed, for each bare address that address, treats separators, angle brackets and addresses inside quoted strings and (nested, escaped) comments as text, and rejects unterminated quotes, comments, escapes and angle brackets and NUL with a permanent error. Any octet, including 0xFF and every quoted-pair, may occur in quoted strings and comments. An item that consists of a quoted string only is read as an address list itself; text behind the last closing angle bracket and bare addresses with inner white space or comments are not covered.",
 ["inputs"],"all address list values",
 "TokenizerTest has a dozen lists; escapes, nesting and non-ASCII octets at every position are unsampled.",
 ["src/Tokenizer.cpp"],[("NextAddressListToken","src/Tokenizer.cpp"),("ParseAddressList","src/Tokenizer.cpp")])
p("C19","Colon separated lists are split exactly",
 "Splitting a colon separated list yields its items in order with surrounding folding white space removed and inner white space kept; an empty item is a permanent error, an empty list and one trailing colon are accepted.",
 ["inputs"],"all list strings",
 "TokenizerTest samples six lists.",
 ["src/Tokenizer.cpp"],[("ValueList","src/Tokenizer.cpp")])
p("C20","Reading white space consumes exactly the white space it reports",
 "Each white space read consumes and returns exactly the longest prefix of its class (one CRLF, one space/tab, one space/tab/CR/LF, or folding white space) and otherwise returns nothing and leaves the stream position and readability unchanged, even when a line break turns out not to be a fold; only a carriage return without line feed is an error.",
 ["inputs","histories"],"all streams, positions and sequences of reads",
 "testReadWhiteSpace samples eleven streams and seldom checks what remains in the stream.",
 ["src/Tokenizer.cpp"],[("ReadWhiteSpace with unwind","src/Tokenizer.cpp")])
p("C21","Signing domains and selectors are accepted only as valid host names",
 "Setting a domain or selector succeeds exactly when it is one or more dot separated non-empty labels of letters, digits and inner hyphens; otherwise a permanent error is raised and the previous value stays; oversigned names are accepted exactly when each is non-empty and has only printable octets other than colon and semicolon. Consequently no signing option can break out of its tag in the produced header.",
 ["inputs"],"all strings",
 "Only halon.se and dkim-test are ever set.",
 ["src/Util.cpp","src/SignatoryOptions.cpp"],[("ValidateDomain","src/Util.cpp"),("SetDomain/SetSelector","src/SignatoryOptions.cpp")])
p("C22","The produced signature field states exactly the configured signature",
 "The produced field is a well-formed tag list whose a, c, d, s, i, l, t, x and ARC i tags state exactly the configured (or default) values of that signature, each optional tag present only when configured, whose h= lists exactly the selected fields present in the message from last to first followed by the oversigned names, and whose lines are folded without changing any value. No message content or identity can add or alter a tag.",
 ["inputs","configurations"],"all option settings, messages and clock values",
 "SignTest never inspects the produced field.",
 ["src/Signatory.cpp","src/Util.cpp"],[("header assembly and folding","src/Signatory.cpp CreateSignature")])
p("C23","Each of several signatures is independently valid",
 "When additional signatures are configured, the result consists of one field per configured signature, in reverse order of configuration separated by CRLF, each naming its own domain, selector and algorithm, and each verifies on its own with its own key, whatever mix of RSA and Ed25519 keys is used.",
 ["configurations","inputs"],"all combinations of primary and additional signature settings",
 "No test configures an additional signature.",
 ["src/Signatory.cpp","src/SignatoryOptions.cpp"],[("loop over additional signatures","src/Signatory.cpp CreateSignature")])
p("C24","Signer, verifier and parsers give the same answer however often used",
 "Signing the same message again with the same object, and checking any sequence of signatures of one message with one verifier object in any order and any number of times, gives the same outcome as with a fresh object; no call leaves state behind that changes a later call.",
 ["histories"],"all sequences of sign/verify calls on one object",
 "Tests sign once per object; stream position and parser state left behind by earlier calls are not exercised.",
 ["src/Signatory.cpp","src/Validatory.cpp","src/MailParser.cpp"],[("message parsing on first use","src/Signatory.cpp"),("seek to body","src/Canonicalization.cpp"),("Reset","src/Signature.cpp, src/PublicKey.cpp")])
p("C25","Hostile input never crashes, hangs or corrupts memory",
 "For every message, signature field, key record and signature or key data of any length, every entry point terminates and either returns or throws a library error; no out-of-bounds or dangling access, undefined arithmetic, other exception or endless loop occurs. This includes signature data shorter than the primitive expects and missing private keys.",
 ["inputs","fault_sequences"],"all byte strings through every public entry point",
 "Unit tests only feed well-formed small inputs and are not run with memory checking.",
 ["src/Validatory.cpp","src/Signatory.cpp","src/Tokenizer.cpp","src/TagList.cpp","src/EncodedWord.cpp","src/QuotedPrintable.cpp"],[("length checks before crypto calls","src/Validatory.cpp, src/Signatory.cpp"),("EOF handling in every parse loop","src/*.cpp")])
p("C26","Keys and crypto objects are released exactly once on every path",
 "Every crypto object the library creates (digest contexts, BIOs, parsed keys) is released exactly once on every path including all error paths, and a caller supplied RSA key is released exactly when the caller handed over ownership; replacing a key releases the previous one. The failures considered are those of parsing keys and of signing, not of memory allocation.",
 ["histories","fault_sequences"],"all sequences of key setting, signing and parsing calls with any crypto call failing",
 "Tests neither fail crypto calls nor track object lifetimes.",
 ["src/SignatoryOptions.cpp","src/PublicKey.cpp","src/Signatory.cpp","src/Validatory.cpp","src/Base64.cpp"],[("RSA ownership flag","src/SignatoryOptions.cpp"),("PublicKey::Reset","src/PublicKey.cpp"),("unique_ptr digest contexts","src/Signatory.cpp, src/Validatory.cpp")])
p("C27","DKIM and ARC signatures are never confused",
 "A verifier for DKIM considers exactly the DKIM-Signature fields and one for ARC exactly the ARC-Message-Signature fields, in message order and irrespective of letter case, and a verifier of kind none considers no field; the kind of a parsed signature follows from its field name alone.",
 ["inputs","configurations"],"all messages x verifier kinds",
 "Tests only use the default kind with one signature field.",
 ["src/Validatory.cpp","src/Signature.cpp"],[("signature collection","src/Validatory.cpp constructor"),("ARC detection","src/Signature.cpp Parse")])
p("C28","Failures carry the authentication result that fits their cause",
 "A body hash or signature mismatch reports fail, every other permanent error permerror and a DNS failure temperror; a success is reported only when both the body hash and the header signature have been checked against the same message.",
 ["inputs","fault_sequences"],"all failure causes",
 "No test looks at authentication results.",
 ["src/Exception.hpp","src/Validatory.cpp"],[("getAuthenticationResult","src/Exception.hpp"),("AR_FAIL throw sites","src/Validatory.cpp")])
p("C29","The command line tool signs and validates faithfully",
 "For every argument vector and every file content the tool ends with status 0, 1 or 2 and never crashes. However its options are spelled (short, attached, long, in any order around the operands) signing prints exactly the field the library produces for the given selector, domain, key file contents, key type and ARC instance, followed by CRLF, with status 0, or reports the refusal on the error stream with status 1 and prints nothing; help goes to the output with status 0; unknown, missing or incomplete options give the usage on the error stream with status 2. Validation prints one line per signature field of the chosen kind of every file, in order, naming that file, domain and selector, with OK exactly when the library accepts that signature with its key, and otherwise that signature's authentication result, marked soft when its key is in testing mode.",
 ["inputs","configurations"],"all argument vectors x file contents x key lookup outcomes",
 "The tool has no tests at all.",
 ["tools/src/main.cpp"],[("option table and getopt loop","tools/src/main.cpp main"),("signing branch","tools/src/main.cpp main"),("validation loop","tools/src/main.cpp main")])
p("C30","Signing options hold exactly what was configured",
 "After any sequence of setter calls every getter reports the last value set, or the default when none was set, and no call changes another option or another signature's settings; a refused value leaves the previous one. Setting a header list replaces it, adding appends to it and deleting removes every equal name, and exactly the fields of the message named in it are signed; by default every occurrence of the fields RFC 6376 recommends is signed, with sha256 and without l=, t=, x= and i=. A private key is accepted in each documented form (PEM or base64 DER for RSA, 32 octet seed or 64 octet secret key, raw or base64, for Ed25519), all forms of a key make the same signature, and any other key data is a permanent error.",
 ["histories","configurations"],"all sequences of setter calls with arbitrary values",
 "The one signing test sets each option once and never deletes or adds headers.",
 ["src/SignatoryOptions.cpp","src/SignatoryOptions.hpp","src/Signatory.cpp"],[("setters and default header list","src/SignatoryOptions.cpp"),("key forms","src/SignatoryOptions.cpp SetPrivateKey"),("header selection","src/Signatory.cpp")])
p("C31","Threads using their own objects do not interfere",
 "Calls made by several threads at the same time on objects of their own (messages, verifiers, signers, options, signatures, keys), and calls that only read the same constant options, signature, key or header, give the results the same calls give when made one after another; the library makes no unsynchronised access to memory another thread may use, whatever the inputs. Mail systems verify and sign many messages in parallel.",
 ["schedules","inputs"],"all schedules of two threads, each with an arbitrary call on arbitrary input",
 "The tests run single-threaded; a race shows on few schedules only.",
 ["src/Validatory.cpp","src/Signatory.cpp","src/Util.cpp","src/DNSResolver.cpp","src/Signature.cpp","src/PublicKey.cpp"],[("static data of the library","src/Util.cpp, src/QuotedPrintable.cpp, src/EncodedWord.cpp"),("resolver state","src/DNSResolver.cpp"),("const access to options, signature and key","src/SignatoryOptions.hpp, src/Signature.hpp, src/PublicKey.hpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

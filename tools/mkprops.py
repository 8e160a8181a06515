#!/usr/bin/env python3
# Source of truth for /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
I=["inputs"]
p("C01","Signed checked arithmetic is exact or fails",
 "For all int64 operands, signed Add, Sub, Mul, Div, Mod, DivMod and MulDiv either return the mathematically exact result (division truncates toward zero, remainder keeps the dividend's sign, MulDiv multiplies before dividing) or return an error. They return an error exactly when the divisor is zero or the exact result does not fit in int64; they never wrap and never panic.",
 I,"all int64 operand pairs / triples",
 "The package is not even compiled by the stable suite here; its tables sample a few dozen operand tuples out of 2^128-2^192, none systematically at the wrap/error boundary.",
 ["pkg/signed/math.go","pkg/ndauerr/errors.go"],[("decimal-backed operations with Int64() range check","pkg/signed/math.go")])
p("C02","Unsigned checked arithmetic is exact or fails",
 "For all uint64 operands, unsigned Add, Sub, Mul, Div, Mod, DivMod and MulDiv either return the mathematically exact result (truncating division, multiply before divide) or return an error. They return an error exactly when the divisor is zero or the exact result is negative or does not fit in uint64; they never wrap and never panic.",
 I,"all uint64 operand pairs / triples",
 "Not compiled by the stable suite; tables sample a handful of tuples.",
 ["pkg/unsigned/math.go","pkg/ndauerr/errors.go"],[("decimal-backed operations with Uint64() range check","pkg/unsigned/math.go")])
p("C03","Fixed-point e^x is total, bounded and accurate",
 "ExpFrac (signed and unsigned) computes denominator*e^(numerator/denominator) for every fraction between 0 and 1: it terminates, never panics, never returns a value below denominator+numerator, and agrees with the Taylor series of e^x to within a few units in the last place. It returns an error, not a value, for a fraction above 1, a negative operand or a denominator beyond the documented limit.",
 I,"all (numerator, denominator) pairs in the documented range",
 "Tests sample a few fractions; the loop's trip count and the factorial's width depend on the input.",
 ["pkg/unsigned/exp.go","pkg/signed/exp.go"],[("Taylor loop with MulDiv and a running factorial","pkg/unsigned/exp.go")])
p("C04","Integer natural log is the exact floor",
 "LnInt(x) equals floor(ln x) for every x from 1 to 2^64-1, is -1 for 0, never decreases as x grows, and never panics.",
 I,"all uint64 inputs","2^64 inputs; tests look at values next to a few powers of e.",
 ["pkg/unsigned/log.go"],[("precomputed bounds table and linear scan","pkg/unsigned/log.go")])
p("C05","Ndau amounts add, subtract and order without wrapping",
 "Adding or subtracting two Ndau amounts gives the exact sum or difference or an error, never a wrapped amount; Compare is the numeric order (antisymmetric, transitive, zero only for equal amounts); Abs returns the magnitude for every amount except the documented minimum value.",
 I,"all pairs/triples of int64 amounts","Unit tests sample a few amounts.",
 ["pkg/types/ndau.go"],[("delegation to checked signed arithmetic","pkg/types/ndau.go")])
p("C06","Ndau text is faithful and parsing inverts it",
 "The text of an Ndau amount denotes exactly that amount (sign, whole and fractional part), and parsing the text of any non-negative amount gives the amount back. Parsing never silently wraps: an accepted string always yields the amount it denotes, and strings whose value cannot be represented are rejected.",
 I,"all int64 amounts; all strings up to the stated length",
 "2^63 amounts and unboundedly many strings; tests sample under twenty.",
 ["pkg/types/ndau.go"],[("String formatting, anchored regexp and integer recombination","pkg/types/ndau.go")])
p("C07","Duration text round-trips and never wraps",
 "Parsing the text of a Duration gives back the same Duration, for every Duration. Parsing any accepted duration string yields the exact signed sum of its components; strings whose value cannot be represented are rejected rather than wrapped, and nothing panics.",
 I,"all int64 durations; all strings up to the stated length",
 "2^64 durations and unboundedly many strings; tests use a short table.",
 ["pkg/types/duration.go","pkg/constants/constants.go"],[("unit extraction in String, named groups in DurationRE","pkg/types/duration.go")])
p("C08","Timestamp arithmetic saturates and orders totally",
 "Adding a Duration to, or subtracting one from, a valid Timestamp gives the exact result clamped to the range from the epoch to the maximum timestamp; Since is the exact inverse (later.Since(earlier) added to earlier gives later); Compare agrees with numeric order.",
 I,"all valid timestamps and all int64 durations","Overflow cases are a vanishing share of inputs; tests sample a few.",
 ["pkg/types/timestamp.go"],[("sign test on the wrapped sum","pkg/types/timestamp.go")])
p("C09","Timestamps convert to and from calendar time losslessly",
 "For every timestamp within the supported calendar range, converting to a time and back gives the same timestamp; a time before the epoch is rejected; later times never give earlier timestamps.",
 I,"all timestamps in the supported range","Tests use a few dates.",
 ["pkg/types/timestamp.go","pkg/constants/constants.go"],[("offset from the Epoch in nanosecond durations","pkg/types/timestamp.go")])
p("C10","Weighted average age is the exact weighted mean",
 "Updating a weighted average age ages the account by the elapsed time; a non-negative transfer then scales it by exactly previousBalance/newBalance, truncated, while an outgoing transfer leaves it unscaled. An overflow of the new balance or of the result is reported as an error and leaves the age unchanged.",
 I,"all ages, elapsed times, transfers and balances in the stated ranges",
 "Four 64-bit inputs with an intermediate product beyond 64 bits.",
 ["pkg/types/duration.go"],[("MulDiv scaling","pkg/types/duration.go:UpdateWeightedAverageAge")])
p("C11","Rate-table slices agree with the table at every instant",
 "Looking up a rate at an age gives the rate of the last row starting at or before that age (zero before the first row). Slicing a table over a period gives segments whose durations add up to exactly the period and whose rate at each instant equals the table's rate at that (offset and, once notice is given, frozen) age.",
 I,"all sorted rate tables up to the stated number of rows and all periods, offsets and freeze points",
 "Tests use one fixed table and a few periods; the index logic has many boundary cases.",
 ["pkg/eai/rate.go"],[("RateAt trailing scan; SliceF index arithmetic","pkg/eai/rate.go")])
p("C12","The current EAI rate follows the lock rules",
 "The instantaneous EAI rate is the age-table rate at the weighted average age for an unlocked account or a lock that has expired; for a locked, un-notified account it is the rate at age plus notice period, plus the lock bonus; for a notified account it is the rate at the age the account will have when it unlocks, plus the bonus.",
 I,"all ages, times, locks and sorted tables in the stated bounds","Tests check a handful of lock states.",
 ["pkg/eai/eai.go","pkg/eai/lock.go"],[("CalculateEAIRate","pkg/eai/eai.go")])
p("C13","EAI accrual is total, monotone and composes over unlock",
 "Computing EAI never panics on well-formed input and awards exactly balance*(factor-1) truncated, where the factor is the product of e^(rate*duration) over the rate segments of the period; zero time or zero rate awards zero and a larger balance never earns less. When a lock expired during the period the factor is the product of the locked factor up to the unlock and the unlocked factor after it.",
 I,"balances, times, locks and tables in the stated bounds","Tests compare a few hundred sampled periods against floats.",
 ["pkg/eai/eai.go"],[("calculateEAIFactor recursion over the unlock time","pkg/eai/eai.go")])
p("C14","Rate text and rate-table text round-trip without wrapping",
 "Parsing the text of any non-negative Rate, or of a rate-table row with non-negative rate, gives back the same value. An accepted rate string always yields exactly the percentage it denotes; unrepresentable ones are rejected rather than wrapped.",
 I,"all non-negative int64 rates; all strings up to the stated length","Tests sample a few percentages.",
 ["pkg/eai/rate.go"],[("ratefmt/ratere and fractional padding","pkg/eai/rate.go")])
p("C15","The sale price curve is a monotone step function of ndau sold",
 "The price of the next unit depends only on the number of complete 1000-ndau blocks sold, never decreases as more are sold over the whole sale, starts at $1, reaches $16384 at the end of phase 1 and is the fixed final price after phase 3. It never fails or panics for a non-negative amount sold.",
 I,"all amounts sold (30000 blocks, every unit)","Tests check a few blocks.",
 ["pkg/pricecurve/pricecurve.go"],[("phase1 doubling table, phase23 cubic","pkg/pricecurve/pricecurve.go")])
p("C16","Dollar strings parse exactly",
 "An accepted dollar string yields exactly the amount it denotes in nanocents, including its sign and with separators ignored; amounts that do not fit are rejected, never wrapped, and no string makes the parser panic.",
 I,"all strings up to the stated length","Tests sample a table of strings.",
 ["pkg/pricecurve/nanocent.go"],[("dollarsRE plus integer recombination","pkg/pricecurve/nanocent.go")])
p("C17","Bitset256 behaves as a set of bytes",
 "Set, Clear, Toggle and Get of one index affect and read exactly that index; Union, Intersect, IsSubsetOf and Equals are the set operations; Count is the cardinality and Indices lists exactly the members in increasing order; Clone is independent of its source.",
 I,"all 256-bit sets and all indices","2^256 sets; tests sample a few.",
 ["pkg/bitset256/bitset256.go"],[("word/mask arithmetic","pkg/bitset256/bitset256.go")])
p("C18","Bitset256 ordering and serialization are faithful",
 "Less is a strict total order consistent with Equals and with the numeric value of the 256-bit set. Converting to bytes or hex and back gives an equal set, distinct sets have distinct encodings, any 32-byte input decodes to a set that re-encodes to it, and other lengths are rejected without a panic.",
 I,"all 256-bit sets, all byte strings and hex strings within bounds","2^256 sets; tests sample a few.",
 ["pkg/bitset256/bitset256.go"],[("AsBytes/FromBytes interleave; Less scan","pkg/bitset256/bitset256.go")])
p("C19","Base32 text encoding is lossless and case-insensitive",
 "Decoding the ndau base32 encoding of any bytes gives the bytes back, in upper, lower or mixed case; the encoding uses only the documented 32-character alphabet and Index is the position of a letter in it. The 16-bit check accepts exactly the checksum that Checksum16 produces.",
 I,"all byte strings up to the stated length, all casings","Tests use a handful of strings.",
 ["pkg/b32/b32.go","pkg/b32/checksum.go"],[("base32 with NdauAlphabet; crc16","pkg/b32")])
p("C20","Every generated address is valid and every valid address is canonical",
 "Generating an address from any sufficiently long key data and a valid kind succeeds, gives 48 characters starting with nd and the kind, is a function of the data's hash, and validates to itself in any casing. A string is accepted as an address only if it is the 48-character base32 form of a 30-byte payload whose checksum matches and whose kind is valid; validation never panics, and short data or bad kinds are rejected.",
 I,"all key data (hash output abstracted), all strings of up to 50 bytes","The address space has 2^208 members, tests use a few dozen.",
 ["pkg/address/address_impl.go","pkg/b32"],[("header packing, CRC16, base32","pkg/address/address_impl.go")])
p("C21","Address checksums catch every single typo and adjacent swap",
 "Replacing any one character of a valid address by a different one (other than changing its case), or exchanging two adjacent different characters, always yields a string that is not a valid address.",
 I,"all valid addresses, all positions, all replacement characters","2^240 addresses times 48 positions; tests try a few typos.",
 ["pkg/address/address_impl.go","pkg/b32/checksum.go"],[("CRC16 over the payload","pkg/b32/checksum.go")])
p("C22","Address serializations and kinds round-trip",
 "Marshalling a valid address to text or to msgpack and unmarshalling it gives an address equal to the original, and unmarshalling text accepts only valid addresses and yields the same canonical address that validation yields. Kind reports the kind the address was generated with; ParseKind maps each documented name (any casing) to its kind, any other text to the kind its first letter names, and rejects everything else without panicking.",
 I,"all valid addresses, all texts and kind names within bounds","Tests use a few addresses.",
 ["pkg/address/address.go","pkg/address/address_gen.go","pkg/address/address_impl.go"],[("MarshalText/UnmarshalText, generated msgp code, ParseKind switch","pkg/address")])
p("C23","Seed words give back the bytes they were made from",
 "Converting bytes to words and the words back yields the original bytes, except when a string one byte shorter has the same words (the documented ambiguity; then the shorter one is returned). The number of words depends only on the length. A list of words is converted to bytes only if it is exactly the words of those bytes, and no list (not even an empty one) makes the conversion panic.",
 I,"all byte strings and all word lists of each length in the stated range","2^128 seeds; tests sample a few.",
 ["pkg/words/words.go","pkg/words/english.go"],[("11-bit packing and CRC8 tail bits","pkg/words/words.go")])
p("C24","Word lookup is exact and rejects unknown words",
 "Every word of the list is found at its own position, the list is strictly sorted without duplicates, any string not in the list is rejected, an unknown language is an error, and prefix search returns exactly the list's words with that prefix, in order, up to the limit. No input makes these functions panic.",
 I,"all strings up to the stated length, all list positions","Tests sample words.",
 ["pkg/words/words.go","pkg/words/english.go"],[("binary search over the sorted list","pkg/words/words.go:lookupWord")])
p("C25","The checksummed container accepts only what it produced",
 "Checking a checksummed message returns the original message and success, and its length is a multiple of five. A byte string is accepted only if it is exactly the checksummed form of the message returned (so the checksum always has at least three bytes), and checking never panics on any bytes.",
 I,"all messages and all byte strings up to the stated length (hash abstracted)","Unbounded byte strings; tests sample a few.",
 ["pkg/signature/checksum.go"],[("width byte and truncated SHA-224","pkg/signature/checksum.go")])
p("C26","Keys and signatures survive every serialization",
 "For every key or signature of a registered algorithm with the right size, marshalling to bytes, msgpack or text and unmarshalling yields an equal object (algorithm, key bytes, extra bytes, data), leaving trailing msgpack bytes untouched; the advertised message size is never less than the encoded size. Truncate removes only the extra bytes.",
 I,"all key/signature contents for each algorithm, extra data up to the stated length","Tests use random samples of one size.",
 ["pkg/signature/keybase.go","pkg/signature/public_key.go","pkg/signature/private_key.go","pkg/signature/signature.go","pkg/signature/container_gen.go"],[("pack/unpack, IdentifiedData container, checksum+base32","pkg/signature")])
p("C27","Parsing untrusted key and signature data never panics",
 "Unmarshalling any byte string or text as a public key, private key, generic key, signature or extended key either succeeds with an object of the declared algorithm's size or returns an error; it never panics. Text with a wrong prefix, bad checksum, unknown algorithm or wrong length is rejected.",
 I,"all byte strings and texts up to the stated length","Parsers of attacker-controlled input: one crafted string among unboundedly many is enough.",
 ["pkg/signature","pkg/key/extendedkey.go"],[("length and checksum checks before use","pkg/signature")])
p("C28","A signature is checked only against its own algorithm and key",
 "Verification returns false, and does not panic, when the signature's algorithm differs from the key's or a key or signature is empty; otherwise it returns exactly the algorithm's verdict on the key's bytes, the message and the signature's bytes, and the null algorithm never verifies anything. Signing uses exactly the private key's bytes and the message, and public/private classification follows the key's type and prefix.",
 I,"all key, message and signature contents within bounds (cryptographic primitives abstracted)","Tests check matching algorithms with random keys.",
 ["pkg/signature/public_key.go","pkg/signature/algorithm.go","pkg/signature/algorithms"],[("algorithm-name comparison, delegation","pkg/signature/public_key.go:Verify")])
p("C29","Extended keys survive text and signature-key conversion",
 "Converting an extended key to text or to a signature key and back preserves its key bytes, chain code, depth, parent fingerprint, child number and privacy. Text that is not a well-formed secp256k1 extended key is rejected, and the legacy format is accepted only with a valid double-hash checksum and yields the fields it encodes.",
 I,"all field values of well-formed extended keys; all byte strings of the legacy length","Tests use a few derived keys.",
 ["pkg/key/extendedkey.go","pkg/key/convert_serialization.go"],[("extra()/parseExtra layout","pkg/key/extendedkey.go")])
p("C30","Child keys follow BIP-32 exactly",
 "A child key is computed as BIP-32 prescribes: HMAC-SHA512 keyed by the parent's chain code over 0x00||key||index (hardened) or compressed-public-key||index (normal); the left half added to the parent key modulo the curve order (or its point added), always 32 (private) or 33 (public) bytes; the right half is the chain code. Depth grows by one, the index and parent fingerprint are recorded, out-of-range left halves and depth 255 are errors, master keys come from the seed the same way with seed length enforced.",
 I,"all parent keys, chain codes, depths and indices (hash and curve operations abstracted)","Leading-zero keys occur with probability 1/256, invalid halves with 2^-127; tests use a few vectors.",
 ["pkg/key/extendedkey.go","pkg/bip32/bip32.go"],[("Child","pkg/key/extendedkey.go"),("NewMaster","pkg/bip32/bip32.go")])
p("C31","Public and private derivation agree; hardening needs the private key",
 "For any non-hardened index, the public key of a private child equals the child of the public key, with the same chain code, depth, index and fingerprint. Hardened children cannot be derived from public keys, and a hardened request always yields a hardened child or an error.",
 I,"all private parents and indices (curve abstracted as a group)","Tests use a few vectors.",
 ["pkg/key/extendedkey.go"],[("case split on privacy and hardening","pkg/key/extendedkey.go:Child")])
p("C32","Path derivation equals step-by-step derivation",
 "DeriveFrom(parentPath, childPath) succeeds only if both paths are well-formed and the child path strictly extends the parent path, and then equals applying the remaining path elements one at a time (apostrophe meaning hardened). Malformed paths, out-of-range indices and unrelated paths are errors, never a panic or a different key.",
 I,"all path strings up to the stated length","Unboundedly many strings; tests use a table.",
 ["pkg/key/path.go"],[("newPath regexps, isParentOf","pkg/key/path.go")])
p("C33","Derived and converted keys do not share fate with their source",
 "Wiping a key clears its secret bytes; wiping or re-reading one key never changes a key that was derived or converted from it earlier, nor leaves stale data that a later use of the wiped key object would return. Derivation and conversion never modify the source key's observable fields.",
 ["inputs","histories"],"all keys and all sequences of derive/convert/wipe/re-read steps up to the stated length","Aliasing only shows in particular operation orders; tests use each operation once.",
 ["pkg/key/extendedkey.go"],[("slice ownership, Zero","pkg/key/extendedkey.go")])
p("C34","The client key API is a faithful wrapper",
 "Every client-level key operation (child, hardened child, public, path derivation, word conversion, address, sign) gives the same key, address or signature text as the underlying library operations on the parsed key, rejects negative indices and unparsable keys with an error, and converting a key string through the API is idempotent. A private key and its public key give the same address.",
 I,"all key contents and indices within bounds (crypto abstracted)","Tests use one key pair.",
 ["pkg/keyaddr"],[("parse, delegate, re-serialize","pkg/keyaddr/key.go")])
p("C35","Msgpack values round-trip and fit their advertised size",
 "Every msgpack-encodable value of the library (amounts, durations, timestamps, prices, rates, rate tables and slices, addresses, algorithm containers) decodes to itself, leaves trailing bytes untouched, encodes in no more bytes than advertised, and decoding arbitrary bytes never panics.",
 I,"all values (tables up to the stated rows), all byte strings up to the stated length","Generated tests are disabled (-tests=0); 64-bit values have 9 encodings by size class.",
 ["pkg/types/*_gen.go","pkg/eai/rate_gen.go","pkg/pricecurve/nanocent_gen.go","pkg/address/address_gen.go","pkg/signature/container_gen.go"],[("generated MarshalMsg/UnmarshalMsg/Msgsize","*_gen.go")])
p("N01","Digital signatures are correct and unforgeable",
 "A signature made with a private key verifies with the matching public key and nothing else verifies: changing the message, the key or the signature makes verification fail.",
 I,"all key pairs, messages and signatures","Cryptographic strength cannot be sampled.",
 ["pkg/signature/algorithms"],[("secp256k1 and ed25519 primitives","github.com/btcsuite/btcd/btcec, crypto/ed25519")])
p("N02","Approximate (floating-point) price functions agree with the curve",
 "The floating-point price, unit-at-price and total-price helpers stay within the documented error of the integer price curve and total prices equal the sum over the blocks bought.",
 I,"all amounts","Floats sampled at a few points.",
 ["pkg/pricecurve/pricecurve.go"],[("ApproxPriceAtUnit, ApproxTotalPriceFor","pkg/pricecurve/pricecurve.go")])
p("N03","The JavaScript bridge reports every failure to its callback",
 "Each exported JavaScript handler calls its callback exactly once, with either an error or the library's result, and no argument makes the module abort.",
 ["inputs","schedules"],"all argument lists","No tests exist for cmd/keyaddr.",
 ["cmd/keyaddr"],[("handlers and helpers","cmd/keyaddr/handlers.go")])
for q in P: print(json.dumps(q))

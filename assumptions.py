"""What the proofs rest on without checking it."""
TRUSTED = [
    "pyvc: the translation of Python's semantics into verification conditions (self-tested on every run, cross-checked natively)",
    "z3 (a sample of the verification conditions is re-checked by cvc5 in the thorough tier)",
    "CPython's ast module and the import of /repo's modules (classes, constants and function objects are the real ones)",
]
COMMON = [
    "strings are valid Unicode; lists and dictionaries given by a caller or decoder are not aliased with one another or changed concurrently",
    "no threads: operations on one object do not overlap",
    "library functions behave as their assumed contracts say (coverage.assumed_contracts)",
    "no resource exhaustion: memory, recursion depth",
]
PER = {
    "M03": ["input values are those a decoder can produce: None, bool, int, float, str, bytes, list, dict (no subclasses, no tuples)"],
    "M04": ["input values are those a decoder can produce", "each Message.parse obeys its contract, which M03 discharges"],
    "M05": ["the JSON, CBOR and MessagePack libraries return a deep copy of any value they can represent"],
    "M06": ["the JSON, CBOR and MessagePack libraries return a deep copy of any value they can represent; exceptions raised by them on "
            "bytes that are no document of the format are the library's"],
    "R01": ["math.log2 of an integer below 2^48 has the exact floor (double precision; checked natively at the powers of two)"],
    "K01": ["HMAC-SHA256 and PBKDF2 are functions of their inputs; different messages or keys are taken to give different codes only where "
            "a wrong proof must be refused; base64 decoding and encoding are inverse on what they accept"],
    "K02": ["Ed25519 is ideal: verification accepts exactly what signing under the matching key produced; hex decoding and encoding are inverse"],
    "H01": ["ideal HMAC, PBKDF2 and Ed25519: a wrong secret or key never gives the right proof", "the router's authenticator is any that approves "
            "exactly the client's credentials"],
    "A01": ["the authenticator returns a Response, WAMPCRAResponse or WAMPCRASaltedResponse or raises ValueError, KeyError or RuntimeError",
            "ideal HMAC, PBKDF2 and Ed25519", "public keys the authenticator approves are hex"],
    "A02": ["the authenticator returns a Response, WAMPCRAResponse or WAMPCRASaltedResponse or raises ValueError, KeyError or RuntimeError",
            "ideal HMAC, PBKDF2 and Ed25519", "public keys the authenticator approves are hex"],
    "A03": ["the authenticator returns a Response, WAMPCRAResponse or WAMPCRASaltedResponse or raises ValueError, KeyError or RuntimeError",
            "ideal HMAC, PBKDF2 and Ed25519", "public keys the authenticator approves are hex"],
    "J01": ["the client authenticator is any object whose authenticate returns an AUTHENTICATE message or raises"],
    **{k: ["fewer than 2^53 ids are drawn in the life of a router; session ids are in 1..2^53", "option flags are boolean when present"]
       for k in ("B01", "B02", "D01", "D02", "D03", "D04")},
    **{k: ["the message objects given to a session are those a constructor or parse makes"] for k in ("S01", "S02")},
    "I01": ["random.randint(a, b) is between a and b inclusive"],
}

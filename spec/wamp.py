"""The WAMP message catalogue, written from the specification; independent of /repo's tables.

wire: the elements after the type code, as (field, kind).  Kinds: id (integer 1..2^53), int, str, dict,
hello / welcome (details dictionaries holding further fields).
"""
MAX_ID = 2 ** 53
ROLES = ("callee", "caller", "publisher", "subscriber", "dealer", "broker")


class Msg:
    def __init__(self, name, code, wire, payload=False, optional=()):
        self.name, self.code, self.wire, self.payload = name, code, wire, payload
        self.optional = set(optional)     # dictionary fields that may be left out when constructing (then empty)

    @property
    def min_len(self):
        return 1 + len(self.wire)

    @property
    def max_len(self):
        return self.min_len + (2 if self.payload else 0)

    def __repr__(self):
        return self.name


DETAILS = {
    "hello": [("roles", "roles", True), ("authid", "str", False), ("authmethods", "list", False), ("authextra", "dict", False)],
    "welcome": [("roles", "roles", True), ("authid", "str", False), ("authrole", "str", False), ("authmethod", "str", False),
                ("authextra", "dict", False)],
}
# keys of a HELLO that are checked but not reported
CHECKED = {"hello": [("authrole", "str")], "welcome": []}

R, S = ("request_id", "id"), "str"
MESSAGES = [
    Msg("Hello", 1, [("realm", S), ("details", "hello")]),
    Msg("Welcome", 2, [("session_id", "id"), ("details", "welcome")]),
    Msg("Abort", 3, [("details", "dict"), ("reason", S)], True),
    Msg("Challenge", 4, [("authmethod", S), ("extra", "dict")], optional=["extra"]),
    Msg("Authenticate", 5, [("signature", S), ("extra", "dict")], optional=["extra"]),
    Msg("Goodbye", 6, [("details", "dict"), ("reason", S)]),
    Msg("Error", 8, [("message_type", "int"), R, ("details", "dict"), ("uri", S)], True, optional=["details"]),
    Msg("Publish", 16, [R, ("options", "dict"), ("topic", S)], True, optional=["options"]),
    Msg("Published", 17, [R, ("publication_id", "id")]),
    Msg("Subscribe", 32, [R, ("options", "dict"), ("topic", S)], optional=["options"]),
    Msg("Subscribed", 33, [R, ("subscription_id", "id")]),
    Msg("Unsubscribe", 34, [R, ("subscription_id", "id")]),
    Msg("Unsubscribed", 35, [R]),
    Msg("Event", 36, [("subscription_id", "id"), ("publication_id", "id"), ("details", "dict")], True, optional=["details"]),
    Msg("Call", 48, [R, ("options", "dict"), ("procedure", S)], True, optional=["options"]),
    Msg("Cancel", 49, [R, ("options", "dict")], optional=["options"]),
    Msg("Result", 50, [R, ("details", "dict")], True, optional=["details"]),
    Msg("Register", 64, [R, ("options", "dict"), ("procedure", S)], optional=["options"]),
    Msg("Registered", 65, [R, ("registration_id", "id")]),
    Msg("Unregister", 66, [R, ("registration_id", "id")]),
    Msg("Unregistered", 67, [R]),
    Msg("Invocation", 68, [R, ("registration_id", "id"), ("details", "dict")], True, optional=["details"]),
    Msg("Interrupt", 69, [R, ("options", "dict")], optional=["options"]),
    Msg("Yield", 70, [R, ("options", "dict")], True, optional=["options"]),
]
BY_NAME = {m.name: m for m in MESSAGES}
BY_CODE = {m.code: m for m in MESSAGES}


def field_names(m):
    """Fields a message of this type reports."""
    out = []
    for f, k in m.wire:
        if k in DETAILS:
            out += [d[0] for d in DETAILS[k]]
        else:
            out.append(f)
    if m.payload:
        out += ["args", "kwargs"]
    return out


# ---- the catalogue as an executable contract over Python values -------------------------------------

def details_ok(d, kind):
    if not isinstance(d, dict):
        return False
    for name, k, required in DETAILS[kind]:
        v = d.get(name)
        if k == "roles":
            if not isinstance(v, dict) or not v or not all(isinstance(r, str) and r in ROLES for r in v):
                return False
        elif v is not None and not isinstance(v, {"str": str, "list": list, "dict": dict}[k]):
            return False
    for name, k in CHECKED[kind]:
        if d.get(name) is not None and not isinstance(d[name], str):
            return False
    return True


def kind_ok(v, kind):
    if kind == "id":
        return isinstance(v, int) and 1 <= v <= MAX_ID
    if kind in DETAILS:
        return details_ok(v, kind)
    return isinstance(v, {"int": int, "str": str, "dict": dict}[kind])


def well_formed(w, m):
    if not isinstance(w, list) or not m.min_len <= len(w) <= m.max_len:
        return False
    if w[0] != m.code:
        return False
    if not all(kind_ok(v, k) for v, (_, k) in zip(w[1:], m.wire)):
        return False
    if len(w) > m.min_len and not isinstance(w[m.min_len], list):
        return False
    if len(w) > m.min_len + 1 and not isinstance(w[m.min_len + 1], dict):
        return False
    return True


def fields_of_wire(w, m):
    """What a message parsed from a well-formed list reports."""
    out = {}
    for i, (f, k) in enumerate(m.wire):
        v = w[1 + i]
        if k in DETAILS:
            for name, _, _ in DETAILS[k]:
                x = v.get(name)
                out[name] = {} if x is None and name == "authextra" and k == "welcome" else x
        else:
            out[f] = v
    if m.payload:
        out["args"] = w[m.min_len] if len(w) > m.min_len else None
        out["kwargs"] = w[m.min_len + 1] if len(w) > m.min_len + 1 else None
    return out


def wire_of_fields(m, f):
    """The list a message built from the given field values must encode to."""
    out = [m.code]
    for name, k in m.wire:
        if k in DETAILS:
            d = {}
            for n, _, _ in DETAILS[k]:
                v = f.get(n)
                if v is None and n == "authextra" and k == "welcome":
                    v = {}
                if v is not None:
                    d[n] = v
            out.append(d)
        else:
            v = f.get(name)
            out.append({} if v is None and k == "dict" else v)
    if m.payload:
        if f.get("args") is not None:
            out.append(f["args"])
        if f.get("kwargs") is not None:
            if f.get("args") is None:
                out.append([])
            out.append(f["kwargs"])
    return out

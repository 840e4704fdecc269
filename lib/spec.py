"""Independent reading of a Beschi protocol file and of the documented wire format.

Nothing here imports beschi: this is the oracle.  Sources: docs/protocols.md and
docs/introduction.md of the repository.
"""
import struct as _struct
import tomllib

NUM = {  # name -> (size, signed, is_float)
    "byte": (1, False, False), "bool": (1, False, False),
    "uint16": (2, False, False), "int16": (2, True, False),
    "uint32": (4, False, False), "int32": (4, True, False),
    "uint64": (8, False, False), "int64": (8, True, False),
    "float": (4, False, True), "double": (8, False, True),
}


class T:
    """kind: num | string | enum | struct | list"""
    def __init__(self, kind, name=None, elem=None, ref=None):
        self.kind, self.name, self.elem, self.ref = kind, name, elem, ref

    def __repr__(self):
        return f"[{self.elem}]" if self.kind == "list" else f"{self.name}"

    @property
    def size(self):
        if self.kind == "num":
            return NUM[self.name][0]
        if self.kind == "enum":
            return NUM[self.ref.encoding][0]
        raise ValueError(self)

    def simple(self):
        if self.kind in ("num", "enum"):
            return True
        if self.kind == "struct":
            return all(t.simple() for _, t in self.ref.members)
        return False

    def fixed_size(self):
        if self.kind in ("num", "enum"):
            return self.size
        return sum(t.fixed_size() for _, t in self.ref.members)


class Enum:
    def __init__(self, name, values):
        self.name = name
        if isinstance(values[0], str):
            self.values = [(v, i) for i, v in enumerate(values)]
        else:
            self.values = [(v["_name"], v["_value"]) for v in values]
        lo = min(v for _, v in self.values)
        hi = max(v for _, v in self.values)
        for enc, (a, b) in (("byte", (0, 255)), ("int16", (-2**15, 2**15 - 1)), ("int32", (-2**31, 2**31 - 1))):
            if lo >= a and hi <= b:
                self.encoding = enc
                break
        else:
            raise ValueError("enum out of range")
        self.default = self.values[0][1]


class Agg:
    def __init__(self, name, is_message):
        self.name, self.is_message, self.members = name, is_message, []


class Proto:
    def __init__(self, path):
        self.path = path
        self.text = open(path, encoding="utf-8").read()
        d = tomllib.loads(self.text)
        meta = d.get("meta", {})
        self.namespace = meta.get("namespace")
        self.list_size = meta.get("list_size_type", "uint32")
        self.string_size = meta.get("string_size_type", "uint32")
        self.enums = {e["_name"]: Enum(e["_name"], e["_values"]) for e in d.get("enums", [])}
        self.structs = {s["_name"]: Agg(s["_name"], False) for s in d.get("structs", [])}
        self.messages = {m["_name"]: Agg(m["_name"], True) for m in d.get("messages", [])}
        for table, aggs in ((d.get("structs", []), self.structs), (d.get("messages", []), self.messages)):
            for ent in table:
                a = aggs[ent["_name"]]
                for k, v in ent.items():
                    if not k.startswith("_"):
                        a.members.append((k, self.type(v)))
        self.tag = {m: i + 1 for i, m in enumerate(self.messages)}

    def type(self, s):
        if s.startswith("["):
            return T("list", s, elem=self.type(s[1:-1]))
        if s in NUM:
            return T("num", s)
        if s == "string":
            return T("string", s)
        if s in self.enums:
            return T("enum", s, ref=self.enums[s])
        return T("struct", s, ref=self.structs[s])

    # ---- reference codec over plain python values -------------------------
    # value forms: ints for numbers and enums (bool: 0/1), floats as their bit
    # pattern (int), strings as bytes (the UTF-8 encoding), lists, dicts
    def default(self, t):
        if t.kind == "num":
            return 0
        if t.kind == "string":
            return b""
        if t.kind == "enum":
            return t.ref.default
        if t.kind == "list":
            return []
        return {n: self.default(m) for n, m in t.ref.members}

    def default_msg(self, name):
        return {n: self.default(m) for n, m in self.messages[name].members}

    def enc_int(self, tname, v):
        size = NUM[tname][0]
        return (v & ((1 << (8 * size)) - 1)).to_bytes(size, "little")

    def encode(self, t, v):
        if t.kind == "num":
            return self.enc_int(t.name, v)
        if t.kind == "enum":
            return self.enc_int(t.ref.encoding, v)
        if t.kind == "string":
            return self.enc_int(self.string_size, len(v)) + v
        if t.kind == "list":
            return self.enc_int(self.list_size, len(v)) + b"".join(self.encode(t.elem, e) for e in v)
        return b"".join(self.encode(m, v[n]) for n, m in t.ref.members)

    def encode_msg(self, name, v, tag=False):
        body = b"".join(self.encode(m, v[n]) for n, m in self.messages[name].members)
        return (bytes([self.tag[name]]) if tag else b"") + body

    def pack(self, msgs):
        return (b"BSCI" + _struct.pack("<I", len(msgs))
                + b"".join(self.encode_msg(n, v, True) for n, v in msgs) + b"\0")


def snake(s):
    """beschi's documented Rust renaming (snake_case); mirrors no code: checked
    against the generated fields at build time."""
    import re
    s = re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", s)
    return re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", s).lower()

"""Spelling Rust string literals (as in options blocks and macro invocations)."""


def lit(s):
    out = ['"']
    for ch in s:
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\t":
            out.append("\\t")
        elif ord(ch) < 0x20:
            out.append("\\x%02x" % ord(ch))
        else:
            out.append(ch)
    return "".join(out) + '"'


def block(options=None, hints=()):
    """An options block: options is a dict of strings/booleans, hints a list of {"p": pointer, "t": type}."""
    parts = []
    for k, v in (options or {}).items():
        parts.append("%s: %s" % (lit(k), ("true" if v else "false") if isinstance(v, bool) else lit(str(v))))
    for h in hints:
        parts.append("%s: { use_type: %s }" % (lit(h["p"]), lit(h["t"])))
    return "{" + ", ".join(parts) + "}"

"""Reference scanner for the content of a single-quoted Bicep string."""


def scan(s, i=0):
    """Offset of the quote that closes the string whose content starts at i, or None."""
    while i < len(s):
        ch = s[i]
        if ch == "\\":
            i += 2
        elif ch == "'":
            return i
        elif s.startswith("${", i):
            i = hole(s, i + 2)
            if i is None:
                return None
        else:
            i += 1
    return None


def hole(s, i):
    """Offset after the brace that closes the interpolation whose code starts at i, or None."""
    depth = 1
    while i < len(s):
        ch = s[i]
        if ch == "'":
            i = scan(s, i + 1)
            if i is None:
                return None
            i += 1
            continue
        if ch == "{":
            depth += 1
        elif ch == "}":
            depth -= 1
            if not depth:
                return i + 1
        i += 1
    return None


def valid(content):
    """Whether 'content' is the whole content of one string."""
    if "\n" in content or "'''" in f"'{content}'":
        return False
    return scan(content + "'") == len(content)

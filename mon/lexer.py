"""Independent lexer for the SQL dialect (written from the dialect's lexical rules, shares no code with treeno)."""
import re
from typing import List, NamedTuple


class RefError(Exception):
    """The text is not a sentence of the modelled dialect."""


class Tok(NamedTuple):
    kind: str  # word qid str ustr bin int dec dbl digid bqid op bad
    text: str  # exact source text
    val: object  # decoded value (words: the text itself)
    pos: int


OPS = ["->", "=>", "<>", "!=", "<=", ">=", "||", "=", "<", ">", "+", "-", "*", "/", "%",
       "?", "(", ")", "[", "]", ",", ".", ":", "{", "}", "|", "^", "$"]
_WORD = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_WS = re.compile(r"[ \r\n\t]+")
_DBL = re.compile(r"(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)E[+-]?[0-9]+")
_DEC = re.compile(r"[0-9]+\.[0-9]*|\.[0-9]+")
_DIGID = re.compile(r"[0-9][A-Za-z0-9_]+")
_INT = re.compile(r"[0-9]+")
_STR = re.compile(r"'(?:[^']|'')*'")
_QID = re.compile(r'"(?:[^"]|"")*"')
_BQ = re.compile(r"`(?:[^`]|``)*`")
_BIN = re.compile(r"X'[^']*'")
_LINEC = re.compile(r"--[^\r\n]*\r?\n?")
_BLOCKC = re.compile(r"/\*.*?\*/", re.S)


def lex(sql: str, trivia: bool = False) -> List[Tok]:
    out: List[Tok] = []
    i, n = 0, len(sql)

    def add(kind, m, val=None):
        nonlocal i
        out.append(Tok(kind, m, m if val is None else val, i))
        i += len(m)

    while i < n:
        c = sql[i]
        m = _WS.match(sql, i)
        if m:
            i = m.end()
            continue
        m = _LINEC.match(sql, i) or _BLOCKC.match(sql, i)
        if m:
            if trivia:
                out.append(Tok("comment", m.group(), m.group(), i))
            i = m.end()
            continue
        # longest match wins
        best = None
        for kind, rx in (("dbl", _DBL), ("dec", _DEC), ("int", _INT), ("digid", _DIGID)):
            m = rx.match(sql, i)
            if m and (best is None or len(m.group()) > len(best[1])):
                best = (kind, m.group())
        if best:
            kind, t = best
            if kind == "int":
                add("int", t, int(t))
            else:
                add(kind, t)
            continue
        if c == "'":
            m = _STR.match(sql, i)
            if m:
                add("str", m.group(), m.group()[1:-1].replace("''", "'"))
                continue
        if sql.startswith("U&'", i):
            m = _STR.match(sql, i + 2)
            if m:
                add("ustr", sql[i:m.end()], m.group()[1:-1].replace("''", "'"))
                continue
        if sql.startswith("X'", i):
            m = _BIN.match(sql, i)
            if m:
                add("bin", m.group())
                continue
        if c == '"':
            m = _QID.match(sql, i)
            if m:
                add("qid", m.group(), m.group()[1:-1].replace('""', '"'))
                continue
        if c == "`":
            m = _BQ.match(sql, i)
            if m:
                add("bqid", m.group())
                continue
        m = _WORD.match(sql, i)
        if m:
            add("word", m.group())
            continue
        for op in OPS:
            if sql.startswith(op, i):
                add("op", op)
                break
        else:
            add("bad", c)
    return out


def token_key(t: Tok):
    """What a token is, independent of layout: used to compare two texts token by token."""
    return (t.kind, t.text)


def decode_unicode(body: str, esc: str) -> str:
    """Decodes the body of U&'...' with the given escape character (SQL standard / Trino rules)."""
    if len(esc) != 1 or esc in "0123456789abcdefABCDEF+'\" " or esc == "\t":
        raise RefError("bad unicode escape character")
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c != esc:
            out.append(c)
            i += 1
            continue
        if body.startswith(esc, i + 1):
            out.append(esc)
            i += 2
            continue
        if body.startswith("+", i + 1):
            digits, width = body[i + 2:i + 8], 6
            skip = 8
        else:
            digits, width = body[i + 1:i + 5], 4
            skip = 5
        if len(digits) != width or not re.fullmatch(r"[0-9A-Fa-f]+", digits):
            raise RefError("bad unicode escape")
        cp = int(digits, 16)
        if cp > 0x10FFFF or 0xD800 <= cp <= 0xDFFF:
            raise RefError("bad code point")
        out.append(chr(cp))
        i += skip
    return "".join(out)

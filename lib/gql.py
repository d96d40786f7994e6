"""GraphQL documents of one operation, as the specification of the language reads them."""
import re
class GqlError(Exception):
    pass
TOKEN = re.compile(r'''[\s,\ufeff]+|\#[^\n\r]*|(?P<punct>\.\.\.|[!$&()*:=@\[\]{|}])|(?P<name>[_A-Za-z][_0-9A-Za-z]*)|(?P<num>-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?)|(?P<str>"""(?:\\"""|[^\0])*?"""|"(?:[^"\\\n\r]|\\u[0-9a-fA-F]{4}|\\["\\/bfnrt])*")''')
ESC = dict(b="\b", f="\f", n="\n", r="\r", t="\t")
def unquote(s):
    if s.startswith('"""'):
        raise GqlError("block strings are not judged")
    def one(m):
        e = m.group(1)
        return chr(int(e[1:], 16)) if e[0] == "u" else ESC.get(e, e)
    t = re.sub(r'\\(u[0-9a-fA-F]{4}|.)', one, s[1:-1])
    # surrogate pairs stand for one character
    return t.encode("utf-16", "surrogatepass").decode("utf-16", "replace")
def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise GqlError("no token at %d: %r" % (i, s[i:i + 20]))
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out + [("end", "")]
class Parser:
    def __init__(self, s):
        self.t, self.i = tokens(s), 0
    def peek(self):
        return self.t[self.i]
    def take(self, kind=None, text=None):
        k, v = self.t[self.i]
        if kind and k != kind or text and v != text:
            raise GqlError("%s %r where %s is due" % (k, v, text or kind))
        self.i += 1
        return v
    def value(self):
        k, v = self.peek()
        if k == "str":
            return unquote(self.take())
        if k == "num":
            self.take()
            return float(v) if re.search("[.eE]", v) else int(v)
        if k == "name":
            return dict(true=True, false=False, null=None).get(self.take(), ("enum", v))
        if v == "[":
            self.take()
            out = []
            while self.peek()[1] != "]":
                out.append(self.value())
            self.take()
            return out
        if v == "{":
            self.take()
            return self.pairs("}")
        if v == "$":
            self.take()
            return self.variables.get(self.take("name"))
        raise GqlError("no value: %r" % v)
    def pairs(self, end):
        out = {}
        while self.peek() != ("punct", end):
            n = self.take("name")
            if n in out:
                raise GqlError("%s given twice" % n)
            self.take("punct", ":")
            out[n] = self.value()
        self.take()
        return out
    def selection(self):
        self.take("punct", "{")
        out = {}
        while self.peek() != ("punct", "}"):
            alias = name = self.take("name")
            if self.peek() == ("punct", ":"):
                self.take()
                name = self.take("name")
            args = {}
            if self.peek() == ("punct", "("):
                self.take()
                args = self.pairs(")")
            sub = self.selection() if self.peek() == ("punct", "{") else {}
            if alias in out and out[alias] != dict(name=name, args=args, sub=sub):
                raise GqlError("%s selected twice" % alias)
            out[alias] = dict(name=name, args=args, sub=sub)
        self.take()
        if not out:
            raise GqlError("empty selection")
        return out
def parse(s, variables=None):
    """(kind of operation, its name, selection)"""
    p = Parser(s)
    p.variables = variables or {}
    kind, name = "query", None
    if p.peek()[0] == "name":
        kind = p.take()
        if kind not in ("query", "mutation", "subscription"):
            raise GqlError(kind)
        if p.peek()[0] == "name":
            name = p.take()
        if p.peek() == ("punct", "("):      # the variables and their types
            while p.take() != ")":
                p.peek()[0] == "end" and p.take("punct")
    out = p.selection()
    p.take("end")
    return kind, name, out
def paths(sel, pre=()):
    for a, f in sel.items():
        if f["sub"]:
            yield from paths(f["sub"], pre + (a,))
        else:
            yield pre + (a,)

"""C06 Tokenizing loses nothing and always ends"""
from sx.ctx import Harness
from sx.core import ALL_UNICODE
from props import large

ASSUMPTIONS = []


def spec(text):
    """token boundaries as the documentation of the token kinds demands"""
    out, i, n = [], 0, len(text)
    while i < n:
        j = i
        c = text[i]
        if c == " " or c == "\t":
            while j < n and (text[j] == " " or text[j] == "\t"):
                j += 1
        else:
            k = i + 1 if c == "+" or c == "-" else i
            if k < n and text[k].isnumeric():
                while k < n and text[k].isnumeric():
                    k += 1
                if k + 1 < n and text[k] == "." and text[k + 1].isnumeric():
                    k += 1
                    while k < n and text[k].isnumeric():
                        k += 1
                j = k
            elif c.isalnum():
                while j < n and text[j].isalnum():
                    j += 1
            else:
                j = i + 1
        out.append((i, j))
        i = j
    return out


def tokens(ctx, maxlen, alphabet):
    """tokens of an arbitrary text: termination, grammar, concatenation"""
    from booktest.tokenizer import TestTokenizer
    text = ctx.text("text", (0, maxlen), alphabet)
    toks = []
    for t in TestTokenizer(text):
        toks.append(t)
        if len(toks) > len(text):
            ctx.fail("more tokens than characters: %d" % len(toks))
    ctx.check(all(len(t) > 0 for t in toks), "empty token")
    ctx.check(ctx.eq("".join(toks), text), "the tokens do not add up to the text")
    want = [text[a:b] for a, b in spec(text)]
    ctx.check(ctx.eq(toks, want), lambda: "tokens %r instead of %r" % (toks, want))
    ctx.observe("tokens", toks)


def lookahead(ctx, maxlen, alphabet):
    """the look-ahead reader delivers the same sequence as the plain one"""
    from booktest.tokenizer import TestTokenizer, BufferIterator
    text = ctx.text("text", (0, maxlen), alphabet)
    plain = list(TestTokenizer(text))
    b = BufferIterator(TestTokenizer(text))
    got = []
    while b.has_next():
        head = b.head
        x = next(b)
        ctx.check(ctx.eq(head, x), "the look-ahead is not the next token")
        got.append(x)
        if len(got) > len(text):
            ctx.fail("the look-ahead reader does not end")
    ctx.check(ctx.eq(got, plain), lambda: "look-ahead reads %r instead of %r" % (got, plain))
    try:
        next(b)
        ctx.fail("a token after the end")
    except StopIteration:
        pass
    ctx.check(ctx.eq(list(BufferIterator(TestTokenizer(text))), plain), "iterating the look-ahead reader")
    ctx.observe("tokens", got)


def pieces(ctx, maxlen, alphabet):
    """starting inside a text tokenizes the rest of it"""
    from booktest.tokenizer import TestTokenizer
    text = ctx.text("text", (0, maxlen), alphabet)
    at = ctx.pick("at", len(text) + 1)
    got = list(TestTokenizer(text, at))
    want = list(TestTokenizer(text[at:]))
    ctx.check(ctx.eq(got, want), lambda: "from %d: %r instead of %r" % (at, got, want))


HARNESSES = [
    Harness("tokens", tokens, dict(maxlen=5, alphabet=ALL_UNICODE), dict(maxlen=8, alphabet=ALL_UNICODE),
            bounds="every text of up to maxlen Unicode characters (planes 0-14)"),
    Harness("lookahead", lookahead, dict(maxlen=4, alphabet=ALL_UNICODE), dict(maxlen=6, alphabet=ALL_UNICODE),
            bounds="every text of up to maxlen Unicode characters"),
    Harness("start-inside", pieces, dict(maxlen=3, alphabet=ALL_UNICODE), dict(maxlen=5, alphabet=ALL_UNICODE),
            bounds="every text of up to maxlen Unicode characters and every start position"),
    Harness("long", large.tokens, dict(n=100, spec=spec, alphabet=ALL_UNICODE),
            dict(n=1000, spec=spec, alphabet=ALL_UNICODE),
            bounds="texts of 200 characters with one symbolic character at the ends or in the middle", timeout=120, witness=("done",)),
]

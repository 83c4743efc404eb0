"""C26: ANSI colour decoration."""

import contextlib
import io
import re

from hypothesis import strategies as st

from core import Sub, expect, raises
from HamiltonianPy.tools.colorprint import color_demo, color_print, coloring

PROPERTY = "C26"
RULE = (
    "A case is a text or a list of objects to print, a colour scheme, a "
    "foreground and a background in any documented spelling or none, bold, "
    "and print options. Non-trivial: both colours given, or bold with a "
    "colour.")
ASSUMPTIONS = [
    "colours of a type that a scheme does not list at all are left out "
    "(a triple in the 4-bit scheme is ignored by the library)",
]
NAMES = ["black", "red", "green", "yellow", "blue", "magenta", "cyan",
         "white"]
SHORT = "krgybmcw"
RGB = [(0, 0, 0), (255, 0, 0), (0, 255, 0), (255, 255, 0), (0, 0, 255),
       (255, 0, 255), (0, 255, 255), (255, 255, 255)]
TEXT = st.one_of(
    st.text(max_size=12),
    st.sampled_from(["", " ", "a\nb", "\x1b[31mred\x1b[0m", "{0}", "%s", "{}",
                     "\x1b[0m", "0m", "tab\t"]))
CSI = re.compile("\x1b\\[([0-9;]*)m")


@st.composite
def color_strategy(draw, scheme, fg):
    kind = draw(st.sampled_from(["name", "number", "none", "number"]))
    if kind == "none":
        return None
    if kind == "name":
        i = draw(st.integers(0, 7))
        name = NAMES[i] if draw(st.booleans()) else SHORT[i]
        return draw(st.sampled_from(
            [name, name.upper(), name.capitalize(), name.swapcase()]))
    if scheme == 4:
        low = draw(st.integers(0, 7)) + (30 if fg else 40)
        return low + draw(st.sampled_from([0, 60]))
    byte = st.one_of(st.sampled_from([0, 255, 1, 128, 16, 15]),
                     st.integers(0, 255))
    if scheme == 8:
        return draw(byte)
    r, g, b = draw(byte), draw(byte), draw(byte)
    form = draw(st.sampled_from(["list", "tuple", "hex", "HEX"]))
    if form == "hex":
        return "#{0:02x}{1:02x}{2:02x}".format(r, g, b)
    if form == "HEX":
        return "#{0:02X}{1:02X}{2:02X}".format(r, g, b)
    return {form: [r, g, b]}


def given(color):
    if isinstance(color, dict):
        (form, value), = color.items()
        return tuple(value) if form == "tuple" else value
    return color


def meaning(color, scheme, fg):
    """The SGR parameters a colour stands for."""
    color = given(color)
    if color is None:
        return None
    named = None
    if isinstance(color, str) and not color.startswith("#"):
        low = color.lower()
        named = NAMES.index(low) if low in NAMES else SHORT.index(low)
    if scheme == 4:
        return ("4", named + (30 if fg else 40) if named is not None
                else color)
    if scheme == 8:
        return ("8", named if named is not None else color)
    if named is not None:
        return ("24",) + RGB[named]
    if isinstance(color, str):
        return ("24",) + tuple(bytes.fromhex(color[1:]))
    return ("24",) + tuple(color)


def parse(prefix, what):
    """A run of SGR sequences -> what is switched on."""
    state = {"fg": None, "bg": None, "bold": False}
    pos = 0
    while pos < len(prefix):
        m = CSI.match(prefix, pos)
        expect(m is not None, "{0}: stray text {1!r}", what, prefix[pos:])
        pos = m.end()
        codes = [int(c) if c else 0 for c in m.group(1).split(";")]
        while codes:
            c = codes.pop(0)
            if c == 0:
                state = {"fg": None, "bg": None, "bold": False}
            elif c == 1:
                state["bold"] = True
            elif 30 <= c <= 37 or 90 <= c <= 97:
                state["fg"] = ("4", c)
            elif 40 <= c <= 47 or 100 <= c <= 107:
                state["bg"] = ("4", c)
            elif c in (38, 48):
                key = "fg" if c == 38 else "bg"
                size = {5: 1, 2: 3}.get(codes[0] if codes else None)
                expect(size is not None and len(codes) > size,
                       "{0}: malformed sequence {1!r}", what, m.group(0))
                state[key] = (("8",) if size == 1 else ("24",)) + tuple(
                    codes[1:1 + size])
                del codes[:1 + size]
            else:
                expect(False, "{0}: unexpected code {1} in {2!r}", what, c,
                       m.group(0))
    return state


def decide(result, text, fg, bg, bold, scheme, what):
    for reset in ("\x1b[0m", "\x1b[m"):
        if result.endswith(text + reset):
            prefix = result[:len(result) - len(text + reset)]
            break
    else:
        expect(False, "{0}: {1!r} does not end with the text and a reset",
               what, result)
    state = parse(prefix, what)
    want = {"fg": meaning(fg, scheme, True), "bg": meaning(bg, scheme, False),
            "bold": bool(bold)}
    expect(state == want, "{0}: {1!r} selects {2} instead of {3}", what,
           prefix, state, want)


@st.composite
def options(draw):
    scheme = draw(st.sampled_from([8, 4, 24, "rgb"]))
    return {"scheme": scheme, "fg": draw(color_strategy(scheme, True)),
            "bg": draw(color_strategy(scheme, False)),
            "bold": draw(st.booleans()),
            "defaults": draw(st.integers(0, 3)) == 0}


def keywords(opt):
    kw = {"fg": given(opt["fg"]), "bg": given(opt["bg"]),
          "bold": opt["bold"], "color_scheme": opt["scheme"]}
    if opt["defaults"]:
        for key, default in (("fg", None), ("bg", None), ("bold", False),
                             ("color_scheme", 8)):
            if kw[key] == default:
                del kw[key]
    return kw


def nontrivial(opt):
    return sum([opt["fg"] is not None, opt["bg"] is not None,
                opt["bold"]]) > 1


@st.composite
def color_case(draw):
    return {"text": draw(TEXT), "opt": draw(options())}


def check_color(case, note):
    opt, text = case["opt"], case["text"]
    kw = keywords(opt)
    what = "coloring({0!r}, {1})".format(text, kw)
    decide(coloring(text, **kw), text, opt["fg"], opt["bg"], opt["bold"],
           opt["scheme"], what)
    got = coloring(text, kw.get("fg"), kw.get("bg"), opt["bold"],
                   opt["scheme"])
    decide(got, text, opt["fg"], opt["bg"], opt["bold"], opt["scheme"], what)
    note("scheme {0}".format(opt["scheme"]))
    for key in ("fg", "bg"):
        note("{0} {1}".format(key, type(given(opt[key])).__name__))
    return nontrivial(opt)


class Stream(io.StringIO):
    flushed = 0

    def flush(self):
        self.flushed += 1
        super().flush()


OBJECTS = st.lists(st.one_of(
    TEXT, st.integers(-5, 300), st.floats(-10, 10), st.none(), st.booleans(),
    st.lists(st.integers(0, 3), max_size=2)), max_size=4)


@st.composite
def print_case(draw):
    res = {"objects": draw(OBJECTS), "opt": draw(options()), "print": {}}
    for key, value in (("sep", TEXT), ("end", TEXT)):
        if draw(st.booleans()):
            res["print"][key] = draw(value)
    if draw(st.booleans()):
        res["print"]["flush"] = draw(st.booleans())
    res["file"] = draw(st.booleans())
    return res


def check_print(case, note):
    opt, kw = case["opt"], case["print"]
    objects = case["objects"]
    plain = Stream()
    print(*objects, file=plain, **kw)
    stream, other = Stream(), Stream()
    with contextlib.redirect_stdout(stream if not case["file"] else other):
        res = color_print(*objects, file=stream if case["file"] else None,
                          **kw, **keywords(opt))
    what = "color_print({0}, {1}, {2})".format(objects, kw, keywords(opt))
    end = kw.get("end", "\n")
    got, want = stream.getvalue(), plain.getvalue()
    expect(other.getvalue() == "", "{0}: wrote to standard output", what)
    expect(res is None, "{0}: returned {1!r}", what, res)
    expect(stream.flushed == plain.flushed, "{0}: flushed {1} times", what,
           stream.flushed)
    expect(got.endswith(end), "{0}: {1!r} does not end in {2!r}", what, got,
           end)
    decide(got[:len(got) - len(end)], want[:len(want) - len(end)], opt["fg"],
           opt["bg"], opt["bold"], opt["scheme"], what)
    note("{0} objects".format(len(objects)))
    for key in kw:
        note(key)
    return nontrivial(opt)


@st.composite
def invalid_case(draw):
    scheme = draw(st.sampled_from([4, 8, 24, "rgb", "scheme"]))
    fg = draw(st.booleans())
    name = st.sampled_from(["orange", "", "re", "blackk", "#12345", "gray",
                            "x", "#GG0000"])
    if scheme == "scheme":
        return {"scheme": draw(st.sampled_from([16, 0, "8", None, 256])),
                "fg": fg, "color": None}
    if scheme == 4:
        low = 30 if fg else 40
        bad = st.integers(-5, 300).filter(
            lambda v: not (low <= v < low + 8 or low + 60 <= v < low + 68))
        color = draw(st.one_of(name, bad, st.just("#123456")))
    elif scheme == 8:
        color = draw(st.one_of(name, st.sampled_from([-1, 256, 1000, -300]),
                               st.just("#123456")))
    else:
        byte = st.integers(0, 255)
        bad = st.sampled_from([-1, 256, 300])
        triple = st.permutations([0, 1, 2]).flatmap(
            lambda order: st.tuples(bad, byte, byte).map(
                lambda v: {"list": [v[i] for i in order]}))
        # one character of a hexadecimal colour is no digit
        hexed = st.tuples(
            st.lists(st.sampled_from("0123456789abcdefABCDEF"), min_size=6,
                     max_size=6), st.integers(0, 5),
            st.sampled_from(["-", "+", " ", "_", "g", "G", "x", "\n", "\u0661",
                             ".", "#", "\uff11"])).map(
            lambda v: "#" + "".join(v[0][:v[1]] + [v[2]] + v[0][v[1] + 1:]))
        color = draw(st.one_of(name, triple, hexed, st.sampled_from(
            ["#-1-1-1", "#+1+2+3", "# 1 2 3", "#1_11_1", "#1234567",
             "123456"])))
    return {"scheme": scheme, "fg": fg, "color": color}


def check_invalid(case, note):
    color = given(case["color"])
    kw = {"fg" if case["fg"] else "bg": color,
          "color_scheme": case["scheme"]}
    with raises(ValueError, "coloring('x', {0})".format(kw)):
        coloring("x", **kw)
    out = Stream()
    with raises(ValueError, "color_print('x', {0})".format(kw)):
        color_print("x", file=out, **kw)
    expect(out.getvalue() == "", "color_print('x', {0}) wrote {1!r}", kw,
           out.getvalue())
    note("scheme {0}".format(case["scheme"]))
    return False


@st.composite
def demo_case(draw):
    return {"bg": draw(st.integers(0, 3)) == 0,
            "space": draw(st.integers(0, 4))}


def check_demo(case, note):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        color_demo(with_bg=case["bg"], space_num=case["space"])
    lines = out.getvalue().split("\n")
    expect(lines.pop() == "", "no final newline")
    want = [(None, None)] + [(i, None) for i in range(256)]
    if case["bg"]:
        want += [(None, i) for i in range(256)]
        want += [(i, j) for i in range(256) for j in range(256)]
    expect(len(lines) == len(want), "{0} lines instead of {1}", len(lines),
           len(want))
    pad = " " * case["space"]
    for line, (fg, bg) in zip(lines, want):
        text = "fg = {0}, bg = {1}".format(
            *("None" if v is None else "{0:>4d}".format(v)
              for v in (fg, bg)))
        expect(line.startswith(pad), "padding of {0!r}", line)
        decide(line[len(pad):], text, fg, bg, False, 8, "color_demo")
    return case["bg"]


SUBS = [
    Sub("color", color_case, check_color, 5000, 100000, shards=3),
    Sub("print", print_case, check_print, 4000, 80000, shards=3),
    Sub("invalid", invalid_case, check_invalid, 1000, 10000),
    Sub("demo", demo_case, check_demo, 5, 20),
]

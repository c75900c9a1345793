"""Other ways to write the same inputs: rewrites the Fortran sources, metadata
files and suite definitions of a world without changing what they mean."""
import random
import re

FORTRAN = ["case", "cont", "tail", "dimattr", "multi", "semi", "extra", "cpp",
           "ends", "ws", "kindkw", "locals", "charlen", "blank", "odd",
           "prefix", "fixed"]
META = ["mcase", "mws", "mbar", "morder", "mcomment", "mlong", "mbool"]
XML = ["xws", "xcomment", "xattr"]
ALL = FORTRAN + META + XML
# what the command lines define (None: without a value)
DEFS = {"CMD_ON": None, "CMD_LEVEL": 3, "CMD_NIL": 0}

TOKEN = re.compile(r"\(/|/\)|'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"|\.[A-Za-z]+\.|"
                   r"[0-9]+\.[0-9]*(?:_[A-Za-z0-9_]+)?|"
                   r"[A-Za-z0-9_]+|::|=>|==|/=|<=|>=|\*\*|//|\s+|.")
JUNK = ["it's", "(", "intent(in)", "&", "\"quoted\"", "real :: a, b", ";",
        "contains", "end module", "a = b", "subroutine x(y)", "!",
        "arg_table", "(((", "type", "use x, only: y"]


def draw(rng, without=()):
    """How to write a world"""
    some = rng.randint(1, 5) if rng.random() < 0.5 else rng.randint(5, 14)
    opts = rng.sample(ALL, min(some, len(ALL)))
    seed = rng.randrange(1 << 30)
    if seed % 3 == 0:
        # (statements under conditions of the preprocessor)
        opts.append("cond")
        if seed % 2 == 0:
            # (definitions on the command line of the tool and the compiler)
            opts.append("defs")
    if seed % 4 == 1:
        # (properties which are for others than the caps)
        opts.append("mprops")
    return {"seed": seed,
            "opts": sorted(x for x in opts if x not in without)}


def directives(style):
    """The options with which a tool reads the sources"""
    if not style or not {"cond", "defs"} <= set(style["opts"]):
        return []
    seed = style["seed"]
    dash = "-D" if seed % 7 < 2 else ""
    items = [dash + n + ("" if v is None else f"={v}")
             for n, v in DEFS.items()]
    return ["--preproc-directives=" + [",", ",", ", ", " ", "  "]
            [seed % 5].join(items)]


def apply(files, style):
    """The files written in another way"""
    out = {}
    for name, text in files.items():
        rng = random.Random(f"{style['seed']} {name}")
        opts = set(style["opts"])
        if name.endswith(".F90") and name not in ("simhost.F90", "simbox.F90",
                                                  "simaux.F90"):
            fixed = "fixed" in opts and name != "host_data.F90" and \
                rng.random() < 0.6
            cond = Conditions(random.Random(f"{style['seed']} {name} cond"),
                              opts) if "cond" in opts else None
            text = Source(text, rng, opts, fixed, cond).text()
            if fixed:
                name = name[:-2]
        elif name.endswith(".meta"):
            text = metadata(text, rng, opts, random.Random(
                f"{style['seed']} {name} props"))
        elif name.endswith(".xml"):
            text = xml(text, rng, opts)
        out[name] = text
    return out


# --------------------------------------------------------------------- Fortran

def tokens(stmt):
    """Tokens of a statement"""
    return TOKEN.findall(stmt)


class Conditions:
    """Conditions of the preprocessor around lines of one source. The value of
    each is known: macros are followed as the preprocessor follows them."""

    NAMES = ("SIM_A", "SIM_B", "SIM_C")

    def __init__(self, rng, opts):
        self.rng = rng
        self.macros = {}
        if "defs" in opts:
            self.macros = {n: 1 if v is None else v for n, v in DEFS.items()}
        self.names = list(self.NAMES) + (list(DEFS) if "defs" in opts else [])

    def atom(self):
        """A condition and its value"""
        rng, mac = self.rng, self.macros
        name = rng.choice(self.names)
        kind = rng.randrange(12)
        if kind < 2:
            return rng.choice(["defined({})", "defined {}", "defined ({})",
                               "(defined {})"]).format(name), name in mac
        if kind < 4:
            return rng.choice(["!defined({})", "! defined({})", "!defined {}",
                               "(! defined({}))", "!(defined({}))"]
                              ).format(name), name not in mac
        if kind == 4:
            val = rng.randint(0, 1)
            return str(val), bool(val)
        if mac.get(name, "") is None:
            return f"defined({name})", True
        if kind == 5:
            return rng.choice(["{}", "({})"]).format(name), \
                bool(mac.get(name))
        if kind == 6:
            return rng.choice(["!{}", "(! {})"]).format(name), \
                not mac.get(name)
        num = rng.randint(0, 4)
        if name in mac and rng.random() < 0.7:
            num = max(0, mac[name] + rng.choice([-1, 0, 0, 1]))
        oper = rng.choice(["==", "!=", ">", "<", ">=", "<="])
        val = name in mac and eval(  # pylint: disable=eval-used
            f"{mac[name]} {oper} {num}")
        comp = rng.choice([f"{name} {oper} {num}", f"({name}{oper}{num})"])
        if name in mac and rng.random() < 0.5:
            return comp, val
        return rng.choice(["(defined({}) && {})", "(defined {} && ({}))"]
                          ).format(name, comp), val

    def condition(self, deep=0):
        """A condition and its value"""
        if deep > 1 or self.rng.random() < 0.5:
            return self.atom()
        parts = [self.condition(deep + 1)
                 for _ in range(self.rng.choice([2, 2, 3, 4]))]
        oper = self.rng.choice(["&&", "||"])
        text = f" {oper} ".join(p[0] for p in parts)
        val = (all if oper == "&&" else any)(p[1] for p in parts)
        return (f"({text})" if deep or self.rng.random() < 0.3 else text), val

    def wanted(self, value):
        """A condition of this value"""
        while True:
            text, val = self.condition()
            if bool(val) == value:
                return text

    def start(self, value):
        """The first line of a region"""
        if self.rng.random() < 0.3:
            name = self.rng.choice(self.names)
            return (f"#ifdef {name}" if (name in self.macros) == value
                    else f"#ifndef {name}")
        text = self.wanted(value)
        return self.rng.choice(["#if {}", "#if {}", "# if {}", "#if  {} "]
                               ).format(text) if text[0] != "(" else \
            self.rng.choice(["#if {}", "#if{}"]).format(text)

    def orelse(self, value=None):
        """A middle line; nothing known of its value: it has none"""
        if value is None:
            value = self.rng.random() < 0.5
        text = self.wanted(value)
        return f"#elif {text}" if text[0] != "(" else \
            self.rng.choice(["#elif {}", "#elif{}"]).format(text)

    def wrong(self, stmt):
        """Lines which nobody must read"""
        rng = self.rng
        other = []
        if "::" in stmt:
            other = ["      logical, pointer :: " +
                     stmt.split("::", 1)[1].strip()]
            if "intent(in)" in stmt:
                other.append("      " + stmt.replace("intent(in)",
                                                     "intent(out)"))
        out = [rng.choice(other + ["      garbage ( & ", "", "! nothing",
                                   "      end subroutine",
                                   "      integer :: q_wrong(:)"])]
        if rng.random() < 0.3:
            name = rng.choice(self.names)
            out.append(rng.choice([f"#define {name} 9", f"#undef {name}"]))
        return out

    def around(self, lines, stmt):
        """The lines, which are read, among ones which are not"""
        rng = self.rng
        out = []
        if rng.random() < 0.5:
            name = rng.choice(self.NAMES)
            val = rng.choice([0, 1, 2, 3, None])
            if name in self.macros:
                out.append(f"#undef {name}")
                del self.macros[name]
            if rng.random() < 0.7:
                out.append(f"#define {name}" +
                           ("" if val is None else f" {val}"))
                self.macros[name] = val
        kind = rng.randrange(7)
        bad = self.wrong
        end = rng.choice(["#endif", "#endif", "# endif", "#endif /* here */"])
        if kind == 0:
            out += [self.start(True)] + lines + ["#else"] + bad(stmt)
        elif kind == 1:
            out += [self.start(False)] + bad(stmt) + ["#else"] + lines
        elif kind == 2:
            out += [self.start(False)] + bad(stmt) + [self.orelse(True)] + \
                lines + ["#else"] + bad(stmt)
        elif kind == 3:
            out += [self.start(False)] + bad(stmt) + [self.orelse(False)] + \
                bad(stmt) + ["#else"] + lines
        elif kind == 4:
            out += [self.start(True)] + lines + [self.orelse()] + bad(stmt)
            if rng.random() < 0.5:
                out += [self.orelse()] + bad(stmt)
            out += ["#else"] + bad(stmt)
        elif kind == 5:
            out += [self.start(False), self.start(rng.random() < 0.5)] + \
                bad(stmt) + ["#else"] + bad(stmt) + [end, "#else"] + lines
        else:
            out += [self.start(True), self.start(False)] + bad(stmt) + \
                [end] + lines
        return out + [end]


class Source:
    """One Fortran source"""

    def __init__(self, text, rng, opts, fixed=False, cond=None):
        self.fixed = fixed
        self.cond = cond
        self.rng = rng
        self.opts = opts
        self.num = 0
        self.items = []     # [part, text, name]
        self.read(text)

    def read(self, text):
        """Statements and where they are"""
        part, sub, whole = "file", "", ""
        for line in text.split("\n"):
            line = line.strip()
            if not line:
                continue
            if line.startswith("!"):
                self.items.append(["table", line, sub])
                continue
            whole += line
            if whole.endswith("&"):
                whole = whole[:-1].rstrip() + " "
                continue
            stmt, whole = whole, ""
            if stmt.startswith("module "):
                part = "module"
                self.items.append(["module", stmt, stmt.split()[1]])
            elif stmt.startswith("end module"):
                self.items.append(["end", stmt, ""])
            elif stmt.startswith("end "):
                self.items.append(["end", stmt, ""])
                if part == "type":
                    part = "spec"
                elif part == "exec" and stmt.startswith("end subroutine"):
                    part = "between"
                elif part == "exec":
                    self.items[-1][0] = "exec"
            elif stmt.startswith("type ") and part in ("module", "spec"):
                part = "type"
                self.items.append(["typedef", stmt, stmt.split()[1]])
            elif stmt == "contains":
                part = "between"
                self.items.append(["contains", stmt, ""])
            elif stmt.startswith("subroutine "):
                part = "decl"
                sub = re.match(r"subroutine (\w+)", stmt).group(1)
                self.items.append(["sub", stmt, sub])
            elif part == "module" and "::" in stmt and \
                    not stmt.startswith("public"):
                part = "spec"
                self.items.append(["spec", stmt, ""])
            elif part == "decl" and "::" not in stmt:
                part = "exec"
                self.items.append(["exec", stmt, ""])
            else:
                self.items.append([part, stmt, ""])

    def some(self, opt, prob):
        """Use an option here?"""
        return opt in self.opts and self.rng.random() < prob

    def fresh(self, stem="zz"):
        """A name nothing else has"""
        self.num += 1
        return f"{stem}_q{self.num}x"

    # ---- declarations
    def declarations(self):
        """Rewrite declarations"""
        for item in self.items:
            part, stmt, _ = item
            if part not in ("decl", "type", "spec") or "::" not in stmt:
                continue
            left, right = [x.strip() for x in stmt.split("::", 1)]
            if "parameter" in left or "=" in right or "acc(" in right:
                continue
            attrs = [x.strip() for x in re.split(r",(?![^(]*\))", left)]
            typ, attrs = attrs[0], attrs[1:]
            mat = re.match(r"(\w+)(\(.*\))$", right)
            if mat and self.some("dimattr", 0.6):
                attrs.append("dimension" + mat.group(2))
                right = mat.group(1)
                if self.rng.random() < 0.2:
                    # the entity's own dimensions win
                    attrs[-1] = "dimension(3)"
                    right += mat.group(2)
            if self.some("dimattr", 0.5):
                self.rng.shuffle(attrs)
            if typ.startswith("real(") and self.some("kindkw", 0.6):
                typ = self.rng.choice(["real(kind={})", "real (kind={})",
                                       "real( kind = {} )", "real ({})"]
                                      ).format(typ[5:-1])
            if typ == "character(len=512)" and self.some("charlen", 0.7):
                typ = self.rng.choice(
                    ["character(len = 512)", "character(LEN=512)",
                     "character (len=512)", "character(512)",
                     "character*512"] if part == "decl" else
                    ["character(len = 512)", "character(512)"])
            item[1] = ", ".join([typ] + attrs) + " :: " + right
        if "multi" in self.opts:
            out = []
            for item in self.items:
                left = item[1].split("::")[0]
                if out and item[0] in ("decl", "type", "spec") and \
                        "::" in item[1] and out[-1][0] == item[0] and \
                        out[-1][1].split("::")[0] == left and \
                        "(len" not in left and self.rng.random() < 0.7:
                    out[-1][1] += ", " + item[1].split("::", 1)[1].strip()
                else:
                    out.append(item)
            self.items = out

    # ---- more code
    def locals(self):
        """Declarations of local variables among those of the arguments"""
        out = []
        inside = False
        for item in self.items:
            out.append(item)
            if item[0] == "sub":
                inside = True
                if self.some("locals", 0.4):
                    out.append(["decl", "use, intrinsic :: iso_c_binding, "
                                "only: c_int", ""])
                if self.some("locals", 0.3):
                    out.append(["decl", "implicit none", ""])
            elif item[0] == "exec":
                inside = False
            if inside and item[0] == "decl" and self.some("locals", 0.25):
                x = self.fresh()
                out.append(["decl", self.rng.choice(
                    [f"integer :: {x}", f"integer, parameter :: {x} = 3",
                     f"real(kind_phys), pointer :: {x}(:,:) => null()",
                     f"character(len=*), parameter :: {x} = 'it''s; (a & b'",
                     f'character(len=20) :: {x} = "intent(in) :: "',
                     f"logical, save :: {x} = .false.",
                     f"real(kind_phys) :: {x}(2, 3), {x}b = 1.0_kind_phys",
                     f"integer, dimension(2:4, -1:5) :: {x}",
                     f"integer {x}, {x}b",
                     f"integer, parameter :: {x}(3) = (/ 1, 2, 3 /)",
                     f"type {x}_t; integer :: n = 0; end type {x}_t",
                     "external :: " + x]), ""])
        self.items = out

    def helper(self, inner=True):
        """Statements of a procedure without metadata"""
        rng = self.rng
        x, y = self.fresh("help"), self.fresh("arg")
        body = [f"{y} = {y} + 1", f"if ({y} > 3) {y} = 0",
                f"write(*, *) 'end subroutine; {x}(', {y}"]
        rng.shuffle(body)
        if rng.random() < 0.5:
            out = [f"subroutine {x}({y})", "implicit none",
                   f"integer, intent(inout) :: {y}"] + body + \
                [f"end subroutine {x}"]
        elif rng.random() < 0.5:
            out = [f"integer function {x}({y}) result(res)",
                   f"integer, intent(in) :: {y}", f"res = {y} * 2",
                   f"end function {x}"]
        else:
            out = [f"pure function {x}({y})", f"integer, intent(in) :: {y}",
                   f"integer :: {x}", f"{x} = {y} - 1", f"end function {x}"]
        if inner and "pure" not in out[0] and rng.random() < 0.35:
            z = self.fresh("inner")
            out[-1:-1] = ["contains", f"subroutine {z}()", "end subroutine "
                          + z]
        return [["helper", s, ""] for s in out]

    def specextra(self, host, table):
        """More in the specification part of a module"""
        rng = self.rng
        x, y = self.fresh(), self.fresh()
        pri = ", private" if host else ""
        pick = [[f"integer, parameter{pri} :: {x} = 4"],
                [f"character(len=*), parameter{pri} :: {x} = "
                 "\"a'b; ! no & comment\""],
                [f"real(kind_phys), allocatable{pri} :: {x}(:,:), {y}(:)"],
                [f"logical{pri} :: {x} = .true."],
                [f"type :: {x}_t", "integer :: n = 3",
                 "real(kind_phys), allocatable :: a(:)",
                 "end type " + x + "_t"],
                [f"type {x}_t", "private", "integer :: n(3) = 1",
                 f"end type {x}_t"],
                [f"interface {x}_i", f"module procedure :: {x}_p",
                 f"end interface {x}_i"],
                [f"type, public :: {x}_t", "integer :: n", f"end type {x}_t",
                 f"type, extends({x}_t) :: {y}_t", "integer :: m",
                 f"end type {y}_t"],
                [f"type {x}_t", "integer :: n = 1", "contains",
                 f"procedure :: {x}_p", f"end type {x}_t"],
                [f"type {x}_t", "integer :: n = 1", f"end type {x}_t",
                 f"type {y}_t", f"type({x}_t) :: m", f"end type {y}_t"],
                [f"enum, bind(c)", f"enumerator :: {x} = 1, {y}",
                 "end enum"]]
        kinds = list(range(len(pick)))
        if host:
            # (no procedures there)
            kinds = [k for k in kinds if k not in (6, 8)]
        if table:
            # (declarations after the head of a table belong to it)
            kinds = [k for k in kinds if k not in (6, 10)]
        k = rng.choice(kinds)
        extra = []
        if k == 6:
            extra = [["helper", s, ""] for s in
                     (f"subroutine {x}_p(a)", "integer, intent(inout) :: a",
                      "a = 2 * a", f"end subroutine {x}_p")]
        elif k == 8:
            extra = [["helper", s, ""] for s in
                     (f"subroutine {x}_p(this)",
                      f"class({x}_t), intent(inout) :: this",
                      "this%n = 2", f"end subroutine {x}_p")]
        return [["extra", s, ""] for s in pick[k]], extra

    def extras(self):
        """More in the modules than what has metadata"""
        host = self.items[0][2] in ("host_data", "host_more")
        out, late = [], []
        table = None
        i = 0
        while i < len(self.items):
            item = self.items[i]
            if item[0] == "table" and "arg_table_" in item[1]:
                if out[-1][0] in ("module", "spec", "extra", "end") and \
                        table is None and self.some("extra", 0.4):
                    new, more = self.specextra(host, False)
                    out += new
                    late += more
                table = item[1]
            if item[0] == "contains" and self.some("extra", 0.6):
                new, more = self.specextra(host, False)
                out += new
                late += more
            if item[1].startswith("end module") and host and \
                    self.some("extra", 0.5):
                new, more = self.specextra(host, True)
                out += new
            out.append(item)
            if item[0] == "contains" and self.some("extra", 0.5):
                out += self.helper()
            elif item[0] == "end" and item[1].startswith("end subroutine") \
                    and self.some("extra", 0.4):
                out += self.helper()
            elif item[0] == "end" and \
                    item[1].startswith("end subroutine") and late:
                out += late
                late = []
            i += 1
        if late:
            at = [n for n, x in enumerate(out)
                  if x[1].startswith("end module")][0]
            out[at:at] = late
        if self.some("extra", 0.3):
            out = self.module() + out
        if self.some("extra", 0.3):
            out += self.module()
        self.items = out

    def module(self):
        """Another module in the same file, with nothing for the framework"""
        name = f"{self.items[0][2]}_{self.fresh('mo')}"
        out = [["extra", f"module {name}", name],
               ["extra", "implicit none", ""]]
        for _ in range(self.rng.randint(0, 2)):
            out.append(["extra", f"integer :: {self.fresh()}", ""])
        if self.rng.random() < 0.4:
            typ = self.fresh()
            out += [["extra", f"type {typ}", ""],
                    ["extra", f"real :: {self.fresh()}", ""],
                    ["extra", f"end type {typ}", ""]]
        if self.rng.random() < 0.5:
            out.append(["extra", "contains", ""])
            out += [x for x in self.helper(inner=False)]
        out.append(["end", f"end module {name}", ""])
        return out

    # ---- text
    def ends(self):
        """Other forms of end statements"""
        for item in self.items:
            mat = re.match(r"end (module|subroutine|type|function) ?(\w*)$",
                           item[1])
            if mat and item[0] != "exec" and self.some("ends", 0.6):
                what, name = mat.groups()
                item[1] = self.rng.choice(
                    [f"end{what} {name}", f"end {what}",
                     f"end  {what}  {name}", f"end{what}"])
            elif item[0] == "end" and self.some("ends", 0.05) and \
                    "subroutine" in item[1]:
                item[1] = "end subroutine"

    def prefix(self):
        """Prefixes of subroutines"""
        for item in self.items:
            if item[0] == "sub" and self.some("prefix", 0.4):
                item[1] = "recursive " + item[1]

    def recase(self, stmt, mode):
        """Letters of a statement in other cases"""
        out = []
        for tok in tokens(stmt):
            if tok[0] in "'\"":
                pass
            elif mode == "upper" or (mode == "mix" and
                                     self.rng.random() < 0.3):
                tok = tok.upper()
            elif mode == "title" and tok.lower() in (
                    "module", "subroutine", "end", "use", "only", "integer",
                    "real", "character", "logical", "intent", "type",
                    "contains", "dimension", "optional", "implicit", "none",
                    "allocatable", "call", "if", "then", "else"):
                tok = tok.capitalize()
            elif mode == "keys" and tok.lower() in (
                    "module", "subroutine", "end", "use", "only", "integer",
                    "real", "character", "logical", "intent", "type",
                    "contains", "dimension", "optional", "in", "out",
                    "inout", "len", "kind", "private", "public"):
                tok = tok.upper()
            out.append(tok)
        return "".join(out)

    def respace(self, stmt):
        """Other blanks between tokens"""
        out = []
        prob = self.rng.choice([0.1, 0.4])
        tight = self.rng.random() < 0.3
        toks = tokens(stmt)
        for i, tok in enumerate(toks):
            if tok.isspace():
                if tight and 0 < i < len(toks) - 1 and (
                        toks[i - 1] in (",", "::", "(", ")", "=") or
                        toks[i + 1] in (",", "::", ")", "=")) and \
                        toks[i - 1] not in (")",):
                    continue
                if self.rng.random() < prob:
                    tok += " " * self.rng.randint(1, 3)
                out.append(tok)
                continue
            if tok in (",", "::", "(", ")", "=") and not tight and i > 1 and \
                    self.rng.random() < prob and \
                    "".join(out)[-1:] not in ("/", "("):
                out.append(" ")
            out.append(tok)
            if tok in (",", "::", "(") and not tight and \
                    self.rng.random() < prob and toks[i + 1:i + 2] != ["/"]:
                out.append(" ")
        return "".join(out)

    def comment(self):
        """Text of a comment"""
        return "! " + " ".join(self.rng.choice(JUNK)
                               for _ in range(self.rng.randint(0, 3)))

    def broken(self, stmt, ind):
        """A statement as lines"""
        if self.fixed:
            return self.columns(stmt, ind)
        toks = [t for t in tokens(stmt)]
        lines, cur = [], ind
        rate = self.rng.choice([0.08, 0.25])
        amp = self.rng.random() < 0.3
        limit = 110
        for i, tok in enumerate(toks):
            must = len(cur) + len(tok) > limit
            want = "cont" in self.opts and 0 < i and \
                self.rng.random() < rate and len(lines) < 30
            if (must or want) and cur.strip() and cur.strip() != "&" and \
                    not tok.isspace():
                end = "&"
                if self.some("tail", 0.3):
                    end += " " + self.comment()
                lines.append(cur + (" " if self.rng.random() < 0.7 or
                                    cur[-1] not in " ," else "") + end)
                if "cont" in self.opts and self.rng.random() < 0.12:
                    lines.append(self.rng.choice(
                        ["", "  ! x", "    " + self.comment()]))
                cur = ind + "     " + ("& " if amp else "")
            if tok[0] in "'\"" and len(tok) > 5 and self.some("cont", 0.15):
                # (a literal on two lines)
                k = self.rng.randrange(2, len(tok) - 2)
                if not set(tok[k - 1:k + 1]) & set("'\"& "):
                    lines.append(cur + tok[:k] + "&")
                    cur, tok = ind + "   ", "&" + tok[k:]
            cur += tok
        lines.append(cur)
        return lines

    def columns(self, stmt, ind):
        """A statement as lines of fixed form"""
        lines, cur = [], "      " + ind
        rate = self.rng.choice([0, 0.1]) if "cont" in self.opts else 0
        for tok in tokens(stmt):
            if len(cur) + len(tok) > 72 or self.rng.random() < rate and \
                    cur.strip():
                if cur.rstrip().endswith(";"):
                    lines.append(cur.rstrip()[:-1])
                    cur = "      " + ind + tok.strip()
                    continue
                if self.some("tail", 0.3) and len(cur) < 70:
                    cur += " " + self.comment()
                lines.append(cur)
                if "cont" in self.opts and self.rng.random() < 0.15:
                    lines.append(self.rng.choice(
                        ["", "C", "c it's", "*" * 30, "!",
                         self.comment()]))
                cur = "     " + self.rng.choice("&&&&1*+x") + \
                    " " * self.rng.randint(0, 4)
                if tok.isspace():
                    continue
            while len(cur) + len(tok) > 72:
                # (a literal which does not fit)
                k = 72 - len(cur)
                lines.append(cur + tok[:k])
                cur, tok = "     &", tok[k:]
            cur += tok
        lines.append(cur)
        return lines

    def text(self):
        """The source"""
        self.declarations()
        self.locals()
        self.extras()
        self.prefix()
        self.ends()
        mode = self.rng.choice(["upper", "mix", "title", "keys"]) \
            if "case" in self.opts else None
        depth = self.rng.choice([0, 1, 2, 4])
        out = []
        join = False
        for num, (part, stmt, _) in enumerate(self.items):
            if part == "table":
                if self.some("odd", 0.5) and "arg_table" in stmt:
                    name = stmt.split("arg_table_")[1].split()[0]
                    stmt = self.rng.choice(
                        [f"!! \\section arg_table_{name} Argument Table",
                         f"!> \\section arg_table_{name}",
                         f"  !> \\section arg_table_{name} Argument table",
                         f"!> \\section  arg_table_{name}  (it's one)"])
                out.append(stmt)
                join = False
                continue
            if mode:
                stmt = self.recase(stmt, mode)
            if "ws" in self.opts and part != "exec":
                stmt = self.respace(stmt)
            ind = " " * (depth * {"module": 0, "spec": 1, "sub": 1,
                                  "typedef": 1, "contains": 0, "file": 0,
                                  "extra": 1}.get(part, 2))
            if part in ("decl", "spec", "type", "helper") and join and \
                    not out[-1].lstrip().startswith(("!", "#")) and \
                    "!" not in out[-1] and "&" not in out[-1] and \
                    len(out[-1]) + len(stmt) < (70 if self.fixed else 120):
                out[-1] += self.rng.choice(["; ", ";", " ; "]) + stmt
                join = False
                continue
            if self.some("blank", 0.15):
                out.append(self.rng.choice(
                    ["", "   ", "!", "  " + self.comment()]
                    if not self.fixed else
                    ["", "!", "C", "c " + self.comment()[2:],
                     "*  " + self.comment()[2:], " " + self.comment()]))
            if part in ("decl", "spec", "exec", "type", "sub") and \
                    self.some("cpp", 0.08):
                out += self.rng.choice(
                    [["#ifdef NOT_DEFINED_HERE", "  integer :: zzcpp(",
                      "#endif"],
                     ["#ifdef NOT_DEFINED_HERE", "end subroutine nothing",
                      "#else", "! other", "#endif"],
                     ["#if 0", "garbage ( & 'a", "#endif"],
                     ["#ifndef NOT_DEFINED_HERE", "! here", "#else",
                      "contains", "#endif"],
                     ["#if defined(NOT_DEFINED_HERE)", "integer :: a b c",
                      "#endif"]])
            lines = self.broken(stmt, ind)
            if self.some("tail", 0.2):
                lines[-1] += "  " + self.comment()
            elif self.fixed and self.some("tail", 0.1) and \
                    len(lines[-1]) <= 72:
                # (columns which mean nothing)
                lines[-1] = lines[-1].ljust(72) + self.rng.choice(
                    ["00012300", "!", "mods 'x"])
            if self.cond and part in ("decl", "spec", "exec", "type") and \
                    self.cond.rng.random() < 0.3:
                out += self.cond.around(lines, stmt)
                join = False
                continue
            out += lines
            join = part in ("decl", "spec", "type", "helper") and \
                self.some("semi", 0.35) and len(lines) == 1
        return "\n".join(out) + "\n"


# -------------------------------------------------------------------- metadata

PROPS = ["diagnostic_name = {}", "diagnostic_name = {}_${{process}}",
         "diagnostic_name = ${{scheme_name}}_{}",
         "diagnostic_name_fixed = {}", "persistence = run",
         "persistence = timestep", "state_variable = {b}"]


def metadata(text, rng, opts, props):
    """A metadata file written in another way"""
    out = []
    lines = text.split("\n")
    i = 0

    def some(opt, prob):
        return opt in opts and rng.random() < prob
    eq = rng.choice([" = ", "=", "  =  ", "= "]) if "mws" in opts else " = "
    ind = rng.choice(["", "  ", "    "]) if "mws" in opts else "  "
    while i < len(lines):
        line = lines[i]
        if line.startswith("["):
            head = line
            attrs = []
            i += 1
            while i < len(lines) and lines[i].startswith("  "):
                key, val = lines[i].split("=", 1)
                attrs.append([key.strip(), val.strip()])
                i += 1
            if "ccpp-table-properties" in head:
                if some("mcomment", 0.6):
                    out.append(rng.choice(
                        ["#" * 40, "# comment [ x ]", "; another = one",
                         "######", "#"]))
            elif "ccpp-arg-table" not in head:
                if some("mws", 0.5):
                    head = rng.choice(["[{}]", "[ {} ]", "[  {}]",
                                       "[{} ]"]).format(head.strip("[] "))
                if "mprops" in opts and props.random() < 0.3:
                    line = props.choice(PROPS).format(
                        props.choice(["T", "diag_1", "hist"]),
                        b=props.choice(["True", "false", ".true."]))
                    attrs.insert(props.randint(0, len(attrs)),
                                 line.split(" = "))
                if some("morder", 0.7):
                    rng.shuffle(attrs)
                if some("mlong", 0.6) and \
                        not {a[0] for a in attrs} & {"advected",
                                                     "constituent"}:
                    # (the long name of a constituent is data)
                    attrs.insert(rng.randint(0, len(attrs)),
                                 ["long_name", rng.choice(
                                     ["something", "what it's [ here ]",
                                      "a = b", "x & y; (z)", "50 % #1"])])
                for a in attrs:
                    if a[0] == "standard_name" and some("mcase", 0.3):
                        a[1] = rng.choice([a[1].upper(), a[1].title()])
                    if a[1] == ".true." and some("mbool", 0.7):
                        a[1] = rng.choice(["True", "true", ".TRUE.", "T",
                                           ".true."])
                    if a[1] == "True" and some("mbool", 0.7):
                        a[1] = rng.choice([".true.", "true", ".TRUE."])
                    if a[0] == "dimensions" and some("mws", 0.5):
                        a[1] = rng.choice(
                            [a[1].replace(", ", ","),
                             a[1].replace("(", "( ").replace(")", " )")])
                    if some("mcase", 0.15):
                        a[0] = rng.choice([a[0].upper(), a[0].title()])
            out.append(head)
            row = []
            for n, (key, val) in enumerate(attrs):
                row.append(f"{key}{eq}{val}")
                if n + 1 < len(attrs) and "ccpp-" not in head and \
                        some("mbar", 0.4):
                    continue
                out.append(ind + rng.choice([" | ", "|"]).join(row))
                row = []
                if some("mcomment", 0.1):
                    out.append(rng.choice(["# note = 1", "  # [ x ]", ";",
                                           "  ; x | y"]))
        else:
            if line or i + 1 < len(lines):
                out.append(line)
            i += 1
    return "\n".join(out) + "\n"


# ------------------------------------------------------------------------- XML

def xml(text, rng, opts):
    """A suite definition written in another way"""
    out = []
    for line in text.split("\n"):
        if "xattr" in opts:
            mat = re.search(r'name="(\w+)" (loop|version)="([^"]+)"', line)
            if mat and rng.random() < 0.5:
                line = line.replace(mat.group(0), "{}='{}' name='{}'".format(
                    mat.group(2), mat.group(3), mat.group(1)))
        if "xws" in opts:
            line = re.sub(r"<scheme>(\w+)</scheme>", lambda m: rng.choice(
                ["<scheme>{}</scheme>", "<scheme  >{}</scheme >"]).format(m.group(1)), line)
            line = rng.choice(["", "  ", "\t"]) + line.lstrip() \
                if out else line
        out.append(line)
        if "xcomment" in opts and len(out) > 3 and line.strip() and \
                "</suite>" not in line and rng.random() < 0.2:
            out.append(rng.choice(["<!-- <scheme>none</scheme> -->",
                                   "<!-- it's -->", ""]))
    return "\n".join(out) + "\n"

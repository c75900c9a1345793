"""Mistakes a developer can make: each takes a consistent project and makes it
inconsistent, so that no generator may accept it.

A mistake is a function (rng, world, files, names) which changes the rendered
files (or the lists of files) and returns True, or returns False when this
project offers no place for it."""
import json
import re

from . import capworld, style

BREAKS = {}
# mistakes which rewriting the files might undo
AS_IT_IS = ("xml_cut", "meta_cut", "garbage_line")
# mistakes which matter to the host cap only (and are found if there is one)
HOST_CAP = ("constituent_dims", "tendency_of_nothing", "tendency_units")


def mistake(func):
    """Register a mistake under its function's name"""
    BREAKS[func.__name__] = func
    return func


def apply(name, rng, w, flat, names):
    """The project after mistake <name>: (files, names), or None"""
    how = w.get("style")
    if how:
        # (made in the plain inputs, which are then written in their way)
        w = dict(w, style=None)
        flat = capworld.render(w)
    files = dict(flat)
    lists = {k: list(v) for k, v in names.items()}
    if not BREAKS[name](rng, json.loads(json.dumps(w)), files, lists):
        return None
    if how and name not in AS_IT_IS:
        files = style.apply(files, how)
    return files, lists


def phases_of(w):
    """(scheme, phase, data) of every phase which some suite uses"""
    used = {n for s in w["suites"] for n in capworld.names_in(s)}
    return [(s, p, ph) for s in w["schemes"] if s["name"] in used
            for p, ph in s["phases"].items()]


def hostargs(w):
    """(scheme, phase, arg, host variable) of arguments the host provides"""
    host = {v["std"]: v for v in w["host"]}
    return [(s, p, a, host[a["std"]]) for s, p, ph in phases_of(w)
            for a in ph["args"] if a["std"] in host]


def rerender(w, files):
    """Render the changed world"""
    files.clear()
    files.update(capworld.render(w))
    return True


def section(text, sub, local):
    """(start, end) of the metadata section of <local> in the table <sub>"""
    tab = re.search(r"name = " + re.escape(sub) + r"\n  type = scheme\n", text)
    if tab is None:
        return None
    start = text.find(f"[ {local} ]\n", tab.end())
    stop = text.find("[ccpp-arg-table]", tab.end())
    if start < 0 or (0 <= stop < start):
        return None
    ends = [x for x in (text.find("\n[", start + 1),) if x >= 0]
    return start, (ends[0] + 1 if ends else len(text))


def edit_section(rng, w, files, func, want=lambda s, p, a: True):
    """Change one argument's metadata section with <func>"""
    cands = [(s, p, a) for s, p, ph in phases_of(w) for a in ph["args"]
             if want(s, p, a)]
    rng.shuffle(cands)
    for s, p, a in cands:
        name = s["name"] + ".meta"
        sub = s["name"] + "_" + s["phases"][p]["spell"]
        where = section(files[name], sub, a["local"])
        if where is None:
            continue
        old = files[name][where[0]:where[1]]
        new = func(old, a)
        if new is not None and new != old:
            files[name] = files[name][:where[0]] + new + \
                files[name][where[1]:]
            return True
    return False


# ---- what a suite asks for is not there

@mistake
def unknown_scheme(rng, w, files, names):
    """A suite names a scheme which does not exist"""
    s = rng.choice(w["suites"])
    g = rng.choice(s["groups"])
    g["items"].insert(rng.randrange(len(g["items"]) + 1), "no_such_scheme")
    files[s["name"] + ".xml"] = capworld.suite_xml(s)
    return True


@mistake
def scheme_file_not_listed(rng, w, files, names):
    """A scheme which a suite uses is not among the files"""
    cands = sorted({n for s in w["suites"] for n in capworld.names_in(s)})
    if len(names["schemes"]) < 2:
        return False
    n = rng.choice(cands)
    names["schemes"].remove(n + ".meta")
    del files[n + ".meta"], files[n + ".F90"]
    return True


@mistake
def file_missing(rng, w, files, names):
    """A listed metadata file does not exist"""
    key = rng.choice(["host", "schemes"])
    if key == "host":
        names["host"].append("more_data.meta")
    else:
        names["schemes"].append("more_scheme.meta")
    names["must_list"] = []
    return True


@mistake
def suite_missing(rng, w, files, names):
    """A listed suite definition does not exist"""
    names["suites"].append("no_such_suite.xml")
    names["must_list"] = []
    return True


@mistake
def source_missing(rng, w, files, names):
    """A scheme's source is not there"""
    n = rng.choice(names["schemes"])[:-5] + ".F90"
    if n not in files:
        return False
    del files[n]
    return True


@mistake
def variable_not_provided(rng, w, files, names):
    """A scheme reads what neither the host nor another scheme provides"""
    cands = [ph for s, p, ph in phases_of(w)]
    ph = rng.choice(cands)
    ph["args"].append({"std": "never_provided_by_anyone", "local": "nope",
                       "intent": rng.choice(["in", "inout"]), "type": "real",
                       "kind": "kind_phys", "dims": [], "units": "m",
                       "top": False, "optional": False})
    return rerender(w, files)


@mistake
def dimension_not_provided(rng, w, files, names):
    """An argument has a dimension which no one knows"""
    def func(text, a):
        return re.sub(r"(vertical_layer_dimension|vertical_interface_dimension"
                      r"|number_of_things)(\))", r"dimension_of_nobody\2",
                      text)
    return edit_section(rng, w, files, func,
                        lambda s, p, a: a["dims"][-1:] and
                        a["dims"][-1] in "LIE" and not a.get("dimarg"))


# ---- host and scheme do not agree

@mistake
def host_type(rng, w, files, names):
    """Host and scheme declare different types"""
    cands = [(a, v) for s, p, a, v in hostargs(w)
             if v["type"] in ("real", "integer") and not v.get("isloop")
             and a["intent"] != "out"]
    if not cands:
        return False
    a, _ = rng.choice(cands)
    if a["type"] == "real":
        a.update(type="integer", kind=None)
    else:
        a.update(type="real", kind="kind_phys")
    return rerender(w, files)


@mistake
def host_rank(rng, w, files, names):
    """Host and scheme disagree about the rank"""
    cands = [a for s, p, a, v in hostargs(w) if len(a["dims"]) > 1]
    if not cands:
        return False
    rng.choice(cands)["dims"].pop(0)
    return rerender(w, files)


@mistake
def host_units(rng, w, files, names):
    """No conversion between the host's and the scheme's units"""
    cands = [a for s, p, a, v in hostargs(w) if a["type"] == "real"]
    if not cands:
        return False
    a = rng.choice(cands)
    a["units"] = "mol" if rng.random() < 0.5 else "J kg-1"
    return rerender(w, files)


def shared(w, want=lambda a: True):
    """Arguments which another scheme of the suite has set before and which
    the host does not provide"""
    host = {v["std"] for v in w["host"]}
    uses = {}
    for num, suite in enumerate(w["suites"]):
        for name, phase, _ in capworld.order_of(w, suite):
            for a in capworld.scheme(w, name)["phases"][phase]["args"]:
                if a["std"] not in host and not a.get("dimarg"):
                    have = uses.setdefault((num, a["std"]), [])
                    if not any(a is x for x in have):
                        have.append(a)
    return [v[-1] for v in uses.values() if len(v) > 1
            and v[-1]["intent"] != "out" and want(v[-1])]


@mistake
def interstitial_type(rng, w, files, names):
    """Two schemes of a suite disagree about the type of what they share"""
    cands = shared(w)
    if not cands:
        return False
    a = rng.choice(cands)
    if a["type"] == "real":
        a.update(type="integer", kind=None, units="count")
    else:
        a.update(type="real", kind="kind_phys", units="m")
    return rerender(w, files)


@mistake
def interstitial_rank(rng, w, files, names):
    """... about its rank"""
    cands = shared(w, lambda a: set(a["dims"]) != {"H"} or rng.random() < .3)
    if not cands:
        return False
    a = rng.choice(cands)
    # (a missing vertical dimension asks for a loop over levels)
    a["dims"] = list(a["dims"]) + ["E"] if "E" not in a["dims"] else \
        [d for d in a["dims"] if d != "E"]
    return rerender(w, files)


@mistake
def interstitial_dims(rng, w, files, names):
    """... about its dimensions"""
    cands = shared(w, lambda a: set(a["dims"]) & set("LIE"))
    if not cands:
        return False
    a = rng.choice(cands)
    swap = {"L": "I", "I": "L", "E": "L"}
    if rng.random() < 0.3:
        swap.update(L="E", I="E", E="I")
    a["dims"] = [swap.get(d, d) for d in a["dims"]]
    return rerender(w, files)


@mistake
def interstitial_units(rng, w, files, names):
    """... about its units"""
    cands = shared(w, lambda a: a["type"] == "real" and
                   a["units"] not in ("1", "mol", "J kg-1"))
    if not cands:
        return False
    a = rng.choice(cands)
    a["units"] = "mol" if rng.random() < 0.5 else "J kg-1"
    return rerender(w, files)


@mistake
def protected_written(rng, w, files, names):
    """A scheme writes what the host protects"""
    cands = [v for s, p, a, v in hostargs(w) if a["intent"] != "in"]
    if not cands:
        return False
    v = rng.choice(cands)
    mark = f"[ {v['local']} ]\n"
    if mark not in files["host_data.meta"]:
        return False
    files["host_data.meta"] = files["host_data.meta"].replace(
        mark, mark + "  protected = True\n", 1)
    return True


@mistake
def host_twice(rng, w, files, names):
    """Two host variables carry one standard name"""
    cands = [v for v in w["host"]]
    v = rng.choice(cands)
    c = dict(v, local=v["local"] + "_again", isflag=False, isloop=False)
    w["host"].append(c)
    return rerender(w, files)


@mistake
def host_twice_elsewhere(rng, w, files, names):
    """A member of the host's derived type and a variable of its module carry
    one standard name"""
    cands = [v for v in w["host"] if "slice" not in v]
    if len({v["in_ddt"] for v in cands}) < 2:
        return False
    v = rng.choice(cands)
    c = dict(v, local=v["local"] + "_again", isflag=False, isloop=False,
             in_ddt=not v["in_ddt"])
    w["host"].insert(rng.randrange(len(w["host"]) + 1), c)
    return rerender(w, files)


@mistake
def host_not_compiled(rng, w, files, names):
    """The host's metadata names a variable which its source lacks"""
    mod = files["host_data.meta"]
    files["host_data.meta"] = mod + capworld.meta_var(
        "ghost_var", "ghost_in_the_machine", "m", "real", "kind_phys", [])
    return True


@mistake
def host_source_type(rng, w, files, names):
    """The host's metadata and source disagree about a type"""
    v = rng.choice(w["host"])
    text = files["host_data.meta"]
    start = text.find(f"[ {v['local']} ]\n")
    stop = text.find("\n[", start + 1)
    stop = len(text) if stop < 0 else stop
    sec = text[start:stop]
    if v["type"] == "real":
        new = sec.replace("type = real\n  kind = kind_phys", "type = integer")
        new = re.sub(r"type = real\n  kind = \w+", "type = integer", new)
    elif v["type"] == "integer":
        new = sec.replace("type = integer", "type = real\n  kind = kind_phys")
    elif v["type"] == "character":
        new = sec.replace("type = character\n  kind = len=8", "type = integer")
    else:
        new = sec.replace("type = logical", "type = integer")
    files["host_data.meta"] = text[:start] + new + text[stop:]
    return new != sec


@mistake
def host_source_rank(rng, w, files, names):
    """The host's metadata and source disagree about a rank"""
    cands = [v for v in w["host"] if len(v["dims"]) > 1]
    if not cands:
        return False
    v = rng.choice(cands)
    text = files["host_data.meta"]
    start = text.find(f"[ {v['local']} ]\n")
    stop = text.find("\n[", start + 1)
    stop = len(text) if stop < 0 else stop
    sec = text[start:stop]
    new = re.sub(r"dimensions = \((\w+), .*\)", r"dimensions = (\1)", sec)
    files["host_data.meta"] = text[:start] + new + text[stop:]
    return new != sec


@mistake
def host_source_behind_parts(rng, w, files, names):
    """Metadata and source disagree about a variable listed after references
    to parts of an array (which the source does not list)"""
    cands = [v for v in w["host"] if len(v["dims"]) == 2 and v["type"] ==
             "real" and not v["in_ddt"] and "slice" not in v
             and not v["active"]]
    if not cands:
        return False
    v = rng.choice(cands)
    where = meta_of(files, "host_data.meta", v["local"])
    if where is None:
        return False
    text = files["host_data.meta"]
    kind = v["kind"] or "kind_phys"
    parts = "".join(capworld.meta_var(
        f"{v['local']}(:,{i + 1})", f"part_{i}_of_it", "m", "real",
        kind, [v["dims"][0]]) for i in range(rng.choice([4, 12, 30])))
    parts += capworld.meta_var("index_of_part", "index_of_part", "index",
                               "integer", "", [])
    last, decl = rng.choice([("real", "integer :: last_of_all"),
                             ("integer", "real(kind_phys) :: last_of_all"),
                             ("real", "real(kind_sp) :: last_of_all"),
                             ("real", "real(kind_phys) :: last_of_all(3)")])
    files["host_data.meta"] = text.rstrip("\n") + "\n" + parts + \
        capworld.meta_var("last_of_all", "last_of_all", "m", last,
                          "kind_phys" if last == "real" else "", [])
    src = files["host_data.F90"]
    files["host_data.F90"] = src.replace(
        "end module host_data", "  integer :: index_of_part = 1\n  " + decl +
        "\nend module host_data")
    return True


# ---- a scheme's metadata and source do not agree

def source_edit(rng, w, files, func):
    """Change the source of one subroutine of a scheme"""
    cands = phases_of(w)
    rng.shuffle(cands)
    for s, p, ph in cands:
        name = s["name"] + ".F90"
        sub = s["name"] + "_" + ph["spell"]
        text = files[name]
        start = text.index(f"  subroutine {sub}(")
        stop = text.index(f"  end subroutine {sub}")
        new = func(text[start:stop], ph["args"])
        if new is not None and new != text[start:stop]:
            files[name] = text[:start] + new + text[stop:]
            return True
    return False


def swap_names(text, x, y):
    """Swap two names in the argument list"""
    stop = text.index(")")
    head = re.sub(r"\b(%s|%s)\b" % (x, y),
                  lambda m: y if m.group(1) == x else x, text[:stop])
    return head + text[stop:]


@mistake
def source_order(rng, w, files, names):
    """The source takes its arguments in another order"""
    def func(text, args):
        if len(args) < 2:
            return None
        i = rng.randrange(len(args) - 1)
        return swap_names(text, args[i]["local"], args[i + 1]["local"])
    return source_edit(rng, w, files, func)


@mistake
def source_lacks_argument(rng, w, files, names):
    """The metadata has an argument which the source lacks"""
    return edit_section(
        rng, w, files, lambda text, a: text + capworld.meta_var(
            "ghost", a["std"] + "_more", "m", "real", "kind_phys", [],
            ["intent = out"]))


@mistake
def meta_lacks_argument(rng, w, files, names):
    """The source has an argument which the metadata lacks"""
    return edit_section(rng, w, files, lambda text, a: "")


def decl_edit(rng, w, files, func, want=lambda a: True):
    """Change one argument's declaration in the source"""
    def edit(text, args):
        cands = [a for a in args if want(a)]
        if not cands:
            return None
        a = rng.choice(cands)
        m = re.search(r"^    \w+(\([\w=*]+\))?, intent\(\w+\).*:: "
                      + a["local"] + r"\b.*$", text, re.M)
        new = func(m.group(0), a)
        return text[:m.start()] + new + text[m.end():]
    return source_edit(rng, w, files, edit)


@mistake
def source_type(rng, w, files, names):
    """The source declares another type"""
    def func(line, a):
        if a["type"] == "real":
            return re.sub(r"real\(\w+\)", "integer", line)
        if a["type"] == "integer":
            return line.replace("integer", "real(kind_phys)", 1)
        if a["type"] == "character":
            return re.sub(r"character\([\w=*]+\)", "integer", line)
        return line.replace("logical", "integer", 1)
    return decl_edit(rng, w, files, func)


@mistake
def source_kind(rng, w, files, names):
    """The source declares another kind"""
    return decl_edit(rng, w, files, lambda line, a: line.replace(
        f"real({a['kind']})", "real(kind_sp)" if a["kind"] == "kind_phys"
        else "real(kind_phys)"), lambda a: a["type"] == "real")


@mistake
def source_intent(rng, w, files, names):
    """The source declares another intent"""
    return decl_edit(rng, w, files, lambda line, a: line.replace(
        f"intent({a['intent']})", "intent(" + rng.choice(
            [x for x in ("in", "out", "inout") if x != a["intent"]]) + ")"))


@mistake
def source_rank(rng, w, files, names):
    """The source declares another rank"""
    def func(line, a):
        if len(a["dims"]) == 1:
            return line.replace("(:)", "")
        return line.replace("(:,", "(", 1)
    return decl_edit(rng, w, files, func, lambda a: a["dims"])


@mistake
def source_optional(rng, w, files, names):
    """The metadata says optional, the source does not"""
    return edit_section(rng, w, files, lambda text, a: text.rstrip("\n")
                        + "\n  optional = .true.\n",
                        lambda s, p, a: not a["optional"] and a["dims"])


@mistake
def source_alone_optional(rng, w, files, names):
    """The source says optional, the metadata does not"""
    return decl_edit(rng, w, files, lambda line, a: line.replace(
        f"intent({a['intent']})", f"intent({a['intent']}), optional"),
                     lambda a: not a["optional"])


@mistake
def source_lacks_phase(rng, w, files, names):
    """The metadata has an entry point which the source lacks"""
    cands = phases_of(w)
    s, p, ph = rng.choice(cands)
    name = s["name"] + ".F90"
    sub = s["name"] + "_" + ph["spell"]
    text = files[name]
    start = text.index(f"!> \\section arg_table_{sub} ")
    end = f"  end subroutine {sub}\n"
    stop = text.index(end) + len(end)
    files[name] = (text[:start] + text[stop:]).replace(
        f"  public :: {sub}\n", "")
    return True


# ---- malformed metadata

def drop_property(prop):
    """Remove a mandatory property"""
    def func(rng, w, files, names):
        return edit_section(rng, w, files, lambda text, a: re.sub(
            r"  %s = .*\n" % prop, "", text))
    func.__name__ = "no_" + prop
    func.__doc__ = f"A variable without {prop}"
    return mistake(func)


for _p in ("standard_name", "units", "type", "intent", "dimensions"):
    drop_property(_p)


def bad_value(prop, value):
    """Give a property an impossible value"""
    def func(rng, w, files, names):
        return edit_section(rng, w, files, lambda text, a: re.sub(
            r"  %s = .*\n" % prop, f"  {prop} = {value}\n", text))
    func.__name__ = "bad_" + prop
    func.__doc__ = f"A variable with an illegal {prop}"
    return mistake(func)


for _p, _v in (("standard_name", "air temp(1"), ("units", "m s - 1 ?"),
               ("type", "reel"), ("intent", "inn"),
               ("dimensions", "horizontal_loop_extent")):
    bad_value(_p, _v)


@mistake
def unknown_property(rng, w, files, names):
    """A property which does not exist"""
    return edit_section(rng, w, files, lambda text, a: text.rstrip("\n")
                        + "\n  flavour = strange\n")


@mistake
def optional_property(rng, w, files, names):
    """An illegal value of a property which need not be given"""
    line = rng.choice(["persistence = forever", "diagnostic_name = 1 bad",
                       "diagnostic_name_fixed = a b", "protected = maybe",
                       "top_at_one = perhaps", "state_variable = 3x",
                       "allocatable = sometimes", "molar_mass = heavy",
                       "advected = sideways", "polymorphic = 2many",
                       "diagnostic_name = a_{scheme}_b",
                       "molar_mass = -1.0", "optional = now and then",
                       "diagnostic_name = a\n  diagnostic_name_fixed = b"])
    return edit_section(rng, w, files, lambda text, a: text.rstrip("\n")
                        + f"\n  {line}\n")


@mistake
def argument_twice(rng, w, files, names):
    """One table describes one name twice"""
    return edit_section(rng, w, files, lambda text, a: text + text)


@mistake
def standard_name_twice(rng, w, files, names):
    """Two arguments of a scheme carry one standard name"""
    cands = [ph for s, p, ph in phases_of(w)
             if any(not a.get("dimarg") for a in ph["args"])]
    if not cands:
        return False
    ph = rng.choice(cands)
    a = rng.choice([a for a in ph["args"] if not a.get("dimarg")])
    ph["args"].append(dict(a, local=a["local"] + "q"))
    return rerender(w, files)


@mistake
def table_type_unknown(rng, w, files, names):
    """A table of a type which does not exist"""
    n = rng.choice(names["schemes"])
    files[n] = files[n].replace("type = scheme", "type = shceme", 1)
    return True


@mistake
def garbage_line(rng, w, files, names):
    """A line which is no metadata"""
    n = rng.choice(names["schemes"] + names["host"])
    lines = files[n].split("\n")
    lines.insert(rng.randrange(3, len(lines)), "this is not metadata")
    files[n] = "\n".join(lines)
    return True


@mistake
def meta_cut(rng, w, files, names):
    """The end of a metadata file is lost"""
    n = rng.choice(names["schemes"])
    text = files[n]
    last = text.rindex("[ errflg ]")
    files[n] = text[:last]
    return True


@mistake
def scheme_twice(rng, w, files, names):
    """Two files describe one scheme"""
    n = rng.choice(names["schemes"])
    files["copy_of_" + n] = files[n]
    files["copy_of_" + n[:-5] + ".F90"] = files[n[:-5] + ".F90"]
    names["schemes"].append("copy_of_" + n)
    return True


# ---- malformed suites

def xml_edit(rng, w, files, func):
    """Change a suite definition file"""
    s = rng.choice(w["suites"])
    name = s["name"] + ".xml"
    new = func(files[name])
    if new == files[name]:
        return False
    files[name] = new
    return True


@mistake
def xml_cut(rng, w, files, names):
    """The end of a suite definition is lost"""
    return xml_edit(rng, w, files, lambda t: t[:rng.randrange(
        1, len(t.rstrip()) - 1)])


@mistake
def xml_unknown_element(rng, w, files, names):
    """An element which the schema does not know"""
    return xml_edit(rng, w, files, lambda t: t.replace(
        "<scheme>", "<shceme>x</shceme><scheme>", 1))


@mistake
def xml_no_group_name(rng, w, files, names):
    """A group without a name"""
    return xml_edit(rng, w, files, lambda t: re.sub(
        r'<group name="\w+">', "<group>", t, count=1))


@mistake
def xml_no_version(rng, w, files, names):
    """A suite without version"""
    return xml_edit(rng, w, files, lambda t: t.replace(' version="1.0">',
                                                       ">", 1))


@mistake
def xml_bad_version(rng, w, files, names):
    """A suite of a version which does not exist"""
    return xml_edit(rng, w, files, lambda t: t.replace('" version="1.0">',
                                                       '" version="9.7">', 1))


@mistake
def group_twice(rng, w, files, names):
    """Two groups of a suite carry one name"""
    s = rng.choice(w["suites"])
    s["groups"].append(json.loads(json.dumps(rng.choice(s["groups"]))))
    files[s["name"] + ".xml"] = capworld.suite_xml(s)
    return True


@mistake
def suite_twice(rng, w, files, names):
    """Two files define one suite"""
    s = rng.choice(w["suites"])
    files["again.xml"] = files[s["name"] + ".xml"]
    names["suites"].append("again.xml")
    return True


@mistake
def loop_unknown(rng, w, files, names):
    """A subcycle whose count no one provides"""
    s = rng.choice(w["suites"])
    g = rng.choice(s["groups"])
    g["items"] = [{"loop": "count_of_nobody", "name": "sub",
                   "items": g["items"]}]
    files[s["name"] + ".xml"] = capworld.suite_xml(s)
    return True


# ---- mistakes about names and spelling

def meta_of(files, name, local):
    """(start, stop) of the section of <local> in a host metadata file"""
    text = files[name]
    start = text.find(f"[ {local} ]\n")
    if start < 0:
        return None
    stop = text.find("\n[", start + 1)
    return start, len(text) if stop < 0 else stop + 1


@mistake
def units_case(rng, w, files, names):
    """Units which differ from the host's by capital letters alone"""
    cands = [a for s, p, a, v in hostargs(w) if a["type"] == "real"
             and a["units"].swapcase() != a["units"]
             and a["units"].lower() != "none" and a["units"] == v["units"]]
    if not cands:
        return False
    a = rng.choice(cands)
    a["units"] = a["units"].swapcase()
    return rerender(w, files)


@mistake
def character_length(rng, w, files, names):
    """Two sides disagree about the length of a text"""
    cands = [a for s, p, a, v in hostargs(w) if a["type"] == "character"] + \
        shared(w, lambda a: a["type"] == "character")
    if not cands:
        return False
    rng.choice(cands)["kind"] = "len=" + rng.choice(["1", "7", "9", "48",
                                                     "80", "18"])
    return rerender(w, files)


@mistake
def host_character_length(rng, w, files, names):
    """The host's metadata and source disagree about the length of a text"""
    old = "character(len=8)"
    text = files["host_data.F90"]
    if old not in text:
        return False
    parts = text.split(old)
    k = rng.randrange(1, len(parts))
    files["host_data.F90"] = old.join(parts[:k]) + rng.choice(
        ["character(len=9)", "character(len=80)", "character"]) + \
        old.join(parts[k:])
    return True


@mistake
def source_message_length(rng, w, files, names):
    """Metadata and source do not agree about the length of a string"""
    cands = phases_of(w)
    s, p, ph = rng.choice(cands)
    sub = s["name"] + "_" + ph["spell"]
    src = s["name"] + ".F90"
    start = files[src].index(f"  subroutine {sub}(")
    stop = files[src].index(f"  end subroutine {sub}")
    code = files[src][start:stop]
    new = re.sub(r"character\(len=(\d+|\*)\)(.*:: errmsg)",
                 r"character(len=%d)\2" % rng.choice([1, 64, 511, 513]), code)
    files[src] = files[src][:start] + new + files[src][stop:]
    return new != code


@mistake
def error_code_type(rng, w, files, names):
    """A scheme's error code is no integer"""
    cands = phases_of(w)
    s, p, ph = rng.choice(cands)
    sub = s["name"] + "_" + ph["spell"]
    meta, src = s["name"] + ".meta", s["name"] + ".F90"
    where = section(files[meta], sub, "errflg")
    if where is None:
        return False
    sec = files[meta][where[0]:where[1]]
    new = sec.replace("type = integer", "type = logical")
    files[meta] = files[meta][:where[0]] + new + files[meta][where[1]:]
    if rng.random() < 0.5:
        start = files[src].index(f"  subroutine {sub}(")
        stop = files[src].index(f"  end subroutine {sub}")
        code = files[src][start:stop]
        code = re.sub(r"integer(.*:: errflg)", r"logical\1", code)
        files[src] = files[src][:start] + code + files[src][stop:]
    return new != sec


@mistake
def host_no_error_variable(rng, w, files, names):
    """The host provides no place for errors"""
    name = "simhost.meta"
    where = meta_of(files, name, rng.choice(["errmsg", "errflg"]))
    if where is None:
        return False
    files[name] = files[name][:where[0]] + files[name][where[1]:]
    return True


@mistake
def source_declared_twice(rng, w, files, names):
    """The source declares an argument twice"""
    def func(line, a):
        return line + "\n" + line
    return decl_edit(rng, w, files, func)


@mistake
def source_listed_twice(rng, w, files, names):
    """The source takes one argument twice"""
    def func(text, args):
        if len(args) < 1:
            return None
        a = rng.choice(args)["local"]
        return re.sub(r"\b%s\b" % a, a + ", " + a, text, count=1)
    return source_edit(rng, w, files, func)


@mistake
def host_local_twice(rng, w, files, names):
    """Two host variables carry one local name"""
    cands = [v for v in w["host"] if not v["in_ddt"]]
    if len(cands) < 2:
        return False
    a, b = rng.sample(cands, 2)
    old = f"[ {a['local']} ]\n"
    if files["host_data.meta"].count(old) != 1 or "(" in b["local"] + old:
        return False
    files["host_data.meta"] = files["host_data.meta"].replace(
        old, f"[ {b['local']} ]\n")
    return True


@mistake
def suite_twice_case(rng, w, files, names):
    """Two suites whose names differ by capital letters alone (modules do
    not)"""
    s = rng.choice(w["suites"])
    text = files[s["name"] + ".xml"]
    new = text.replace(f'name="{s["name"]}"', f'name="{s["name"].upper()}"', 1)
    if new == text or s["name"].upper() == s["name"]:
        return False
    files["again.xml"] = new
    names["suites"].append("again.xml")
    return True


@mistake
def group_twice_case(rng, w, files, names):
    """Two groups whose names differ by capital letters alone (subroutines do
    not)"""
    s = rng.choice(w["suites"])
    g = json.loads(json.dumps(rng.choice(s["groups"])))
    g["name"] = g["name"].swapcase()
    s["groups"].append(g)
    files[s["name"] + ".xml"] = capworld.suite_xml(s)
    return True


@mistake
def group_like_phase(rng, w, files, names):
    """A group of the name of a phase (the subroutines would be the same)"""
    s = rng.choice(w["suites"])
    g = rng.choice(s["groups"])
    g["name"] = rng.choice(["register", "initialize", "finalize",
                            "timestep_initial", "timestep_final"])
    files[s["name"] + ".xml"] = capworld.suite_xml(s)
    return True


@mistake
def ddt_twice(rng, w, files, names):
    """Two files describe one derived type"""
    text = files["host_data.meta"]
    start = text.find("[ccpp-table-properties]\n  name = host_state_t")
    if start < 0:
        return False
    stop = text.find("[ccpp-table-properties]", start + 5)
    files["more_host.meta"] = text[start:stop if stop > 0 else len(text)]
    code = files["host_data.F90"]
    end = "  end type host_state_t\n"
    start = code.index("!> \\section arg_table_host_state_t")
    files["more_host.F90"] = (
        "module more_host\n  use ccpp_kinds, only: kind_phys, kind_sp\n"
        "  implicit none\n  public\n"
        + code[start:code.index(end)] + end + "end module more_host\n")
    names["host"].insert(rng.randrange(len(names["host"]) + 1),
                         "more_host.meta")
    return True


@mistake
def slice_too_many(rng, w, files, names):
    """A reference to a part of an array with too few or too many dimensions"""
    cands = [v for v in w["host"] if "slice" in v and v["dims"]]
    if not cands:
        return False
    v = rng.choice(cands)
    text = files["host_data.meta"]
    where = meta_of(files, "host_data.meta", capworld.metaname(v))
    if where is None:
        return False
    sec = text[where[0]:where[1]]
    new = re.sub(r"  dimensions = \(.*\)\n",
                 "  dimensions = (horizontal_dimension, "
                 "vertical_layer_dimension, number_of_things, "
                 "vertical_interface_dimension)\n" if rng.random() < 0.5 else
                 "  dimensions = ()\n", sec)
    files["host_data.meta"] = text[:where[0]] + new + text[where[1]:]
    return new != sec


@mistake
def active_unknown(rng, w, files, names):
    """Whether a variable is there depends on what no one knows"""
    std = {a["std"] for s, p, a, v in hostargs(w) if a["optional"]}
    cands = [v for v in w["host"] if v["std"] in std]
    if not cands:
        return False
    v = rng.choice(cands)
    where = meta_of(files, "host_data.meta", v["local"])
    if where is None:
        return False
    text = files["host_data.meta"]
    sec = text[where[0]:where[1]]
    new = re.sub(r"  active = .*\n", "", sec).rstrip("\n") + \
        "\n  active = (flag_of_nobody)\n"
    files["host_data.meta"] = text[:where[0]] + new + text[where[1]:]
    return True


@mistake
def dependencies_none(rng, w, files, names):
    """A table which has dependencies and has none"""
    n = rng.choice(names["schemes"])
    rows = ["  dependencies = one.F90, two.F90\n", "  dependencies = None\n"]
    rng.shuffle(rows)
    new = re.sub(r"  (dependencies|relative_path) = .*\n", "", files[n])
    files[n] = new.replace("  type = scheme\n",
                           "  type = scheme\n" + "".join(rows), 1)
    return True


# ---- constituents

def constituent_args(w, want=lambda a: True):
    """(phase data, argument) of arguments which are constituents"""
    return [(ph, a) for s, p, ph in phases_of(w) for a in ph["args"]
            if "const" in a and want(a)]


@mistake
def tendency_units(rng, w, files, names):
    """A tendency which is not per second of what it changes"""
    cands = constituent_args(w, lambda a: a.get("tend"))
    if not cands:
        return False
    std = rng.choice(cands)[1]["std"]
    units = rng.choice(["m", "K s-1 s-1", "s", "kg m-2 s-1"])
    for _, a in cands:
        if a["std"] == std:
            a["units"] = units
    return rerender(w, files)


@mistake
def tendency_of_nothing(rng, w, files, names):
    """A tendency of a constituent which is not there"""
    cands = constituent_args(w, lambda a: a.get("tend"))
    if not cands:
        return False
    std = rng.choice(cands)[1]["std"]
    for _, a in cands:
        if a["std"] == std:
            a["std"] = std + "_of_nobody"
    return rerender(w, files)


@mistake
def constituent_dims(rng, w, files, names):
    """A constituent of a shape which the framework cannot store"""
    std = {a["std"] for _, a in constituent_args(
        w, lambda a: not a.get("tend"))}
    if not std:
        return False
    std = rng.choice(sorted(std))
    dims = rng.choice([["H"], ["L"], ["H", "E"], ["H", "I"], ["L", "H"],
                       ["H", "L", "E"]])
    for _, a in constituent_args(w, lambda a: a["std"] == std):
        a["dims"] = dims
    return rerender(w, files)


@mistake
def constituents_outside_register(rng, w, files, names):
    """Properties of run-time constituents in a phase which is no register"""
    cands = [(s, ph) for s, p, ph in phases_of(w)
             if p in ("initialize", "run", "finalize") and not ph.get("dyn")]
    if not cands:
        return False
    s, ph = rng.choice(cands)
    ph["dyn"] = {"std": "dynamic_constituents_for_" + s["name"] + "_late",
                 "local": "dyn_late", "consts": []}
    return rerender(w, files)

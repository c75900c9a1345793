"""Mistakes which developers make in the inputs of ccpp_prebuild.  Each takes
the files of a consistent world and returns files which are not consistent (or
None where the world offers no place for it), with extra command-line
arguments."""
import re

from . import preworld

BREAKS = {}


def mistake(func):
    """Register a mistake by its function's name"""
    BREAKS[func.__name__] = func
    return func


def used(w):
    """(scheme, phase, argument) of everything which the suites call"""
    for s in w["schemes"]:
        if s["name"] in preworld.names_called(w):
            for phase, ph in s["phases"].items():
                for a in ph["args"]:
                    yield s, phase, a


def section(text, std, table=None):
    """(start, end) of a variable's lines in a metadata file"""
    top = 0
    if table:
        top = text.index(f"[ccpp-arg-table]\n  name = {table}\n")
    for mat in re.finditer(r"^\[ .*? \]\n(?:  .*\n)*", text[top:], re.M):
        if f"  standard_name = {std}\n" in mat.group(0):
            return top + mat.start(), top + mat.end()
    return None


def change(files, name, std, table, func):
    """Files in which one variable's lines are changed; None if they stay"""
    text = files[name]
    where = section(text, std, table)
    if where is None:
        return None
    beg, end = where
    new = func(text[beg:end])
    if new is None or new == text[beg:end]:
        return None
    return dict(files, **{name: text[:beg] + new + text[end:]})


def prop(name, value):
    """Replace a property (value None: drop it)"""
    def func(text):
        new = "" if value is None else f"  {name} = {value}\n"
        return re.sub(rf"^  {name} = .*\n", new, text, count=1, flags=re.M)
    return func


def argument(rng, w, files, func, want=lambda a, p: True):
    """Change one argument of a called scheme"""
    cands = [(s, p, a) for s, p, a in used(w) if want(a, p)]
    if not cands:
        return None
    s, p, a = rng.choice(cands)
    return change(files, f"physics/{s['name']}.meta", a["std"],
                  f"{s['name']}_{preworld.SPELL[p]}", func)


def hostvar(rng, w, files, func, want=lambda v: True):
    """Change a host variable which a called scheme uses"""
    stds = {a["std"] for _, _, a in used(w)}
    cands = [v for v in w["host"] if v["std"] in stds and want(v)]
    if not cands:
        return None
    return change(files, "host_data.meta", rng.choice(cands)["std"], None,
                  func)


def some_scheme(rng, w):
    """A called scheme"""
    return preworld.scheme(w, rng.choice(sorted(preworld.names_called(w))))


def some_table(rng, w):
    """(scheme, phase) of a called one"""
    s = some_scheme(rng, w)
    return s, rng.choice(sorted(s["phases"]))


def edit(files, name, old, new):
    """Replace a text once"""
    if old not in files[name]:
        return None
    return dict(files, **{name: files[name].replace(old, new, 1)})


def suite_file(rng, w, files):
    """The file of a suite which is read"""
    names = [n for n in files if n.startswith("suites/") and any(
        n.endswith(f"/{p}{s['name']}.xml") for s in preworld.called(w)
        for p in ("", "suite_"))]
    return rng.choice(sorted(names))


@mistake
def not_provided(rng, w, files):
    """The host does not have a variable"""
    return hostvar(rng, w, files, lambda t: "",
                   lambda v: not v.get("isflag") and not v.get("isloop")
                   and "isindex" not in v)


@mistake
def asked_for_nothing(rng, w, files):
    """A scheme asks for a variable which nobody has"""
    return argument(rng, w, files, prop("standard_name", "no_such_quantity"))


@mistake
def twice_in_host(rng, w, files):
    """Two host variables with one standard name"""
    def func(text):
        loc = re.match(r"\[ (.*?) \]", text).group(1)
        return text + text.replace(f"[ {loc} ]", "[ zz_again ]", 1)
    return hostvar(rng, w, files, func)


@mistake
def twice_in_two_tables(rng, w, files):
    """Two host tables provide one standard name"""
    cands = [v for v in w["host"] if not v["dims"] and not v.get("own")
             and not v.get("active") and not v.get("mod2")]
    if not cands:
        return None
    v = rng.choice(cands)
    beg, end = section(files["host_data.meta"], v["std"])
    text = re.sub(r"^\[ .*? \]", "[ zz_again ]",
                  files["host_data.meta"][beg:end])
    return dict(files, **{"ccpp_kinds.meta":
                          files["ccpp_kinds.meta"].rstrip("\n") + "\n" + text})


@mistake
def other_type(rng, w, files):
    """A scheme thinks that a variable is of another type"""
    def func(text):
        new = "integer" if "  type = real\n" in text else "real"
        text = prop("kind", None)(text)
        text = prop("type", new)(text)
        return text + ("  kind = kind_phys\n" if new == "real" else "")
    return argument(rng, w, files, func)


@mistake
def other_rank(rng, w, files):
    """A scheme drops a dimension"""
    def func(text):
        dims = re.search(r"dimensions = \((.*)\)", text).group(1).split(",")
        return prop("dimensions", "(" + ",".join(dims[:-1]) + ")")(text)
    return argument(rng, w, files, func, lambda a, p: a["dims"])


@mistake
def more_rank(rng, w, files):
    """A scheme adds a dimension"""
    def func(text):
        dims = re.search(r"dimensions = \((.*)\)", text).group(1).split(",")
        dims = [d for d in dims if d] + ["number_of_things"]
        return prop("dimensions", "(" + ",".join(dims) + ")")(text)
    return argument(rng, w, files, func, lambda a, p: a["type"] != "character")


@mistake
def strange_units(rng, w, files):
    """No conversion exists"""
    return argument(rng, w, files, prop("units", "furlong"),
                    lambda a, p: a["type"] == "real")


@mistake
def other_kind(rng, w, files):
    """A scheme thinks that a real has another kind"""
    def func(text):
        if "kind = kind_phys" in text:
            return prop("kind", "kind_sp")(text)
        return prop("kind", "kind_phys")(text)
    return argument(rng, w, files, func, lambda a, p: a["type"] == "real")


@mistake
def unknown_scheme(rng, w, files):
    """A suite calls a scheme which does not exist"""
    return edit(files, suite_file(rng, w, files), "<scheme>",
                "<scheme>no_such_")


@mistake
def unknown_suite(rng, w, files):
    """A suite is asked for which does not exist"""
    return files, ["--suites=no_such_suite"]


@mistake
def renamed_suite(rng, w, files):
    """The name of a suite is not that of its file"""
    return edit(files, suite_file(rng, w, files), '<suite name="',
                '<suite name="x')


@mistake
def no_suites(rng, w, files):
    """There are no suites"""
    if w["listed"]:
        return None
    return {n: t for n, t in files.items() if not n.startswith("suites/")}


@mistake
def broken_xml(rng, w, files):
    """A suite's file ends too early"""
    name = suite_file(rng, w, files)
    return dict(files, **{name: files[name][:int(len(files[name]) *
                                                 rng.uniform(0.3, 0.9))]})


@mistake
def strange_loop(rng, w, files):
    """A subcycle's count is not a number"""
    name = suite_file(rng, w, files)
    return dict(files, **{name: re.sub(r'loop="\d+"', 'loop="many"',
                                       files[name], count=1)})


@mistake
def no_error_flag(rng, w, files):
    """A scheme cannot say that it failed"""
    s, p = some_table(rng, w)
    return change(files, f"physics/{s['name']}.meta", rng.choice(
        ["ccpp_error_code", "ccpp_error_message"]),
                  f"{s['name']}_{preworld.SPELL[p]}", lambda t: "")


@mistake
def strange_intent(rng, w, files):
    """An intent which Fortran does not know"""
    return argument(rng, w, files, prop("intent", "inside"))


@mistake
def no_intent(rng, w, files):
    """An argument without intent"""
    return argument(rng, w, files, prop("intent", None))


@mistake
def no_units(rng, w, files):
    """An argument without units"""
    return argument(rng, w, files, prop("units", None))


@mistake
def no_type(rng, w, files):
    """An argument without type"""
    return argument(rng, w, files, prop("type", None))


@mistake
def no_dimensions(rng, w, files):
    """An argument without dimensions"""
    return argument(rng, w, files, prop("dimensions", None))


@mistake
def no_standard_name(rng, w, files):
    """An argument without standard name"""
    return argument(rng, w, files, prop("standard_name", None))


@mistake
def strange_property(rng, w, files):
    """An argument with a property which does not exist"""
    return argument(rng, w, files, lambda t: t + "  colour = red\n")


@mistake
def malformed_line(rng, w, files):
    """A line of metadata without '='"""
    return argument(rng, w, files, lambda t: t + "  colour red\n")


@mistake
def no_metadata(rng, w, files):
    """A scheme's metadata file is missing"""
    s = some_scheme(rng, w)
    return {n: t for n, t in files.items()
            if n != f"physics/{s['name']}.meta"}


@mistake
def no_source(rng, w, files):
    """A scheme's source file is missing"""
    s = some_scheme(rng, w)
    return {n: t for n, t in files.items()
            if n != f"physics/{s['name']}.F90"}


@mistake
def no_host_metadata(rng, w, files):
    """The host's metadata file is missing"""
    return {n: t for n, t in files.items() if n != "host_data.meta"}


@mistake
def twice_in_scheme(rng, w, files):
    """A scheme asks twice for one variable"""
    def func(text):
        loc = re.match(r"\[ (.*?) \]", text).group(1)
        return text + text.replace(f"[ {loc} ]", "[ zz_again ]", 1)
    return argument(rng, w, files, func)


@mistake
def whole_in_run(rng, w, files):
    """The run phase asks for all columns"""
    return argument(rng, w, files, lambda t: t.replace(
        "horizontal_loop_extent", "horizontal_dimension"),
                    lambda a, p: p == "run" and "H" in a["dims"])


@mistake
def part_in_init(rng, w, files):
    """Another phase asks for some columns"""
    return argument(rng, w, files, lambda t: t.replace(
        "horizontal_dimension", "horizontal_loop_extent"),
                    lambda a, p: p in ("initialize", "finalize",
                                       "timestep_initial", "timestep_final")
                    and "H" in a["dims"])


@mistake
def other_module(rng, w, files):
    """A scheme's module has another name than its routines"""
    s = some_scheme(rng, w)
    name = f"physics/{s['name']}.F90"
    return dict(files, **{name: files[name].replace(
        f"module {s['name']}\n", f"module {s['name']}_mod\n")})


@mistake
def no_dependency(rng, w, files):
    """A file which a scheme depends on is missing"""
    cands = [dep for s in w["schemes"]
             if s["name"] in preworld.names_called(w)
             for dep in preworld.dep_files(s)]
    if not cands:
        return None
    gone = rng.choice(cands)
    return {n: t for n, t in files.items() if n != gone}


@mistake
def not_configured(rng, w, files):
    """The configuration does not say where a derived type lies"""
    typ = "block_t" if w["mode"] == "block" else "host_state_t"
    if typ not in files["config.py"]:
        return None
    if not any(v for v in w["host"] if preworld.owner(w, v) == typ):
        return None
    return dict(files, **{"config.py": re.sub(
        rf"'{typ}': '[^']*'", f"'{typ}_old': 'x'", files["config.py"])})


@mistake
def no_config(rng, w, files):
    """There is no configuration"""
    return {n: t for n, t in files.items() if n != "config.py"}


@mistake
def poor_config(rng, w, files):
    """The configuration lacks an entry"""
    lines = files["config.py"].split("\n")
    keys = ["VARIABLE_DEFINITION_FILES", "SCHEME_FILES", "SUITES_DIR",
            "CAPS_DIR", "STATIC_API_DIR", "HOST_MODEL_IDENTIFIER"]
    key = rng.choice(keys)
    return dict(files, **{"config.py": "\n".join(
        ln for ln in lines if not ln.startswith(key + " "))})


@mistake
def strange_index(rng, w, files):
    """A slice is taken at an index which nobody has"""
    cands = [v for v in w["host"] if "slice" in v]
    if not cands:
        return None
    v = rng.choice(cands)
    return change(files, "host_data.meta", v["std"], None,
                  lambda t: t.replace(v["slice"]["index"], "no_such_index"))


@mistake
def strange_condition(rng, w, files):
    """A variable is there under a condition which nobody knows"""
    return hostvar(rng, w, files,
                   lambda t: prop("active", None)(t) +
                   "  active = (no_such_flag)\n")


@mistake
def no_kind(rng, w, files):
    """A kind is used which the host does not provide (the caps need it for
    what they convert)"""
    units = {v["std"]: v["units"] for v in w["host"]}
    kinds = sorted({a["kind"] for _, _, a in used(w) if a["type"] == "real"
                    and units.get(a["std"], a["units"]) != a["units"]})
    if not kinds:
        return None
    return change(files, "ccpp_kinds.meta", rng.choice(kinds), None,
                  lambda t: "")


@mistake
def thread_elsewhere(rng, w, files):
    """A routine which no thread of its own executes asks for the thread's
    number, or for what every thread has for itself"""
    own = {preworld.plain(v["std"]): v for v in w["host"] if v.get("own")}
    cands = [(s, p) for s in w["schemes"] for p in s["phases"]
             if p != "run" and s["name"] in preworld.names_called(w)]
    if not cands:
        return None
    s, p = rng.choice(cands)
    if own and rng.random() < 0.8:
        v = own[rng.choice(sorted(own))]
        a = dict(v, std=preworld.plain(v["std"]), one=True)
        body = preworld.meta_var(
            "strange", a["std"], v["units"], v["type"], v["kind"],
            preworld.argdims(a, p), ["intent = in"] +
            ["optional = True"] * bool(v["active"]))
    else:
        if any(a["std"] == "ccpp_thread_number"
               for a in s["phases"][p]["args"]):
            return None
        body = preworld.meta_var("strange", "ccpp_thread_number", "index",
                                 "integer", "", [], ["intent = in"])
    head = f"  name = {s['name']}_{preworld.SPELL[p]}\n  type = scheme\n"
    name = preworld.scheme_file(s) + ".meta"
    return edit(files, name, head, head + "\n".join(body) + "\n")


@mistake
def optional_host(rng, w, files):
    """A host variable is said to be optional"""
    return hostvar(rng, w, files, lambda t: t + "  optional = True\n")


@mistake
def active_argument(rng, w, files):
    """A scheme's argument is there under a condition"""
    return argument(rng, w, files, lambda t: t + "  active = (a > 1)\n")


@mistake
def wrong_error_flag(rng, w, files):
    """The error flag is a real number"""
    s, p = some_table(rng, w)
    return change(files, f"physics/{s['name']}.meta", "ccpp_error_code",
                  f"{s['name']}_{preworld.SPELL[p]}",
                  lambda t: prop("type", "real")(t) + "  kind = kind_phys\n")


@mistake
def no_table(rng, w, files):
    """The source names a table which the metadata lack"""
    s, p = some_table(rng, w)
    name = f"{s['name']}_{preworld.SPELL[p]}"
    if len(s["phases"]) < 2 or p not in s["phases"]:
        return None
    text = files[f"physics/{s['name']}.meta"]
    beg = text.index(f"[ccpp-arg-table]\n  name = {name}\n")
    end = text.find("[ccpp-arg-table]", beg + 5)
    return dict(files, **{f"physics/{s['name']}.meta":
                          text[:beg] + (text[end:] if end > 0 else "")})


@mistake
def no_end(rng, w, files):
    """A subroutine has no end"""
    s, p = some_table(rng, w)
    name = f"{s['name']}_{preworld.SPELL[p]}"
    return edit(files, f"physics/{s['name']}.F90",
                f"  end subroutine {name}\n", "  end\n")


@mistake
def malformed_hook(rng, w, files):
    """The line which includes the metadata is damaged"""
    s, p = some_table(rng, w)
    name = f"{s['name']}_{preworld.SPELL[p]}"
    return edit(files, f"physics/{s['name']}.F90",
                f"!! \\htmlinclude {name}.html\n", rng.choice(
                    [f"! \\htmlinclude {name}.html\n",
                     f"!! \\htmlinclude {name} .html x\n", "!! text\n"]))


@mistake
def unclosed_hook(rng, w, files):
    """The table in the source is not closed"""
    s, p = some_table(rng, w)
    name = f"{s['name']}_{preworld.SPELL[p]}"
    return edit(files, f"physics/{s['name']}.F90",
                f"!! \\htmlinclude {name}.html\n!!\n",
                f"!! \\htmlinclude {name}.html\n")


@mistake
def same_group_twice(rng, w, files):
    """A suite has two groups of one name"""
    cands = [s for s in preworld.called(w) if len(s["groups"]) > 1]
    if not cands:
        return None
    s = rng.choice(cands)
    one, two = rng.sample([g["name"] for g in s["groups"]], 2)
    for n in files:
        if n.startswith("suites/") and n.endswith(f"/{s['name']}.xml") or \
                n == f"suites/suite_{s['name']}.xml":
            return edit(files, n, f'<group name="{one}"',
                        f'<group name="{two}"')
    return None


@mistake
def no_group_name(rng, w, files):
    """A group has no name"""
    name = suite_file(rng, w, files)
    return dict(files, **{name: re.sub(r'<group name="[^"]*"', "<group",
                                       files[name], count=1)})


@mistake
def long_suite_name(rng, w, files):
    """A suite's name is too long"""
    name = suite_file(rng, w, files)
    old = re.search(r'<suite name="([^"]*)"', files[name]).group(1)
    new = "verylong" * 5
    out = {n: t for n, t in files.items() if n != name}
    out[f"suites/{new}.xml"] = files[name].replace(
        f'<suite name="{old}"', f'<suite name="{new}"')
    return out, [f"--suites={new}"]


@mistake
def not_ascii(rng, w, files):
    """A type's name in the host's source is not closed by the right one"""
    if w["mode"] != "block" and not w["ddt"]:
        return None
    typ = "block_t" if w["mode"] == "block" else "host_state_t"
    return edit(files, "host_data.F90", f"  end type {typ}\n",
                f"  end type {typ}x\n")


@mistake
def table_of_nothing(rng, w, files):
    """The host's source names a table without type or module"""
    return edit(files, "host_data.F90", "arg_table_host_data",
                "arg_table_host_dat")


@mistake
def wrong_title(rng, w, files):
    """A table's title in the metadata belongs to nothing"""
    return edit(files, "host_data.meta",
                "[ccpp-arg-table]\n  name = host_data",
                "[ccpp-arg-table]\n  name = host_dat")


def apply(name, rng, w, files):
    """(files, extra arguments) with mistake <name>, or None"""
    done = BREAKS[name](rng, w, files)
    if done is None:
        return None
    if isinstance(done, tuple):
        return done
    if done == files:
        return None
    return done, []

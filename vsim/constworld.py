"""Constituents in the capgen simulation: drawing them, the host's and the
schemes' source for them, and what the reference expects of them."""

LAYER = "vertical_layer_dimension"
WHOLE = {"ccpp_constituents": "field", "ccpp_constituent_tendencies": "tend"}
NUMBER = "number_of_ccpp_constituents"


# ------------------------------------------------------------------ generation

def draw(gen, w):
    """The constituents of a world and who declares them"""
    rng = gen.rng
    from .capworld import UNITS
    w["consts"] = []
    w["hconsts"] = []
    for _ in range(rng.randint(2, 5)):
        fam = rng.choice([3, 3, 4, 5, 8, 0])
        std = gen.stdname()
        w["consts"].append(
            {"std": std, "type": "real", "kind": "kind_phys",
             "dims": ["H", "L"], "family": fam,
             "units": rng.choice(sorted(UNITS[fam])),
             "top": bool(gen.chance("flip")), "active": None,
             "adv": rng.random() < 0.6,
             "default": rng.choice([None, 0.0, 0.5, 3.25, 12.0, -2.5])})
    for c in w["consts"]:
        if rng.random() < 0.3:
            w["hconsts"].append(spec(c, rng.choice(
                [c["default"], 7.75, None])))
        if rng.random() < 0.15:
            # one which does not agree with the others of this name
            bad = spec(c)
            what = rng.choice(["adv", "units", "water", "thermo"])
            bad[what] = "kelvins" if what == "units" else not bad[what]
            bad["bad"] = True
            w["hconsts"].append(bad)
    for _ in range(rng.randint(0, 2)):
        w["hconsts"].append(fresh(gen))
    rng.shuffle(w["hconsts"])
    for s in w["schemes"]:
        ph = s["phases"].get("register")
        if ph is None and rng.random() < 0.3:
            ph = {"spell": "register", "args": [],
                  "base": rng.randint(1, 40)}
            s["phases"] = dict([("register", ph)] + list(s["phases"].items()))
        if ph is not None and rng.random() < 0.8:
            some = [spec(c) for c in w["consts"] if rng.random() < 0.25]
            some += [fresh(gen) for _ in range(rng.randint(0, 2))]
            rng.shuffle(some)
            ph["dyn"] = {"std": f"dynamic_constituents_for_{s['name']}",
                         "local": rng.choice(
                             ["dyn_const", "dyn_const", "const_props",
                              "dc_" + s["name"]] + (
                                  ["const_index", "num_dyn_consts",
                                   "const_prop"]
                                  if rng.random() < 0.15 else [])),
                         "consts": some}


def spec(c, default="same"):
    """A declaration of constituent <c> by the host or a scheme"""
    return {"std": c["std"], "units": c["units"], "adv": c["adv"],
            "default": c["default"] if default == "same" else default,
            "water": False, "thermo": False}


def fresh(gen):
    """A constituent which no scheme has as an argument"""
    rng = gen.rng
    return {"std": gen.stdname(),
            "units": rng.choice(["kg kg-1", "m-3", "1"]),
            "adv": rng.random() < 0.5,
            "default": rng.choice([None, 0.0, 1.5, 40.0]),
            "water": rng.random() < 0.3, "thermo": rng.random() < 0.3}


def arguments(gen, w, s, phase, ph, names):
    """Give a scheme constituents as arguments"""
    rng = gen.rng
    if phase == "register" or rng.random() < 0.25:
        return

    def name():
        gen.nvar += 1
        return names.pop() if names else f"y{gen.nvar}"
    pick = rng.sample(w["consts"], min(len(w["consts"]),
                                       rng.choice([1, 1, 2, 3])))
    mine = []
    for c in pick:
        a = gen.arg(w, c, name(), phase, set())
        a["optional"] = False
        if a["intent"] == "out" and phase != "initialize":
            a["intent"] = rng.choice(["in", "inout"])
        a["const"] = c["std"]
        a["adv"] = c["adv"]
        a["default"] = c["default"]
        if c["default"] is not None:
            # (the framework stores the value in this kind)
            a["kind"] = "kind_phys"
        mine.append(a)
    if phase in ("timestep_initial", "run", "timestep_final"):
        for c in pick:
            if rng.random() < 0.35:
                mine.append({
                    "std": "tendency_of_" + c["std"], "local": name(),
                    "intent": rng.choice(["in", "inout", "inout"]),
                    "type": "real", "kind": "kind_phys",
                    "dims": ["H", "L"],
                    "units": "s-1" if c["units"] == "1" else
                    c["units"] + " s-1",
                    "top": c["top"], "optional": False, "one": False,
                    "const": c["std"], "tend": True, "adv": False,
                    "default": None})
        for std, what in WHOLE.items():
            if rng.random() < 0.12:
                a = {"std": std, "local": name(),
                     "intent": rng.choice(["in", "inout"]), "type": "real",
                     "kind": "kind_phys", "dims": ["H", "L", "N"],
                     "units": "none", "top": False, "optional": False,
                     "one": False, "whole": what}
                # (the arguments of one call must not overlap)
                rest = [b for b in mine if bool(b.get("tend")) ==
                        (what == "tend") and "const" in b]
                if a["intent"] == "inout":
                    mine = [b for b in mine if b not in rest]
                else:
                    for b in rest:
                        b["intent"] = "in"
                mine.append(a)
    ph["args"] += mine


def legalise(w):
    """The first user of each suite declares the constituent as it is; a
    tendency needs its constituent"""
    from .capworld import order_of, scheme
    consts = {c["std"]: c for c in w["consts"]}
    for suite in w["suites"]:
        seen = set()
        for sname, phase, _ in order_of(w, suite):
            for a in scheme(w, sname)["phases"][phase]["args"]:
                if "const" in a and a["std"] not in seen:
                    seen.add(a["std"])
                    if not a.get("tend"):
                        c = consts[a["std"]]
                        a.update(units=c["units"], kind=c["kind"],
                                 top=c["top"])
    have = set()
    for suite in w["suites"]:
        have |= static(w, suite)
    for s in w["schemes"]:
        for ph in s["phases"].values():
            ph["args"] = [a for a in ph["args"] if not a.get("tend") or
                          a["const"] in have]


def good(w):
    """Is the world still what legalise made of it?"""
    from .capworld import order_of, scheme
    consts = {c["std"]: c for c in w["consts"]}
    have = set()
    for suite in w["suites"]:
        have |= static(w, suite)
        seen = set()
        for sname, phase, _ in order_of(w, suite):
            for a in scheme(w, sname)["phases"][phase]["args"]:
                if "const" in a and a["std"] not in seen:
                    seen.add(a["std"])
                    c = consts[a["const"]]
                    if not a.get("tend") and \
                            (a["units"], a["kind"], a["top"]) != \
                            (c["units"], c["kind"], c["top"]):
                        return False
    return all(a["const"] in have for s in w["schemes"]
               for ph in s["phases"].values() for a in ph["args"]
               if a.get("tend"))


def static(w, suite):
    """Standard names of the constituents which a suite declares by using
    them as arguments"""
    from .capworld import names_in, scheme
    return {a["std"] for n in names_in(suite)
            for ph in scheme(w, n)["phases"].values() for a in ph["args"]
            if "const" in a and not a.get("tend")}


def users(w, suite):
    """Does a suite touch constituents' data?"""
    from .capworld import names_in, scheme
    return any("const" in a or "whole" in a or a.get("dimarg") == "N"
               for n in names_in(suite)
               for ph in scheme(w, n)["phases"].values() for a in ph["args"])


def all_names(w):
    """All standard names, in a fixed order"""
    out = [c["std"] for c in w["consts"]]
    for lst in [w["hconsts"]] + [ph["dyn"]["consts"] for s in w["schemes"]
                                 for ph in s["phases"].values()
                                 if "dyn" in ph]:
        out += [c["std"] for c in lst]
    return list(dict.fromkeys(out))


# ------------------------------------------------------------------- rendering

def make(target, c):
    """Fortran statement which instantiates a constituent"""
    out = (f"call {target}%instantiate(std_name='{c['std']}', "
           f"long_name='long {c['std']}', units='{c['units']}', "
           f"vertical_dim='{LAYER}', advected={tf(c['adv'])}, ")
    if c["default"] is not None:
        out += f"default_value={c['default']}_kind_phys, "
    if c["water"]:
        out += "water_species=.true., "
    return out + "errcode=errflg, errmsg=errmsg)"


def after(target, c):
    """What instantiate has no argument for"""
    if c["thermo"]:
        return [f"call {target}%set_thermo_active(.true., errflg, errmsg)"]
    return []


def tf(val):
    """A Fortran logical"""
    return ".true." if val else ".false."


def meta_extra(a):
    """Metadata attributes of a constituent argument"""
    out = []
    if "const" in a:
        out.append("advected = .true." if a["adv"] else
                   "constituent = .true.")
        if a["default"] is not None:
            out.append(f"default_value = {a['default']}_kind_phys")
    return out


def dyn_meta(dyn):
    """Metadata of a scheme's array of constituents"""
    return (f"[ {dyn['local']} ]\n  standard_name = {dyn['std']}\n"
            "  dimensions = (:)\n  type = ccpp_constituent_properties_t\n"
            "  intent = out\n  allocatable = true\n")


def dyn_body(dyn):
    """Statements which create it"""
    x = dyn["local"]
    out = [f"allocate({x}({len(dyn['consts'])}))"]
    for i, c in enumerate(dyn["consts"], 1):
        out.append(make(f"{x}({i})", c))
        out += after(f"{x}({i})", c)
    return out


def driver(w):
    """The host's part"""
    o = []
    names = all_names(w)
    o.append("  subroutine result(what, errflg, errmsg)")
    o.append("    character(len=*), intent(in) :: what, errmsg")
    o.append("    integer, intent(in) :: errflg")
    o.append("    character(len=700) :: s")
    o.append("    write(s, '(a,i0,a)') what//' ', errflg, "
             "' |'//trim(errmsg)//'|'")
    o.append("    call sim_out(trim(s))")
    o.append("  end subroutine result")
    o.append("  subroutine cindex(name, idx)")
    o.append("    character(len=*), intent(in) :: name")
    o.append("    integer, intent(out) :: idx")
    o.append("    character(len=512) :: errmsg")
    o.append("    integer :: errflg")
    o.append("    call simhost_const_get_index(name, idx, errmsg=errmsg, "
             "errflg=errflg)")
    o.append("  end subroutine cindex")
    o.append("  subroutine regc(ids)")
    o.append("    integer, intent(in) :: ids(:)")
    o.append("    character(len=512) :: errmsg")
    o.append("    character(len=200) :: s")
    o.append("    integer :: errflg, i, n")
    o.append("    nreg = nreg + 1")
    o.append("    errflg = 0")
    o.append("    n = size(ids)")
    o.append("    allocate(hostc(nreg)%l(n))")
    o.append("    do i = 1, n")
    o.append("      select case (ids(i))")
    for k, c in enumerate(w["hconsts"]):
        o.append(f"      case ({k})")
        for stm in [make("hostc(nreg)%l(i)", c)] + \
                after("hostc(nreg)%l(i)", c):
            o.append("        " + stm)
    o.append("      case default")
    o.append("        stop 7")
    o.append("      end select")
    o.append("      if (errflg /= 0) stop 8")
    o.append("    end do")
    o.append("    errflg = -77")
    o.append("    errmsg = 'unset'")
    o.append("    call simhost_ccpp_register_constituents(hostc(nreg)%l, "
             "errmsg=errmsg, errflg=errflg)")
    o.append("    if (errflg == 0) errmsg = ''")
    o.append("    call result('R', errflg, errmsg)")
    o.append("    if (errflg /= 0) return")
    for n in names:
        o.append(f"    call cindex('{n}', i)")
        o.append(f"    write(s, '(a,i0)') 'K {n} ', i")
        o.append("    call sim_out(trim(s))")
    o.append("  end subroutine regc")
    o.append("  subroutine cdel()")
    o.append("    integer :: i")
    o.append("    call simhost_ccpp_deallocate_dynamic_constituents()")
    o.append("    do i = 1, nreg")
    o.append("      if (allocated(hostc(i)%l)) deallocate(hostc(i)%l)")
    o.append("    end do")
    o.append("    nreg = 0")
    o.append("  end subroutine cdel")
    o.append("  subroutine cinit()")
    o.append("    character(len=512) :: errmsg")
    o.append("    integer :: errflg")
    o.append("    errflg = -77")
    o.append("    errmsg = 'unset'")
    o.append("    call simhost_ccpp_initialize_constituents(ncols, pver, "
             "errmsg=errmsg, errflg=errflg)")
    o.append("    call result('R', errflg, errmsg)")
    o.append("  end subroutine cinit")
    o.append("  subroutine cput(seed, mode)")
    o.append("    integer, intent(in) :: seed, mode")
    o.append("    real(kind_phys), pointer :: p(:,:,:)")
    o.append("    real(kind_phys), allocatable :: g(:,:,:)")
    o.append("    character(len=512) :: errmsg")
    o.append("    integer :: errflg, idx")
    o.append("    errflg = -77")
    o.append("    errmsg = 'unset'")
    o.append("    p => simhost_constituents_array()")
    o.append("    if (.not. associated(p)) then")
    o.append("      call sim_out('R -1 |null|')")
    o.append("      return")
    o.append("    end if")
    o.append("    allocate(g(size(p, 1), size(p, 2), size(p, 3)))")
    o.append("    if (mode == 0) then")
    o.append("      call simhost_ccpp_gather_constituents(g, errmsg=errmsg, "
             "errflg=errflg)")
    o.append("      call result('g', errflg, errmsg)")
    for num, n in enumerate(names):
        o.append(f"      call cindex('{n}', idx)")
        o.append(f"      if (idx > 0) call setfield(g(:,:,idx), seed, {num})")
    o.append("      errflg = -77")
    o.append("      call simhost_ccpp_update_constituents(g, errmsg=errmsg, "
             "errflg=errflg)")
    o.append("    else")
    for num, n in enumerate(names):
        o.append(f"      call cindex('{n}', idx)")
        o.append(f"      if (idx > 0) call setfield(p(:,:,idx), seed, {num})")
    o.append("      errflg = 0")
    o.append("      errmsg = ''")
    o.append("    end if")
    o.append("    call result('R', errflg, errmsg)")
    o.append("  end subroutine cput")
    o.append("  subroutine setfield(x, seed, num)")
    o.append("    real(kind_phys), intent(inout) :: x(:,:)")
    o.append("    integer, intent(in) :: seed, num")
    o.append("    integer :: i, k")
    o.append("    do k = 1, size(x, 2)")
    o.append("      do i = 1, size(x, 1)")
    o.append("        x(i, k) = mod(seed*(3 + mod(num, 5)) + num*7 + i*5 + "
             "k*11, 83)*0.5_kind_phys")
    o.append("      end do")
    o.append("    end do")
    o.append("  end subroutine setfield")
    o.append("  subroutine cdump()")
    o.append("    real(kind_phys), pointer :: p(:,:,:), a(:,:,:)")
    o.append("    real(kind_phys), allocatable :: g(:,:,:)")
    o.append("    character(len=512) :: errmsg")
    o.append("    character(len=100) :: s")
    o.append("    integer :: errflg, idx")
    o.append("    p => simhost_constituents_array()")
    o.append("    a => simhost_advected_constituents_array()")
    o.append("    if (.not. associated(p)) then")
    o.append("      call sim_out('c null')")
    o.append("      return")
    o.append("    end if")
    for n in names:
        o.append(f"    call cindex('{n}', idx)")
        o.append("    if (idx > 0) then")
        o.append(f"      call sim_arg('{n}', p(:,:,idx))")
        o.append("    else")
        o.append(f"      call sim_absent('{n}')")
        o.append("    end if")
    o.append("    allocate(g(size(p, 1), size(p, 2), size(p, 3)))")
    o.append("    g = -7.5_kind_phys")
    o.append("    errmsg = 'unset'")
    o.append("    call simhost_ccpp_gather_constituents(g, errmsg=errmsg, "
             "errflg=errflg)")
    o.append("    write(s, '(a,6(1x,i0))') 'c', errflg, shape(p), "
             "count(.not. (g == p .or. (g /= g .and. p /= p)))")
    o.append("    call sim_out(trim(s))")
    o.append("    g(:,:,:size(a, 3)) = p(:,:,:size(a, 3))")
    o.append("    write(s, '(a,5(1x,i0))') 'a', shape(a), "
             "count(.not. (g(:,:,:size(a, 3)) == a .or. (a /= a)))")
    o.append("    call sim_out(trim(s))")
    o.append("  end subroutine cdump")
    o.append("  subroutine cwrong(dim)")
    o.append("    integer, intent(in) :: dim")
    o.append("    real(kind_phys), allocatable :: g(:,:,:)")
    o.append("    real(kind_phys), pointer :: p(:,:,:)")
    o.append("    character(len=512) :: errmsg")
    o.append("    integer :: errflg, more(3)")
    o.append("    p => simhost_constituents_array()")
    o.append("    more = 0")
    o.append("    more(dim) = -1")
    o.append("    errflg = -77")
    o.append("    errmsg = 'unset'")
    o.append("    if (.not. associated(p)) then")
    o.append("      allocate(g(2, 2, 2))")
    o.append("    else")
    o.append("      allocate(g(size(p, 1) + more(1), size(p, 2) + more(2), "
             "size(p, 3) + more(3)))")
    o.append("    end if")
    o.append("    g = 1.0_kind_phys")
    o.append("    call simhost_ccpp_update_constituents(g, errmsg=errmsg, "
             "errflg=errflg)")
    o.append("    call result('R', errflg, errmsg)")
    o.append("  end subroutine cwrong")
    o.append("  subroutine cnum(opt)")
    o.append("    integer, intent(in) :: opt")
    o.append("    character(len=512) :: errmsg")
    o.append("    character(len=40) :: s")
    o.append("    integer :: errflg, n")
    o.append("    n = -77")
    o.append("    errflg = -77")
    o.append("    errmsg = 'unset'")
    o.append("    if (opt == 0) then")
    o.append("      call simhost_ccpp_number_constituents(n, errmsg=errmsg, "
             "errflg=errflg)")
    o.append("    else")
    o.append("      call simhost_ccpp_number_constituents(n, "
             "advected=opt == 1, errmsg=errmsg, errflg=errflg)")
    o.append("    end if")
    o.append("    write(s, '(a,i0,1x,i0)') 'n ', n, errflg")
    o.append("    call sim_out(trim(s))")
    o.append("  end subroutine cnum")
    o.append("  subroutine cask(name)")
    o.append("    character(len=*), intent(in) :: name")
    o.append("    character(len=512) :: errmsg")
    o.append("    character(len=100) :: s")
    o.append("    logical :: yes")
    o.append("    integer :: errflg, idx")
    o.append("    call cindex(name, idx)")
    o.append("    errflg = -77")
    o.append("    call simhost_ccpp_is_scheme_constituent(name, yes, "
             "errmsg=errmsg, errflg=errflg)")
    o.append("    write(s, '(a,3(i0,1x))') 'q ', idx, errflg, "
             "merge(1, 0, yes)")
    o.append("    call sim_out(trim(s))")
    o.append("  end subroutine cask")
    o.append("  subroutine cprops()")
    o.append("    type(ccpp_constituent_prop_ptr_t), pointer :: p(:)")
    o.append("    character(len=256) :: n, u")
    o.append("    character(len=512) :: m")
    o.append("    character(len=800) :: s")
    o.append("    logical :: adv, hasd, therm, wat")
    o.append("    real(kind_phys) :: d")
    o.append("    integer :: i, e, idx")
    o.append("    p => simhost_model_const_properties()")
    o.append("    if (.not. associated(p)) then")
    o.append("      call sim_out('p null')")
    o.append("      return")
    o.append("    end if")
    o.append("    write(s, '(a,1x,i0)') 'p size', size(p)")
    o.append("    call sim_out(trim(s))")
    o.append("    do i = 1, size(p)")
    o.append("      call p(i)%standard_name(n, errcode=e, errmsg=m)")
    o.append("      call p(i)%units(u, errcode=e, errmsg=m)")
    o.append("      call p(i)%is_advected(adv, errcode=e, errmsg=m)")
    o.append("      call p(i)%has_default(hasd, errcode=e, errmsg=m)")
    o.append("      call p(i)%is_thermo_active(therm, errcode=e, errmsg=m)")
    o.append("      call p(i)%is_water_species(wat, errcode=e, errmsg=m)")
    o.append("      call p(i)%const_index(idx, errcode=e, errmsg=m)")
    o.append("      d = -99")
    o.append("      if (hasd) call p(i)%default_value(d, errcode=e, errmsg=m)")
    o.append("      write(s, '(a,1x,i0,1x,a,4(1x,l1),1x,es16.8,1x,a)') 'p', "
             "idx, trim(n), adv, hasd, therm, wat, d, trim(u)")
    o.append("      call sim_out(trim(s))")
    o.append("    end do")
    o.append("  end subroutine cprops")
    for k, suite in enumerate(w["suites"]):
        pre = f"{suite['name']}_constituents_"
        o.append(f"  subroutine csuite_{k}(first)")
        o.append(f"    use ccpp_{suite['name']}_cap, only: "
                 f"sq_num => {pre}num_consts, &")
        o.append(f"      sq_name => {pre}const_name, "
                 f"sq_copy => {pre}copy_const")
        o.append("    integer, intent(in) :: first")
        o.append("    type(ccpp_constituent_properties_t) :: c")
        o.append("    character(len=256) :: n, n2, u")
        o.append("    character(len=512) :: m")
        o.append("    character(len=2400) :: s")
        o.append("    logical :: adv")
        o.append("    integer :: i, e, num")
        o.append("    num = first")
        o.append("    if (first == 0) then")
        o.append("      e = -77; m = 'unset'")
        o.append("      num = sq_num(errmsg=m, errflg=e)")
        o.append("      write(s, '(a,2(i0,1x),3a)') 's num ', num, e, '|', "
                 "trim(m), '|'")
        o.append("      call sim_out(trim(s))")
        o.append("    end if")
        o.append("    do i = -1, num + 2")
        o.append("      e = -77; m = 'unset'; n = ''")
        o.append("      call sq_name(i, n, errmsg=m, errflg=e)")
        o.append("      if (e /= 0) n = ''")
        o.append("      write(s, '(a,2(i0,1x),5a)') 's name ', i, e, "
                 "trim(n), ' |', trim(m), '|'")
        o.append("      call sim_out(trim(s))")
        o.append("      e = -77; m = 'unset'; n = ''; u = ''; adv = .false.")
        o.append("      call sq_copy(i, c, errmsg=m, errflg=e)")
        o.append("      if (e == 0) then")
        o.append("        call c%standard_name(n, errcode=e, errmsg=n2)")
        o.append("        call c%units(u, errcode=e, errmsg=n2)")
        o.append("        call c%is_advected(adv, errcode=e, errmsg=n2)")
        o.append("      end if")
        o.append("      write(s, '(a,2(i0,1x),3a,l1,5a)') 's copy ', i, e, "
                 "trim(n), ' ', '', adv, ' ', trim(u), ' |', trim(m), '|'")
        o.append("      call sim_out(trim(s))")
        o.append("    end do")
        o.append(f"  end subroutine csuite_{k}")
    o.append("  subroutine csuite(k, first)")
    o.append("    integer, intent(in) :: k, first")
    o.append("    select case (k)")
    for k in range(len(w["suites"])):
        o.append(f"    case ({k})")
        o.append(f"      call csuite_{k}(first)")
    o.append("    case default")
    o.append("      stop 9")
    o.append("    end select")
    o.append("  end subroutine csuite")
    return o


AUX = """module simaux
  use ccpp_constituent_prop_mod, only: ccpp_constituent_properties_t, &
       ccpp_constituent_prop_ptr_t
  implicit none
  public
  type list_t
    type(ccpp_constituent_properties_t), allocatable :: l(:)
  end type list_t
  type(list_t), target :: hostc(40)
  integer :: nreg = 0
end module simaux
"""

CASES = """    case ('regc')
      read(line, *) cmd, a
      read(line, *) cmd, a, sched(1:a)
      call regc(sched(1:a))
    case ('cdel')
      call cdel()
    case ('cinit')
      call cinit()
    case ('cput')
      read(line, *) cmd, a, b
      call cput(a, b)
    case ('cwrong')
      read(line, *) cmd, a
      call cwrong(a)
    case ('cnum')
      read(line, *) cmd, a
      call cnum(a)
    case ('cask')
      read(line, *) cmd, msg
      call cask(trim(msg))
    case ('cprops')
      call cprops()
    case ('csuite')
      read(line, *) cmd, a, b
      call csuite(a, b)
"""


# ------------------------------------------------------------------- reference

class Model:
    """What the constituents of a host must be"""

    def __init__(self, ref):
        self.ref = ref
        self.w = ref.w
        self.names = all_names(self.w)
        self.suite = {}             # suite -> declarations of its schemes
        self.list = None            # registered, in the order of the indices
        self.data = None            # std -> field
        self.tend = None
        self.byname = {c["std"]: c for c in self.w["consts"]}

    def registered(self, suite, order):
        """A suite's register phase succeeded"""
        from .capworld import scheme
        self.suite[suite] = [c for n in order for c in scheme(
            self.w, n)["phases"]["register"].get("dyn",
                                                 {"consts": ()})["consts"]]

    def expect(self, ids):
        """{std: declaration} of a registration, or why it must fail"""
        out = {}
        lists = [[self.w["hconsts"][i] for i in ids]]
        lists += [self.suite.get(s["name"], ()) for s in self.w["suites"]]
        for s in self.w["suites"]:
            lists.append([spec(self.byname[n])
                          for n in sorted(static(self.w, s))])
        for lst in lists:
            for c in lst:
                have = out.setdefault(c["std"], c)
                for what in ("adv", "units", "water", "thermo"):
                    if have[what] != c[what]:
                        return None, c["std"]
        return out, None

    def register(self, decl, index):
        """The observed indices: None or what is wrong with them"""
        want = sorted(decl)
        have = sorted(n for n, i in index.items() if i > 0)
        if want != have:
            return (f"registered: {have}, expected: {want}")
        order = sorted(have, key=index.get)
        if [index[n] for n in order] != list(range(1, len(order) + 1)):
            return f"indices are not 1..n: {index}"
        flags = [decl[n]["adv"] for n in order]
        if sorted(flags, reverse=True) != flags:
            return f"advected constituents do not come first: {index}"
        self.list = [decl[n] for n in order]
        self.data = self.tend = None
        self.ref.dims["N"] = len(order)
        self.ref.sizes[NUMBER] = len(order)
        return None

    def allocate(self):
        """Give the registered constituents their fields"""
        from .capref import Arr
        shape = [self.ref.dims["H"], self.ref.dims["L"]]
        self.data, self.tend = {}, {}
        for c in self.list:
            arr = Arr(shape)
            if c["default"] is not None:
                arr.data = [float(c["default"])] * len(arr.data)
            self.data[c["std"]] = arr
            arr = Arr(shape)
            arr.data = [0.0] * len(arr.data)
            self.tend[c["std"]] = arr

    def reset(self):
        """The host dropped everything"""
        self.suite = {}
        self.list = self.data = self.tend = None

    def put(self, seed):
        """The host sets all fields"""
        for num, n in enumerate(self.names):
            if n in self.data:
                arr = self.data[n]
                for i, k in arr.indices():
                    arr[(i, k)] = ((seed * (3 + num % 5) + num * 7 + i * 5 +
                                    k * 11) % 83) * 0.5

    def storage(self, a):
        """(holder, key, attributes) of an argument"""
        from .capref import Arr
        if "whole" in a:
            src = self.data if a["whole"] == "field" else self.tend
            shape = [self.ref.dims["H"], self.ref.dims["L"], len(self.list)]
            arr = Whole(shape, [src[c["std"]] for c in self.list])
            assert isinstance(arr, Arr) or arr
            return {a["std"]: arr}, a["std"], a
        src = self.tend if a.get("tend") else self.data
        c = self.byname[a["const"]]
        if a.get("tend"):
            c = dict(c, units=a["units"])
        return src, a["const"], c


class Whole:
    """All fields as one array"""

    def __init__(self, shape, fields):
        self.shape = tuple(shape)
        self.fields = fields

    def __getitem__(self, idx):
        return self.fields[idx[2] - 1][idx[:2]]

    def __setitem__(self, idx, val):
        self.fields[idx[2] - 1][idx[:2]] = val


def check_dump(mod, lines, parse, compare, scale):
    """What the host sees of the constituents: None or (sig, text)"""
    if mod.data is None:
        if lines != ["c null"]:
            return ("constituent-data", "there are no constituents' data yet,"
                    f" but {lines[:2]}")
        return None
    if len(lines) != len(mod.names) + 2:
        return ("constituent-data", f"dump is {lines[:3]}")
    for name, line in zip(mod.names, lines):
        if name not in mod.data:
            if line != f"N {name}":
                return ("constituent-data", f"{name} is not registered")
            continue
        if line.startswith("N "):
            return ("constituent-data", f"{name} has no index")
        _, _, shape, vals = parse(line)
        arr = mod.data[name]
        if list(shape) != list(arr.shape):
            return ("constituent-data", f"{name} has shape {shape}")
        bad = compare(arr.data, vals, scale(name))
        if bad:
            return ("constituent-data", f"constituent {name}: {bad}")
    want = f"c 0 {mod.ref.dims['H']} {mod.ref.dims['L']} {len(mod.list)} 0"
    if lines[-2] != want:
        return ("constituent-views", f"gathered fields: '{lines[-2]}', "
                f"expected '{want}'")
    nadv = sum(c["adv"] for c in mod.list)
    want = f"a {mod.ref.dims['H']} {mod.ref.dims['L']} {nadv} 0"
    if lines[-1] != want:
        return ("constituent-views", f"advected fields: '{lines[-1]}', "
                f"expected '{want}'")
    return None


def step(mod, op, got, res):
    """Check an operation on constituents; None or (sig, text)"""
    import re
    lines = [ln for _, ln in got]
    kind = op[0]
    if not lines and kind != "cdel":
        return ("crash", "no answer")
    code = msg = None
    if lines:
        mat = re.match(r"R (-?\d+) \|(.*)\|$", lines[0 if kind != "cput"
                                                     else -1])
        if mat:
            code, msg = int(mat.group(1)), mat.group(2)

    def refused(why):
        res.stats["fault:" + why.split("|")[0].strip()] += 1
        if code == 0:
            return ("constituent-error-accepted", f"{why}, but the code is 0")
        if code is None or not msg.strip() or msg == "unset":
            return ("constituent-error-no-message", f"{why}: {lines[:2]}")
        return None

    def accepted():
        if code != 0 or msg.strip():
            return ("constituent-call-failed", f"{lines[0]}")
        return None
    if kind == "regc":
        decl, clash = mod.expect(op[2:])
        mod.list = mod.data = mod.tend = None
        if decl is None:
            return refused(f"incompatible constituent | {clash}")
        bad = accepted()
        if bad:
            return bad
        index = {}
        for ln in lines[1:]:
            tok = ln.split()
            index[tok[1]] = int(tok[2])
        res.stats["registrations of constituents"] += 1
        bad = mod.register(decl, index)
        if bad:
            return ("constituent-registry", bad)
    elif kind == "cinit":
        if mod.list is None:
            return refused("data asked for before registration")
        if mod.data is not None:
            return refused("data asked for twice")
        bad = accepted()
        if bad:
            return bad
        mod.allocate()
    elif kind == "cdel":
        mod.reset()
    elif kind == "cput":
        if mod.data is None:
            return None if lines == ["R -1 |null|"] else (
                "constituent-data", f"no data yet, but {lines}")
        bad = accepted()
        if bad:
            return bad
        mod.put(op[1])
    elif kind == "cwrong":
        if not mod.list:
            return refused("update without data") if mod.data is None else None
        # (how much of it was done is not said)
        for arr in mod.data.values():
            arr.data = [None] * len(arr.data)
        return refused("update with an array of wrong size")
    elif kind == "cnum":
        tok = lines[0].split()
        if mod.list is None:
            if int(tok[1]) > 0:
                return ("constituent-number", f"nothing is registered: "
                        f"{lines[0]}")
            return None
        want = sum(1 for c in mod.list
                   if op[1] == 0 or c["adv"] == (op[1] == 1))
        if tok[1:] != [str(want), "0"]:
            return ("constituent-number", f"expected {want}, seen {lines[0]}")
    elif kind == "cask":
        tok = lines[0].split()
        idx = [i for i, c in enumerate(mod.list or (), 1)
               if c["std"] == op[1]]
        if (int(tok[1]) if int(tok[1]) > 0 else 0) != (idx or [0])[0]:
            return ("constituent-index", f"{op[1]}: index {tok[1]}, expected "
                    f"{idx}")
        want = any(op[1] in static(mod.w, s) for s in mod.w["suites"])
        if tok[2:] != ["0", "1" if want else "0"]:
            return ("constituent-index", f"{op[1]} is a scheme constituent: "
                    f"{lines[0]}, expected {want}")
    elif kind == "csuite":
        bad = check_suite(mod, op, lines, res)
        if bad:
            return ("constituents-of-suite", bad)
    elif kind == "cprops":
        if mod.list is None:
            return None if lines == ["p null"] else (
                "constituent-properties", f"nothing is registered: {lines}")
        if lines == ["p null"]:
            return ("constituent-properties", "no properties")
        if lines[0] != f"p size {len(mod.list)}" or \
                len(lines) != len(mod.list) + 1:
            return ("constituent-properties", f"{len(lines) - 1} properties, "
                    f"{lines[0]}, expected {len(mod.list)}")
        for i, (c, ln) in enumerate(zip(mod.list, lines[1:]), 1):
            tok = ln.split(None, 8)
            want = [str(i), c["std"]] + [
                "T" if x else "F" for x in
                (c["adv"], c["default"] is not None, c["thermo"],
                 c["water"])]
            if tok[1:7] != want or tok[8] != c["units"] or (
                    c["default"] is not None and
                    abs(float(tok[7]) - c["default"]) > 1e-6):
                return ("constituent-properties", f"'{ln}', expected {want} "
                        f"{c['default']} {c['units']}")
    return None


def check_suite(mod, op, lines, res):
    """What a suite's own routines say about its constituents"""
    want = {n: mod.byname[n] for n in static(mod.w, mod.w["suites"][op[1]])}
    num = op[2]
    if not num:
        if lines[0] != f"s num {len(want)} 0 ||":
            return (f"'{lines[0]}', expected {len(want)}")
        num = len(want)
        lines = lines[1:]
    if len(lines) != 2 * (num + 4):
        return f"{len(lines)} answers, expected {2 * (num + 4)}"
    seen = []
    for i, (name, copy) in enumerate(zip(lines[::2], lines[1::2]), -1):
        inside = 1 <= i <= len(want)
        tok, ctok = name.split(" ", 4), copy.split(" ", 6)
        if tok[:3] != ["s", "name", str(i)] or \
                ctok[:3] != ["s", "copy", str(i)]:
            return f"'{name}', '{copy}': not about number {i}"
        if tok[3] != ctok[3]:
            return f"'{name}', but '{copy}'"
        if tok[3] != "0":
            res.stats["fault:index of no constituent"] += 1
            for ln in (name, copy):
                if ln.endswith(" ||") or ln.endswith("|unset|"):
                    return f"'{ln}': an error without a message"
            if inside and op[2] == 0:
                return f"'{name}', but there are {len(want)}"
            continue
        if not inside:
            return f"'{name}', but there are {len(want)}"
        if tok[4].split(" |")[0] not in want or "||" not in name:
            return f"'{name}': the suite has {sorted(want)}"
        seen.append(tok[4].split(" |")[0])
        arg = want[seen[-1]]
        if not copy.startswith(f"s copy {i} 0 {seen[-1]} "
                               f"{'T' if arg['adv'] else 'F'} "):
            return f"'{copy}', expected {seen[-1]}, advected {arg['adv']}"
        if not copy.endswith(f" {arg['units']} ||"):
            return f"'{copy}', expected units {arg['units']}"
    if len(set(seen)) != len(seen):
        return f"the same name twice: {seen}"
    return None


# ------------------------------------------------------------------- histories

class Script:
    """The host's handling of constituents in a history"""

    def __init__(self, hist):
        self.h = hist
        self.rng = hist.rng
        self.w = hist.w
        self.names = all_names(self.w)
        self.good = [i for i, c in enumerate(self.w["hconsts"])
                     if not c.get("bad")]
        self.bad = [i for i, c in enumerate(self.w["hconsts"])
                    if c.get("bad")]

    def begin(self):
        """Register everything; afterwards there are data"""
        rng, ops = self.rng, self.h.ops
        while True:
            self.suites()
            if self.bad and rng.random() < 0.35:
                ids = self.good + [rng.choice(self.bad)]
                rng.shuffle(ids)
                self.regc(ids)
                if rng.random() < 0.3:
                    ops.append(["cinit"])
                ops.append(["cdel"])
                continue
            ids = [i for i in self.good if rng.random() < 0.9]
            rng.shuffle(ids)
            if rng.random() < 0.1:
                self.question()
            if rng.random() < 0.08:
                ops.append(["cinit"])
            self.regc(ids)
            if rng.random() < 0.3:
                self.question()
            if rng.random() < 0.1:
                ops.append(["dump"])
            if rng.random() < 0.15:
                ops.append(["cdel"])
                continue
            ops.append(["cinit"])
            if rng.random() < 0.6:
                ops.append(["cput", rng.randint(1, 60), rng.randint(0, 1)])
            ops.append(["dump"])
            return

    def regc(self, ids):
        """Register with the host's own list"""
        self.h.ops.append(["regc", len(ids)] + ids)

    def suites(self):
        """Register phases of all suites"""
        names = sorted(self.h.state)
        self.rng.shuffle(names)
        skip = 0.12 if len(names) > 1 else 0.0
        for n in names:
            if self.rng.random() < skip:
                continue
            if self.h.p_fault and self.rng.random() < 0.1:
                self.h.call("register", n)
                self.h.ops.append(["nofault"])
            keep, self.h.p_fault = self.h.p_fault, 0.0
            self.h.call("register", n)
            self.h.p_fault = keep

    def question(self):
        """Ask about constituents"""
        rng = self.rng
        roll = rng.random()
        if roll < 0.3:
            self.h.ops.append(["cnum", rng.randint(0, 2)])
        elif roll < 0.7:
            name = rng.choice(self.names)
            if rng.random() < 0.2:
                name = rng.choice(["nosuch", name + "x", name[:-1]])
            self.h.ops.append(["cask", name])
        elif roll < 0.85:
            self.h.ops.append(["cprops"])
        else:
            # (0: the number first, else: do not ask for the number)
            self.h.ops.append(["csuite", rng.randrange(len(self.w["suites"])),
                               rng.choice([0, 0, 1, 3])])

    def act(self):
        """Something with constituents"""
        rng, ops = self.rng, self.h.ops
        roll = rng.random()
        if roll < 0.35:
            ops.append(["cput", rng.randint(1, 60), rng.randint(0, 1)])
            ops.append(["dump"])
        elif roll < 0.45:
            ops.append(["cwrong", rng.randint(2, 3)])
            ops.append(["cput", rng.randint(1, 60), rng.randint(0, 1)])
            ops.append(["dump"])
        elif roll < 0.52:
            ops.append(["cinit"])
            ops.append(["dump"])
        elif roll < 0.58:
            # once more (what was registered before is dropped)
            if self.bad and rng.random() < 0.3:
                self.regc(self.good + [rng.choice(self.bad)])
            ids = [i for i in self.good if rng.random() < 0.7]
            rng.shuffle(ids)
            self.regc(ids)
            ops.append(["cinit"])
            ops.append(["dump"])
        else:
            self.question()

    def again(self):
        """End all suites, drop the constituents and start over"""
        h = self.h
        h.ops.append(["nofault"])
        keep, h.p_fault = h.p_fault, 0.0
        for suite in sorted(h.state):
            if h.state[suite] == "in_time_step":
                h.call("timestep_final", suite)
            if h.state[suite] == "initialized":
                h.call("finalize", suite)
        h.p_fault = keep
        h.ops.append(["cdel"])
        h.ops.append(["dump"])
        self.begin()

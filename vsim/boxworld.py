"""Derived types of the schemes, as variables which suites own.  A variable of
such a type holds a number and what goes with it; simulator and reference
treat it as an integer."""


def draw(gen, w):
    """The types of a world"""
    rng = gen.rng
    names = rng.sample(["box_t", "box_type", "vmr_type", "boxt",
                        "work_space_type"], rng.choice([1, 1, 2]))
    types = []
    for k, name in enumerate(names):
        types.append({"name": name,
                      "inside": names[0] if k and rng.random() < 0.5 else None,
                      "std": [gen.stdname(), gen.stdname(), gen.stdname()]})
    w["boxes"] = {"types": types, "swap": rng.random() < 0.5,
                  "module": rng.choice(["simbox", "simbox",
                                        "types_of_the_schemes", "sb"]),
                  "own": gen.chance("boxes_own"),
                  "units": rng.random() < 0.5}


def variable(gen, w):
    """A variable of such a type"""
    rng = gen.rng
    typ = rng.choice(w["boxes"]["types"])["name"]
    return {"std": gen.stdname(), "type": typ, "kind": None, "dims": [],
            "family": None, "top": False,
            "units": "DDT" if w["boxes"]["units"] else None, "active": None,
            "box": True}


def meta(w):
    """The metadata file which declares the types"""
    from .capworld import meta_var
    out = []
    b = w["boxes"]
    for t in b["types"]:
        out.append(f"[ccpp-table-properties]\n  name = {t['name']}\n"
                   "  type = ddt\n")
        out.append(f"[ccpp-arg-table]\n  name = {t['name']}\n  type = ddt\n")
        if b["module"] != "simbox":
            out.append(f"  module = {b['module']}\n")
        sec = [meta_var("num", t["std"][0], "count", "integer", None, []),
               meta_var("val", t["std"][1], "1", "real", "kind_phys",
                        ["number_of_things"])]
        if t["inside"]:
            sec.append(meta_var("small", t["std"][2],
                                "DDT" if b["units"] else None, t["inside"],
                                None, []))
        if b["swap"]:
            sec = sec[::-1]
        out += sec
    return "".join(out)


def source(w):
    """And their module"""
    b = w["boxes"]
    o = [f"module {b['module']}", "  use ccpp_kinds, only: kind_phys",
         "  implicit none", "  private"]
    for t in b["types"]:
        n = t["name"]
        o += [f"!> \\section arg_table_{n} Argument Table",
              f"!! \\htmlinclude {n}.html", f"  type, public :: {n}",
              "    integer :: num = -5",
              "    real(kind_phys), allocatable :: val(:)" if b["own"] else
              "    real(kind_phys) :: val(2) = 0"]
        if t["inside"]:
            o.append(f"    type({t['inside']}) :: small")
        o.append(f"  end type {n}")
    o.append(f"end module {b['module']}")
    o += ["module simbox_use", "  use ccpp_kinds, only: kind_phys",
          f"  use {b['module']}, only: " +
          ", ".join(t["name"] for t in b["types"]),
          "  implicit none", "  private", "  public :: sim_bnum"]
    o += [f"  public :: new_{t['name']}" for t in b["types"]]
    o.append("  interface sim_bnum")
    o += [f"    module procedure bnum_{t['name']}" for t in b["types"]]
    o += ["  end interface", "contains"]
    for t in b["types"]:
        n = t["name"]
        o += [f"  pure integer function bnum_{n}(b) result(r)",
              f"    type({n}), intent(in) :: b",
              "    r = b%num",
              "    if (.not. allocated(b%val)) return" if b["own"] else
              "    if (r == -5) return",
              "    if (size(b%val) /= 2) then",
              "      r = -90002",
              "      return",
              "    end if",
              "    if (any(b%val /= [b%num, 2*b%num + 1])) r = -90003"]
        if t["inside"]:
            o += ["    if (b%small%num /= b%num + 3) r = -90004",
                  "    if (sim_bnum(b%small) /= b%num + 3) r = -90005"]
        o += [f"  end function bnum_{n}",
              f"  function new_{n}(k) result(b)",
              f"    type({n}) :: b", "    integer, intent(in) :: k",
              "    b%num = k",
              "    b%val = [real(k, kind_phys), real(2*k + 1, kind_phys)]"]
        if t["inside"]:
            o.append(f"    b%small = new_{t['inside']}(k + 3)")
        o.append(f"  end function new_{n}")
    o.append("end module simbox_use")
    return "\n".join(o) + "\n"

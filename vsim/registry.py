"""Which simulator decides which property"""
from .core import HarnessError


def make_sim(prop, tier):
    """Return the simulator of property <prop>"""
    if prop in ("L01", "L02", "L03", "L04", "L05"):
        from .libsim import LibSim
        return LibSim(prop, tier)
    if prop[0] == "C":
        from .capsim import CONF, CapSim
        if prop in CONF:
            return CapSim(prop, tier)
    if prop[0] == "T":
        from .toolsim import CONF as TCONF, ToolSim
        if prop in TCONF:
            return ToolSim(prop, tier)
    if prop[0] == "P":
        from .presim import CONF as PCONF, PreSim
        if prop in PCONF:
            return PreSim(prop, tier)
        from .pretool import CONF as QCONF, PreToolSim
        if prop in QCONF:
            return PreToolSim(prop, tier)
    if prop[0] == "X":
        from .utilsim import CONF as XCONF, UtilSim
        if prop in XCONF:
            return UtilSim(prop, tier)
    raise HarnessError(f"no check for {prop}")

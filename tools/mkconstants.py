"""Writes symq/data/constants.txt: exported constant | CODATA entry | value | units | base units | tolerance

The value comes from the NIST listing (not from the package's generated table), the base-unit expansion
from a table of SI units written down here; which entry a constant must show follows from its name and
was reviewed by hand.  Static: checks only read the committed file.
"""
import os
import re
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
B = {"kg": ("kilogram", 1), "m": ("meter", 1), "s": ("second", 1), "A": ("ampere", 1), "K": ("Kelvin", 1), "mol": ("mole", 1)}
eV, u, Eh, c = 1.60217653e-19, 1.660538782e-27, 4.35974394e-18, 299792458.0
D = {"J": (1, "kg m^2 s^-2"), "C": (1, "A s"), "N": (1, "kg m s^-2"), "Pa": (1, "kg m^-1 s^-2"), "V": (1, "kg m^2 s^-3 A^-1"), "W": (1, "kg m^2 s^-3"),
     "S": (1, "kg^-1 m^-2 s^3 A^2"), "F": (1, "kg^-1 m^-2 s^4 A^2"), "T": (1, "kg s^-2 A^-1"), "Wb": (1, "kg m^2 s^-2 A^-1"), "H": (1, "kg m^2 s^-2 A^-2"),
     "ohm": (1, "kg m^2 s^-3 A^-2"), "Hz": (1, "s^-1"), "MHz": (1e6, "s^-1"), "eV": (eV, "kg m^2 s^-2"), "MeV": (eV * 1e6, "kg m^2 s^-2"),
     "GeV": (eV * 1e9, "kg m^2 s^-2"), "E_h": (Eh, "kg m^2 s^-2"), "u": (u, "kg"), "sr": (1, ""), "fm": (1e-15, "m"), "c": (c, "m s^-1")}


def expand(units):
    """NIST notation -> (size, {base: exponent})"""
    if units == "(GeV/c^2)^-2":
        units = "GeV^-2 c^4"
    units = units.replace("MeV/c", "MeV c^-1")
    size, dims = 1.0, {}
    for tok in units.split():
        n, _, e = tok.partition("^")
        e = int(e or 1)
        if n in B:
            dims[B[n][0]] = dims.get(B[n][0], 0) + e
        else:
            k, sub = D[n]
            size *= k ** e
            for b, x in expand(sub)[1].items():
                dims[b] = dims.get(b, 0) + x * e
    return size, {b: e for b, e in dims.items() if e}


SPECIAL = {"silicon_220_lattice_spacing": "{220} lattice spacing of silicon", "Bohr_magneton_in_Hz_per_T": "Bohr magneton in Hz/T",
           "Sackur_Tetrode_constant_ST_100kPa": "Sackur-Tetrode constant (1 K, 100 kPa)", "Sackur_Tetrode_constant_STP": "Sackur-Tetrode constant (1 K, 101.325 kPa)",
           "Loschmidt_constant": "Loschmidt constant (273.15 K, 101.325 kPa)", "molar_volume_of_ideal_gas_ST_100kPa": "molar volume of ideal gas (273.15 K, 100 kPa)",
           "molar_volume_of_ideal_gas_STP": "molar volume of ideal gas (273.15 K, 101.325 kPa)"}


def norm(s):
    return re.sub(r"[^a-z0-9]+", "_", s.lower()).strip("_")


def main():
    import sys
    sys.path.insert(0, "/repo")
    import quantities as pq
    entries = {}
    for line in open("/repo/quantities/constants/NIST_codata.txt").read().split("\n")[10:-1]:
        n = line[:55].rstrip().replace("mag.", "magnetic").replace("mom.", "moment").replace("gyromag.", "gyromagnetic").replace("gyromagneticnetic", "gyromagnetic")
        entries[n] = (line[55:77].replace(" ", "").replace("...", ""), line[99:].strip())
    by = {norm(n): n for n in entries}
    by.update({norm(n).replace("_hz_t", "_hz_per_t"): n for n in entries})
    out = []
    for a, q in sorted(vars(pq.constants).items()):
        if not isinstance(q, pq.UnitConstant):
            continue
        name = q.name
        if name in ("pi", "golden_ratio"):
            out.append([a, name, {"pi": "3.141592653589793", "golden_ratio": "1.618033988749895"}[name], "", "1.0", "", "1e-15"])
            continue
        if name == "astronomical_unit":
            out.append([a, name, "149597870700", "m", "1.0", "meter^1", "1e-12"])
            continue
        k = re.sub(r"_per_(.)$", r"_\1", norm(name))
        e = SPECIAL.get(name) or by.get(norm(name)) or by[k]
        v, un = entries[e]
        size, dims = expand(un)
        tol = "1e-5" if re.search(r"eV|E_h|\bu\b", un) else "1e-10"
        out.append([a, e, v, un.replace("^", "**").replace(" ", "*"), repr(size), " ".join("%s^%d" % t for t in sorted(dims.items())), tol])
    with open(os.path.join(HERE, "..", "symq", "data", "constants.txt"), "w") as f:
        f.write("".join("|".join(r) + "\n" for r in out))


if __name__ == "__main__":
    main()

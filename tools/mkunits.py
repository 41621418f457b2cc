"""Writes symq/data/units.txt, the table of unit sizes that C24 checks against.

The table is committed and static.  Every line was reviewed by hand against SI, NIST SP 811, the
international yard and pound agreement, UK/US law and the udunits tables the package follows; it is
only regenerated (and reviewed again) by running this tool by hand, never by a check.
"""
import os
import sys
sys.path.insert(0, "/repo")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy as np
import quantities as pq
from symq.env import EnvBase

LOOSE = {  # measured, rounded or conventional values
    1e-5: """atomic_mass_unit electron_volt meV keV MeV GeV hartree elementary_charge faraday slug parsec astronomical_unit
        darcy millidarcy circular_mil unit_pole characteristic_impedance_of_vacuum magnetic_constant electric_constant
        statcoulomb statampere statvolt stathenry statohm statmho statfarad water_60F water_4C H2O mercury_60F
        conventional_mercury inch_H2O_60F inch_H2O_39F inch_Hg_60F year month millenium eon tropical_month sidereal_month synodic_month
        sidereal_second sidereal_minute sidereal_hour sidereal_day sidereal_year water_horsepower boiler_horsepower
        R_value refrigeration_ton oersted gilbert cmH2O footH2O foot_H2O""".split(),
    1e-3: ["boiler_horsepower"], 1e-4: ["chemical_faraday", "physical_faraday", "clo"],
}
tol = {}
for t in sorted(LOOSE):
    for n in LOOSE[t]:
        tol[n] = t
reg = EnvBase(pq, np).registry()
units = {}
for n, u in reg.items():
    units.setdefault(id(u), (u, [], []))[1].append(n)
for n in sorted(vars(pq)):
    u = vars(pq)[n]
    if isinstance(u, pq.UnitQuantity):
        units.setdefault(id(u), (u, [], []))[2].append(n)
rows = []
for u, names, attrs in units.values():
    s = u.simplified
    d = " ".join("%s^%s" % (k.name, v) for k, v in sorted(s.dimensionality.items(), key=lambda t: t[0].name))
    rows.append("|".join([u.name, repr(float(s.magnitude)), d, repr(tol.get(u.name, 1e-9)), " ".join(sorted(names)), " ".join(attrs)]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "symq", "data", "units.txt"), "w") as f:
    f.write("\n".join(sorted(rows)) + "\n")

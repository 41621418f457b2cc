"""C25 physical constants (table: symq/data/constants.txt, from the NIST listing)"""
import os
from symq import independent as indep
from symq.harness import harness

TABLE = []
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "constants.txt"), encoding="utf-8") as f:
    for line in f:
        a, entry, v, units, size, dims, tol = line.rstrip("\n").split("|")
        TABLE.append((a, entry, float(v), units, float(size), {d.split("^")[0]: int(d.split("^")[1]) for d in dims.split()}, float(tol)))
N = 8


def near(env, v, want, tol, label):
    d, lim = v - want, abs(want) * tol
    env.check((d <= lim) & (-d <= lim) if env.symbolic else abs(d) <= lim * (1 + 1e-6), label)


@harness("C25", part=list(range(N)), how=["simplified", "tabulated", "units-argument", "inverse"])
def value(env, part, how):
    """every exported constant, multiplied with any magnitude, is the tabulated quantity"""
    pq = env.pq
    x = env.real("x", lo=1, hi=10)
    for a, entry, v, units, size, dims, tol in TABLE[part::N]:
        c = getattr(pq.constants, a, None)
        env.check(c is not None, "exported:" + a)
        if c is None:
            continue
        s = env.snap(c)
        if how == "tabulated":
            r = (x * c).rescale(units or "dimensionless")
            near(env, env.vals(r)[0], x * v, 1e-10, "value:" + a)
        else:
            if how == "simplified":
                q, e = (x * c).simplified, 1
            elif how == "units-argument":
                q, e = pq.Quantity(x, c).simplified, 1
            else:
                q, e = (x / c).simplified, -1
            env.klass(q, pq.UncertainQuantity if entry == "astronomical_unit" else pq.Quantity, a)
            env.same_dims(q, {b: e * n for b, n in dims.items()}, a)
            if e == 1:
                near(env, env.vals(q)[0], x * (v * size), tol, "value:" + a)
            else:
                near(env, env.vals(q)[0] * (v * size), x, tol, "value:" + a)
        env.unchanged(s, c, "constant")


@harness("C25", part=[0, 1])
def units_of_constants(env, part):
    """constants serve as units: a magnitude converts into and out of them"""
    pq = env.pq
    x = env.real("x", lo=1, hi=10)
    k = pq.constants
    names = ["elementary_charge", "speed", "Planck_constant", "electron_mass", "Bohr_radius", "Boltzmann_constant"][part::2]
    for n in names:
        if n == "speed":
            c, v, u = k.natural_unit_of_velocity, 299792458.0, pq.m / pq.s
        else:
            c = getattr(k, n)
            a, entry, v, units, size, dims, tol = [r for r in TABLE if r[0] == n][0]
            u = pq.Quantity(1.0, units)
        r = (x * u).rescale(c)
        near(env, env.vals(r)[0] * v, x, 1e-10, "into:" + n)
        b = r.rescale(u.dimensionality)
        near(env, env.vals(b)[0], x, 1e-10, "out-of:" + n)


def relations(k, pq):
    """pairs that agree by definition"""
    c, h, hbar, e, me, mp, NA, kB, a = (k.natural_unit_of_velocity, k.Planck_constant, k.Planck_constant_over_2_pi, k.elementary_charge, k.electron_mass,
                                        k.proton_mass, k.Avogadro_constant, k.Boltzmann_constant, k.fine_structure_constant)
    mu0, eps0, Eh, a0, muB = k.magnetic_constant, k.electric_constant, k.Hartree_energy, k.Bohr_radius, k.Bohr_magneton
    pi = 3.141592653589793
    out = {
        "hbar": (hbar * (2 * pi), h), "rest-energy": (me * c ** 2, k.electron_mass_energy_equivalent), "proton-energy": (mp * c ** 2, k.proton_mass_energy_equivalent),
        "gas-constant": (NA * kB, k.molar_gas_constant), "faraday": (NA * e, k.Faraday_constant), "light": (mu0 * eps0 * c ** 2, pq.Quantity(1.0)),
        "impedance": (mu0 * c, k.characteristic_impedance_of_vacuum), "hartree": (Eh * a0 * a0 * me, hbar ** 2), "alpha": (e ** 2, a * (4 * pi) * eps0 * hbar * c),
        "magneton": (muB * 2 * me, e * hbar), "nuclear-magneton": (k.nuclear_magneton * 2 * mp, e * hbar), "rydberg": (k.Rydberg_constant * 2 * h, a ** 2 * me * c),
        "flux-quantum": (k.magnetic_flux_quantum * 2 * e, h), "josephson": (k.Josephson_constant * k.magnetic_flux_quantum, pq.Quantity(1.0)),
        "von-klitzing": (k.von_Klitzing_constant * e ** 2, h), "conductance": (k.conductance_quantum * k.inverse_of_conductance_quantum, pq.Quantity(1.0)),
        "compton": (k.Compton_wavelength * me * c, h), "radius": (k.classical_electron_radius, a ** 2 * a0), "thomson": (k.Thomson_cross_section * 3, (8 * pi) * k.classical_electron_radius ** 2),
        "mass-ratio": (k.proton_electron_mass_ratio * me, mp), "inverse-ratio": (k.proton_electron_mass_ratio * k.electron_proton_mass_ratio, pq.Quantity(1.0)),
        "amu": (k.atomic_mass_constant * NA, k.molar_mass_constant), "radiation-1": (k.first_radiation_constant, (2 * pi) * h * c ** 2),
        "radiation-2": (k.second_radiation_constant * kB, h * c), "planck-mass": (k.Planck_mass ** 2 * k.Newtonian_constant_of_gravitation, hbar * c),
        "planck-length": (k.Planck_length * k.Planck_mass * c, hbar), "planck-time": (k.Planck_time * c, k.Planck_length), "planck-temperature": (k.Planck_temperature * kB, k.Planck_mass * c ** 2),
        "stefan-boltzmann": (k.Stefan_Boltzmann_constant * 60 * hbar ** 3 * c ** 2, (pi ** 2) * kB ** 4), "atomic-time": (k.atomic_unit_of_time * Eh, hbar),
        "atomic-velocity": (k.atomic_unit_of_velocity, a * c), "atomic-field": (k.atomic_unit_of_electric_field * e * a0, Eh), "inverse-alpha": (a * k.inverse_fine_structure_constant, pq.Quantity(1.0)),
        "aliases-e": (k.e, k.elementary_charge), "same-h": (k.h, k.Planck_constant), "natural-time": (k.natural_unit_of_time * me * c ** 2, hbar),
        "muon": (k.muon_mass * c ** 2, k.muon_mass_energy_equivalent), "neutron": (k.neutron_mass * c ** 2, k.neutron_mass_energy_equivalent),
        "deuteron": (k.deuteron_mass * c ** 2, k.deuteron_mass_energy_equivalent), "alpha-particle": (k.alpha_particle_mass * c ** 2, k.alpha_particle_mass_energy_equivalent),
        "molar-planck": (k.molar_Planck_constant, NA * h),
    }
    return out


@harness("C25", part=[0, 1, 2])
def related(env, part):
    """constants related by definition agree (to the tables' precision; 2e-4 where big G enters)"""
    pq = env.pq
    x = env.real("x", lo=1, hi=10)
    rel = relations(pq.constants, pq)
    for n in sorted(rel)[part::3]:
        l, r = rel[n]
        l, r = (x * l).simplified, (x * r).simplified
        env.same_dims(l, env.dims(r), n)
        a, b = env.vals(l)[0], env.vals(r)[0]
        near(env, a / b if not env.symbolic else a, b if env.symbolic else 1.0, 2e-4 if n.startswith("planck") else 2e-6, "relation:" + n)


indep.register("C25")

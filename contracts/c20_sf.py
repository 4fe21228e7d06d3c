"""C20  structure factors."""
import math
import os
import types
from engine.api import case, Skip
from contracts._scene import *

S = "structure_factors."
FORM = {"C": [2.31, 1.02, 1.5886, 0.865, 20.8439, 10.2075, 0.5687, 51.6512, 0.2156]}


class Atom(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def world(c, atoms, dispersion, S, rot, trans, seen):
    """contracts of the dependencies: the cif reader gives a list of atoms and dispersion corrections, the space group its operations"""
    w = c.world
    w.lib["CifFile"].__dict__["ReadCif"] = lambda path, *a, **k: (seen.append(("cif", path)), {"block": "block"})[1]

    class Build(object):
        def __init__(self):
            self.atomlist = types.SimpleNamespace(atom=[], dispersion={})

        def CIFread(self, ciffile=None, cifblkname=None, cifblk=None):
            seen.append(("block", cifblk))
            self.atomlist.atom, self.atomlist.dispersion = list(atoms), dict(dispersion)
    w.load_ext("xfab.structure").build_atomlist = Build

    def sg(sgname=None, sgno=None, **k):
        seen.append(("sg", sgname))
        return types.SimpleNamespace(nsymop=S, rot=rot, trans=trans)
    m = types.ModuleType("xfab.sg")
    m.sg = sg
    w.modules["xfab.sg"] = m
    w.load_ext("xfab").sg = m


def recip(c, cell):
    """reciprocal metric times the squared volume factor, and that factor"""
    a, b, d = cell[:3]
    ca, cb, cg = [c.cos(x * c.pi / 180) for x in cell[3:]]
    sa2, sb2, sg2 = 1 - ca * ca, 1 - cb * cb, 1 - cg * cg
    D = 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg
    m = [[sa2 / (a * a), (ca * cb - cg) / (a * b), (ca * cg - cb) / (a * d)],
         [0, sb2 / (b * b), (cb * cg - ca) / (b * d)], [0, 0, sg2 / (d * d)]]
    for i in range(3):
        for j in range(i):
            m[i][j] = m[j][i]
    return m, D


def cells(c):
    """a cell with real lengths and angles, any or of a special kind"""
    kind = c.pick("cell", ["triclinic", "cubic", "hexagonal"])
    a = c.real("a", 0.1 if not c.sym else 0, 40, open=True)
    if kind == "cubic":
        return [a, a, a, 90.0, 90.0, 90.0]
    b, d = c.real("b", 0, None, open=True), c.real("c", 0, None, open=True)
    if kind == "hexagonal":
        return [a, a, d, 90.0, 90.0, 120.0]
    return [a, b, d] + [c.real(n, 0, 180, open=True) for n in ("alpha", "beta", "gamma")]


@case("C20", [S + "_sintl_batch"], concrete=False, budget=20)
def sintl(c):
    """sin(theta)/lambda of a reflection is half the length of its reciprocal vector"""
    cell = cells(c)
    n = c.dim("N", 0)
    hkl = c.ten("hkl", (n, 3))
    m, D = recip(c, cell)
    c.assume(c.lt(0, D))
    out = c.mod("structure_factors")._sintl_batch(cell, hkl)
    c.same_shape("one per reflection", out, (n,))
    for e in c.each(n, name="e"):
        h = [c.at(hkl, e, q) for q in range(3)]
        p = sum(h[i] * h[j] * m[i][j] for i in range(3) for j in range(3))
        c.assume(c.le(0, p))                # the metric is positive
        s = c.at(out, e)
        c.same("length", s * s * 4 * D, p)
        c.ensure("not negative", c.le(0, s))


@case("C20", [S + "_form_factors_batch"], concrete=False, budget=20)
def form_factors(c):
    """tabulated fit: sum of a_i exp(-b_i s^2) plus constant, for every atom and reflection"""
    n = c.dim("N", 0)
    s = c.ten("s", (n,), 0, None)
    types_ = c.pick("atoms", [["SI"], ["O", "SI", "O"], ["FE", "H"]])
    out = c.mod("structure_factors")._form_factors_batch(types_, s)
    from xfab import atomlib
    c.same_shape("shape", out, (len(types_), n))
    for k, t in enumerate(types_):
        p = [c.num_exact(x) if hasattr(c, "num_exact") else x for x in atomlib.formfactor[t]]
        for e in c.each(n, name="e"):
            x = c.at(s, e)
            c.same("form factor", c.at(out, k, e), sum(p[i] * c.exp(-p[4 + i] * (x * x)) for i in range(4)) + p[8])


MIX = ["I", "A", "N", "IA", "AI", "IN", "AA", "IIA", "NAI"]


@case("C20", [S + "compute_structure_factors_batch", S + "_uij_to_betaij", S + "_sintl_batch", S + "_form_factors_batch", "phase.Phase._set_structure_factors", "utils._cif_open"],
      concrete=False, budget=40)
def sum_over_atoms(c):
    """F = sum over atoms and symmetry operations of the site's share times (f + f' + i f'') times damping times exp(2 pi i h.(R x + t)),
    for any number of reflections and operations; atoms with isotropic, anisotropic and no displacement parameters, with and without dispersion"""
    from xfab import atomlib
    mix = c.pick("displacements", MIX)
    n, S = c.dim("N", 0), c.dim("S", 1)
    cell = cells(c)
    m, D = recip(c, cell)
    c.assume(c.lt(0, D))
    rot, trans = c.ten("rot", (S, 3, 3), lib="np"), c.ten("trans", (S, 3), lib="np")
    kinds = ["SI", "O", "O"]
    disp = c.pick("dispersion", [{}, {"SI": [c.real("f1", None, None), c.real("f2", None, None)], "O": None}])
    atoms = []
    for k, t in enumerate(mix):
        u = [c.real("u%d%d" % (k, q), None, None) for q in range(6)]
        atoms.append(Atom(label="a%d" % k, atomtype=kinds[k], pos=[c.real("x%d%d" % (k, q), None, None) for q in range(3)],
                          adp_type={"I": "Uiso", "A": "Uani", "N": None}[t], adp={"I": u[0], "A": u, "N": 0.0}[t],
                          occ=c.real("occ%d" % k, 0, 1), symmulti=c.real("mult%d" % k, 0, None, open=True)))
    seen = []
    world(c, atoms, disp, S, rot, trans, seen)
    hkl = c.ten("hkl", (n, 3), lib="np")
    old = c.snapshot(hkl)
    ph = c.mod("phase").Phase(cell, "P1", path_to_cif_file="some.cif")
    ph._set_structure_factors(hkl)
    F = ph.structure_factors
    c.ensure("the phase's own cif file is read", [x for x in seen if x[0] == "cif"] == [("cif", "some.cif")])
    c.ensure("the file's data block is used", [x for x in seen if x[0] == "block"] == [("block", "block")])
    c.ensure("the phase's own space group is used", [x for x in seen if x[0] == "sg"] == [("sg", "P1")])
    c.same_shape("real and imaginary part of every reflection", F, (n, 2))
    c.unchanged("reflections", hkl, old)
    a, b, d = cell[:3]
    sins = [c.sin(x * c.pi / 180) for x in cell[3:]]
    V = a * b * d * c.sqrt(D)
    star = [b * d * sins[0] / V, a * d * sins[1] / V, a * b * sins[2] / V]
    for e in c.each(n, name="e"):
        h = [c.at(hkl, e, q) for q in range(3)]
        p = sum(h[i] * h[j] * m[i][j] for i in range(3) for j in range(3))
        c.assume(c.le(0, p))
        s = c.sqrt(p) / (2 * c.sqrt(D))
        s2 = s * s
        re = im = 0
        for k, (t, at) in enumerate(zip(mix, atoms)):
            tab = atomlib.formfactor[at.atomtype]
            f = sum(tab[i] * c.exp(-tab[4 + i] * s2) for i in range(4)) + tab[8]
            fp, fpp = disp.get(at.atomtype) or (0.0, 0.0)
            share = at.occ * at.symmulti / S

            def term(o, part):
                r = [sum(c.at(rot, o, i, j) * at.pos[j] for j in range(3)) + c.at(trans, o, i) for i in range(3)]
                phi = 2 * c.pi * sum(h[i] * r[i] for i in range(3))
                damp = 1
                if t == "I":
                    damp = c.exp(-8 * c.pi * c.pi * at.adp * s2)
                elif t == "A":
                    u = at.adp
                    U = [[u[0], u[5], u[4]], [u[5], u[1], u[3]], [u[4], u[3], u[2]]]
                    g = [sum(h[i] * c.at(rot, o, i, j) for i in range(3)) for j in range(3)]      # h turned into the frame of the listed atom
                    damp = c.exp(-2 * c.pi * c.pi * sum(g[i] * g[j] * star[i] * star[j] * U[i][j] for i in range(3) for j in range(3)))
                x, y = (c.cos(phi), -c.sin(phi)) if part == 0 else (c.sin(phi), c.cos(phi))
                return damp * (x * (f + fp) + y * fpp)
            re = re + share * c.sum(S, lambda o: term(o, 0))
            im = im + share * c.sum(S, lambda o: term(o, 1))
        c.same("real part", c.at(F, e, 0), re)
        c.same("imaginary part", c.at(F, e, 1), im)


GROUPS = {"P1": "tri", "P-1": "tri", "P21/c": "mono", "P222": "ortho", "P212121": "ortho", "P4": "tetra", "I4/mmm": "tetra", "P3": "hex", "P3221": "hex", "P63/mmc": "hex",
          "Pm-3m": "cubic", "Fm-3m": "cubic", "Fd-3m": "cubic", "P213": "cubic"}


def random_cell(rng, system):
    r = lambda: rng.uniform(3.0, 9.0)
    a, b, d = r(), r(), r()
    if system == "tri":
        return [a, b, d] + [rng.uniform(75, 105) for _ in range(3)]
    return {"mono": [a, b, d, 90.0, rng.uniform(91, 110), 90.0], "ortho": [a, b, d, 90.0, 90.0, 90.0], "tetra": [a, a, d, 90.0, 90.0, 90.0],
            "hex": [a, a, d, 90.0, 90.0, 120.0], "cubic": [a, a, a, 90.0, 90.0, 90.0]}[system]


def cif_text(cell, sgname, atoms, disp, declare=True):
    q = ["data_test"]
    for n, v in zip(("length_a", "length_b", "length_c", "angle_alpha", "angle_beta", "angle_gamma"), cell):
        q.append("_cell_%s %.10f" % (n, v))
    q.append("_symmetry_space_group_name_H-M '%s'" % sgname)
    q += ["loop_", "_atom_type_symbol", "_atom_type_scat_dispersion_real", "_atom_type_scat_dispersion_imag"]
    q += ["%s %.6f %.6f" % (k, v[0], v[1]) for k, v in disp.items()]
    q += ["loop_", "_atom_site_label", "_atom_site_type_symbol", "_atom_site_fract_x", "_atom_site_fract_y", "_atom_site_fract_z", "_atom_site_U_iso_or_equiv",
          "_atom_site_adp_type", "_atom_site_occupancy", "_atom_site_symmetry_multiplicity"]
    for k, a in enumerate(atoms):
        q.append("%s%d %s %.8f %.8f %.8f %.8f %s %.6f %d" % (a.atomtype, k, a.atomtype.capitalize(), *a.pos, a.adp if a.adp_type == "Uiso" else 0.01, a.adp_type, a.occ, a.symmulti))
    ani = [(k, a) for k, a in enumerate(atoms) if a.adp_type == "Uani"]
    if ani:
        q += ["loop_", "_atom_site_aniso_label"] + ["_atom_site_aniso_U_" + x for x in ("11", "22", "33", "23", "13", "12")]
        q += ["%s%d %s" % (a.atomtype, k, " ".join("%.8f" % x for x in a.adp)) for k, a in ani]
    return "\n".join(q) + "\n"


@case("C20", [S + "compute_structure_factors_batch", "phase.Phase._set_structure_factors", "phase.Phase._setup_diffracting_planes", "utils._cif_open"], sym=False, samples=16, budget=60,
      bounded="random cif files: 14 space groups, 1-4 atoms on general and special positions, all reflections to a limit")
def cif_files(c):
    """the sum over the distinct atoms of the cell that the file describes, for every generated plane, in the order of the planes"""
    from xfab import atomlib, sg
    np, rng = c.np, c.rng
    name = rng.choice(sorted(GROUPS))
    cell = random_cell(rng, GROUPS[name])
    g = sg.sg(sgname=name)
    types_ = rng.sample(["SI", "O", "FE", "AL", "C", "NI"], 3)
    disp = {t.capitalize(): (round(rng.uniform(-3, 1), 4), round(rng.uniform(0, 4), 4)) for t in types_ if True}
    atoms = []
    for _ in range(rng.randint(1, 4)):
        pos = rng.choice([[0.0, 0.0, 0.0], [round(rng.random(), 6) for _ in range(3)], [round(rng.random(), 6) for _ in range(3)], [0.25, 0.25, 0.25], [0.5, 0.5, 0.0]])
        orbit = []
        for R, t in zip(g.rot, g.trans):
            x = R @ np.array(pos) + t
            if not any(np.all(np.abs((x - y + 0.5) % 1.0 - 0.5) < 1e-5) for y, _ in orbit):
                orbit.append((x, R))
        ani = len(orbit) == g.nsymop and rng.random() < 0.5
        if ani:
            a = np.array([[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)])
            U = 0.01 * (a @ a.T) + 0.004 * np.eye(3)
            adp = [U[0, 0], U[1, 1], U[2, 2], U[1, 2], U[0, 2], U[0, 1]]
            adp = [round(float(x), 8) for x in adp]
        else:
            adp = round(rng.uniform(0.001, 0.04), 6)
        atoms.append(Atom(atomtype=rng.choice(types_), pos=pos, adp_type="Uani" if ani else "Uiso", adp=adp, occ=rng.choice([1.0, 0.5, round(rng.random(), 4)]), symmulti=len(orbit), orbit=orbit))
    path = c.tmp("x.cif")
    with open(path, "w") as f:
        f.write(cif_text(cell, name, atoms, disp))
    c.inputs.update(sg=name, cell=cell, cif=cif_text(cell, name, atoms, disp))
    ph = c.mod("phase").Phase(cell, name, path_to_cif_file=path)
    lim = rng.uniform(0.25, 0.5)
    ph._setup_diffracting_planes(1.0, 0.0, math.asin(lim))
    hkl, F = np.asarray(ph.miller_indices), np.asarray(ph.structure_factors)
    c.same_shape("one factor per plane", F, (len(hkl), 2))
    B = lattice_B(np, cell)
    star = np.linalg.norm(B, axis=0) / (2 * math.pi)
    total = 1e-9 + sum(a.symmulti * 40 for a in atoms)
    for e in (range(len(hkl)) if len(hkl) < 60 else rng.sample(range(len(hkl)), 60)):
        h = hkl[e]
        s = np.linalg.norm(B @ h) / (4 * math.pi)
        want = 0
        for a in atoms:
            t = atomlib.formfactor[a.atomtype]
            d = disp[a.atomtype.capitalize()]
            f = sum(t[i] * math.exp(-t[4 + i] * s * s) for i in range(4)) + t[8] + d[0] + 1j * d[1]
            for x, R in a.orbit:
                if a.adp_type == "Uiso":
                    w = math.exp(-8 * math.pi ** 2 * a.adp * s * s)
                else:
                    u = a.adp
                    U = np.array([[u[0], u[5], u[4]], [u[5], u[1], u[3]], [u[4], u[3], u[2]]])
                    g2 = (R.T @ h) * star
                    w = math.exp(-2 * math.pi ** 2 * g2 @ U @ g2)
                want += a.occ * f * w * np.exp(2j * math.pi * (h @ x))
        c.ensure("sum over the atoms of the cell", abs(F[e, 0] + 1j * F[e, 1] - want) < 1e-5 * total)
    perm = np.random.RandomState(rng.randrange(9999)).permutation(len(hkl))
    ph._set_structure_factors(hkl[perm])
    c.ensure("order of the reflections", np.allclose(np.asarray(ph.structure_factors), F[perm], atol=1e-7 * total))
    with open(path, "w") as f:
        f.write(cif_text(cell, name, atoms[::-1], disp))
    ph._set_structure_factors(hkl)
    c.ensure("order of the atoms", np.allclose(np.asarray(ph.structure_factors), F, atol=1e-7 * total))

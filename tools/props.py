#!/usr/bin/env python
"""Writes properties.jsonl and MANIFEST.json (the property texts live here)."""
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = "xrd_simulator/"
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), state=None, observe=None):
    anchors = {"files": [X + f for f in files], "mechanism": [{"name": n, "where": X + w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": X + w} for a, b, w in state]
    anchors["observe_at"] = observe or [X + w for _, w in mech]
    anchors["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why, "anchors": anchors})


prop("C01", "A rigid body motion moves points as rotation, origin and translation say",
     "Applying a motion at time t turns a point about the motion's axis through its origin by t times its angle (right-handed) and adds t times its translation, while rotating a direction applies the rotation only. "
     "The result is the same whether the vectors come one at a time, as a list, or as stacks with a common or individual times, and has the shape of the input; the inverse of a pure rotation or pure translation undoes it. "
     "A motion with an angle outside the open interval (0, pi) is refused.",
     "every axis, angle in (0, pi), origin, translation, time, and every number and layout of points with one common or one individual time per point",
     "tests rotate a handful of fixed vectors; the law must hold for every axis/angle/origin and for every batch layout and size, including batches of size one",
     ["motion.py"], [("Rodrigues rotation", "motion.py:_RodriguezRotator"), ("motion", "motion.py:RigidBodyMotion.__call__"), ("direction rotation", "motion.py:RigidBodyMotion.rotate"), ("inverse", "motion.py:RigidBodyMotion.inverse")])

prop("C02", "Every reported diffraction event fulfils the Laue condition",
     "Every event in the table returned by diffracting a polycrystal is elastic: the scattered wave vector equals the incoming one plus the scattering vector, and both wave vectors have the same length. "
     "The scattering vector is the reciprocal lattice vector of the event's Miller indices in the event's strained, oriented crystal turned by the motion to the event's time, that time lies in [0, 1], and the scattering angle obeys Bragg's law.",
     "every beam, motion (angles up to pi), crystal orientation, strain, lattice and plane, for any number of crystals, phases and planes",
     "tests look at some scenes; an event with a wrong sign, index or root choice appears only for particular geometry and for particular numbers of crystals and planes",
     ["laue.py", "polycrystal.py"], [("root solver", "laue.py:_find_solutions_to_tangens_half_angle_equation"), ("coefficients", "polycrystal.py:Polycrystal._compute_peaks"), ("plane selection", "laue.py:_get_bragg_angle")],
     observe=[X + "polycrystal.py:Polycrystal.diffract"])

prop("C03", "No diffraction event is missed",
     "For every crystal and every considered lattice plane, each time in [0, 1] at which the rotated plane fulfils the Laue condition appears in the event table (if the crystal is then in the beam), and no plane gives more than two events per motion. "
     "This includes the degenerate geometries in which the diffraction equation is linear in its unknown.",
     "every crystal, plane, rotation axis and angle in (0, pi), and every time in the open interval (0, 1)",
     "absence of an event is invisible to tests that inspect what is returned; completeness quantifies over all times",
     ["laue.py", "polycrystal.py"], [("root solver", "laue.py:_find_solutions_to_tangens_half_angle_equation"), ("cone pre-selection", "polycrystal.py:Polycrystal.diffract")],
     observe=[X + "polycrystal.py:Polycrystal.diffract"])

prop("C04", "A row of the diffraction table describes one event of one illuminated crystal",
     "In every row of the event table, phase, orientation, strained lattice, volume and source point are those of the crystal whose index the row carries, the Miller indices and structure factor are those of one plane of that crystal's phase, and the source point is the crystal's centre moved to the event's time. "
     "The table holds precisely the events whose source point is inside the beam then, numbered consecutively, with the documented columns, and diffracting leaves the sample, beam and motion unchanged.",
     "any number of crystals, phases and events (also none or one), any crystal-to-phase assignment, any beam hull",
     "a mix-up of rows between crystals or phases shows only with several phases interleaved in a particular way; tests use one or two phases in block order",
     ["polycrystal.py", "beam.py", "laue.py"], [("table assembly", "polycrystal.py:Polycrystal._compute_peaks"), ("illumination filter", "polycrystal.py:Polycrystal.diffract"), ("beam hull", "beam.py:Beam._contains")])

prop("C05", "Lorentz, polarisation and peak-width factors follow their formulas",
     "Each event carries the Lorentz factor 1/(sin 2-theta |sin eta|), infinite exactly when eta is within half a degree of the rotation axis or the Bragg angle is below half a degree, the polarisation factor 1 - (k_out . p)^2/|k_out|^2 in [0, 1], and the Scherrer width 0.9 lambda/(D cos theta) with D the diameter of the sphere of the crystal's volume. "
     "Every event gets its own value whatever the number of events, and the inputs are not modified.",
     "every incoming and scattered direction, axis, polarisation, wavelength and volume; any number of events including none and one",
     "formula errors away from the tested angles, and batch-size dependent shape errors, are not sampled",
     ["scattering_factors.py", "polycrystal.py"], [("Lorentz", "scattering_factors.py:_lorentz"), ("polarisation", "scattering_factors.py:_polarization"), ("Scherrer", "scattering_factors.py:_scherrer"), ("table", "polycrystal.py:Polycrystal._compute_peaks")])

prop("C06", "Strain and reciprocal lattice determine each other",
     "A crystal with Green strain e (given in the lab frame) diffracts with a reciprocal lattice M for which M^T (2e + 1) M equals the metric of its own phase's unstrained reciprocal lattice, crystal by crystal. "
     "Recovering the strain from such a lattice returns e, and a strain for which 2e + 1 is not positive definite is refused with a ValueError, and no other strain is.",
     "every symmetric strain tensor, orientation and unit cell; any number of crystals and phases including one",
     "tests try small random strains; the identity must hold for all tensors incl. shears and the rejection boundary, and per crystal in a batch",
     ["utils.py", "polycrystal.py"], [("strain to lattice", "utils.py:_epsilon_to_b"), ("lattice to strain", "utils.py:_b_to_epsilon"), ("lab frame", "utils.py:_lab_strain_to_B_matrix"), ("polycrystal", "polycrystal.py:Polycrystal._instantiate_eB")])

prop("C07", "Moving a polycrystal turns crystals and strains with the body",
     "Moving a polycrystal to a time of a motion multiplies each orientation by the motion's rotation, rotates each lab strain tensor with it, and moves the mesh, while everything fixed to the crystal (strain seen from the crystal, lattice, phase, volume, reference state) stays. "
     "Any sequence of moves adds up to their composition, and diffracting the moved sample gives the events that the unmoved sample gives in the rest of the scan.",
     "every polycrystal, motion and time, and every finite sequence of motions",
     "tests move once from the reference state; drift between mesh, orientation, strain and lattice shows after further moves",
     ["polycrystal.py", "motion.py", "mesh.py"], [("transform", "polycrystal.py:Polycrystal.transform")], over=("inputs", "histories"),
     state=[("orientation_lab, strain_lab, mesh_lab", "current state of the body in the lab", "polycrystal.py:Polycrystal"), ("orientation_sample, strain_sample, mesh_sample", "reference state", "polycrystal.py:Polycrystal")],
     observe=[X + "polycrystal.py:Polycrystal"])

prop("C08", "Element quantities of a mesh are those of its tetrahedra",
     "For every tetrahedral mesh the element volumes are the absolute tetrahedron volumes, centroids are node means, faces are the four node triples, normals are outward unit normals, and the bounding sphere of an element encloses its four nodes and is no larger than the circumsphere. "
     "This holds for either node orientation and every element of every mesh, and nodes and connectivity are kept as given.",
     "every node set and connectivity with non-degenerate tetrahedra, both orientations, any number of elements",
     "tests use one or two regular elements; sign and node-order dependence and flat or needle shaped elements are not reached",
     ["mesh.py", "utils.py"], [("volumes", "mesh.py:TetraMesh._compute_mesh_volumes"), ("normals", "mesh.py:TetraMesh._compute_mesh_normals"), ("spheres", "mesh.py:TetraMesh._compute_mesh_spheres"), ("centroids", "mesh.py:TetraMesh._compute_mesh_centroids")])

prop("C09", "A moved mesh stays the same body with consistent element quantities",
     "Translating, rotating or moving a mesh maps its nodes, centroids, bounding spheres and normals by the same rigid map and keeps volumes, radii and connectivity. "
     "After any sequence of such operations the element quantities equal those of a mesh built afresh from the moved nodes.",
     "every mesh, translation, axis and angle, motion and time, and every finite sequence of these operations",
     "tests apply single operations; stale cached coordinates only show up for particular operation orders",
     ["mesh.py"], [("translate", "mesh.py:TetraMesh.translate"), ("rotate", "mesh.py:TetraMesh.rotate"), ("update", "mesh.py:TetraMesh.update")], over=("inputs", "histories"),
     state=[("coord, ecentroids, espherecentroids, enormals, centroid", "cached geometry", "mesh.py:TetraMesh")])

prop("C10", "Detector coordinates are those of the ray's hit point",
     "A scattered ray is assigned the in-plane coordinates (measured from the first corner along the detector's edges) of the point where it meets the detector plane, no coordinates if the plane lies behind it, and the angle between the ray and the detector normal; a point counts as on the detector exactly when both coordinates lie within the edges. "
     "The pixel grid has the requested number or size of pixels along each edge, with pixel (i, j) at i and j pixel sizes along the edges from the first corner.",
     "every detector placement, tilt, size and pixel size, every ray direction and source point, any number of rays",
     "tests use axis-aligned detectors and a few rays; row/column or origin errors hide behind symmetric geometry",
     ["detector.py"], [("intersection", "detector.py:Detector._get_intersection"), ("bounds", "detector.py:Detector.contains"), ("pixel grid", "detector.py:Detector._get_pixel_coordinates"), ("geometry", "detector.py:Detector.__init__")])

prop("C11", "Peaks reach the right frame with the right intensity factor",
     "Intersecting events with the detector keeps exactly those that hit it with a finite positive intensity factor, in order and otherwise unaltered, and leaves the input table alone. "
     "Each kept event is assigned to the frame whose equal share of the scan contains its time, and its intensity factor is the product of the structure, polarisation and Lorentz factors that the detector has enabled.",
     "any number of events, any number of frames, any combination of enabled factors, infinite or zero factors, times on frame borders",
     "binning and filtering errors concern borders, empty frames and unusual factor combinations that the tests do not enumerate",
     ["detector.py"], [("peak table", "detector.py:Detector.peaks_detector_intersection")])

prop("C12", "Micro rendering deposits each peak's intensity around its own pixel",
     "In micro rendering every peak adds a Gaussian spot centred on its detector position, whose sum is intensity factor times crystal volume, into its own frame and nowhere else. "
     "Frames are sums over peaks: independent of order and grouping of peaks, linear in volume, non-negative, and a spot overlapping the edge only loses what falls outside.",
     "every detector, set of peaks, positions incl. edges, frame assignment and number of peaks",
     "tests check centroids of one or two peaks; leakage between frames, batches or edges depends on peak number and place",
     ["detector.py"], [("micro renderer", "detector.py:Detector._render_gauss_peaks")])

prop("C13", "Macro rendering projects the illuminated volume of the crystal",
     "In macro rendering every peak adds to its own frame the projection, along its scattered ray, of the part of its crystal that is inside the beam at the event's time. Over the box of detector pixels that this projection reaches, the total is intensity factor times illuminated volume times pixel area: shared in proportion to the chord lengths of the rays through the pixel corners (sampled rays for boxes of at most four pixels, all of it in a box of one pixel), then spread by the point-spread kernel. "
     "A peak adds nothing if its crystal is not in the beam, if the projection misses the detector or if no pixel ray meets the crystal; projections that touch only the first or last pixels of the detector are drawn. No pixel is ever NaN or negative for finite non-negative factors, peaks with an infinite factor are left out, and frames are sums over peaks.",
     "every crystal shape, beam hull, motion, detector and set of peaks, incl. crystals partly outside the beam or detector",
     "tests render a few large crystals in full view; thin, partly illuminated and clipped crystals are rare cases",
     ["detector.py", "beam.py", "utils.py"], [("macro renderer", "detector.py:Detector._render_projected_volumes"), ("projection", "detector.py:Detector._project_convex_hull"), ("box", "detector.py:Detector._get_projected_bounding_box"), ("illuminated part", "beam.py:Beam._intersect")])

prop("C14", "Nano rendering conserves each peak's intensity at its sub-pixel position",
     "In nano rendering every peak adds a spot with non-negative weights centred on its sub-pixel detector position into its own frame, whose total is intensity factor times volume up to the kernel truncation threshold: "
     "the normalised Airy disk of the peak's angular width at the detector distance (the point-spread kernel if its first zero is below half a pixel), blurred by the point-spread kernel. "
     "The frame is a sum over peaks that does not depend on their order; deposition drops only what falls outside of the frame.",
     "every set of peaks, positions, widths, frame assignments and batch sizes",
     "tests look at one smooth peak; deposition weights and batch handling depend on sub-pixel offsets and number of peaks",
     ["detector.py"], [("nano renderer", "detector.py:Detector._render_airy_peaks"), ("kernels", "detector.py:Detector._airy_kernel_batch"), ("bilinear deposition", "detector.py:Detector._deposit_kernels_batch")])

prop("C15", "Automatic rendering draws each peak exactly once with the method of its size",
     "Automatic rendering sends each peak to one renderer: nano below the micro limit, macro at or above the macro limit (by default the cubed smaller pixel size), micro in between, and returns the sum; the other methods render all peaks with the named renderer. "
     "The result has one image of the detector's shape per requested frame (at least one) and an unknown method is refused with a ValueError.",
     "every set of crystal volumes and pair of limits, any number of frames, every method name",
     "double or missing contributions occur for volumes on or across the limits, also when the limits are reversed",
     ["detector.py"], [("dispatch", "detector.py:Detector.render")])

prop("C16", "The point-spread kernel is a normalised Gaussian and convolution keeps intensity",
     "The point-spread kernel is a symmetric, non-negative, odd-sized sampled Gaussian of the requested width with sum one, and its radius is the smallest at which the Gaussian is below half the threshold, bounded by the maximal radius. "
     "Convolving a frame, or a stack of frames frame by frame, keeps its shape, is linear, and gives each pixel the kernel-weighted sum of its neighbours with zeros outside.",
     "every positive width, threshold and radius limit; every frame shape and content",
     "tests use the default kernel; radius selection and border handling depend on the parameters",
     ["detector.py"], [("kernel", "detector.py:Detector._generate_gaussian_kernel"), ("convolution", "detector.py:Detector._conv2d_gaussian_kernel")])

prop("C17", "The beam contains and cuts out exactly what is inside its hull",
     "A point is in the beam exactly when it is strictly inside every bounding plane of the hull of the beam's vertices, for single points and lists alike, and the intersection with a convex body is the body's part inside the hull, or nothing if they do not overlap. "
     "The wave vector has length 2 pi over the wavelength along the given direction, the polarisation is a unit vector, vertices that are not in convex position or a polarisation not normal to the beam are refused, and no crystal that enters the beam during a motion is excluded as a candidate at the sampled times.",
     "every convex beam, point, convex body, direction, wavelength and motion",
     "tests use boxes and a few bodies; feasibility search and plane rounding depend on relative placement",
     ["beam.py"], [("containment", "beam.py:Beam._contains"), ("intersection", "beam.py:Beam._intersect"), ("feasible point", "beam.py:Beam._find_feasible_point"), ("candidates", "beam.py:Beam._get_candidate_spheres"), ("construction", "beam.py:Beam.__init__")])

prop("C18", "Saved objects come back the same",
     "Saving a beam, detector, motion, mesh or polycrystal and loading the file gives an object with the same state that behaves the same, for any path, adding the file extension when it is missing. "
     "Loading from a path without the extension is refused with a ValueError, and saving does not change the object.",
     "every object state (also after moving it) and path",
     "tests round-trip one object each; state after motion, odd paths and unusual options are not covered",
     ["beam.py", "detector.py", "motion.py", "polycrystal.py", "mesh.py"],
     [("beam", "beam.py:Beam.save"), ("detector", "detector.py:Detector.save"), ("motion", "motion.py:RigidBodyMotion.save"), ("polycrystal", "polycrystal.py:Polycrystal.save")], over=("inputs", "histories"))

prop("C19", "Experiment templates build what their parameters say",
     "The scanning-3DXRD template builds a detector at the given distance, pixel numbers, pixel sizes and beam centre, a beam of the given cross-section, wavelength and polarisation and a motion of the given axis and step, and refuses a dictionary with a missing key. "
     "Sample templates give volumes of the requested shape whose crystals have proper rotations, only listed phases, and strains and orientations evaluated at the crystals' own places; orientations are drawn from the cells of the orientation grid in proportion to the density there, and lie in their cell.",
     "every parameter dictionary and sample size, orientation, strain and phase description",
     "tests instantiate one dictionary and symmetric detectors; swapped axes or offsets need asymmetric parameters",
     ["templates.py"], [("s3dxrd", "templates.py:s3dxrd"), ("grains from density", "templates.py:polycrystal_from_odf"), ("powder", "templates.py:get_uniform_powder_sample")], over=("inputs", "configurations"))

prop("C20", "Structure factors are the sum over the unit cell's atoms",
     "The structure factor of a reflection equals the sum over the atoms of the unit cell of occupancy times form factor times displacement damping times the phase exp(2 pi i h.x), as real and imaginary part, one per reflection and in order. "
     "It does not depend on the order of the reflections or of the atoms.",
     "every list of atoms (isotropic or anisotropic), unit cell, space group and reflection",
     "tests compare to a few tabulated values; per-atom terms matter for particular cells only",
     ["structure_factors.py", "phase.py"], [("structure factors", "structure_factors.py:compute_structure_factors_batch"), ("attachment to planes", "phase.py:Phase._set_structure_factors")])

prop("C21", "Clip length is the length of the line inside the polyhedron",
     "The clip length of a line with a convex polyhedron is the length of the part of the line inside all of its faces: zero for lines that miss it, independent of the point chosen on the line and of the sign of the direction, and finite for lines parallel to faces. "
     "One length is returned per line, whatever the number of lines.",
     "every convex polyhedron, direction and set of lines, incl. lines parallel to or outside of faces",
     "tests use random rays through a cube; parallel and missing lines have probability zero there",
     ["utils.py"], [("line clipping", "utils.py:_clip_line_with_convex_polyhedron")])

prop("C22", "Device selection is explicit and always leaves a usable device",
     "Asking for the cpu selects the cpu; asking for a gpu, or for automatic choice, selects one if it is usable and falls back to the cpu otherwise; any other request is refused with a ValueError and changes nothing. "
     "The selected device is the one reported and used for tensors created afterwards.",
     "every requested name in any letter case, with or without a usable gpu, and any sequence of requests",
     "tests run on one machine with one configuration",
     ["cuda.py", "utils.py"], [("selection", "cuda.py:configure_device"), ("query", "cuda.py:get_selected_device")], over=("inputs", "configurations", "histories"))

prop("C23", "Plane selection covers all planes that can reach the detector",
     "The Bragg-angle limits used for a simulation are such that every lattice plane within them is generated once, with its Miller indices allowed by the space group, none outside is used, whatever the phase was used for before, and the wrapping cone of a detector opens at half of the largest angle between the incoming beam and the directions to its corners. "
     "Crystal families, limits and bounds come from the sample and detector given, and a limit on the Bragg angle applies to every phase.",
     "every unit cell and space group, wavelength, pair of limits, detector placement and source point",
     "tests count planes for one or two cells; cut-offs depend on geometry",
     ["phase.py", "polycrystal.py", "detector.py", "laue.py"], [("plane generation", "phase.py:Phase._setup_diffracting_planes"), ("bounds", "polycrystal.py:Polycrystal._get_bragg_angle_bounds"), ("cone", "detector.py:Detector._get_wrapping_cone"), ("Bragg angle", "laue.py:_get_bragg_angle")])

prop("C24", "Conversions between strains, rotations and array types lose nothing",
     "Strain vectors (e11, e12, e13, e22, e23, e33) and symmetric strain tensors convert into each other exactly, three angles on the 3-sphere give the unit quaternion at that place, and lists, tuples, arrays and tensors become float64 tensors or arrays of the same shape and values while the source is kept. "
     "The misorientations of a set of orientations are the rotation angles in [0, pi] that take each one to the mean of all, in order, and the centre of the sphere through given points is equally far from all of them.",
     "every vector, tensor, triple of angles, set of orientations, set of 2 to 4 points in general position, and input container of any size",
     "tests convert a few values; component order, container and size dependence are not sampled",
     ["utils.py"], [("strain vectors", "utils.py:_strain_as_vector"), ("array types", "utils.py:ensure_torch"), ("rotations", "utils.py:_alpha_to_quarternion"), ("misorientation", "utils.py:_get_misorientations"), ("sphere", "utils.py:_get_circumscribed_sphere_centroid")])

LEVEL_NOTE = ("Contract obligations generated from /repo's current source by symbolic execution (VC generator in engine/) and discharged by a rational-function normaliser, z3 and cvc5, for all inputs and any batch size; "
              "real arithmetic instead of floating point, library calls by stated contracts. Contracts are also evaluated on the real code (counter-model replay and seeded inputs); cases labelled bounded in the evidence are not proved.")
LEVEL_NOTE_B = ("Bounded: the contract is evaluated on the real code on seeded inputs drawn from its precondition; no obligation of this property is counted as proved (see DESIGN.md for the reason).")
TECH = "contract-based deductive verification: VCs from symbolic execution of the real source, discharged by normaliser/z3/cvc5; bounded contract evaluation where labelled"


def contracts():
    out = {}
    d = os.path.join(VERIF, "contracts")
    for f in sorted(os.listdir(d)):
        m = re.match(r"c(\d\d)_.*\.py$", f)
        if m:
            src = open(os.path.join(d, f)).read()
            cases = re.findall(r"^@case\((.*?)\)\n(?=def|@)", src, re.S | re.M)
            out.setdefault("C" + m.group(1), []).extend(cases)
    return out


def main():
    have = contracts()
    used = [p for p in P if p["id"] in have]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in used:
        anysym = any("sym=False" not in c for c in have[p["id"]])
        cmd = "/opt/venv/bin/python check.py %s --tier " % p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": TECH if anysym else "executable contracts on the real functions, evaluated on seeded inputs (bounded)",
                       "level": "proof" if anysym else "exploration", "level_note": LEVEL_NOTE if anysym else LEVEL_NOTE_B})
    na = [{"property": p["id"], "reason": "contracts not built yet"} for p in P if p["id"] not in have]
    m = {"version": 1, "setup_cmd": "PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import engine.runner'", "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. check.py <id> builds nothing in /repo: it reads /repo's sources on every run."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "claimed,", [(c["property"], c["level"]) for c in checks if c["level"] != "proof"])


main()

#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/registry.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "raytracing/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), reason=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=[R + f for f in files.split()], mechanism=mechanism, state=state, observe=list(observe),
                  reason=reason, note=note))


prop("P01", "Composing elements composes what they do to rays",
     "The product of two elements has the 2x2 product of their matrices, the sum of their lengths, the first one's "
     "front index and the last one's back index (an element without effect takes its neighbour's), and a determinant "
     "equal to front index over back index. Sending a ray through the product gives the same height, angle and "
     "position as sending it through the elements one after the other, the product is associative with the identity "
     "neutral, its vertices are the first and last real ones measured from its front edge, and multiplying by "
     "anything but a matrix, ray or beam is refused.",
     "inputs programs", "all pairs and triples of elements of every kind, all their parameters, all rays",
     "The tests multiply a handful of numeric matrices; the law is over all real parameters and element kinds.",
     "matrix.py ray.py", [("Matrix.mul_matrix", "matrix.py"), ("Matrix.mul_ray", "matrix.py")],
     observe=["Matrix * Matrix", "Matrix * Ray"])

prop("P02", "Every element obeys the paraxial law of its optics",
     "Spaces, thin lenses, curved mirrors, spherical or flat interfaces, thick lenses, slabs and apertures act on every "
     "ray as paraxial optics prescribes for their physical parameters, have determinant n1/n2, and record their "
     "length, vertices, indices and aperture as given. A thick lens or slab equals its two interfaces separated by its "
     "glass, and a lens or mirror focuses at its focal length (R/2 for a mirror). A determinant inconsistent with the indices and a non-positive "
     "aperture diameter or NA are refused.",
     "inputs", "all element parameters (radii of either sign, indices, thicknesses, diameters), all rays",
     "The tests check single numeric examples, mostly in air.",
     "matrix.py", [("element constructors", "matrix.py"), ("Matrix.__init__ determinant check", "matrix.py")],
     observe=["A, B, C, D, L", "element * Ray", "ValueError"])

prop("P03", "A group's matrix is always the ordered product of its elements",
     "After any sequence of building, appending, inserting, replacing, removing, flipping, slicing and loading, a group's matrix, length, "
     "vertices and indices are those of the ordered product of the elements it now contains. The element sequence, "
     "its length, indexing, slicing and iteration follow Python list behaviour for the same edits, negative positions included. A refused edit leaves the "
     "group unchanged.",
     "histories inputs", "all edit histories up to the stated length, all positions, all element parameters",
     "The tests run fixed short edits with fixed numbers and mostly look at the element list, not at the matrix.",
     "matrixgroup.py", [("MatrixGroup.append/pop/insert/__setitem__", "matrixgroup.py"),
                        ("MatrixGroup.transferMatrix", "matrixgroup.py")],
     state=[("elements", "ordered elements", "matrixgroup.py"), ("A,B,C,D,L", "matrix of the whole group", "matrixgroup.py")],
     observe=["group.A..D", "group.L", "list(group)"])

prop("P04", "Partial propagation splits a path exactly",
     "The transfer matrix of a path up to a distance z is the product of everything before z, including the part of a "
     "space, slab or thick lens that lies before z, and equals the whole path's matrix once z reaches its length. Its "
     "length is z wherever z falls inside such an element, and nested groups give the same result as the same elements in one flat list.",
     "inputs programs", "all z (symbolic) in all paths up to the stated number of elements, nested or flat",
     "Tests sample a few z on a few paths; boundaries between elements and positions inside glass are reached by none.",
     "matrixgroup.py matrix.py", [("MatrixGroup.transferMatrix(upTo)", "matrixgroup.py"),
                                  ("Space/ThickLens/DielectricSlab.transferMatrix", "matrix.py")],
     observe=["transferMatrix(upTo=z)"])

prop("P05", "Refractive indices stay continuous along a group",
     "In any group that could be built, each element's back index equals the next element's front index: a space "
     "takes the index of the medium it is put in, and any other mismatching element is refused with ValueError. The "
     "group's front and back indices are those of its ends.",
     "histories inputs", "all index values and all short element sequences with mismatches at any place",
     "Tests try two or three numeric mismatches.",
     "matrixgroup.py", [("MatrixGroup.append index check", "matrixgroup.py")],
     observe=["element.frontIndex/backIndex", "ValueError"])

prop("P06", "A trace is the ray carried through each element in order",
     "The trace of a ray through a path starts with the ray itself and lists it at the output of every element, plus at the front edge of "
     "every element of non-zero length, each point being the result of that element's matrix on the previous one, at positions "
     "that accumulate the lengths from the ray's own z. The last point of an unobstructed trace is the whole "
     "path's matrix applied to the ray, and anything but a ray or beam is refused.",
     "inputs programs", "all rays (height, angle, z) through all paths up to the stated length and nesting",
     "Tests trace a few rays through a few lenses and mostly look at the list length.",
     "matrix.py matrixgroup.py", [("Matrix.trace", "matrix.py"), ("MatrixGroup.trace", "matrixgroup.py")],
     observe=["trace(ray)", "traceThrough(ray)"])

prop("P07", "A ray is blocked exactly when it misses an aperture, and stays so",
     "A ray is blocked at an element if and only if its height there exceeds half the aperture diameter or its angle "
     "exceeds the aperture NA, whatever the signs, for apertures, lenses and the entrance and exit of finite-length elements; unlimited apertures never block. Once blocked "
     "a ray remains blocked through everything after, and a ray within every aperture arrives unblocked.",
     "inputs programs", "all heights, angles, diameters and NAs, all paths up to the stated length",
     "Tests use a few rays well inside or outside an aperture; the boundary and signs are not covered.",
     "matrix.py matrixgroup.py ray.py", [("Matrix.mul_ray aperture test", "matrix.py"), ("Matrix.trace", "matrix.py")],
     observe=["Ray.isBlocked"])

prop("P08", "Tracing has no memory and no side effects",
     "Tracing never changes the ray, beam, list or elements given to it, and tracing again gives the same result. After any edit of the "
     "path or of one of its elements the next trace describes the path as it now is, and two rays that differ in any "
     "property are traced separately.",
     "histories inputs", "all sequences trace, edit, trace over symbolic elements and rays that share or differ in height, angle, position, blocking",
     "The group caches its last trace; tests only assert that the cache is used, never that it is invalidated.",
     "matrixgroup.py matrix.py ray.py", [("MatrixGroup.trace cache", "matrixgroup.py"), ("Matrix.trace", "matrix.py")],
     state=[("_lastRayToBeTraced/_lastRayTrace", "cached trace", "matrixgroup.py")],
     observe=["trace(ray) twice", "ray fields before and after"])

prop("P09", "Tracing many rays equals tracing each",
     "Tracing a collection of rays gives, in the same order, exactly the traces of its members; tracing many through "
     "gives exactly the unblocked last rays, in order, whatever iterable is given, and the parallel version gives the same rays for any "
     "number of processes. The profile built from traces at a plane contains exactly the unblocked rays there.",
     "inputs schedules configurations", "all small bundles of symbolic rays with symbolic apertures, all process counts up to the stated bound",
     "Tests compare counts for random bundles; multiset equality and order are not checked.",
     "matrix.py rays.py", [("traceMany/traceManyThrough", "matrix.py"), ("traceManyThroughInParallel", "matrix.py")],
     observe=["traceMany", "traceManyThrough", "traceManyThroughInParallel", "profileFromRayTraces"])

prop("P10", "Focal and principal points are where rays say they are",
     "For every system with power, a ray entering parallel to the axis crosses it at the reported back focal point, a ray "
     "from the front focal point leaves parallel, the principal planes are conjugate with unit magnification, and "
     "effective, front and back focal lengths are the distances between those points (the last two measured from the vertices). Front and back effective focal lengths are in "
     "the ratio of the indices, and a system without power reports infinity or nothing.",
     "inputs", "all matrices with any indices, lengths and vertices, and products of elements",
     "Tests check numeric focal lengths of a few lenses, nearly all in air.",
     "matrix.py matrixgroup.py", [("effectiveFocalLengths", "matrix.py"), ("principalPlanePositions", "matrix.py"),
                                  ("focusPositions/backFocalLength/frontFocalLength", "matrix.py")],
     observe=["focusPositions", "effectiveFocalLengths", "backFocalLength", "frontFocalLength", "principalPlanePositions"])

prop("P11", "Conjugate planes really are conjugate",
     "The forward conjugate distance brings the front plane to an image behind the system, the backward conjugate gives the object plane "
     "whose image is at the back, and both return the matrix between the two planes with B = 0, transverse "
     "magnification A and angular magnification D. Intermediate conjugates of a path are exactly the planes where it "
     "forms an image, with their magnifications, and a system without a finite conjugate says so.",
     "inputs programs", "all matrices and indices with symbolic entries, all paths up to the stated number of elements",
     "Tests use a few numeric single lenses in air.",
     "matrix.py matrixgroup.py", [("forwardConjugate/backwardConjugate", "matrix.py"),
                                  ("intermediateConjugates", "matrixgroup.py"), ("magnification", "matrix.py")],
     observe=["forwardConjugate", "backwardConjugate", "intermediateConjugates", "magnification", "isImaging"])

prop("P12", "Flipping an element or group is the optical reversal",
     "Flipping a lens, interface, thick lens, slab, compound lens, objective or group gives the system met by light from the "
     "other side: every ray sent back through it retraces its path, front and back indices, vertices and focal lengths exchange, and the order of elements "
     "reverses. A mirror turned around shows its other side, of opposite power. Flipping twice restores the original.",
     "inputs programs", "all element parameters and indices, groups of all kinds of element up to the stated length",
     "Tests flip a few symmetric or numeric elements.",
     "matrix.py matrixgroup.py specialtylenses.py", [("flipOrientation", "matrix.py"),
                                                     ("MatrixGroup.flipOrientation", "matrixgroup.py")],
     observe=["flipOrientation()", "A..D", "frontVertex/backVertex"])

prop("P13", "The optical invariant is conserved",
     "For any two rays, the optical invariant n(theta1*y2 - y1*theta2) computed at any distance z along any path of elements is the "
     "same as at its start, through changes of index included, and is antisymmetric in the two rays. The Lagrange invariant of an imaging path is that of its axial and principal rays.",
     "inputs programs", "all pairs of rays, all z, all element kinds with indices",
     "Tests check one or two numeric pairs.",
     "matrix.py matrixgroup.py imagingpath.py", [("Matrix.opticalInvariant", "matrix.py")],
     observe=["opticalInvariant(ray1, ray2, z)", "lagrangeInvariant()"])

prop("P14", "The aperture stop is what limits the axial bundle",
     "The aperture stop of an imaging path is the aperture that limits the cone of rays from the axial object point: "
     "its position and diameter are those of an element which no unobstructed axial ray exceeds and which any steeper axial ray "
     "exceeds first or equally. Marginal rays from any object height meet its two edges, the axial ray is the upper one from the axis, and without any finite "
     "aperture there is no stop and no marginal ray.",
     "inputs configurations", "all lens powers, distances and diameters in paths with up to the stated number of apertures",
     "Tests compute the stop for a few fixed designs.",
     "imagingpath.py", [("apertureStop", "imagingpath.py"), ("marginalRays/axialRay", "imagingpath.py")],
     observe=["apertureStop()", "marginalRays()", "axialRay()"])

prop("P15", "Chief ray, pupils, f-number and NA agree with the aperture stop",
     "The chief ray from any object height crosses the axis at the aperture stop, and the entrance pupil is the image of the stop "
     "through what precedes it: position conjugate to the stop and diameter equal to the stop divided by the "
     "magnification. The f-number is the focal length over the entrance pupil diameter and the NA is the front index times the sine of the axial ray's "
     "angle; without a stop each of these says there is none.",
     "inputs configurations", "all powers, distances, diameters and object heights in paths up to the stated length",
     "Tests use fixed designs.",
     "imagingpath.py matrix.py", [("chiefRay/principalRay", "imagingpath.py"), ("entrancePupil", "imagingpath.py"),
                                  ("fNumber/NA", "imagingpath.py")],
     observe=["chiefRay(y)", "entrancePupil()", "fNumber()", "NA()"])

prop("P16", "The field stop is what limits the chief ray, and sets the field of view",
     "The field stop is an aperture that blocks the chief ray as the object height grows, and the half field of view "
     "is, within the path's precision, the largest object height whose chief ray passes the whole path; with no such aperture within the "
     "height limit both are infinite or none. The image size is the field of view (or object height on request) times the magnification of the image.",
     "inputs configurations", "all aperture diameters in the stated two- and three-aperture paths, with the search precision stated",
     "Tests check fixed designs.",
     "imagingpath.py", [("fieldStop", "imagingpath.py"), ("halfFieldOfView/fieldOfView", "imagingpath.py"), ("imageSize", "imagingpath.py")],
     observe=["fieldStop()", "halfFieldOfView()", "imageSize()"])

prop("P17", "Gaussian beams follow the ABCD law",
     "A Gaussian beam through any element or product of elements has q' = (Aq+B)/(Cq+D), the element's back index, its "
     "own wavelength, the advanced position, and is clipped exactly when its radius there exceeds half the aperture or "
     "it was clipped before. Its w, R, waist, waist position and Rayleigh range are those of its q, index and wavelength, so "
     "that a beam made from w and R reports them back; a beam in the wrong index is refused.",
     "inputs programs", "all beams (complex q, n, wavelength), all elements and pairs",
     "Tests use a few beams, mostly at their waist in air.",
     "gaussianbeam.py matrix.py", [("Matrix.mul_beam", "matrix.py"), ("GaussianBeam properties", "gaussianbeam.py")],
     observe=["element * beam", "beam.w/R/wo/zo/waistPosition"])

prop("P18", "Laser cavity modes reproduce themselves",
     "The eigenmodes of a cavity are reproduced by one round trip, and the laser modes are exactly those of them with finite "
     "size. The cavity is reported stable if and only if a finite mode exists, which is |A+D| < 2 when it has power. "
     "Completing a linear cavity by adding its elements in reverse gives the cavity of forward followed by backward elements, with its own matrix.",
     "inputs programs", "all cavities of mirrors, lenses and spaces up to the stated number of elements",
     "Tests check a few cavities.",
     "lasercavity.py matrixgroup.py", [("eigenModes/laserModes/isStable", "lasercavity.py"),
                                       ("appendElementsInReverse", "lasercavity.py")],
     observe=["eigenModes()", "laserModes()", "isStable"])

prop("P19", "Compound lenses, objectives and relays are what their data say",
     "An achromat or singlet built from any radii, thicknesses and indices acts as its successive surfaces and glass, "
     "takes the glass index at the requested wavelength (the reference one by default), and reports designs inconsistent "
     "with their stated focal lengths only by a warning. An objective has focal length f, its focal points at its ends, "
     "and the stated apertures at back and working distance; 2f and 4f systems have focal length f and magnification "
     "-f2/f1 as documented. A catalogued lens is the one its documentation tabulates, and its focal shifts are its focal "
     "lengths at the wavelengths asked for less the design one.",
     "inputs configurations", "all prescriptions with symbolic data, and every catalogued lens",
     "Tests instantiate some catalogue lenses.",
     "specialtylenses.py components.py thorlabs.py eo.py olympus.py nikon.py",
     [("AchromatDoubletLens/SingletLens/Objective constructors", "specialtylenses.py"), ("System2f/System4f", "components.py")],
     observe=["A..D of the lens", "focalDistances", "warnings"])

prop("P20", "Material indices are physical over their stated range",
     "For every catalogued material and every wavelength in its published range, the index is real, at least 1, decreases with wavelength and "
     "follows the material's published dispersion formula, and its Abbe number is the one that formula gives; a wavelength below 0.01 or above 10, not in microns, is refused. "
     "Finding a material by name, with or without hyphens, returns the material of that name; finding one by index at a "
     "wavelength returns exactly those within the tolerance.",
     "inputs configurations", "every wavelength (symbolic) of every material",
     "Tests evaluate each material at a few wavelengths.",
     "materials.py", [("Material.n", "materials.py"), ("validateWavelength", "materials.py"), ("findByIndex", "materials.py")],
     observe=["material.n(wavelength)", "ValueError", "findByName/findByIndex"])

prop("P21", "Ray sources emit what they are asked for",
     "Every ray of a source lies within the heights and angles requested, the number of rays is the announced one, and uniform sources "
     "contain exactly the regular grid, ends included. Random sources give a ray per index up to their maximum, the same "
     "ray every time that index is read, and refuse any further one.",
     "inputs histories", "all ranges (symbolic), small counts, all random draws (symbolic), all access orders",
     "Tests check ranges statistically on one draw.",
     "rays.py ray.py", [("UniformRays/LambertianRays/ObjectRays/LampRays", "rays.py"), ("RandomRays.__getitem__", "rays.py")],
     observe=["rays[i]", "len(rays)", "IndexError"])

prop("P22", "A ray bundle's derived data always describe its present rays",
     "The heights, angles and histograms of a bundle are those of the rays it now holds, in order, after any history of "
     "construction, appending, loading and iterating, refused ones included. Histograms count each ray of the requested range exactly once in the bin that contains it and depend on the requested bins and limits only; reading any "
     "of these does not disturb an iteration in progress.",
     "histories inputs", "all short histories of append, load, read and iterate over symbolic rays",
     "Values are cached; tests do not read, change and read again in every order.",
     "rays.py", [("Rays caches", "rays.py"), ("rayCountHistogram/rayAnglesHistogram", "rays.py")],
     state=[("_yValues etc.", "cached values", "rays.py")],
     observe=["yValues", "thetaValues", "rayCountHistogram", "rayAnglesHistogram"])

prop("P23", "Saving and loading loses nothing",
     "Loading what was saved gives a group or bundle equal in every element, ray and derived value, appended or replacing as "
     "requested, for any content. A file that does not hold such objects is refused without changing what was there.",
     "inputs histories", "all contents of symbolic elements and rays up to the stated number, load with and without append",
     "Tests save and load fixed content and do not look at derived state.",
     "matrixgroup.py rays.py", [("save/load", "matrixgroup.py"), ("save/load", "rays.py")],
     observe=["save(path)", "load(path, append)", "IOError"])

prop("P24", "A ray followed to a plane is on its straight line",
     "A ray taken to any z keeps its angle and blocking and lies on its own straight line; a trace read at z gives the "
     "point of the trace at z, or the straight-line continuation of the last point before z (beyond the end, the last point). A fan covers its angles "
     "and heights regularly, ends included, and refuses a count below one; rays are equal exactly when height and angle are equal.",
     "inputs", "all rays and z, all traces up to the stated length, fans of small counts",
     "Tests use integer examples.",
     "ray.py", [("Ray.at/along", "ray.py"), ("Ray.fan/fanGroup", "ray.py")],
     observe=["Ray.at(z)", "Ray.along(trace, z)", "Ray.fan", "Ray.fanGroup"])

prop("P25", "An imported Zemax lens is the prescription in the file",
     "Reading a prescription file gives the surfaces with the curvatures, thicknesses and diameters it states, in "
     "millimetres whatever its units, and glass by name; the lens built from it is exactly those interfaces and glass "
     "spaces at the design wavelength, in order. The design wavelength is the middle one of those the file lists.",
     "inputs configurations", "all numeric values in files of the stated shapes, inch and millimetre units, missing optional lines",
     "Tests read two or three real files.",
     "zemax.py", [("ZMXReader", "zemax.py")],
     observe=["surfaces()", "lensSurfaces()", "matrixGroup()"])

prop("P26", "A sub-path is the part of the path after (or before) a plane",
     "The sub-path starting at a plane inside a space has the matrix of what follows that plane, medium and apertures included, so that "
     "path up to the plane followed by the sub-path is the whole path. Backwards it is what light meets going back "
     "from the plane, the original path is unchanged, and a plane inside another element or beyond the path is refused.",
     "inputs programs", "all plane positions (symbolic) in all paths up to the stated number of elements",
     "Tests look at two positions.",
     "imagingpath.py", [("subPath", "imagingpath.py")], observe=["subPath(z, backwards)"])

prop("P27", "What is displayed is what was traced",
     "The lines drawn for a ray go through the points of its trace, stop where it is blocked (or vanish if asked), and "
     "the drawn surfaces, labels, apertures and object or image planes are at the positions, radii and sizes of the optical elements. "
     "Flipping an element flips what is drawn of it. Displaying changes neither the path nor the rays given, and can be repeated with the same result.",
     "inputs configurations", "all rays, element parameters and offsets in the stated paths",
     "Tests only check that figures can be drawn.",
     "figure.py graphics.py graphicComponents.py matrix.py", [("Figure.rayTraceLines", "figure.py"), ("surfaces", "matrix.py")],
     observe=["Figure.rayTraceLines", "element.surfaces"])

prop("P28", "Preferences are a persistent dictionary",
     "Whatever the sequence of settings, re-openings and resets, reading a preference gives the last value set for that key by any "
     "instance, and a preference never set or deleted is absent. A missing or unreadable file acts as empty, and a write that fails or is "
     "interrupted leaves the file readable with the values saved before or after it.",
     "histories", "all histories of set, get, reopen, reset and delete up to the stated length, over two instances and symbolic values",
     "Tests set and read one key.",
     "preferences.py", [("Preferences.__setitem__/__getitem__", "preferences.py")],
     observe=["prefs[key]", "the file"])

prop("P29", "An axicon deviates rays towards the axis by (n-1)alpha",
     "An axicon leaves the height of every ray unchanged and bends it towards the axis by (n-1)alpha, in the direction opposite its side, leaving a ray on "
     "the axis straight; it blocks rays beyond its aperture, and never changes the ray it is given. Its focal line reaches as "
     "far as the ray at the given height, and a Gaussian beam, which it cannot represent, is refused.",
     "inputs", "all rays, alpha, n and diameters",
     "Tests use a few rays.",
     "axicon.py", [("Axicon.mul_ray", "axicon.py"), ("focalLineLength", "axicon.py")],
     observe=["Axicon * Ray", "focalLineLength"])

prop("P30", "Random sources follow their stated distribution",
     "Rays of a random Lambertian source are kept or refused so that their density is proportional to the cosine of the angle, those of a "
     "Gaussian-profile source so that it is the Gaussian of the stated width in height, and every other coordinate is uniform over its "
     "range, each ray with its own draws. A regular Lambertian source has, to one ray, a number of rays proportional to the "
     "cosine at each angle, the same at each height.",
     "inputs", "all draws of the generator, all ranges and widths",
     "Tests compare one histogram loosely.",
     "rays.py", [("randomRay", "rays.py"), ("LambertianRays", "rays.py")], observe=["rays[i] for given draws"])

prop("P31", "Figures render and windows behave on every platform",
     "Displaying a path draws a complete, legible figure in the chosen backend and leaves the session usable.",
     "configurations", "all paths and matplotlib backends",
     "Tests only open figures.",
     "figure.py graphics.py lensViewer.py", [("Figure.display", "figure.py")], observe=["the window"],
     reason="rendering is done inside matplotlib's C and GUI code, which cannot be encoded; the geometry given to it is decided under P27")

prop("P32", "Looking for a newer version never disturbs the program",
     "Importing the package looks for a newer release at most once a day, and looks again at the next import once two days have passed. Whatever the "
     "network answers or fails to do, whatever was recorded about the last look, and even when preferences cannot be read or written, the import "
     "succeeds, waits a limited time, and keeps the other preferences. A newer version is announced exactly when the highest one released is above "
     "the one in use.",
     "fault_sequences schedules histories", "all instants of up to the stated number of imports, all the listed answers and failures, all version numbers",
     "Tests need a network, and never change the clock or the record.",
     "__init__.py utils.py preferences.py", [("lastCheckMoreThanADay", "__init__.py"), ("checkLatestVersion", "utils.py")],
     state=[("prefs['lastVersionCheck']", "when it last looked", "__init__.py")], observe=["import raytracing", "checkLatestVersion()"])

prop("P33", "The efficiency report accounts once for every ray of its source",
     "For every imaging path with a field stop and every source (object diameter, emission half-angle, number of rays; a point or a parallel beam included), "
     "reportEfficiency makes its report whichever rays are drawn and whatever becomes of them: rays come from the whole source; each is shown once, at its "
     "invariants with the principal and axial rays, as beyond the system's acceptance, else as transmitted or vignetted according to what tracing it through the system does; the efficiencies and "
     "losses printed are those fractions, and the positions of vignetting are where the rays were blocked. Without a field stop the report says so. The system is left as it was.",
     "inputs", "all heights and angles of the rays, all sources within the bounds, listed systems and systems of one lens with or without an aperture of any parameters",
     "Tests draw random rays of one system and only look at the length of what is printed.",
     "imagingpath.py", [("reportEfficiency", "imagingpath.py")],
     observe=["ImagingPath.reportEfficiency()"])

TECH = ("symbolic execution of the real source (instrumented import of /repo, all paths) with z3 and cvc5 deciding "
        "every branch and assertion; counterexamples replayed on the unpatched package")
NOTE = ("Every path and every value within the bounds stated in evidence/{id}.json is decided by the solver over real "
        "arithmetic; floating-point rounding, and inputs outside those bounds, are outside the claim. Trusted: the "
        "symbolic number layer in symx/ (validated each run against the unpatched package), z3, cvc5.")


def built(p):
    return os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": R + w} for n, w in p["mechanism"]],
                 "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": R + w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks, na = [], []
    for p in P:
        if p["reason"] or not built(p):
            na.append({"property": p["id"], "reason": p["reason"] or "its check is not built yet"})
            continue
        checks.append({"property": p["id"],
                       "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": TECH, "level": "model_checking",
                       "level_note": NOTE.format(id=p["id"]) + (" " + p["note"] if p["note"] else "")})
    m = {"version": 1, "setup_cmd": "python3-vt tools/selfcheck.py", "checks": checks, "not_applicable": na,
         "notes": "One engine (symx/) and one harness per property (props/pNN.py). No hooks in /repo. "
                  "See DESIGN.md; known findings and fixed defects in known_findings.json."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")


if __name__ == "__main__":
    main()

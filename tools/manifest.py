"""Regenerates MANIFEST.json and the `fixed` list of known_findings.json (run by hand)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NOTES = {
    "C01": "Random element sequences, nesting and bracketings against an independent ABCD model; trusts vlib/optics.py and float arithmetic within stated rounding bounds.",
}
FIXED = {
    "e6b7287": "C04 group traces were cached: stale after an edit of the group or of the ray",
    "ef88c83": "C04 Matrix.trace marked the caller's input ray as blocked",
    "4447eb6": "C03 an Axicon deviated, in place, rays that were already blocked",
    "5a20d78": "C03 the wavelength of a ray was lost when traced through a matrix",
    "43668cb": "C31 Ray.at lost the wavelength of the ray",
    "5674613": "C06 a refused edit of a group lost its elements; emptying a group left stale properties",
    "c958e2c": "C06 __setitem__ misplaced elements for negative indices and reversed slices",
    "1c4c642": "C06 nested iterations over the same group interfered",
    "087306a": "C18 nested iterations over the same Rays interfered",
    "f6d9c27": "C18 Rays.load kept the histograms and values of the previous rays",
    "e048163": "C18 Rays created from a generator was empty",
    "9a92cf4": "C17 UniformRays with M=1 produced a ray outside of [yMin, yMax]",
    "c1f5acc": "C08 backwardConjugate always assumed an object space of index 1",
    "3fcbb02": "C09 fromFocusToFocus, ToConjugate and ToFocus ignored the indices of refraction",
    "2aab839": "C10 the vertices of a flipped ThickLens were exchanged",
    "1c62817": "C25 Lens.largestDiameter returned a half height after drawing",
    "b527347": "C26 surfaces of flipped elements that already changed their radii were flipped twice",
    "5efa683": "C26 surfaces of a flipped CompoundLens were flipped twice",
    "88759dc": "C14 appendElementsInReverse left the matrix of the cavity unchanged",
    "6c9ee56": "C14 cavity modes ignored the index of refraction and could not be propagated",
    "82d13be": "C13 GaussianBeam.wo ignored the index of refraction",
    "8f8fcc1": "C12 a beam larger than the entrance of an element with length was not flagged as clipped",
    "b9b3f25": "C21 focalShifts repeated a list of wavelengths instead of converting it",
    "d60cd40": "C23 ZMXReader failed when all design wavelengths are 0.55",
    "72baa10": "C21 Edmund Optics lenses with known glasses could not be used at another wavelength",
    "b29e8ba": "C23 ZMXReader failed on files that do not specify units",
    "48a8fc2": "C25 ImagingPath.display lost the design of the figure and made design() not callable",
    "17bb10f": "C25 ImagingPath.display modified the caller's list of rays",
    "dd81c78": "C15 apertureStop ignored the apertures that follow the first one blocking a ray at 0.1 rad",
    "c26433c": "C25 subPath ignored the index and diameter of the space, and the orientation of the elements",
    "3cee90a": "C24 Preferences could not be created with initial values",
    "f9087ff": "C24 Preferences overwrote or resurrected values changed by another instance",
    "09c04de": "C24 deleting a preference was not saved",
    "24dee19": "C24 a value that cannot be saved corrupted the preferences file",
    "80612b7": "C01 a group starting with an element without effect in a medium lost its index (also C11)",
    "a430b2d": "C09 fromFocusToFocus and ToFocus were wrong when the vertices are not at the edges",
    "1db7eba": "C11 opticalInvariant of an element with length was wrong for rays outside of its aperture",
    "e882379": "C14 appendElementsInReverse did not reverse asymmetric elements",
    "f063df2": "C16 fieldStop and halfFieldOfView never ended for a field of view smaller than the search step",
    "8c08230": "C07 transferMatrix(upTo) at the edges of a generic element with length was refused (also C15)",
    "54f02ae": "C16 fieldStop failed when the only aperture is at an image of the object",
    "76a4d75": "C18 a refused histogram made the next request return another one",
    "61660f8": "C21 N_SF6 had the data of SF1: 61 Thorlabs doublets had wrong focal lengths (also C20)",
    "5328d56": "C21 a doublet with integer focal lengths could not be built at some wavelengths",
    "9684b7c": "C20 findByName refused the names listed by Material.all()",
    "79f812b": "C21 mistyped radii of AC127_050_AB_ML, AC127_075_AB_ML and AC080_010_C_ML",
    "ecf8281": "C24 expertMode() still showed the hints for beginners and beginnerMode() showed them only once",
    "82f48df": "C24 get(), in and iteration of Preferences ignored changes by other instances; pop, setdefault and clear were not saved",
    "e962e6e": "C24 raytracing could not be imported after an unusual date of the last version check",
    "298cf10": "C25 displaying several objects or lamps at the same position lost the rays of all but the last; showObject=False failed for an object not at z=0",
    "8e3a1b8": "C25 displaying an ImagingPath replaced its object height by the field of view",
    "8d977bc": "C25 displaying a path changed the size of its lenses without diameter",
    "9a52c78": "C25 displaying a LaserPath again added the waists and labels of the previous displays",
    "dbbab3f": "C30 LaserCavity.display() ignored the comments",
    "ab391c6": "C25 displaying only axial rays with a single color failed",
    "e709cab": "C25 displaying a path with showEntrancePupil failed when the entrance pupil is at infinity",
    "a96665c": "C25 a flipped element with a plane surface could not be drawn",
    "23f1c9d": "C25 displaying a path with nothing but its elements to show failed",
    "fdba50d": "C26 a flipped plane interface could not be drawn",
    "01f88ad": "C10 flipping a group with the same element several times flipped that element several times",
    "931b44a": "C28 the efficiency report failed when no ray was within the field of view, and ignored a single lost ray",
    "e2b7396": "C29 the latest release was the last one listed, whatever its number",
    "e4b98df": "C30 an element drawn as a box was drawn twice as far as it is",
    "3a381d5": "C30 displaying an element without vertices failed",
    "7e615b1": "C30 the color of ObjectRays was ignored when drawing the object and its images",
    "9604f18": "C26 a plane CurvedMirror could not be drawn",
    "8b4f856": "C30 an afocal CompoundLens could not be drawn",
    "f3641f7": "C31 Ray.along did not interpolate the height inside an element, contrary to its documentation",
    "4d2f0fd": "C23 files in centimeters or meters were read as millimeters",
    "2463ed6": "C21 the stated edge thickness of a lens with a flat surface was never confirmed",
    "1e202b0": "C20 materials defined by the user were listed but could not be found by name or index",
    "9dcc943": "C32 the command line ran the last example when asked for number 0 and failed halfway with an unknown one",
    "51b0c79": "C26 surfaces of a CompoundLens ignored all but one of successive spaces",
    "ec78286": "C33 tracing a group, or reading the size of a lens, made it different from an identical one",
    "94647bf": "C34 a printed beam stated a wavelength a thousand times too large",
    "3edbd2f": "C34 the largest diameter of a group counted the size at which elements without diameter are drawn",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    sys.path.insert(0, HERE)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    checks, na = [], []
    for p in props:
        i = p["id"]
        path = os.path.join(HERE, "checks", i.lower() + ".py")
        if not os.path.exists(path):
            na.append(dict(property=i, reason="check under construction"))
            continue
        doc = open(path).read().split('"""')[1].strip()
        import re
        src = open(path).read()
        facets = re.findall(r'Facet\("(\w+)"', src)
        try:
            ns = {}
            tail = src[src.index("ASSUMPTIONS ="):]
            exec(tail, ns)
            assumptions = ns["ASSUMPTIONS"]
        except Exception:
            assumptions = []
        note = "Generated cases (facets: {0}) judged by an independent oracle; counts and samples in the evidence file. ".format(", ".join(facets))
        if assumptions:
            note += "Assumes: " + "; ".join(assumptions) + "."
        checks.append(dict(property=i, quick_cmd="python3 check.py {0}".format(i), thorough_cmd="python3 check.py {0} --tier thorough".format(i),
                           evidence_file="evidence/{0}.json".format(i), technique="property-based testing (Hypothesis): " + TECH.get(i, "generated inputs against a reference model"),
                           level="fault_enumeration" if False else "exploration", level_note=note))
    m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks, not_applicable=na,
             notes="Checks import raytracing from /repo's working tree (asserted); nothing to build. known_findings.json lists the defects that are not repaired and those that were (fix: commits).")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    path = os.path.join(HERE, "known_findings.json")
    k = json.load(open(path)) if os.path.exists(path) else dict(findings=[], fixed=[])
    k["fixed"] = ["fixed: property={0} {1} {2}".format(v.split()[0], c, v.split(" ", 1)[1]) for c, v in FIXED.items()]
    with open(path, "w") as f:
        json.dump(k, f, indent=1)
        f.write("\n")


TECH = {
    "C01": "random compositions and bracketings vs. an ABCD model",
    "C02": "random element parameters vs. textbook matrices and interface decompositions",
    "C03": "random paths, apertures and rays vs. a step-by-step model tracer",
    "C04": "stateful histories of traces and edits vs. fresh copies and snapshots",
    "C05": "differential: batch vs. one-by-one tracing",
    "C06": "stateful edits of a group vs. a Python list and a matrix model",
    "C07": "random paths and distances vs. a partial-propagation model",
    "C08": "random systems vs. two-ray convergence and completeness of conjugates",
    "C09": "random systems, focal and principal points vs. traced rays and a model",
    "C10": "metamorphic: flips vs. reversed systems and retraced rays",
    "C11": "metamorphic: conservation and antisymmetry of the invariant along random systems",
    "C12": "random beams and paths vs. an element-by-element q model",
    "C13": "random beams vs. Gaussian optics formulas and round trips",
    "C14": "random cavities vs. round-trip self-consistency and trace criterion",
    "C15": "random imaging paths with apertures vs. a stop model and traced rays",
    "C16": "random imaging paths vs. an exact chief-ray vignetting model, deterministic step budget",
    "C17": "random source parameters and access orders vs. counts, bounds and grids",
    "C18": "stateful histories of a collection vs. a list model and own histogram",
    "C19": "save/load round trips and generated bad files",
    "C20": "random wavelengths and names vs. published indices, Abbe numbers and dispersion laws",
    "C21": "random lenses, wavelengths and orientations vs. prescriptions and an interface model",
    "C22": "random objectives and flips vs. a thick-lens model and traced rays",
    "C23": "generated Zemax files vs. the prescription they were written from",
    "C24": "stateful histories over several handles with file faults vs. a dictionary model",
    "C25": "random paths, rays and display options vs. traces and state snapshots",
    "C26": "random elements and flips vs. the matrix composed from their surfaces",
    "C27": "generated invalid requests vs. documented exceptions and snapshots",
    "C28": "random paths and sources: every ray of the report is traced again in a model",
    "C29": "generated release lists and injected network faults vs. the newest number",
    "C32": "generated command lines and class trees vs. a recorder and an own traversal",
    "C31": "random paths, rays and planes vs. the model trace, and vs. a path that ends at the plane",
    "C33": "random systems and sequences of questions vs. the answers of an untouched twin",
    "C34": "random systems, rays and beams: printed text, predicates and equality vs. the values they summarise",
    "C30": "random paths, elements and beams drawn and read back vs. the positions of a model",
}

if __name__ == "__main__":
    main()

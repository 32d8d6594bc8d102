# read by mkdesign.py
SPECIFIC = {
"C18": "The text of the program is concrete (symbolic strings are out of reach), its parameters are symbolic; the lexer, parser, checker and interpreter all run for each text. Integers used as loop counts and subscripts are case-split over the stated small range.",
"C20": "As C18: concrete texts, symbolic parameters; the expected value is written beside each text in Python.",
"C10": "The expected volume, corner positions and closedness are computed from the parameters by formulas independent of the code. Angular resolutions and facet counts are fixed per case because they determine the mesh's combinatorics.",
"C36": "Containment of a symbolic point in fixed solids; rays that graze edges and corners are included because the point is arbitrary.",
"C35": "The inside test that the code under test calls is stood for by its definition here, because C06 decides it; everything else runs. Figures whose outlines share part of an edge are outside the property: there combineglist chooses between pieces that lie on both outlines by vote and may lose one (two rectangles that share an edge: the union is one of them). Known findings: DSL regions of several outlines.",
"C13": "The history (which moves, in which order, with everything asked before each) is fixed per case; offsets and factors are symbolic. The native triangulator is stood for by ear clipping; only the coverage of its triangles is used.",
"C09": "Text and bytes are followed too: each symbolic number is written as a numeral of its own, with the digits the format asks for, that reads back as that number, and packs into bytes of its own; what single precision rounds away is outside.",
"C38": "Each symbolic number is written as a numeral of its own that reads back as it; the file is then parsed by the check and compared with the facets.",
"C12": "A document is taken as a JSON file would hold it: texts, numbers, lists and dictionaries. The polylines drawn beside curved figures are not compared.",
"C37": "Growth and rounded corners are decided where the edges are axis-parallel; elsewhere the tangent points are inverse trigonometric functions of symbolic values, which the solver cannot follow.",
"C14": "Files live in memory while the solver works: their contents are symbolic blocks, and two files have the same hash exactly when their blocks are the same (hashes are taken to be free of collisions). What is replayed runs on a real directory.",
"C15": "gpg and ssh-keygen are replaced by stand-ins that answer as the real ones were observed to: a signature verifies for the key that made it over the text that was signed. Names in entries are not covered by signatures, and the property does not say so.",
"C30": "trimesh is not installed, so meshes are stood for by boxes and by sets of sample points with depths; pythonocc is not either, so the path by boundary representations is not covered. Cylinders whose axes are not parallel are compared by radii only, in the code and outside the property.",
}
MISSED = {
"C10-stack-space": "Added stacks with two spacings in a row and a trailing one.",
"C10-pattern-span": "Added spans from -120 to 400 degrees and other axes.",
"C11-signed-face": "Added a triangle with an obtuse third corner.",
"C25-axis-first": "Face mates now run over mixed kinds of datums; this also showed that PARALLEL ignored axis datums (repaired).",
"C26-velocity-sign": "Minimum velocity and effort are now set.",
"C26-inward-error": "The reported deviations are now checked besides the verdicts.",
"C20-loop-scope": "Added comprehensions and loops that reuse a name in use.",
"C09-merge-tolerance": "The merging harness is now shifted by a symbolic amount: two corners that differ by less than the tolerance used to be told apart by the hashing of symbolic numbers.",
"C09-small-facets": "Facets down to 1e-10 are now assumed, not only ordinary ones.",
"C12-arc-wrap": "Added arcs that pass the start of the circle.",
"C15-nested": "Added nested entries to what is changed after signing.",
"C30-pitch-twice": "The counterexample lay on the edge of the tolerance and did not survive rounding; the engine now also looks for one away from the edges.",
"C37-grow-arc-alias": "The corners of the original are now compared before and after.",
}

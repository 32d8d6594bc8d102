G="src/yapcad/"
p("C01","Affine transforms of points, lines, polys and arcs are the maps they claim",
 "Translating, rotating, scaling and mirroring a point or figure moves every point of it by the stated affine map about the stated centre or plane, composing matrices multiplies the maps, and each forward/inverse pair of matrices is a true inverse pair.",
 ["inputs"],"all real coordinates, offsets, scale factors, rotation angles, axes and centres","tests try a handful of axis-aligned numbers",
 [G+"xform.py",G+"geom.py"],[("Matrix, Translation, Scale, Rotation",G+"xform.py"),("translate, rotate, scale, mirror, transform",G+"geom.py")])
p("C02","Sampling, unsampling, length and segmentation of lines and polylines agree",
 "On lines and polylines the sampling parameter runs from start (0) to end (1) in proportion to arc length, unsampling a sampled point returns its parameter, and cutting a figure between two parameters yields exactly the points of that span in the original direction.",
 ["inputs"],"all non-degenerate lines and polylines (bounded vertex count) and all parameters","tests sample a few parameters on a few figures",
 [G+"geom.py"],[("sampleline, unsampleline, segmentline, samplepoly, unsamplepoly, segmentpoly",G+"geom.py")])
p("C03","Arc sampling, length, reversal and segmentation describe one arc",
 "For an arc, every sampled point is on the circle within the swept angle, parameters 0 and 1 are its endpoints, reversal traverses the same points backwards, length is radius times sweep, and a segment between two parameters is exactly that part of the arc.",
 ["inputs"],"all centres, radii, start and end angles in [0,360] and parameters in [0,1]","tests use a few quarter-circle arcs",
 [G+"geom.py"],[("arc, samplearc, unsamplearc, segmentarc, reverseGeomList, arclength",G+"geom.py")])
p("C04","Bounding boxes contain their figure and are tight",
 "The bounding box of a point, line, polyline, arc, figure list, surface or solid contains every point of the figure and touches it on each side.",
 ["inputs"],"all coordinates of bounded-size figures","tests compare a few boxes of fixed figures",
 [G+"geom.py",G+"geom3d.py"],[("bbox, linebbox, polybbox, arcbbox",G+"geom.py"),("surfacebbox, solidbbox",G+"geom3d.py")])
p("C05","Intersections of lines and arcs are real and none is missed",
 "Every intersection point reported for lines, segments, circles and arcs lies on both figures, and when two figures meet transversally within the stated extent the point is reported.",
 ["inputs"],"all line/line, line/circle, line/arc and circle/circle configurations in the XY plane","tests sample a few crossings",
 [G+"geom.py"],[("lineLineIntersectXY, lineArcIntersectXY, circleCircleTangents, arcArcIntersectXY",G+"geom.py")])
p("C06","Inside tests agree with the geometric definition",
 "A point strictly inside a triangle, polygon or circle is reported inside and a point strictly outside is reported outside, whatever the winding order and position of the figure; barycentric coordinates sum to one and reproduce the point.",
 ["inputs"],"all points and all figures of bounded vertex count","tests sample a few points of a few figures",
 [G+"geom.py"],[("isinsidetriangleXY, isinsidepolyXY, isinsidearcXY, barycentricXY",G+"geom.py")])
p("C07","Spline curves are the curves their control data define",
 "Bezier, open and closed B-spline, NURBS and Catmull-Rom curves evaluate at every parameter to the point their control points, degree, weights and knots define: they start and end at the control points they must interpolate, closed curves close, Catmull-Rom curves pass through every point, and sampling returns the curve's points at the stated parameters.",
 ["inputs"],"all control points, weights and parameters for bounded point counts and degrees","tests sample parameters of fixed splines",
 [G+"spline.py"],[("evaluate_catmullrom, evaluate_nurbs, evaluate_bezier, evaluate_bspline, sample_*",G+"spline.py")])
p("C32","Conic curves lie on the stated conic in the stated plane",
 "Every point sampled from an ellipse, elliptical arc, parabola or hyperbola is the point its centre, sizes, rotation, parameter range and plane normal define, and its tangent is the unit vector along which the sampled point moves.",
 ["inputs"],"all centres, sizes, parameters and arc angles for fixed planes and rotations","tests sample a few conics in the XY plane",
 [G+"geom.py"],[("ellipse_sample, ellipse_tangent, parabola_sample, parabola_tangent, hyperbola_sample, hyperbola_tangent",G+"geom.py")])
p("C33","Analytic surfaces evaluate to points on the surface with outward normals",
 "Planes, spheres, cylinders, cones, tori and B-spline surfaces evaluate at every parameter pair in their range to the point their definition gives, their normals are unit vectors square to the surface and outward, and tessellations have these points and normals on the parameter grid, with triangles wound to agree with the normals.",
 ["inputs"],"all positions, radii, weights and parameters for fixed axes","tests evaluate a few parameters of axis-aligned surfaces",
 [G+"analytic_surfaces.py"],[("evaluate_surface, surface_normal, tessellate_surface",G+"analytic_surfaces.py")])
p("C08","Spatial index queries return every overlapping element",
 "After any sequence of insertions, a box query of the quad-tree or oct-tree returns each stored element whose bounding box overlaps the query box, exactly once, and no element that does not overlap.",
 ["inputs","histories"],"all element coordinates, insertion orders and query boxes up to a bounded element count","tests use fixed element sets",
 [G+"octtree.py"],[("NTree.addElement, updateTree, getElements; boxoverlap2",G+"octtree.py")])
p("C09","Mesh views and STL files contain exactly the model's facets",
 "The mesh view of a surface or solid has every facet of more than tolerable area exactly once, in the order and with the corners in the order of the source, and with the unit normal of the right-hand rule; STL files, binary and text, under any name, hold those facets and normals to single precision, binary ones in 84 bytes and 50 for each facet; reading a file back gives a solid of the same facets in the same order, in which corners that coincide are one corner, or each facet has its own if that is asked for.",
 ["inputs"],"seven arrangements of up to eight facets with one corner anywhere within a box, or all corners at any place along an axis within theirs; single facets with arbitrary edges","tests export a few primitives and count facets",
 [G+"mesh.py",G+"io/stl.py",G+"geometry_utils.py"],[("mesh_view",G+"mesh.py"),("write_stl, read_stl",G+"io/stl.py")])
p("C10","Generated solids are closed, outward oriented and have the stated dimensions",
 "The solids built for boxes, cylinders, frusta, cones, spheres, spheroids, tubes, spherical shells, extrusions, plates with holes, solids of revolution, lofts, and stacks and patterns of copies are closed meshes in which every edge is shared by two oppositely directed facets, with facets and vertex normals facing outward, all vertices on the stated shape, and the enclosed volume and area right; issolidclosed tells a closed mesh from one with a facet missing.",
 ["inputs"],"all real dimensions and positions for bounded facet counts and fixed profile families","tests build a few fixed primitives",
 [G+"geom3d.py",G+"geom3d_util.py"],[("prism, conic, sphere, tube, extrude, makeLoftSolid, makeRevolutionSolid",G+"geom3d_util.py"),("poly2surface, volumeof, issolidclosed",G+"geom3d.py")])
p("C11","Plane and face computations agree with Euclidean geometry",
 "Local face bases are orthonormal right-handed frames whose inverse undoes them, signed distances to faces and planes are the Euclidean ones, and line/plane, line/triangle and triangle/triangle intersection report exactly the geometric answer: a point or segment exactly when there is one, and the right one.",
 ["inputs"],"all non-degenerate triangles in fixed frames, all lines in the frames with two coordinates at a time, pairs of triangles of fixed shape under arbitrary moves along one or two directions","tests use a few axis-aligned faces",
 [G+"geom3d.py"],[("tri2p0n, signedFaceDistance, linePlaneIntersect, triTriIntersect",G+"geom3d.py")])
p("C12","Geometry written to JSON is read back unchanged",
 "Serialising solids, surfaces and sketches, alone or together in one document, and reading the document back yields as many of each, with the same corners, normals, faces, voids, names, layers, tags and metadata, and for sketches in the XY plane the same lines, polylines, arcs with their direction, circles, ellipses and splines; the stated bounding boxes are those of the corners; the geometry written stays as it was; documents of another schema, with a missing id or with dangling references are rejected.",
 ["inputs"],"all corners and normals of tetrahedral surfaces within boxes, one corner anywhere; figures at all places and sizes, with arbitrary angles, weights and tensions; seven ways of giving metadata","tests round-trip a few fixed solids",
 [G+"io/geometry_json.py"],[("geometry_to_json, geometry_from_json",G+"io/geometry_json.py")])
p("C14","Package manifests detect missing and altered files",
 "A package is valid exactly if its manifest is one of this kind, its model can be read, its materials name an allowed source and a color of three numbers, and every file listed - model, derived geometry, exports, attachments - is there and, where a hash is recorded, with whatever algorithm, holds exactly what was hashed; the verdict names each file at fault. Adding a file stores exactly its content inside the package, under the path and hash recorded, lists it once and leaves the other entries and files alone; what is refused - a path out of the package, an unknown kind, a file already there, a folder in use - leaves the package as it was. Recording the hashes anew makes a changed package valid again.",
 ["inputs","histories"],"packages of up to six files in four sections, up to 1.4 MB each made of blocks of arbitrary content, any of them missing, altered or of another length; ten destination paths","tests alter one file in one place",
 [G+"package/core.py",G+"package/validator.py"],[("PackageManifest, create_package_from_entities, add_geometry_file",G+"package/core.py"),("validate_package",G+"package/validator.py")])
p("C15","Package signatures cover everything but themselves",
 "The digest that is signed is the same for documents that differ only in the order of keys, at any depth, or in their signatures, and differs when any field, at any depth, differs in name, value, kind or place. Signing adds one entry and its file and leaves the rest of the manifest as it was; adding a signature leaves the earlier ones verifiable, signing anew replaces them, and signing that fails changes nothing. Verification reports an entry VALID exactly if its file holds a signature of the manifest as it is, by the method stated and a key that is trusted; SSH signatures of other content are INVALID, whoever signed; a package is valid exactly if an entry is, with the counts and overall status those of the entries.",
 ["inputs","histories"],"a manifest with arbitrary numbers at three depths and thirteen kinds of changes at several places; up to three signatures by six keys of two kinds, each trusted or not, with a change between; eight faults of entries and files","tests do not cover signing",
 [G+"package/signing.py"],[("sign_package, verify_package, list_signatures",G+"package/signing.py")])
p("C16","The DSL lexer reports the text it was given",
 "For every source text the lexer either reports an error or yields tokens whose texts and positions are those of the source, with balanced indentation, nothing but blanks and comments between tokens, and the longest operator taken.",
 ["programs"],"all source strings up to a bounded length","tests lex a few dozen fixed programs",
 [G+"dsl/lexer.py"],[("Lexer",G+"dsl/lexer.py")])
p("C18","DSL expressions evaluate to the value the language defines",
 "Arithmetic, comparison, logical, conditional, list, comprehension and range expressions and the numeric and list built-ins of the DSL evaluate, for every operand value, to the value the documented operator precedence and meaning define; and/or evaluate their right operand only when the left one does not decide, and a division by zero is reported as an error of the command.",
 ["programs","inputs"],"all operand values of bounded expressions","tests evaluate fixed programs",
 [G+"dsl/parser.py",G+"dsl/runtime/interpreter.py"],[("Parser",G+"dsl/parser.py"),("Interpreter",G+"dsl/runtime/interpreter.py")])
p("C20","DSL control flow executes the statements the program says",
 "Loops, if/elif/else, early emits and command calls (positional, named and default arguments, recursion within the limit) run exactly the statements their conditions select in order, names and assignments follow lexical scope, a command succeeds exactly when every requirement it meets, its own or one of a command it calls, holds, and a failed requirement or an error is reported in the result.",
 ["programs","inputs"],"all inputs of bounded programs","tests run fixed inputs",
 [G+"dsl/runtime/interpreter.py"],[("Interpreter",G+"dsl/runtime/interpreter.py")])
p("C23","Rigid transforms obey the group laws and act on frames consistently",
 "Rigid transforms form a group under composition, their inverse undoes them, rotations preserve lengths and angles, and quaternion, Euler and matrix forms of one rotation agree.",
 ["inputs"],"all rotations, translations and points","tests sample a few rotations",
 [G+"assembly/transforms.py"],[("Transform","src/yapcad/assembly/transforms.py")])
p("C24","Kinematic chains give the pose of their joints' current values",
 "A chain's part and frame poses are those of its joint tree at the current joint values after any sequence of updates, joint values obey their limits, and saving and reloading a chain preserves its poses.",
 ["inputs","histories"],"all joint values, axes, origins and bounded update sequences","tests set a few joint values",
 [G+"kinematics"],[("KinematicChain",G+"kinematics")])
p("C25","Mate solving places parts so that the mated datums meet",
 "The transform solved for a mate or face mate is a rigid motion that brings the child's datum into the stated relation with the parent's (coincident: same point and opposed normals, concentric and revolute: on one axis, parallel, perpendicular, at the stated distance, at the stated angle), follows the parent's pose, does not depend on what was solved before, composes along chains, and a face mate it places validates; transforming a datum moves its point and turns its directions.",
 ["inputs","histories"],"all datum positions, lengths, angles between datums, offsets, angles and parent poses about z, in fixed frames; six solving histories and chains of up to three mates","tests place a few axis-aligned datums",
 [G+"assembly"],[("MateConstraintSolver",G+"assembly/solver.py"),("FaceToFaceMate",G+"assembly/face_mate.py"),("Datum.transform",G+"assembly/datum.py")])
p("C26","Constraint, coincidence, limit and bolt-circle checks report the truth",
 "A positional constraint (tangent to a circle, radial, facing, at a radius, parallel, perpendicular) on a placed datum is reported satisfied exactly when the measured quantity is within tolerance of its target, and the stated deviation is the true one; coincidence evaluation, motion limits, coupled motion of gears, racks and screws and bolt-circle alignment give the verdicts and values their definitions state.",
 ["inputs"],"all datum positions, angles, tolerances, joint values and ratios in fixed frames","tests try one satisfied and one violated case",
 [G+"assembly"],[("Constraint.evaluate and helpers",G+"assembly/constraint.py"),("Mate.evaluate, compute_coupled_motion, evaluate_coincident, check_bolt_circle_alignment",G+"assembly/mate.py")])
p("C30","Collision checking examines every pair and partitions its findings",
 "Every pair of parts of an assembly is examined exactly once unless it is excluded, in either order; two parts collide by their boxes exactly if the boxes, moved with the parts, meet, and by their meshes exactly if more than ten sample points lie inside or one lies deeper than the threshold, and never if their boxes are apart. A collision is an intended interface exactly if registered interfaces of the two parts overlap and all that overlap fit each other, and an error otherwise; the summary counts each finding once. Gears fit if module and pressure angle agree and threads if one is inner and one outer of the same diameter and pitch, in either order; cylinders with parallel axes overlap exactly if they come within the tolerance along and across the axis; gears mesh at the sum of their pitch radii; planetary sets and bolt patterns consist of interfaces that fit, at the places stated; a registry holds what was registered and not removed since.",
 ["inputs","histories"],"boxes of arbitrary size and place under four turns; up to five parts in a row, any of up to six pairs of which are excluded; two interfaces of five kinds for each part at an arbitrary distance; all modules, angles, diameters and pitches within usual ranges; four steps of registering and removing","tests use a few part pairs",
 [G+"collision"],[("CollisionDetector",G+"collision/detector.py"),("InterfaceRegistry",G+"collision/registry.py"),("GearMeshInterface, ThreadInterface, InterfaceVolume.overlaps_with",G+"collision/gear_interface.py")])
p("C31","Segmentation of swept elements follows the spine and fits the limit",
 "Points, unit tangents, lengths and sub-paths of line-and-arc spines are those of the path; planned cuts lie strictly inside in increasing order, none where the element fits and every piece within the length limit; the segments of a swept element partition the spine at the cuts made, each mates with exactly its neighbours and has its connector on the side asked for; ring spines, attachment points, profiles and hole-avoiding cuts are those stated.",
 ["inputs"],"all line paths of up to four segments, all sizes, cut parameters, orders and failing cuts; arcs of fixed quarter-turn sweeps","tests plan a few lengths and paths of equal segments",
 [G+"manufacturing"],[("evaluate_path3d_at_t, extract_sub_path, length_to_parameter",G+"manufacturing/path_utils.py"),("segment_swept_element, compute_optimal_cuts",G+"manufacturing/segmentation.py"),("create_ring_spine, compute_ring_cuts_avoiding_holes",G+"manufacturing/rings.py")])
p("C34","Surfaces and solids move as a whole",
 "Translating, rotating, mirroring and scaling a surface or solid moves every vertex by the stated map, keeps the facets' orientation outward and the normals unit, outward and square to the facets, keeps indices, boundaries, holes and material, keeps the given centre fixed, leaves the original untouched, gives the same result through the generic and the specific function, and issurface rejects index lists that point outside the vertex list.",
 ["inputs"],"all offsets, angles, centres, factors of either sign and sizes for one surface and one solid of each kind","tests move one solid by one vector",
 [G+"geom3d.py"],[("translatesurface, rotatesurface, mirrorsurface, scalesurface and the solid versions",G+"geom3d.py")])
p("C36","A point is reported inside a solid exactly when it is",
 "solid_contains_point is true for every point inside the solid and false for every point outside it (points within a thousandth of the surface aside), including after the solid has been queried and then moved, mirrored, turned or scaled; solids_intersect is true exactly for boxes that overlap, in either order.",
 ["inputs","histories"],"a box and an L-shaped block, points with one coordinate arbitrary at several fixed positions of the others (two in the thorough tier), moves along each axis by any amount","tests query a handful of points",
 [G+"boolean/native.py",G+"octtree.py"],[("solid_contains_point, solids_intersect",G+"boolean/native.py"),("surface_octree",G+"geom3d.py")])
p("C13","Geometry objects describe the figure they hold now",
 "After any sequence of moves, scalings, rotations, mirrorings and queries in any order, the outline, length, centre, bounding box, sampled points, inside tests, crossings and surface (for a solid: the facets, volume and bounding box) that a Geometry object reports are those of the moved figure, never of an earlier state; and the figures it was made from, its copies and what it handed out stay independent of it.",
 ["inputs","histories"],"eight figures and a box, up to two moves by arbitrary offsets and factors (three in the thorough tier) with everything asked before each; turns by fixed angles","tests move one figure once and rarely ask before and after",
 [G+"geometry.py",G+"geom.py"],[("Geometry",G+"geometry.py"),("mirror, rotate, scale, translate, reverseGeomList",G+"geom.py")])
p("C37","A Polygon is the closed outline of its elements, also when grown",
 "A Polygon made of points, lines, arcs and circles, in whatever way they are added, is the closed outline that joins them in order by straight lines, with circles as rounded corners; growing it by r gives the outline at distance r around it; its length, bounding box, centre and sampled points are those of that outline, also after it was asked and then moved; Rect and RoundRect are the rectangles of the stated size, corner radius and centre.",
 ["inputs","histories"],"ten fixed arrangements of elements at arbitrary places and sizes, rectangles of arbitrary place, size, corner radius and growth, given in five ways; rounded corners between axis-parallel edges","tests build one polygon of each kind",
 [G+"poly.py",G+"geometry.py"],[("Polygon, Rect, RoundRect",G+"poly.py")])
p("C38","Faceted STEP files describe the boundary of the model",
 "A STEP file written from facets has one vertex for each corner, one straight edge for each pair of corners joined by a facet, and one plane face for each facet, bounded by its three edges in the facet's order and facing its way; the faces that hang together by edges form one shell, which is closed (a solid) exactly when each of its edges is between two facets and open (a surface) otherwise; every shell is part of the shape, every reference leads to an entity of the file, and a model without facets is refused.",
 ["inputs"],"eleven arrangements of up to eight facets in one or more parts, closed, open, sharing corners or edges; one corner anywhere within a box, or all corners at any place along an axis within theirs","tests look for a few keywords in files of one or two models",
 [G+"io/step.py",G+"mesh.py"],[("write_step",G+"io/step.py")])
p("C35","Set operations on plane figures give the set they name",
 "For closed figures whose outlines cross at points, are nested or lie apart, union, intersection and difference return closed outlines, in any order and direction of the operands, that bound exactly the union, intersection or difference: the right area, every outline point on the outline of an operand and on the right side of the other one, a hole where the difference has one, nothing where nothing is left; Boolean objects do so for any number of operands, including operands of several regions, and the DSL's union2d, difference2d and intersection2d for regions of one outline and differences that leave separate holes.",
 ["inputs"],"a rectangle and five convex figures moved along an axis by any amount; ten pairs that do not meet, with circles; three and more rectangles, one at any place along an axis within a range; rectangle operands in the DSL","tests combine a few fixed figures",
 [G+"geom_util.py",G+"combine.py",G+"dsl/runtime/builtins.py"],[("combineglist",G+"geom_util.py"),("Boolean",G+"combine.py"),("union2d, difference2d, intersection2d and the _all forms",G+"dsl/runtime/builtins.py")])
